From 67a479a8ac4d354e955d331db100bae50d11891e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:32 +0000
Subject: [PATCH 01/50] fix: report a short date instead of crashing

A line such as '2020' starts a transaction whose date has fewer than five
characters; parseDate indexed past its end and the program panicked.
---
 parser/parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 3e9b6cc..0fa6c39 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -123,6 +123,11 @@ func parseDate(content []rune) (time.Time, error) {
 	var date time.Time
 	var err error
 
+	// The shortest date still needs a separator after its year
+	if len(content) < 5 {
+		return time.Time{}, fmt.Errorf("date is malformed: %s", s)
+	}
+
 	switch content[4] {
 	case '-':
 		date, err = time.Parse(dashDateFormat, s)
-- 
2.43.0


From 0a18a6e049d2dabc9b4fded4bba2d3b230ab53a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:32 +0000
Subject: [PATCH 02/50] fix: report a commodity without a quantity instead of
 crashing
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

'  Assets:Cash  £' hands parseAmount an empty slice, which it indexed.
---
 parser/parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 0fa6c39..ae090bf 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1,6 +1,7 @@
 package parser
 
 import (
+	"errors"
 	"fmt"
 	"io"
 	"os"
@@ -147,6 +148,10 @@ func parseDate(content []rune) (time.Time, error) {
 }
 
 func parseAmount(content []rune) (int64, error) {
+	if len(content) == 0 {
+		return 0, errors.New("amount has no quantity")
+	}
+
 	// Handle signs
 	firstRune := content[0]
 	var multiplier int64
-- 
2.43.0


From cbf764dfcc5ca8a9da665d4e69e30e3e190a92b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:33 +0000
Subject: [PATCH 03/50] fix: scale the decimals of an amount by their number of
 digits

'10.5' was read as 10.05 and '10.123' as 11.23. One digit is tenths; more
than two cannot be represented, so they are an error rather than a guess.
---
 parser/parser.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index ae090bf..0c1b172 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -195,6 +195,15 @@ func parseAmount(content []rune) (int64, error) {
 		if err != nil {
 			return 0, err
 		}
+
+		// Quantities are held in hundredths
+		switch len(content) - (decimalPosition + 1) {
+		case 1:
+			decimal *= 10
+		case 2:
+		default:
+			return 0, fmt.Errorf("amount has more than two decimal places: %s", string(content))
+		}
 	}
 
 	quantity := multiplier * (whole*100 + decimal)
-- 
2.43.0


From 7e0d2cdb2e3c588572b619c07c02d148e021abec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:33 +0000
Subject: [PATCH 04/50] fix: reject an amount with more than one sign

'--5' was read as 5.00 and '10.-5' as 9.95.
---
 parser/parser.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 0c1b172..1b6ee3b 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -165,6 +165,13 @@ func parseAmount(content []rune) (int64, error) {
 		multiplier = 1
 	}
 
+	// ParseInt would accept another sign, in either half of the number
+	for _, r := range content {
+		if r == '+' || r == '-' {
+			return 0, fmt.Errorf("amount has more than one sign: %s", string(content))
+		}
+	}
+
 	// Find out if we have a decimal number
 	decimalPosition := -1
 	for i, r := range content {
-- 
2.43.0


From 78d51685a6bcf3da8151bcb9cb9ec5ebe93a514e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:34 +0000
Subject: [PATCH 05/50] fix: reject an amount too large to be held

'92233720368547759' overflowed to a different, negative, quantity.
---
 parser/parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 1b6ee3b..19d1159 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"math"
 	"os"
 	"strconv"
 	"time"
@@ -213,6 +214,10 @@ func parseAmount(content []rune) (int64, error) {
 		}
 	}
 
+	if whole > (math.MaxInt64-decimal)/100 {
+		return 0, fmt.Errorf("amount is too large: %s", string(content))
+	}
+
 	quantity := multiplier * (whole*100 + decimal)
 
 	return quantity, nil
-- 
2.43.0


From 1e80f0128571efd16a1616a23d515d2fb661c021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:25 +0000
Subject: [PATCH 06/50] fix: do not read a leading decimal point as part of the
 commodity
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

'£.50' was read as fifty of the commodity '£.'; the point now stays with the
amount, which reports that it has no whole part.
---
 parser/lexer.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parser/lexer.go b/parser/lexer.go
index d39606d..645cc36 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -300,6 +300,12 @@ func (l *lexer) lexCommodity() []rune {
 			return runes
 		}
 
+		// A decimal point belongs to the amount, unless it abbreviates a commodity's name (e.g. Rs.)
+		if r == '.' && (len(runes) == 0 || !unicode.IsLetter(runes[len(runes)-1])) && unicode.IsNumber(l.peek()) {
+			l.pos--
+			return runes
+		}
+
 		runes = append(runes, r)
 	}
 }
-- 
2.43.0


From a8cb9d9df950a584d0d52c9f15839960c12380aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:26 +0000
Subject: [PATCH 07/50] fix: treat an account followed only by spaces as having
 an elided amount

Two or more trailing spaces (or a tab) sent an empty amount to the parser,
which panicked.
---
 parser/lexer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser/lexer.go b/parser/lexer.go
index 645cc36..1537f0b 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -257,6 +257,11 @@ func (l *lexer) lexPosting() error {
 			return nil
 		}
 
+		// Bail if there was only trailing space (the amount is elided)
+		if l.peek() == eof {
+			return nil
+		}
+
 		// Lex the commodity
 		commodity := l.lexCommodity()
 		if l.consumeSpace() > 0 {
-- 
2.43.0


From 76e0c98be433ed60b9b9bbbc931000025ba2e459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:26 +0000
Subject: [PATCH 08/50] fix: keep the first character of a transaction's header
 note

'payee ; note' became 'ote' because the indicator was already consumed when
the first rune was dropped. Several tabs left the indicator in the note, and
trailing spaces after the payee made a note of their own.
---
 parser/lexer.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index 1537f0b..5c5cee8 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -219,9 +219,13 @@ func (l *lexer) lexTransactionHeader() error {
 		return err
 	}
 
+	l.consumeSpace()
 	comment := l.takeToNextLine()
 	if len(comment) > 0 {
-		c := trimSpaceStart(comment[1:])
+		c := comment
+		if isCommentIndicator(c[0]) {
+			c = trimSpaceStart(c[1:])
+		}
 		if err = l.parser(transactionHeaderCommentItem, c); err != nil {
 			return err
 		}
@@ -392,6 +396,8 @@ func (l *lexer) takeToTabOrNextLineOrComment() []rune {
 		}
 
 		if isCommentIndicator(r) {
+			// Leave the indicator for whatever takes the comment
+			l.backup()
 			return trimSpace(runes)
 		}
 
-- 
2.43.0


From 61c20da571306a619217f0850f7ffcbe91a789fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:27 +0000
Subject: [PATCH 09/50] fix: trim a comment made only of spaces

trimSpaceStart left such a comment alone, so each print of a journal made its
empty notes one space longer.
---
 parser/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index 5c5cee8..418f448 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -481,7 +481,7 @@ func trimSpaceStart(runes []rune) []rune {
 		return runes
 	}
 
-	index := 0
+	index := len(runes)
 	for i, r := range runes {
 		if r != ' ' {
 			index = i
-- 
2.43.0


From 03fcf1e13d96a3388d710b1c3e7024b9be461116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:27 +0000
Subject: [PATCH 10/50] fix: report a posting line that cannot be lexed instead
 of dropping it
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

'    401k  £-3' was skipped without a word and its amount given to the posting
with an elided amount.
---
 parser/lexer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser/lexer.go b/parser/lexer.go
index 418f448..c27e1f2 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -287,6 +287,11 @@ func (l *lexer) lexPosting() error {
 	// If we didn't lex anything, we should reset the parser
 	l.backup()
 
+	// Anything but blank space must not be dropped from the transaction
+	if firstRune != eof {
+		return fmt.Errorf("unexpected start of posting: %s", string(l.takeToNextLine()))
+	}
+
 	return nil
 }
 
-- 
2.43.0


From f205cdf37d10abb8bb3208d9d7e8ef3442c558c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:52 +0000
Subject: [PATCH 11/50] fix: lex lines longer than the reader's buffer

A line of 4096 bytes or more ended the program with 'Unhandled split line'.
---
 parser/lexer.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index c27e1f2..35398c6 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -92,7 +92,19 @@ func (l *lexer) lex() error {
 			return err
 		}
 		if isPrefix {
-			log.Fatalln("Unhandled split line (todo)")
+			// The line is longer than the reader's buffer, which the next read overwrites
+			line = append([]byte(nil), line...)
+		}
+		for isPrefix {
+			var rest []byte
+			rest, isPrefix, err = l.reader.ReadLine()
+			if err == io.EOF {
+				break
+			}
+			if err != nil {
+				return err
+			}
+			line = append(line, rest...)
 		}
 
 		// Reset the positions
-- 
2.43.0


From 431568f64e8a277994337a67b931414484d0e931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:53 +0000
Subject: [PATCH 12/50] fix: say where the last transaction of a file is at
 fault

An error found on closing a file's final transaction carried no location.
---
 parser/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index 35398c6..2ebe2d4 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -85,7 +85,7 @@ func (l *lexer) lex() error {
 				// Let the parser know we have reached the end of the file
 				parseError := l.parser(eofItem, nil)
 				if parseError != nil {
-					return parseError
+					return fmt.Errorf("%s:%d\n%w", l.locationHint, l.currentLine, parseError)
 				}
 				break
 			}
-- 
2.43.0


From f3b77cf3794c146938c134395908497098e9fae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:53 +0000
Subject: [PATCH 13/50] fix: handle indented lines outside of a transaction

An indented comment or posting that follows a blank line (or starts a file)
dereferenced a nil posting. A comment there is just a comment; a posting is an
error.
---
 parser/transactionbuilder.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/parser/transactionbuilder.go b/parser/transactionbuilder.go
index 317b6f3..1825970 100644
--- a/parser/transactionbuilder.go
+++ b/parser/transactionbuilder.go
@@ -64,6 +64,14 @@ func (tb *transactionBuilder) build(t itemType, content []rune) error {
 }
 
 func (tb *transactionBuilder) buildNormalTransaction(t *journal.Transaction, item itemType, content []rune) error {
+	// Without an open posting, there is no transaction to build
+	if tb.currentPosting == nil {
+		if item == commentItem {
+			return nil
+		}
+		return fmt.Errorf("%s outside of a transaction", item)
+	}
+
 	switch item {
 	case transactionHeaderCommentItem:
 		tb.transaction.HeaderNote = string(content)
-- 
2.43.0


From e8dd8d21b8b1993ab82294a9de252ee8e8e59200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:54 +0000
Subject: [PATCH 14/50] fix: attach notes to the transaction being built

A note under a periodic transaction's header went to the (nil) normal
transaction and crashed the program.
---
 parser/transactionbuilder.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/transactionbuilder.go b/parser/transactionbuilder.go
index 1825970..876891e 100644
--- a/parser/transactionbuilder.go
+++ b/parser/transactionbuilder.go
@@ -74,13 +74,13 @@ func (tb *transactionBuilder) buildNormalTransaction(t *journal.Transaction, ite
 
 	switch item {
 	case transactionHeaderCommentItem:
-		tb.transaction.HeaderNote = string(content)
+		t.HeaderNote = string(content)
 	case commentItem:
 		// check if we've got a posting to attach the comment to
 		if len(tb.currentPosting.AccountPath) != 0 {
 			tb.currentPosting.AddComment(string(content))
 		} else {
-			tb.transaction.AddNote(string(content))
+			t.AddNote(string(content))
 		}
 	case dateItem:
 		date, err := parseDate(content)
-- 
2.43.0


From 83381e59782e2ec93c1e78a4ef2ad6de4114fd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:54 +0000
Subject: [PATCH 15/50] fix: reject a second elided amount wherever it is in
 the transaction

The error was ignored unless the posting came last, and the posting dropped.
---
 parser/transactionbuilder.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/transactionbuilder.go b/parser/transactionbuilder.go
index 876891e..0a5afd0 100644
--- a/parser/transactionbuilder.go
+++ b/parser/transactionbuilder.go
@@ -119,7 +119,9 @@ func (tb *transactionBuilder) buildNormalTransaction(t *journal.Transaction, ite
 
 		// Accounts start a posting, so check if we need to start a new one
 		if len(tb.currentPosting.AccountPath) != 0 {
-			t.AddPosting(tb.currentPosting)
+			if err := t.AddPosting(tb.currentPosting); err != nil {
+				return err
+			}
 			tb.currentPosting = journal.NewPosting()
 		}
 
-- 
2.43.0


From 0453b1734d06ed4d9e61a18eafc124326dc0716e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:55 +0000
Subject: [PATCH 16/50] fix: do not give a transaction without postings a
 nameless one

The posting opened with the header was added although no account followed; its
nil amount crashed balance, and accounts listed an empty name.
---
 parser/transactionbuilder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/transactionbuilder.go b/parser/transactionbuilder.go
index 0a5afd0..dfa61b0 100644
--- a/parser/transactionbuilder.go
+++ b/parser/transactionbuilder.go
@@ -216,7 +216,7 @@ func (tb *transactionBuilder) endTransaction(p Parser) error {
 
 func (tb *transactionBuilder) endNormalTransaction(t *journal.Transaction, p Parser) error {
 	// Make sure we add the last open posting
-	if tb.currentPosting != nil {
+	if tb.currentPosting != nil && len(tb.currentPosting.AccountPath) != 0 {
 		if err := t.AddPosting(tb.currentPosting); err != nil {
 			return err
 		}
-- 
2.43.0


From 9580308908552b1dd2f3307cd13b8942cc251f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:55 +0000
Subject: [PATCH 17/50] fix: give an elided posting an amount when the others
 balance

It was left nil, which crashed balance, budget and print.
---
 journal/transaction.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/journal/transaction.go b/journal/transaction.go
index 6fd9857..1fd09e2 100644
--- a/journal/transaction.go
+++ b/journal/transaction.go
@@ -112,7 +112,9 @@ func (t *Transaction) Close() error {
 		if t.postingWithElidedAmount == nil {
 			return errors.New("transaction does not balance")
 		}
+	}
 
+	if t.postingWithElidedAmount != nil {
 		// NB: setting the commodity like this will not work with multiple currencies
 		t.postingWithElidedAmount.Amount = NewAmount(c, -sum)
 	}
-- 
2.43.0


From 0d14227cf86478691cf97b3bcd58135a7951cc7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:43 +0000
Subject: [PATCH 18/50] fix: close the open transaction before including a file

Without a blank line before the directive, the transaction was closed by the
included file: reported as found there, and continued by any postings there.
---
 parser/parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 19d1159..424fc9a 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -64,6 +64,11 @@ func (p *Parser) parseItem(t itemType, content []rune) error {
 			return err
 		}
 	case includeItem:
+		// The open transaction belongs to the including file, so it cannot continue past here
+		if err := p.transactionBuilder.endTransaction(*p); err != nil {
+			return err
+		}
+
 		path := string(content)
 
 		// Add the file to the slice
-- 
2.43.0


From ca2691a798bc262edb83d4d6525cbe948851ef45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:44 +0000
Subject: [PATCH 19/50] fix: return to the including file after a nested
 include

The stack of files was cut back to the root journal, to which the rest of an
included file's transactions were then attributed.
---
 parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 424fc9a..7fb09d3 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -89,7 +89,7 @@ func (p *Parser) parseItem(t itemType, content []rune) error {
 		}
 
 		// Drop the file from the slice
-		p.journalFiles = p.journalFiles[:1]
+		p.journalFiles = p.journalFiles[:len(p.journalFiles)-1]
 	case dateItem:
 		// This will start a transaction so check if we need to close a previous one
 		// in case there is no empty line between transactions
-- 
2.43.0


From 8e0128c13946ca8b231a6148a838739a50176168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:44 +0000
Subject: [PATCH 20/50] fix: report a file that includes itself

A cycle of includes was followed until the process ran out of files or stack.
---
 parser/parser.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 7fb09d3..7df303e 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -6,6 +6,7 @@ import (
 	"io"
 	"math"
 	"os"
+	"path/filepath"
 	"strconv"
 	"time"
 
@@ -49,6 +50,8 @@ func (p *Parser) Parse(reader io.Reader, locationHint string) error {
 		return fmt.Errorf("error at %w", err)
 	}
 
+	p.journalFiles = p.journalFiles[:len(p.journalFiles)-1]
+
 	return nil
 }
 
@@ -71,6 +74,13 @@ func (p *Parser) parseItem(t itemType, content []rune) error {
 
 		path := string(content)
 
+		// A file that is still being read cannot be included again
+		for _, open := range p.journalFiles {
+			if filepath.Clean(open) == filepath.Clean(path) {
+				return fmt.Errorf("include cycle: %s", path)
+			}
+		}
+
 		// Add the file to the slice
 		p.journalFiles = append(p.journalFiles, path)
 
-- 
2.43.0


From cb0e28fbbda18ec5c6f1defd20a16cda15784dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:45 +0000
Subject: [PATCH 21/50] fix: display large amounts exactly

Formatting through float64 changed the pennies of quantities beyond 2^53.
---
 journal/amount.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/journal/amount.go b/journal/amount.go
index c876e15..e91eba2 100644
--- a/journal/amount.go
+++ b/journal/amount.go
@@ -24,8 +24,13 @@ func (a Amount) String() string {
 
 // DisplayableQuantity formats the Amount's commodity and quantity
 func (a Amount) DisplayableQuantity(withCommodity bool) string {
-	q := float64(a.Quantity) / 100
-	amount := fmt.Sprintf("%.2f", q)
+	sign := ""
+	q := uint64(a.Quantity)
+	if a.Quantity < 0 {
+		sign = "-"
+		q = -q
+	}
+	amount := fmt.Sprintf("%s%d.%02d", sign, q/100, q%100)
 	if withCommodity {
 		return fmt.Sprintf("%s%s", a.Commodity, amount)
 	}
-- 
2.43.0


From b7dcb112f9a568ff54e7f300e8072c9a3c3549a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:45 +0000
Subject: [PATCH 22/50] fix: keep accounts with balances below a parent that
 sums to zero

balance unlinked every account whose total is zero together with its whole
subtree, so a transfer between two accounts of one parent showed neither.
---
 journal/account.go | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/journal/account.go b/journal/account.go
index 15a2447..4ec7c46 100644
--- a/journal/account.go
+++ b/journal/account.go
@@ -190,16 +190,11 @@ func (a *Account) findAccounts(matcher func(a Account) bool, found []*Account) [
 }
 
 func (a *Account) RemoveEmptyChildren() {
+	// An account whose children cancel out is not empty
 	matcher := func(a Account) bool {
-		return a.Amount.Quantity == 0
-	}
-	matching := a.FindAccounts(matcher)
-	for _, m := range matching {
-		if m.Name == RootID {
-			continue
-		}
-		m.Unlink()
+		return a.Amount.Quantity != 0
 	}
+	a.RemoveChildren(matcher)
 }
 
 // Unlink removes this account from it's parents
-- 
2.43.0


From 442079d6249885431571919ae98e93eb080823e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:46 +0000
Subject: [PATCH 23/50] fix: give each account its own path components

From the fourth level, siblings appended to the same array and the last one
created overwrote the components of the others.
---
 journal/account.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/journal/account.go b/journal/account.go
index 4ec7c46..7b6bd52 100644
--- a/journal/account.go
+++ b/journal/account.go
@@ -101,7 +101,9 @@ func newAccountWithChildren(parent *Account, components []string) *Account {
 	if parent == nil || parent.Name == RootID || parent.Name == BudgetRootID {
 		child.PathComponents = []string{components[0]}
 	} else {
-		child.PathComponents = append(parent.PathComponents, components[0])
+		// Siblings must not share their parent's backing array
+		child.PathComponents = append(child.PathComponents, parent.PathComponents...)
+		child.PathComponents = append(child.PathComponents, components[0])
 	}
 
 	child.Path = child.CreatePath()
-- 
2.43.0


From 26490e400d747e9180691fdefb393ec0f5ba0534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:46 +0000
Subject: [PATCH 24/50] fix: budget postings made directly to Expenses

Stripping the head of the path left no components, which FindOrCreateAccount
indexed; budget crashed on such a journal.
---
 journal/account.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/journal/account.go b/journal/account.go
index 7b6bd52..c21f9d7 100644
--- a/journal/account.go
+++ b/journal/account.go
@@ -114,6 +114,10 @@ func newAccountWithChildren(parent *Account, components []string) *Account {
 // FindOrCreateAccount searches the Account's children for one matching the components,
 // creating children as necessary if it does not find matching ones
 func (a *Account) FindOrCreateAccount(components []string) *Account {
+	if len(components) == 0 {
+		return a
+	}
+
 	child, remainingComponents := a.findChild(components)
 
 	// If there were no remaining accounts, we found the deepest
-- 
2.43.0


From 420230a46033baa29725d4d5517a43777d829056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:01 +0000
Subject: [PATCH 25/50] fix: compare dates in the same time zone

Transactions' dates are parsed in UTC and --begin / --end in local time, so
west of UTC a transaction on the begin date was excluded and east of it one on
the end date included.
---
 cmd/common.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/common.go b/cmd/common.go
index 94d9ae3..6676a81 100644
--- a/cmd/common.go
+++ b/cmd/common.go
@@ -120,7 +120,10 @@ func withinDateRange(t *journal.Transaction) (bool, error) {
 		end = time.Now().AddDate(0, 0, 1)
 	}
 
-	withinRange := (t.Date.Equal(start) || t.Date.After(start)) && (end.IsZero() || t.Date.Before(end))
+	// The bounds are in local time, so take the transaction's date to be too
+	date := time.Date(t.Date.Year(), t.Date.Month(), t.Date.Day(), 0, 0, 0, 0, time.Local)
+
+	withinRange := (start.IsZero() || date.Equal(start) || date.After(start)) && (end.IsZero() || date.Before(end))
 
 	return withinRange, nil
 }
-- 
2.43.0


From 23f11dbf002eef5da2f3f28459a7fa229c6c96dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:01 +0000
Subject: [PATCH 26/50] fix: exclude tomorrow's transactions with --current

The bound was this time tomorrow, which tomorrow's midnight precedes.
---
 cmd/common.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/common.go b/cmd/common.go
index 6676a81..9d1b08d 100644
--- a/cmd/common.go
+++ b/cmd/common.go
@@ -117,7 +117,8 @@ func withinDateRange(t *journal.Transaction) (bool, error) {
 
 	if current {
 		start = time.Time{}
-		end = time.Now().AddDate(0, 0, 1)
+		now := time.Now()
+		end = time.Date(now.Year(), now.Month(), now.Day()+1, 0, 0, 0, 0, time.Local)
 	}
 
 	// The bounds are in local time, so take the transaction's date to be too
-- 
2.43.0


From ce1d33b55e386c07cc8b9f2d54a92b9f542a72fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:02 +0000
Subject: [PATCH 27/50] fix: keep filtered postings in the order of their
 transaction

Map iteration shuffled them, so the commodity an account took from its first
posting (and the warnings about others) differed from run to run.
---
 cmd/common.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cmd/common.go b/cmd/common.go
index 9d1b08d..b4123a8 100644
--- a/cmd/common.go
+++ b/cmd/common.go
@@ -158,8 +158,11 @@ func checkAgainstFilters(t *journal.Transaction) (matchedTransaction bool, posti
 			matchedPostings[p] = true
 		}
 	}
-	for k := range matchedPostings {
-		postings = append(postings, k)
+	// Keep the transaction's order
+	for _, p := range t.Postings {
+		if matchedPostings[p] {
+			postings = append(postings, p)
+		}
 	}
 
 	return false, postings, nil
-- 
2.43.0


From 0835d5256ae24351940d4ed8452dadfbd0a637e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:02 +0000
Subject: [PATCH 28/50] fix: print transactions of one day in the order of the
 journal

sort.Slice is not stable beyond twelve elements.
---
 cmd/print.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/print.go b/cmd/print.go
index 19e4f94..fef79a0 100644
--- a/cmd/print.go
+++ b/cmd/print.go
@@ -52,7 +52,7 @@ func (pj *printJournal) transactionHandler(t *journal.Transaction, _ string) err
 }
 
 func (pj *printJournal) prepare() {
-	sort.Slice(pj.transactions, func(i, j int) bool {
+	sort.SliceStable(pj.transactions, func(i, j int) bool {
 		return pj.transactions[i].Date.Before(pj.transactions[j].Date)
 	})
 }
-- 
2.43.0


From b28f69c1b156d46b2c3e81d40adf377eeb0106cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:03 +0000
Subject: [PATCH 29/50] fix: list the files of a journal in a stable order

They were printed in map order, which differs from run to run.
---
 cmd/stats.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmd/stats.go b/cmd/stats.go
index 98c7926..307bbd1 100644
--- a/cmd/stats.go
+++ b/cmd/stats.go
@@ -183,7 +183,12 @@ func (js *statisticsJournal) report() {
 
 	// Report the files
 	fmt.Printf("Transactions found in %d files:\n", len(js.journalFiles))
+	paths := make([]string, 0, len(js.journalFiles))
 	for p := range js.journalFiles {
+		paths = append(paths, p)
+	}
+	sort.Strings(paths)
+	for _, p := range paths {
 		fmt.Printf("  %s\n", p)
 	}
 
-- 
2.43.0


From 8dcaca886dc17ec236a3c30595ca3b0a638cc77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:03 +0000
Subject: [PATCH 30/50] fix: do not divide by a period of no days

Transactions all on one day were reported as '+Inf per day'.
---
 cmd/stats.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/stats.go b/cmd/stats.go
index 307bbd1..c16e724 100644
--- a/cmd/stats.go
+++ b/cmd/stats.go
@@ -202,7 +202,7 @@ func (js *statisticsJournal) report() {
 	fmt.Printf("Time period:\t\t%.f days\n", days)
 
 	// Report transaction count
-	transactionsPerDay := float64(js.transactionCount) / days
+	transactionsPerDay := float64(js.transactionCount) / math.Max(1, days)
 	fmt.Printf("Transactions:\t\t%d (%.1f per day)\n", js.transactionCount, transactionsPerDay)
 
 	// Report number of unique accounts
-- 
2.43.0


From 12442e3bb2148eb6940c7f591beb6ce500930051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:03 +0000
Subject: [PATCH 31/50] fix: accept an empty filter argument

Its first rune was looked at without checking that there is one.
---
 reporting/filter.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/reporting/filter.go b/reporting/filter.go
index 236b1da..ea1cd8c 100644
--- a/reporting/filter.go
+++ b/reporting/filter.go
@@ -32,6 +32,11 @@ type Filter struct {
 func NewFilter(arg string) (Filter, error) {
 	filter := Filter{}
 
+	// An empty argument matches everything
+	if len(arg) == 0 {
+		arg = ".*"
+	}
+
 	switch []rune(arg)[0] {
 	case '@':
 		filter.FilterType = PayeeFilter
-- 
2.43.0


From 684fd706c6fb8f73f6112dca9eb31c381e89066b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:04 +0000
Subject: [PATCH 32/50] fix: put what was budgeted and what was spent under
 their own headings

The Budgeted column held the activity and the Activity column the budget.
---
 cmd/budget.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/budget.go b/cmd/budget.go
index a982ea5..e2adaf1 100644
--- a/cmd/budget.go
+++ b/cmd/budget.go
@@ -152,7 +152,7 @@ func (bp *budgetProcessor) report() {
 				panic(err)
 			}
 
-			fmt.Printf("%-30s | %20s | %20s | %20s |\n", cn, expenseAccount.Amount, envelopeAccount.Amount, amount.DisplayableQuantity(true))
+			fmt.Printf("%-30s | %20s | %20s | %20s |\n", cn, envelopeAccount.Amount, expenseAccount.Amount, amount.DisplayableQuantity(true))
 		}
 
 		fmt.Println()
-- 
2.43.0


From 7a126ea1cc445a21065956805e0b9cf09f28eaf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:04 +0000
Subject: [PATCH 33/50] fix: give the categories of a budget their commodity

Only the account posted to had one, so a nested account made budget print
'unhandled subtraction of unmatched commodities' among its output and show the
category without a commodity.
---
 journal/budget.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/journal/budget.go b/journal/budget.go
index da2cb3c..adfb403 100644
--- a/journal/budget.go
+++ b/journal/budget.go
@@ -105,6 +105,18 @@ func (b *Budget) AddPosting(p *Posting, pt PostingType) error {
 	expenseAccount := bm.ExpenseRoot.FindOrCreateAccount(pathComponents)
 	expenseAccount.Amount.Commodity = p.Amount.Commodity
 
+	// Categories above these accounts need the commodity too
+	for _, account := range []*Account{envelopeAccount, expenseAccount} {
+		if err := account.WalkAncestors(func(a *Account) error {
+			if a.Amount.Commodity == "" {
+				a.Amount.Commodity = p.Amount.Commodity
+			}
+			return nil
+		}); err != nil {
+			return err
+		}
+	}
+
 	if pt == EnvelopePosting {
 		// Add to the envelope account
 		envelopeAccount.Postings = append(envelopeAccount.Postings, p)
-- 
2.43.0


From 5099cf7c0c18c91784ae56c5c450d81bdc2c41cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:05 +0000
Subject: [PATCH 34/50] fix: reject a signed year in a smart date

'-123' has four characters and was read as the year -123.
---
 parser/dates.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/dates.go b/parser/dates.go
index ce7fb68..5a1c9ff 100644
--- a/parser/dates.go
+++ b/parser/dates.go
@@ -56,6 +56,9 @@ func parseYear(date string) (time.Time, error) {
 	if err != nil {
 		return time.Time{}, err
 	}
+	if date[0] == '+' || date[0] == '-' {
+		return time.Time{}, fmt.Errorf("could not parse year: '%s'", date)
+	}
 
 	return time.Date(year, time.January, 1, 0, 0, 0, 0, time.Local), nil
 }
-- 
2.43.0


From e1d1fed8936af231c476bbf34820f005f64e022f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:24 +0000
Subject: [PATCH 35/50] fix: do not read the comment of a posting with an
 elided amount as its amount

'Expenses:Food  ; 20' was taken to be 20 of the commodity '; '.
---
 parser/lexer.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parser/lexer.go b/parser/lexer.go
index 2ebe2d4..518268b 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -278,6 +278,12 @@ func (l *lexer) lexPosting() error {
 			return nil
 		}
 
+		// Bail if there was only a comment (the amount is elided)
+		if isCommentIndicator(l.peek()) {
+			l.next()
+			return l.parser(commentItem, l.takeToNextLine())
+		}
+
 		// Lex the commodity
 		commodity := l.lexCommodity()
 		if l.consumeSpace() > 0 {
-- 
2.43.0


From c7ce6715bbe0aebc4d87f671490e83d6e7d7685c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:24 +0000
Subject: [PATCH 36/50] fix: do not drop what follows the amount of a posting

A comment after an amount was lost from print and from note filters; any other
text there was ignored.
---
 parser/lexer.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/parser/lexer.go b/parser/lexer.go
index 518268b..3772d18 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -299,6 +299,16 @@ func (l *lexer) lexPosting() error {
 			return err
 		}
 
+		// Lex what follows the amount
+		l.consumeSpace()
+		next := l.next()
+		if isCommentIndicator(next) {
+			return l.parser(commentItem, l.takeToNextLine())
+		}
+		if next != eof {
+			return errors.New("unexpected text following amount")
+		}
+
 		return nil
 	}
 
-- 
2.43.0


From 5ba149ffc0a8b6647a6278c070ce68176e17fa6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:25 +0000
Subject: [PATCH 37/50] fix: average the age of money over the final ten ages

All but the final eleven were summed (once there were more than twenty), and
the sum divided by the number of all of them.
---
 cmd/stats.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/cmd/stats.go b/cmd/stats.go
index c16e724..e7cbfa4 100644
--- a/cmd/stats.go
+++ b/cmd/stats.go
@@ -158,12 +158,11 @@ expenseLoop:
 		}
 	}
 
-	rangeCap := 0
-	if len(ages) > 20 {
-		rangeCap = 11
+	if len(ages) > 10 {
+		ages = ages[len(ages)-10:]
 	}
 	var summedAges time.Duration = 0
-	for _, a := range ages[:len(ages)-rangeCap] { // we only care about the final 10
+	for _, a := range ages { // we only care about the final 10
 		summedAges += a
 	}
 
-- 
2.43.0


From 702dc18d745a8642cc563f7ccc4d5e52455d3805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:43 +0000
Subject: [PATCH 38/50] fix: report the period of a journal that spans
 centuries

The difference of two dates saturates at 292 years.
---
 cmd/stats.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cmd/stats.go b/cmd/stats.go
index e7cbfa4..a477654 100644
--- a/cmd/stats.go
+++ b/cmd/stats.go
@@ -196,8 +196,9 @@ func (js *statisticsJournal) report() {
 	fmt.Printf("Last transaction:\t%s (%s)\n", js.lastTransactionDate.Format(dateLayout), humanize.Time(js.lastTransactionDate))
 
 	// Report duration
-	duration := js.lastTransactionDate.Sub(js.firstTransactionDate)
-	days := math.Round(duration.Hours() / 24)
+	// A time.Duration cannot span more than 292 years
+	seconds := js.lastTransactionDate.Unix() - js.firstTransactionDate.Unix()
+	days := math.Round(float64(seconds) / (24 * 60 * 60))
 	fmt.Printf("Time period:\t\t%.f days\n", days)
 
 	// Report transaction count
-- 
2.43.0


From 72d13e99172d87d02ff80ff1fbcb86d3859a8fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:45 +0000
Subject: [PATCH 39/50] fix: do not list the root account in a flat balance of
 nothing

Without any account to show, the flat layout had a line for a nameless account.
---
 reporting/flattenedtree.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/reporting/flattenedtree.go b/reporting/flattenedtree.go
index 807c7b4..a0360f4 100644
--- a/reporting/flattenedtree.go
+++ b/reporting/flattenedtree.go
@@ -13,6 +13,10 @@ func FlattenedTree(a journal.Account, prepender func(a journal.Account) string)
 	if prepender == nil {
 		prepender = func(a journal.Account) string { return "" }
 	}
+	// The account itself is not part of its structure
+	if len(a.Children) == 0 {
+		return ""
+	}
 	return flattenedTree(a, prepender, "")
 }
 
-- 
2.43.0


From 50d9ef7b6eb53f6e35f2db5b0345e6bbaffebe16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:46 +0000
Subject: [PATCH 40/50] fix: count 0001-01-01 as a transaction's date in
 statistics

It is the zero time, which was taken to mean that no date was seen yet.
---
 cmd/stats.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/stats.go b/cmd/stats.go
index a477654..5a90fc1 100644
--- a/cmd/stats.go
+++ b/cmd/stats.go
@@ -78,12 +78,12 @@ func (js *statisticsJournal) transactionHandler(t *journal.Transaction, path str
 	js.transactionCount++
 
 	// Check start date
-	if js.firstTransactionDate.IsZero() || t.Date.Before(js.firstTransactionDate) {
+	if js.transactionCount == 1 || t.Date.Before(js.firstTransactionDate) {
 		js.firstTransactionDate = t.Date
 	}
 
 	// Check end date
-	if js.lastTransactionDate.IsZero() || t.Date.After(js.lastTransactionDate) {
+	if js.transactionCount == 1 || t.Date.After(js.lastTransactionDate) {
 		js.lastTransactionDate = t.Date
 	}
 
-- 
2.43.0


From 5f0817def73ebe84a7d2ee4b3e6e574382c8691e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:08 +0000
Subject: [PATCH 41/50] fix: take 0001-01-01 as a bound of the date range

It is the zero time, which was taken to mean that there is no bound.
---
 cmd/common.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/common.go b/cmd/common.go
index b4123a8..fe0625b 100644
--- a/cmd/common.go
+++ b/cmd/common.go
@@ -100,6 +100,8 @@ func dateCheckedFilteringTransactionHandler(handler func(t *journal.Transaction,
 func withinDateRange(t *journal.Transaction) (bool, error) {
 	var err error
 	var start, end time.Time
+	hasStart := len(beginDate) > 0 && !current
+	hasEnd := len(endDate) > 0 || current
 
 	if len(beginDate) > 0 && !current {
 		start, err = parser.ParseSmartDate(beginDate)
@@ -124,7 +126,8 @@ func withinDateRange(t *journal.Transaction) (bool, error) {
 	// The bounds are in local time, so take the transaction's date to be too
 	date := time.Date(t.Date.Year(), t.Date.Month(), t.Date.Day(), 0, 0, 0, 0, time.Local)
 
-	withinRange := (start.IsZero() || date.Equal(start) || date.After(start)) && (end.IsZero() || date.Before(end))
+	// The zero time is a date too, so it cannot stand for the lack of a bound
+	withinRange := (!hasStart || date.Equal(start) || date.After(start)) && (!hasEnd || date.Before(end))
 
 	return withinRange, nil
 }
-- 
2.43.0


From 23d3e5cb4f935bf1a0b36517df309dc82c9aa5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:44 +0000
Subject: [PATCH 42/50] fix: attribute transactions to one name per included
 file

A file included from two directories was counted twice by statistics, as
y.journal and as d/../y.journal.
---
 parser/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 7df303e..075c65d 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -81,8 +81,8 @@ func (p *Parser) parseItem(t itemType, content []rune) error {
 			}
 		}
 
-		// Add the file to the slice
-		p.journalFiles = append(p.journalFiles, path)
+		// Add the file to the slice, under the same name however it was reached
+		p.journalFiles = append(p.journalFiles, filepath.Clean(path))
 
 		// Open the file
 		file, err := os.Open(path)
-- 
2.43.0


From 1ef040e23609591b6cf8c9e0df96acbff7134cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:45 +0000
Subject: [PATCH 43/50] fix: do not crash on a posting after a closed periodic
 transaction

The builder still expected a periodic transaction, of which there was none.
---
 parser/transactionbuilder.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/parser/transactionbuilder.go b/parser/transactionbuilder.go
index dfa61b0..b7daf6e 100644
--- a/parser/transactionbuilder.go
+++ b/parser/transactionbuilder.go
@@ -48,6 +48,14 @@ func (tb *transactionBuilder) beginTransaction(t transactionType) {
 }
 
 func (tb *transactionBuilder) build(t itemType, content []rune) error {
+	// Without an open posting, there is no transaction to build
+	if tb.currentPosting == nil {
+		if t == commentItem {
+			return nil
+		}
+		return fmt.Errorf("%s outside of a transaction", t)
+	}
+
 	switch tb.transactionType {
 	case normalTransaction:
 		if err := tb.buildNormalTransaction(tb.transaction, t, content); err != nil {
@@ -64,14 +72,6 @@ func (tb *transactionBuilder) build(t itemType, content []rune) error {
 }
 
 func (tb *transactionBuilder) buildNormalTransaction(t *journal.Transaction, item itemType, content []rune) error {
-	// Without an open posting, there is no transaction to build
-	if tb.currentPosting == nil {
-		if item == commentItem {
-			return nil
-		}
-		return fmt.Errorf("%s outside of a transaction", item)
-	}
-
 	switch item {
 	case transactionHeaderCommentItem:
 		t.HeaderNote = string(content)
-- 
2.43.0


From ee1935b8b234abb46ff917c7e39d31aa5b6981c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:41 +0000
Subject: [PATCH 44/50] fix: report the age of money of long-lived savings

Ten ages of more than 29 years overflowed the sum of their durations.
---
 cmd/stats.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/cmd/stats.go b/cmd/stats.go
index 5a90fc1..78c96a9 100644
--- a/cmd/stats.go
+++ b/cmd/stats.go
@@ -132,7 +132,8 @@ func (js *statisticsJournal) prepare() {
 	})
 
 	// Calculate age of money
-	ages := make([]time.Duration, 0)
+	// (in days, as a time.Duration cannot hold more than 292 years)
+	ages := make([]int64, 0)
 
 expenseLoop:
 	for _, ek := range expenseKeys {
@@ -144,8 +145,7 @@ expenseLoop:
 				continue
 			}
 
-			duration := ek.Sub(ik)
-			ages = append(ages, duration)
+			ages = append(ages, (ek.Unix()-ik.Unix())/(24*60*60))
 
 			// Handle not having enough in the income bucket
 			if expense > income {
@@ -161,17 +161,16 @@ expenseLoop:
 	if len(ages) > 10 {
 		ages = ages[len(ages)-10:]
 	}
-	var summedAges time.Duration = 0
+	var summedAges int64 = 0
 	for _, a := range ages { // we only care about the final 10
 		summedAges += a
 	}
 
 	// filter arguments could mean there were no transactions to process
 	// so we need to guard against dividing by 0 later
-	count := int64(math.Max(1, float64(len(ages))))
-	summedAges = time.Duration(summedAges.Nanoseconds() / count)
+	count := math.Max(1, float64(len(ages)))
 
-	js.ageOfMoney = math.Max(summedAges.Hours()/24, 0)
+	js.ageOfMoney = math.Max(float64(summedAges)/count, 0)
 }
 
 func (js *statisticsJournal) report() {
-- 
2.43.0


From ae0028af0ba2a77f79b0bfe51f1258db7434b4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:56 +0000
Subject: [PATCH 45/50] fix: a line cut short by a failed read is not parsed as
 a whole one

---
 parser/lexer.go | 36 ++++++++++++++----------------------
 1 file changed, 14 insertions(+), 22 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index 3772d18..1a398ed 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -79,32 +79,24 @@ func (l *lexer) ingest() error {
 func (l *lexer) lex() error {
 	l.currentLine = 1
 	for {
-		line, isPrefix, err := l.reader.ReadLine()
-		if err != nil {
-			if err.Error() == "EOF" {
-				// Let the parser know we have reached the end of the file
-				parseError := l.parser(eofItem, nil)
-				if parseError != nil {
-					return fmt.Errorf("%s:%d\n%w", l.locationHint, l.currentLine, parseError)
-				}
-				break
-			}
+		// A line cut short by a failed read is not a line, so only the end of the file may end one
+		line, err := l.reader.ReadBytes('\n')
+		if err != nil && err != io.EOF {
 			return err
 		}
-		if isPrefix {
-			// The line is longer than the reader's buffer, which the next read overwrites
-			line = append([]byte(nil), line...)
-		}
-		for isPrefix {
-			var rest []byte
-			rest, isPrefix, err = l.reader.ReadLine()
-			if err == io.EOF {
-				break
+		if err == io.EOF && len(line) == 0 {
+			// Let the parser know we have reached the end of the file
+			parseError := l.parser(eofItem, nil)
+			if parseError != nil {
+				return fmt.Errorf("%s:%d\n%w", l.locationHint, l.currentLine, parseError)
 			}
-			if err != nil {
-				return err
+			break
+		}
+		if line[len(line)-1] == '\n' {
+			line = line[:len(line)-1]
+			if len(line) > 0 && line[len(line)-1] == '\r' {
+				line = line[:len(line)-1]
 			}
-			line = append(line, rest...)
 		}
 
 		// Reset the positions
-- 
2.43.0


From ee4a7a7d51d4be070043a9e82a55673a9bbebcdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:48 +0000
Subject: [PATCH 46/50] fix: quantities whose sum does not fit 64 bits wrapped
 round and passed as balanced

---
 journal/transaction.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/journal/transaction.go b/journal/transaction.go
index 1fd09e2..0cc9fd9 100644
--- a/journal/transaction.go
+++ b/journal/transaction.go
@@ -3,6 +3,8 @@ package journal
 import (
 	"errors"
 	"fmt"
+	"math"
+	"math/big"
 	"time"
 )
 
@@ -95,7 +97,8 @@ func (t *Transaction) AddPosting(p *Posting) error {
 // Close ensures the transaction balances (assigning an amount to an elided posting as necessary)
 func (t *Transaction) Close() error {
 	// Check the transaction balances
-	sum := int64(0)
+	// (quantities that each fit 64 bits may have a sum that does not, which must not wrap round to zero)
+	sum := new(big.Int)
 	c := ""
 	for _, p := range t.Postings {
 		if p.Amount == nil {
@@ -105,18 +108,21 @@ func (t *Transaction) Close() error {
 		if len(p.Amount.Commodity) > 0 {
 			c = p.Amount.Commodity
 		}
-		sum += p.Amount.Quantity
+		sum.Add(sum, big.NewInt(p.Amount.Quantity))
 	}
 
-	if sum != 0 {
+	if sum.Sign() != 0 {
 		if t.postingWithElidedAmount == nil {
 			return errors.New("transaction does not balance")
 		}
 	}
 
 	if t.postingWithElidedAmount != nil {
+		if sum.CmpAbs(big.NewInt(math.MaxInt64)) > 0 {
+			return errors.New("elided amount is too large")
+		}
 		// NB: setting the commodity like this will not work with multiple currencies
-		t.postingWithElidedAmount.Amount = NewAmount(c, -sum)
+		t.postingWithElidedAmount.Amount = NewAmount(c, -sum.Int64())
 	}
 
 	return nil
-- 
2.43.0


From 747b480c0e597b25aeb3e2a9f0fda224f0e3c48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:26 +0000
Subject: [PATCH 47/50] fix: sums that do not fit 64 bits wrapped round in the
 reports

---
 cmd/budget.go     | 23 +++++++++++++++++++++++
 journal/amount.go | 13 +++++++++++--
 journal/budget.go |  3 +--
 3 files changed, 35 insertions(+), 4 deletions(-)

diff --git a/cmd/budget.go b/cmd/budget.go
index e2adaf1..3e96a6c 100644
--- a/cmd/budget.go
+++ b/cmd/budget.go
@@ -22,6 +22,10 @@ var budgetCmd = &cobra.Command{
 			return
 		}
 		// prepareBalance(bp.journal)
+		if err := bp.prepare(); err != nil {
+			fmt.Println(err)
+			return
+		}
 		bp.report()
 	},
 }
@@ -99,6 +103,25 @@ func (bp *budgetProcessor) transactionHandler(t *journal.Transaction, location s
 	return nil
 }
 
+// prepare makes sure that what is available can be reported
+func (bp *budgetProcessor) prepare() error {
+	for _, budget := range bp.budget.Months {
+		for cn, envelopeAccount := range budget.EnvelopeRoot.Children {
+			expenseAccount, found := budget.ExpenseRoot.Children[cn]
+			if !found {
+				continue
+			}
+
+			available := envelopeAccount.Amount
+			if err := available.Add(expenseAccount.Amount); err != nil {
+				return err
+			}
+		}
+	}
+
+	return nil
+}
+
 func (bp *budgetProcessor) report() {
 	// sort the months
 	months := make([]time.Time, 0, len(bp.budget.Months))
diff --git a/journal/amount.go b/journal/amount.go
index e91eba2..57d2e2c 100644
--- a/journal/amount.go
+++ b/journal/amount.go
@@ -1,6 +1,7 @@
 package journal
 
 import (
+	"errors"
 	"fmt"
 )
 
@@ -43,7 +44,11 @@ func (a *Amount) Add(other Amount) error {
 		// return errors.New("unhandled addition of unmatched commodities")
 		fmt.Printf("unhandled addition of unmatched commodities: '%s' and '%s'\n", a.Commodity, other.Commodity)
 	}
-	a.Quantity += other.Quantity
+	sum := a.Quantity + other.Quantity
+	if (sum > a.Quantity) != (other.Quantity > 0) {
+		return errors.New("sum of amounts is too large")
+	}
+	a.Quantity = sum
 	return nil
 }
 
@@ -53,6 +58,10 @@ func (a *Amount) Subtract(other Amount) error {
 		// return errors.New("unhandled addition of unmatched commodities")
 		fmt.Printf("unhandled subtraction of unmatched commodities: '%s' and '%s'\n", a.Commodity, other.Commodity)
 	}
-	a.Quantity -= other.Quantity
+	difference := a.Quantity - other.Quantity
+	if (difference < a.Quantity) != (other.Quantity > 0) {
+		return errors.New("difference of amounts is too large")
+	}
+	a.Quantity = difference
 	return nil
 }
diff --git a/journal/budget.go b/journal/budget.go
index adfb403..0b2fccd 100644
--- a/journal/budget.go
+++ b/journal/budget.go
@@ -67,8 +67,7 @@ func (b *Budget) AddPosting(p *Posting, pt PostingType) error {
 	// Don't add the BudgetRoot to the budget
 	// Instead, roll it in to the EnvelopeRoot
 	if pt == EnvelopePosting && p.AccountPath == BudgetRootID {
-		bm.EnvelopeRoot.Amount.Add(*p.Amount)
-		return nil
+		return bm.EnvelopeRoot.Amount.Add(*p.Amount)
 	}
 
 	// Choose root
-- 
2.43.0


From 0e219cb00f86d22ccc71b7f4398f4e857ae8be1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:10 +0000
Subject: [PATCH 48/50] fix: an invalid --begin or --end went unnoticed when
 there was no transaction

---
 cmd/common.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/cmd/common.go b/cmd/common.go
index fe0625b..bd85191 100644
--- a/cmd/common.go
+++ b/cmd/common.go
@@ -21,6 +21,10 @@ func parse(th parser.TransactionHandler, ph parser.PeriodicTransactionHandler) e
 		rootJournalPath = path
 	}
 
+	if err := checkDateRange(); err != nil {
+		return err
+	}
+
 	file, err := os.Open(rootJournalPath)
 	if err != nil {
 		return err
@@ -97,6 +101,24 @@ func dateCheckedFilteringTransactionHandler(handler func(t *journal.Transaction,
 	}
 }
 
+// checkDateRange makes sure that --begin and --end are dates, even if there is no transaction to compare with them
+func checkDateRange() error {
+	if current {
+		return nil
+	}
+
+	for _, date := range []string{beginDate, endDate} {
+		if len(date) == 0 {
+			continue
+		}
+		if _, err := parser.ParseSmartDate(date); err != nil {
+			return fmt.Errorf("error parsing date: %w", err)
+		}
+	}
+
+	return nil
+}
+
 func withinDateRange(t *journal.Transaction) (bool, error) {
 	var err error
 	var start, end time.Time
-- 
2.43.0


From 76a7855742d56b7430efea6eb0b7fded57cbf289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:56 +0000
Subject: [PATCH 49/50] fix: a file reached through a symbolic link could be
 taken for one that is still open

---
 parser/parser.go | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 075c65d..2b4a2f5 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -27,6 +27,7 @@ type Parser struct {
 	periodicTransactionHandler PeriodicTransactionHandler
 	transactionBuilder         transactionBuilder
 	journalFiles               []string
+	openPaths                  []string
 }
 
 // NewParser creates a parser (including its journal)
@@ -42,6 +43,7 @@ func NewParser(th TransactionHandler, ph PeriodicTransactionHandler) Parser {
 // Parse lexes and parses the provided file line by line
 func (p *Parser) Parse(reader io.Reader, locationHint string) error {
 	p.journalFiles = append(p.journalFiles, locationHint)
+	p.openPaths = []string{locationHint}
 
 	// Begin lexing
 	lexer := newLexer(reader, locationHint, p.parseItem)
@@ -74,12 +76,14 @@ func (p *Parser) parseItem(t itemType, content []rune) error {
 
 		path := string(content)
 
-		// A file that is still being read cannot be included again
-		for _, open := range p.journalFiles {
-			if filepath.Clean(open) == filepath.Clean(path) {
+		// A file that is still being read cannot be included again, whatever links lead to it
+		for _, open := range p.openPaths {
+			if sameFile(open, path) {
 				return fmt.Errorf("include cycle: %s", path)
 			}
 		}
+		p.openPaths = append(p.openPaths, path)
+		defer func() { p.openPaths = p.openPaths[:len(p.openPaths)-1] }()
 
 		// Add the file to the slice, under the same name however it was reached
 		p.journalFiles = append(p.journalFiles, filepath.Clean(path))
@@ -131,6 +135,19 @@ func (p *Parser) parseItem(t itemType, content []rune) error {
 	return nil
 }
 
+// Reports whether two paths lead to the same file
+func sameFile(a, b string) bool {
+	if a == b {
+		return true
+	}
+	infoA, err := os.Stat(a)
+	if err != nil {
+		return false
+	}
+	infoB, err := os.Stat(b)
+	return err == nil && os.SameFile(infoA, infoB)
+}
+
 func parseDate(content []rune) (time.Time, error) {
 	const dashDateFormat string = "2006-01-02"
 	const dotdateItemFormat string = "2006.01.02"
-- 
2.43.0


From 3bf34a586b123d0550f09e6b4d866eb0fa76b05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:36 +0000
Subject: [PATCH 50/50] fix: an account below another called _root_ or
 _budget_root_ was listed without what is above it

---
 journal/account.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/journal/account.go b/journal/account.go
index c21f9d7..492edba 100644
--- a/journal/account.go
+++ b/journal/account.go
@@ -52,12 +52,17 @@ func (a *Account) asString(level int) string {
 	return s
 }
 
+// isRoot tells the root of a tree from an account that was given its name
+func (a *Account) isRoot() bool {
+	return a.Parent == nil && (a.Name == RootID || a.Name == BudgetRootID)
+}
+
 // CreatePath creates a : delimited string from the Account's ancestry
 func (a *Account) CreatePath() string {
 	path := a.Name
 	current := a
 	for {
-		if current.Parent == nil || current.Parent.Name == RootID || current.Parent.Name == BudgetRootID {
+		if current.Parent == nil || current.Parent.isRoot() {
 			return path
 		}
 		path = fmt.Sprintf("%s:%s", current.Parent.Name, path)
@@ -69,7 +74,7 @@ func (a *Account) CreatePath() string {
 func (a *Account) Head() *Account {
 	current := a
 	for {
-		if current.Parent == nil || current.Parent.Name == RootID || current.Parent.Name == BudgetRootID {
+		if current.Parent == nil || current.Parent.isRoot() {
 			return current
 		}
 		current = current.Parent
@@ -98,7 +103,7 @@ func newAccountWithChildren(parent *Account, components []string) *Account {
 		parent.Children[child.Name] = child
 	}
 
-	if parent == nil || parent.Name == RootID || parent.Name == BudgetRootID {
+	if parent == nil || parent.isRoot() {
 		child.PathComponents = []string{components[0]}
 	} else {
 		// Siblings must not share their parent's backing array
-- 
2.43.0

