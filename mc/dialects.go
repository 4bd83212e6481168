package main

import (
	"fmt"
	"path"
	"regexp"
	"strings"
)

// Dialects: gledger's journal is a subset of what ledger and its relatives read. Whatever a word, a
// bracket or a second date means to those, here it is text, or an error. The parts below put every
// short sequence of such tokens in every place they could be given a meaning in.

const dialectsBound = "every sequence of up to 3 tokens, joined by nothing or a space, that mean something in other dialects of plain text accounting: 22 after a date, 22 in notes and comments (header, own line and end of a posting at once), 32 in place of an amount and 12 after one, 20 in place of an account, 62 directives with 9 arguments between transactions, with and without a line below them and an end"

const dialectsBound2 = "every sequence of up to 2 tokens, joined by nothing or a space, that mean something in other dialects of plain text accounting: 22 after a date, 22 in notes and comments, 32 in place of an amount and 12 after one, 20 in place of an account, 62 directives with 9 arguments between transactions (in budgets: likewise in budget entries)"

var dialectHeader = []string{"p", "q", "=2020-01-05", "=", "=01-05", "(7)", "(", ")", "[7]", "{x}", "|", "*", "!", "12:30", "\"p\"", "@p", "/", "^l", "#t", ":", "--", "T09:00"}

var dialectNotes = []string{"date:", "date:2020-02-03", "date2:", "[2020-02-03]", "[=2020-02-03]", "[2020-02-03=2020-02-04]", "=2020-02-03", "2020-02-03", ":t:", ":t:u:", "k:", "k::", "v", ",", "payee:", "Payee:", "(x)", "*", "!", "£5", "type:A", "\\"}

var dialectAmounts = []string{"1", "10", "000", ".", "5", ",", "e", "x", "%", "=", "==", "@", "@@", "(", ")", "{", "}", "[", "]", "\"", "£", "EUR", "-", "+", "*", "/", "'", "_", "0x", "1/2", ":", "~"}

var dialectTrails = []string{"=", "= 5", "== 5", "=* 5", ":= 5", "@ 2", "@@ 2", "{2}", "{{2}}", "[2020-01-01]", "(lot)", "((x))", "EUR", "%", "* 2", "- 1", "/ 2", "1", ", 1", "if x", "=1", "@2", "\"n\""}

var dialectAccounts = []string{"(", ")", "[", "]", "<", ">", "{", "}", "A", "B", ":", "!", "*", "|", "@", "=", "\"", "(A)", "[A]", "'"}

var dialectDirectives = []string{
	"account", "alias", "apply", "apply account", "apply tag", "assert", "bucket", "capture", "check", "commodity", "comment", "define", "def", "end", "end apply", "end comment", "endfixed", "expr", "eval", "fixed", "payee", "python", "tag", "test", "value", "year", "year 2019", "decimal-mark", "option", "plugin", "pushtag", "poptag", "open", "close", "balance", "pad", "price", "note", "document", "custom", "default",
	"A", "C", "D", "N", "P", "Y", "Y2019", "b", "h", "i", "o", "O", "=", "!include", "@include", "includes", "import", "Include", "-", "--file", "__END__",
}

// joinedTokens calls f with every sequence of tokens, joined in each way.
func joinedTokens(tokens []string, hi int, f func(s string)) {
	seqs(len(tokens), 1, hi, func(ix []int) {
		var l []string
		for _, i := range ix {
			l = append(l, tokens[i])
		}
		f(strings.Join(l, ""))
		if len(l) > 1 {
			f(strings.Join(l, " "))
		}
	})
}

// dialectPart has what other dialects know in every place.
func dialectPart(e *E, hi int, check func(x *X, files map[string]string) error) {
	dialectAmountPart(e, hi, check)
	e.Part("other dialects")
	do := func(name, s, text string) {
		if !e.Mine() {
			e.Pass()
			return
		}
		e.Do(func(x *X) error {
			x.Key("%s %q", name, s)
			return check(x, one(text))
		})
	}
	joinedTokens(dialectHeader, hi, func(s string) {
		for _, sep := range []string{"", " ", " * "} {
			do("header"+sep, s, "2020-01-02"+sep+s+"\n  A  1\n  B\n2020-01-01 r\n  A  2\n  B\n")
		}
	})
	joinedTokens(dialectNotes, hi, func(s string) {
		do("notes", s, "2020-01-02 p  ; "+s+"\n  ; "+s+"\n  A  1  ; "+s+"\n  B  -1\n  ;"+s+"\n2020-01-03 q\n  ; "+s+"\n  A  2\n  B\n")
	})
	joinedTokens(dialectAccounts, hi, func(s string) {
		do("account", s, "2020-01-02 p\n  "+s+"  1\n  B:C  -1\n")
		do("account alone", s, "2020-01-02 p\n  A  1\n  "+s+"\n")
	})
	for _, d := range dialectDirectives {
		for _, arg := range []string{"", " ", " A", " x = y", " A=B", " 2020-01-01 EUR £2", " £1,000.00", " x", " \"x\""} {
			for form, f := range []string{
				"2020-01-02 p\n  A  1\n  B\n\n%s\n\n2020-01-03 q\n  A  2\n  B\n",
				"%s\n2020-01-03 q\n  A  2\n  B\n",
				"2020-01-02 p\n  A  1\n  B\n%s\n  note x\n  C  5\n",
				"%s\n2020-01-03 q\n  A  2\n  B\nend " + strings.Fields(d)[0] + "\n2020-01-04 r\n  A  3\n  B\n",
				"; %s\n2020-01-03 q\n  A  2\n  B\n; end " + d + "\n#%[1]s\n2020-01-04 r\n  A  3\n  B\n",
			} {
				do(fmt.Sprint("directive form ", form), d+arg, fmt.Sprintf(f, d+arg))
			}
		}
	}
}

// dialectAmountPart has them in place of an amount, and after one.
func dialectAmountPart(e *E, hi int, check func(x *X, files map[string]string) error) {
	e.Part("amounts of other dialects")
	do := func(name, s, text string) {
		if !e.Mine() {
			e.Pass()
			return
		}
		e.Do(func(x *X) error {
			x.Key("%s %q", name, s)
			return check(x, one(text))
		})
	}
	joinedTokens(dialectAmounts, hi, func(s string) {
		do("amount", s, "2020-01-02 p\n  A  "+s+"\n  B\n")
	})
	joinedTokens(dialectTrails, 2, func(s string) {
		for _, sep := range []string{"", " ", "  ", "\t"} {
			do("after an amount", sep+s, "2020-01-02 p\n  A  £1"+sep+s+"\n  B  £-1\n")
			do("after an account", sep+s, "2020-01-02 p\n  A  £1\n  B  "+sep+s+"\n")
			do("after the first of three", sep+s, "2020-01-02 p\n  A  5"+sep+s+"  ; c\n  B  -3\n  C  -2"+sep+s)
		}
	})
}

const queryWordsBound = "each of 46 words that mean something in other query languages, alone, with each of 9 arguments before or after it, and joined to each of these, as an account, payee and note argument, in a journal where accounts, payees and notes are spelled so"

var queryWords = []string{
	"not:A", "not:", "!A", "~A", "-A", "^A", "desc:A", "payee:A", "acct:A", "note:A", "tag:A", "tag:k=v", "%k", "%k=v", "#A", "code:7", "amt:1", "amt:>1", "amt:<1", "cur:£", "status:*", "status:", "date:2020", "depth:1", "type:X", "real:1", "any:A", "all:A", "expr:A", "and", "or", "not", "AND", "&", "|", "A&B", "A|B", "A and B", "A or B", "account", "@@A", "==A", "@=A", "=@A", "\"A\"", "'A'", "/A/", "A/i", "A*", "a:b:", "A:",
}

// queryWordPart has words of other query languages as arguments.
func queryWordPart(e *E, cmds []string) {
	e.Part("words of other query languages")
	var b strings.Builder
	n := 0
	for _, w := range append([]string{"A", "B", "x", "k: v"}, queryWords...) {
		n++
		fmt.Fprintf(&b, "2020-01-%02d %s  ; n%d\n", n%28+1, w, n)
		if strings.ContainsAny(w[:1], "Aabcdenoprstxyk") {
			fmt.Fprintf(&b, "  %s  %d\n", w, n)
		}
		fmt.Fprintf(&b, "  X%s  %d  ; %s\n  Y  ; c%d\n", w, n, w, n)
		n++
		fmt.Fprintf(&b, "2020-02-%02d p%d\n  ; %s\n  Z:%s  %d\n  Y\n", n%28+1, n, w, w, n)
	}
	files := one(b.String())
	if r := refParse(files, mainFile); r.Err != nil || r.Odd != "" {
		panic(fmt.Sprint(r.Err, r.Odd))
	}
	do := func(args ...string) {
		for _, a := range args {
			if _, err := regexp.Compile(strings.TrimLeft(a[:1], "@=") + a[1:]); err != nil {
				return
			}
		}
		if !e.Mine() {
			e.Pass()
			return
		}
		e.Do(func(x *X) error {
			x.Key("arguments %q", args)
			for _, cmd := range cmds {
				if cmd == "accounts" || cmd == "payees" {
					for _, a := range args {
						if a != "" && (a[0] == '@' || a[0] == '=') {
							return nil
						}
					}
				}
				if err := expectCase(x, Case{Cmd: cmd, Files: files, Args: args}); err != nil {
					return err
				}
			}
			return nil
		})
	}
	with := []string{"A", "a", "@A", "=A", "B", "@x", "not", "or", "and"}
	for _, w := range queryWords {
		for _, p := range []string{"", "@", "="} {
			do(p + w)
			for _, v := range with {
				do(p+w, v)
				do(v, p+w)
				do(v, p+w, "B")
				do(p + w + v)
				do(p + w + " " + v)
				do(p + v + " " + w)
			}
		}
	}
}

const includeTokensBound = "every name of up to 3 out of 26 tokens that some shell, address or dialect gives a meaning, with and without a file of that name"

var includeTokens = []string{"\"", "'", "<", ">", "$HOME", "${x}", "~", "*", "?", "[a]", "{a,b}", "\\", "%20", "%41", "a", "b", "/", ".", "journal:", "file://", "!", "&", "|", "`", " ", "=", ":", ",", "@"}

// includeTokenPart has them in the name of an included file.
func includeTokenPart(e *E, check func(x *X, files map[string]string) error) {
	e.Part("tokens of names")
	hi := 3
	strs(includeTokens, 1, hi, func(name string) {
		if strings.HasPrefix(name, " ") || strings.HasSuffix(name, " ") || strings.Contains(name, "  ") {
			return
		}
		if !e.Mine() {
			e.Pass()
			return
		}
		clean := strings.Trim(name, "./") != "" && !strings.HasSuffix(name, "/") && !strings.HasSuffix(name, "/.") && !strings.HasPrefix(name, "/") && !strings.Contains(name, "..")
		e.Do(func(x *X) error {
			x.Key("name %q", name)
			others := map[string]string{mainFile: "2020-01-01 p\n  A  1\n  B\ninclude " + name + "\n2020-01-03 q\n  A  2\n  B\n"}
			for i, n := range []string{"a", "b", "d/a", "d/b", "HOME", "A"} {
				others[n] = fmt.Sprintf("2020-02-01 other\n  O%d  %d\n  P\n", i, i+1)
			}
			if err := check(x, others); err != nil {
				return err
			}
			if !clean || others[path.Clean(name)] != "" || strings.HasPrefix(name, "a/") || strings.HasPrefix(name, "b/") {
				return nil
			}
			others[path.Clean(name)] = "2020-02-02 it\n  I  9\n  J\n"
			return check(x, others)
		})
	})
}

// dialectEntries has them in budget entries.
func dialectEntries(e *E, check func(x *X, files map[string]string) error) {
	e.Part("entries of other dialects")
	do := func(name, s, text string) {
		if !e.Mine() {
			e.Pass()
			return
		}
		e.Do(func(x *X) error {
			x.Key("%s %q", name, s)
			return check(x, one(text+"2020-01-02 p\n  Expenses:F  1\n  Income\n"))
		})
	}
	joinedTokens(dialectNotes, 2, func(s string) {
		do("notes of an entry", s, "~ 2020-01  ; "+s+"\n  ; "+s+"\n  F  3 ; "+s+"\n  G  2\n  ;"+s+"\n~ 2020-02\n  F  4\n")
	})
	joinedTokens(dialectAccounts, 2, func(s string) {
		do("account of an entry", s, "~ 2020-01\n  F  3\n  "+s+"  1\n")
		do("account alone in an entry", s, "~ 2020-01\n  F  3\n  "+s+"\n")
		do("category", s, "2020-01-01 q\n  Expenses:"+s+"  3\n  B  -3\n~ 2020-01\n  A"+s+"  1\n")
	})
	joinedTokens(dialectAmounts, 2, func(s string) {
		do("amount of an entry", s, "~ 2020-01\n  F  "+s+"\n")
		do("after an amount of an entry", s, "~ 2020-01\n  F  1 "+s+"\n  G  2"+s+"\n")
	})
}
