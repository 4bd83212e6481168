package main

import (
	"fmt"
	"regexp"
	"strings"
)

const magicBound = "files (journals and included ones) that begin with each of 40 marks of other kinds of file (compressed, encrypted, in other encodings, of other programs), alone, on a line of their own or before an entry"

var magics = []string{
	"\x1f\x8b", "\x1f\x8b\x08\x00\x00\x00\x00\x00", "\x1f\x9d", "BZh9", "PK\x03\x04", "\x28\xb5\x2f\xfd", "\xfd7zXZ\x00", "7z\xbc\xaf\x27\x1c", "\x04\x22\x4d\x18", "\x89PNG\r\n\x1a\n", "%PDF-1.4", "#!/bin/sh", "#! gledger", "\x7fELF", "MZ", "SQLite format 3\x00", "\xef\xbb\xbf", "\xff\xfe", "\xfe\xff", "\xff\xfe\x00\x00", "\x00", "\x00\x00\x00\x00", "{", "[", "<?xml?>", "<", "---", "-----BEGIN PGP MESSAGE-----", "age-encryption.org/v1", "Salted__", "Date,Payee,Amount", "\x1a", "\x04", "account A", "commodity £", "P 2020-01-01 USD 1", "option x", "Y2020", "=", "@",
}

// magicPart has files that are of another kind, or seem to be.
func magicPart(e *E, check func(x *X, files map[string]string) error) {
	e.Part("other kinds of file")
	for mi, m := range magics {
		for ri, rest := range []string{"", "\n", "\n2020-01-01 p\n  A  1\n  B\n", "2020-01-01 p\n  A  1\n  B\n", " x\n", strings.Repeat("\x00", 600), "\n; c\n~ 2020-01\n  F  1\n"} {
			for form := 0; form < 3; form++ {
				if !e.Mine() {
					e.Pass()
					continue
				}
				e.Do(func(x *X) error {
					x.Key("mark %d, rest %d, form %d", mi, ri, form)
					files := one(m + rest)
					switch form {
					case 1:
						files = map[string]string{mainFile: "2020-01-02 q\n  A  1\n  B\n\ninclude d/x\n", "d/x": m + rest}
					case 2:
						files = map[string]string{mainFile: "include x.gz\n2020-01-02 q\n  A  1\n  B\n", "x.gz": m + rest}
					}
					return check(x, files)
				})
			}
		}
	}
}

const familiesBound = "all names of up to 3 (of 2 characters: 6) out of 9 small alphabets at once, as sisters, in 4 orders and in pairs with their sisters of other spellings of the same number"

var familyAlphabets = []struct {
	alpha []string
	hi    int
}{
	{[]string{"0", "1", "2"}, 4}, {[]string{"0", "1"}, 6}, {[]string{"0", "9", "a"}, 4}, {[]string{"a", "A", "b"}, 4}, {[]string{"a", "B", "-", "1"}, 3}, {[]string{"a", " ", "b"}, 4}, {[]string{"a", "é", "É", "e"}, 3}, {[]string{"a", ":", "b"}, 4}, {[]string{".", "/", "1", "a", "_"}, 3},
}

// familyPart has journals in which whole families of names occur.
func familyPart(e *E, each func(name string, i int) string, check func(x *X, files map[string]string) error) {
	e.Part("families of names")
	for ai, fam := range familyAlphabets {
		var names []string
		strs(fam.alpha, 1, fam.hi, func(s string) {
			if s[0] == ' ' || s[len(s)-1] == ' ' || strings.Contains(s, "  ") || strings.Contains(":"+s+":", "::") || strings.Contains(s, ": ") || strings.Contains(s, " :") {
				return
			}
			names = append(names, s)
		})
		n := len(names)
		for order := 0; order < 4; order++ {
			for lead := 0; lead < 2; lead++ {
				if !e.Mine() {
					e.Pass()
					continue
				}
				e.Do(func(x *X) error {
					x.Key("family %d in order %d %d", ai, order, lead)
					step := n*3/8 | 1
					for n%step == 0 || gcd(n, step) != 1 {
						step += 2
					}
					text := repeat(n, func(i int) string {
						k := []int{i, n - 1 - i, i * step % n, (i*step + n/2) % n}[order]
						return each([]string{"", "x"}[lead]+names[k], i)
					})
					return check(x, one(text))
				})
			}
		}
	}
}

func gcd(a, b int) int {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func accountFamilies(e *E, cmds []string, layouts []Case) {
	familyPart(e, func(s string, i int) string {
		return fmt.Sprintf("2020-01-%02d p\n  A:%s  £%d\n  A:%s:%s  £1\n  Z\n", i%28+1, s, i+1, s, s)
	}, func(x *X, files map[string]string) error { return cases(x, files, cmds, layouts) })
}

func payeeFamilies(e *E, cmds []string) {
	familyPart(e, func(s string, i int) string {
		return fmt.Sprintf("2020-01-%02d p%s\n  A  £%d\n  Z\n", i%28+1, s, i+1)
	}, func(x *X, files map[string]string) error { return cases(x, files, cmds, nil) })
}

func categoryFamilies(e *E) {
	familyPart(e, func(s string, i int) string {
		return fmt.Sprintf("~ 2020-%02d\n  c%s  £%d\n2020-01-%02d p\n  Expenses:c%s  £%d\n  Z\n", i%12+1, s, i+1, i%28+1, s, i+2)
	}, func(x *X, files map[string]string) error { return cases(x, files, []string{"budget"}, nil) })
}

const sharesBound = "a transaction of 2 to 6 postings to accounts of their own, with every pattern of signs, the last or the first omitted or none, selected by every set of its accounts, a filter each, and by two filters that take any two parts of it (of 6 postings a quarter of these), beside other transactions"

// sharesPart selects every part of a transaction by its accounts.
func sharesPart(e *E, cmds []string) {
	e.Part("shares of a transaction")
	accts := []string{"Assets:Bank", "Expenses:Food", "Income", "Assets", "Liabilities:Card", "Food"}
	for n := 2; n <= len(accts); n++ {
		for signs := 0; signs < 1<<(n-1); signs++ {
			for omitted := -1; omitted < 2; omitted++ {
				if !e.Mine() {
					e.Pass()
					continue
				}
				e.Do(func(x *X) error {
					x.Key("%d postings, signs %b, omitted %d", n, signs, omitted)
					var sum int64
					qs := make([]int64, n)
					for i := 0; i < n-1; i++ {
						qs[i] = int64(100<<i + i)
						if signs>>i&1 == 1 {
							qs[i] = -qs[i]
						}
						sum += qs[i]
					}
					qs[n-1] = -sum
					text := "2020-01-02 Shop\n"
					for i, a := range accts[:n] {
						text += "  " + a
						if !(omitted == 0 && i == n-1 || omitted == 1 && i == 0) {
							text += "  £" + fmtQ(qs[i])
						}
						text += "\n"
					}
					files := one("2020-01-01 a\n  Assets:Bank  £1\n  Q\n\n" + text + "\n2020-01-03 b\n  Food  £1\n  Income\n")
					run := func(args []string) error {
						for _, cmd := range cmds {
							if err := expectCase(x, Case{Cmd: cmd, Files: files, Args: args}); err != nil {
								return err
							}
						}
						return nil
					}
					for set := 1; set < 1<<n; set++ {
						var args []string
						for i := 0; i < n; i++ {
							k := i
							if signs%2 == 1 {
								k = n - 1 - i
							}
							if set>>k&1 == 1 {
								args = append(args, "^"+regexp.QuoteMeta(accts[k])+"$")
							}
						}
						if err := run(args); err != nil {
							return err
						}
					}
					// two filters that take a part each
					parts := make([]int, n)
					for i := range parts {
						parts[i] = 3
					}
					var err error
					product(parts, func(ix []int) {
						var args []string
						for k := 1; k <= 2; k++ {
							var l []string
							for i, p := range ix {
								if p == k {
									l = append(l, accts[i])
								}
							}
							if len(l) > 0 {
								args = append(args, "^("+strings.Join(l, "|")+")$")
							}
						}
						if err == nil && len(args) == 2 && (n < 6 || (signs+ix[0]+ix[2]+ix[4])%4 == 0) {
							err = run(args)
						}
					})
					if err != nil {
						return err
					}
					return nil
				})
			}
		}
	}
}

const clocksBound = "every pair of transactions of 3 states on 9 days around today, long ago and far ahead, of 2 kinds, under 5 clocks, without --current"

// clockPart has transactions of every state before, on and after the day that the clock shows: it
// must not matter unless it is asked for.
func clockPart(e *E, check func(x *X, files map[string]string, now int64) error) {
	e.Part("clocks")
	today := dayNumber(2023, 6, 15)
	days := []int{dayNumber(1, 1, 1), today - 400, today - 15, today - 1, today, today + 1, today + 16, today + 400, dayNumber(2999, 12, 31)}
	entry := func(i, k int) string {
		d := dayStr(days[i/6])
		s := []string{"", "! ", "* "}[i%3]
		if i/3%2 == 0 {
			return fmt.Sprintf("%s %sShop%d  ; n\n  Expenses:Food  £%d.50 ; c\n  Assets:Cash\n", d, s, k, k+2)
		}
		return fmt.Sprintf("~ %s\n  Food  £%d\n\n%s %sJob\n  Income:Job  £-%d\n  ; n\n  Assets:Bank  £%d\n", d[:7], k+9, d, s, k+5, k+5)
	}
	for i := 0; i < len(days)*6; i++ {
		for k := -1; k < len(days)*6; k++ {
			if !e.Mine() {
				e.Pass()
				continue
			}
			e.Do(func(x *X) error {
				x.Key("entries %d %d", i, k)
				text := entry(i, 0)
				if k >= 0 {
					text += []string{"", "\n"}[(i+k)%2] + entry(k, 1)
				}
				for _, now := range []int64{baseNow, baseNow - 86400*400, baseNow + 86400*3000, 1, 1687564799} {
					if err := check(x, one(text), now); err != nil {
						return err
					}
				}
				return nil
			})
		}
	}
}

func clockCases(cmds ...string) func(x *X, files map[string]string, now int64) error {
	return func(x *X, files map[string]string, now int64) error {
		for _, cmd := range cmds {
			if err := expectCase(x, Case{Cmd: cmd, Files: files, Now: now}); err != nil {
				return err
			}
		}
		return nil
	}
}

const nearBound = "some 600 names a character away from Income and Expenses, or with a word before or after, beginnings of them, and other names that budgets use, each alone and with an account below it, beside the real ones"

// nearNames has accounts that almost are those which have a meaning.
func nearNames(e *E, check func(x *X, text string) error) {
	e.Part("names near those with a meaning")
	for _, root := range []string{"Income", "Expenses"} {
		seen := map[string]bool{}
		var names []string
		add := func(s string) {
			if !seen[s] {
				seen[s] = true
				names = append(names, s)
			}
		}
		edits(root, []string{" ", ":", "s", "x", "-", "I", "E", "é", "1", ".", "i", "e"}, add)
		for _, w := range []string{"tax", "Tax", "s", "&", "and", "-", "1", "2020", "x:y", "(a)"} {
			for _, sep := range []string{" ", "", ":", "-", "_", "/", "."} {
				add(root + sep + w)
				add(w + sep + root)
			}
		}
		add(strings.ToLower(root))
		add(strings.ToUpper(root))
		add("Assets:" + root)
		for i := 1; i < len(root); i++ {
			add(root[:i])
			add(root[:i] + ".")
			add(strings.ToLower(root[:i]))
		}
		for _, w := range []string{"Assets", "Liabilities", "Equity", "Revenue", "Revenues", "Spending", "Funds", "Budget", "To Be Budgeted", "Envelope", "Savings", "Expense", "Incomes", "Salary", "_root_", "_budget_root_", "root", "Total", "Opening Balances", "Transfer"} {
			add(w)
			add(w[:1])
		}
		for ni, n := range names {
			for sub := 0; sub < 3; sub++ {
				if !e.Mine() {
					e.Pass()
					continue
				}
				e.Do(func(x *X) error {
					a := n + []string{"", ":a", ":Food"}[sub]
					x.Key("account %q", a)
					for k, f := range []string{
						"2020-01-01 p\n  Income:Job  £-9\n  Assets\n\n2020-01-04 p\n  %s  £-7\n  Assets\n\n2020-02-08 p\n  Expenses:Rent  £12\n  Cash\n",
						"2020-01-01 p\n  Income:Job  £-90\n  Assets\n\n2020-01-20 p\n  Income:Job  £-10\n  Assets\n\n2020-02-04 p\n  %s  £70\n  Assets\n\n2020-03-08 p\n  Expenses:Food  £25\n  %s:b  £5\n  Cash\n",
						"~ 2020-01\n  Food  £4\n  %s  £5\n  a  £1\n\n2020-01-04 p\n  %s  £7\n  Income:x\n\n2020-01-08 p\n  Expenses:Food  £3\n  %s  £-1\n  Cash\n",
					} {
						text := strings.ReplaceAll(f, "%s", a)
						if r := refParse(one(text), mainFile); r.Err != nil || r.Odd != "" {
							return nil
						}
						if err := check(x, text); err != nil {
							return Fail("form %d of %d: %w", k, ni, err)
						}
					}
					return nil
				})
			}
		}
	}
}
