package main

import (
	"fmt"
	"regexp"
	"strings"
)

// Vocabularies: values that differ from one another in as little, and in as many ways, as possible
// (a prefix, case, a component repeated or moved, a digit, a sign, a month's end). The parts below
// take every ordered pair of them, so that whatever a program may confuse two values by, there is a
// journal in which it would.

var vocabAccounts = []string{
	"A", "B", "A:B", "A:C", "B:A", "A:A", "a", "a:b", "A b", "A:b", "AB", "A.B", "A-B", "A:B:C", "A:B:B", "A:B:D", "A B:C", "A:B C", "A:1", "A:10", "A:2", "A:é", "A:É",
	"Assets", "Assets:Cash", "Assets:Cash:Purse", "Assets:Cashier", "Asset", "Liabilities:Card", "Equity",
	"Expenses", "Expenses:Food", "Expenses:Food:Out", "Expenses:Foo", "Expenses:food", "Expenses:Food Out", "Expenses2:Food", "Expenses Other:Food", "expenses:Food", "EXPENSES:Food", "Expenses:Expenses", "Expenses:Expenses:Food",
	"Expenses:Income", "Expenses:Rent", "Assets:Expenses:Food", "Food", "Food:Out",
	"Income", "Income:Job", "Income:Expenses", "Income:Food", "Incomes", "Income Tax", "income:Job", "Assets:Income",
	"A:_root_", "A:_root_:B", "_root_:B", "A:_budget_root_:B", "Expenses:_root_:Food",
	"A (x)", "A [x]:B", "A @ B", "A = B", "A|B", "A, B", "A/B", "desc:A", "not:A", "Expenses:(Food)", "Expenses:Food (x)",
}

var vocabPayees = []string{
	"", "Co", "co", "CO", "Co.", "Co,", "Co!", "Co Ltd", "Co ltd", "CoLtd", "Co-Ltd", "Co  Ltd", "Co : Ltd", "C", "Cooper", "A Co", "o", "1", "01", "1.0", "10", "é", "É", "e", "ß", "ss", "Co (x)", "Co [x]", "Co/x", "Co & x", "Co 'x'", "\"Co\"", "2020-01-01", "A:B", "£1", "(Co)", "Co\tx", "~", "include x", "%d", "Co\\", "(7) Co", "(7)", "[7]", "Co | x", "Co|x", "Co @ x", "=2020-01-05 Co", "= Co", "12:30 Co", "not:Co", "{Co}",
}

var vocabNotes = []string{"n", "N", "n.", "n n", "n  n", "n;n", "n ; n", "; n", "#n", "é", "1", "2020-01-01", "A  1", "n:m", "%s", "include x", "~ 2020-01", "n\tn", "n\\", "date:2020-02-03", "date: 2020-02-03", "[2020-02-03]", "[=2020-02-03]", ":n:", "n: m", "n:m, k:v", "payee: Co", "comment", "end comment"}

var vocabDates = []string{
	"0001-01-01", "1600-02-29", "1899-12-31", "1900-02-28", "1900-03-01", "1969-12-31", "1970-01-01", "1999-12-31", "2000-01-01", "2000-02-28", "2000-02-29", "2000-03-01", "2019-01-31", "2019-12-31",
	"2020-01-01", "2020-01-02", "2020-01-09", "2020-01-10", "2020-01-11", "2020-01-30", "2020-01-31", "2020-02-01", "2020-02-28", "2020-02-29", "2020-03-01", "2020-03-31", "2020-04-30", "2020-05-31", "2020-09-30", "2020-10-01", "2020-10-31", "2020-11-30",
	"2020-12-01", "2020-12-31", "2021-01-01", "2021-01-30", "2021-02-28", "2021-03-01", "2021-12-31", "2022-01-01", "2023-06-14", "2023-06-15", "2023-06-16", "2024-02-29", "2100-02-28", "2100-03-01", "9999-12-31",
}

var vocabAmounts = []string{
	"0", "0.00", "0.01", "0.1", "0.10", "0.99", "1", "1.0", "1.00", "01", "1.01", "1.1", "1.10", "1.09", "1.9", "1.99", "2", "9.99", "10", "10.1", "10.01", "11", "99", "99.9", "100", "101", "110", "999.99", "1000", "1000.01", "1234.56", "1001", "10000", "99999.99",
	"655.35", "655.36", "655.37", "327.67", "327.68", "21474836.47", "21474836.48", "42949672.95", "42949672.96", "16777.216"[:8], "167772.16", "167772.17", "90071992547409.92", "90071992547409.93", "4503599627370496.01", "45035996273704960.99",
}

const vocabBound = "every ordered pair of 71 account names, 52 payees, 29 notes, 50 amounts of either sign, and 47 dates (with each of them as a bound of the range), in 3 to 8 forms each; " + charsBound

// cases runs commands on a journal and compares them with the reference.
func cases(x *X, files map[string]string, cmds []string, layouts []Case) error {
	if len(layouts) == 0 {
		layouts = []Case{{}}
	}
	if r := x.read(files); r.Err != nil || r.Odd != "" {
		return checkJournal(x, files, cmds...)
	}
	for _, cmd := range cmds {
		ls := layouts
		if cmd != "balance" {
			ls = []Case{{}}
		}
		for _, l := range ls {
			l.Cmd, l.Files = cmd, files
			if err := expectCase(x, l); err != nil {
				return err
			}
		}
	}
	return nil
}

func pairs(e *E, name string, vocab []string, forms []func(a, b string) string, check func(x *X, text, a, b string) error) {
	e.Part(name)
	for _, a := range vocab {
		for _, b := range vocab {
			for k, f := range forms {
				if !e.Mine() {
					e.Pass()
					continue
				}
				text := f(a, b)
				e.Do(func(x *X) error {
					x.Key("%s %q %q form %d", name, a, b, k)
					return check(x, text, a, b)
				})
			}
		}
	}
}

var accountForms = []func(a, b string) string{
	func(a, b string) string {
		return fmt.Sprintf("2020-01-05 p\n  %s  £5\n  %s  £-5\n  X  £1\n  Y\n", a, b)
	},
	func(a, b string) string {
		return fmt.Sprintf("2020-01-05 p\n  %s  £5.01\n  Y\n  %s  £-3\n", a, b)
	},
	func(a, b string) string {
		return fmt.Sprintf("2020-01-05 p\n  %s  £1\n  Y\n\n2020-02-05 q\n  %s  £2\n  Y\n", a, b)
	},
	func(a, b string) string {
		return fmt.Sprintf("2020-02-05 p\n  %s  £3\n  %s  £-3\n2020-01-05 q\n  %s  £3\n  %s  £-3\n2020-01-05 r\n  Y  £7\n  Z  £-7\n", a, b, b, a)
	},
	func(a, b string) string {
		return fmt.Sprintf("~ 2020-01\n  %s  £4\n  %s  £6\n\n2020-01-05 p\n  %s  £1\n  Expenses:%s  £2\n  Cash\n~ 2020-02\n  %s  £1\n", a, b, b, a, b)
	},
	func(a, b string) string {
		return fmt.Sprintf("2020-01-31 p\n  %s  £-1\n  %s  £-1\n  %s  £2\n  Q\n\n2020-02-01 p\n  Q  £2\n  %s\n", a, b, a, b)
	},
}

// accountPairs runs the commands on every pair of account names.
func accountPairs(e *E, cmds []string, layouts []Case) {
	check := func(x *X, text, a, b string) error { return cases(x, one(text), cmds, layouts) }
	pairs(e, "pairs of accounts", vocabAccounts, accountForms, check)
	groupPairs(e, "pairs of confusable accounts", accountForms, check)
}

// quoted gives arguments derived from a name: it alone, a part, and the like.
func quoted(a string) []string {
	q := regexp.QuoteMeta(a)
	out := []string{"^" + q + "$", q, "^" + q, q + "$", strings.ToLower(q), "^" + strings.ToLower(q) + "$"}
	if i := strings.IndexAny(a, ": "); i > 0 {
		out = append(out, regexp.QuoteMeta(a[:i]), regexp.QuoteMeta(a[i:]))
	}
	return out
}

// accountArguments selects every name of the vocabulary by every other.
func accountArguments(e *E, cmds []string, layouts []Case) {
	f := []func(a, b string) string{func(a, b string) string {
		return fmt.Sprintf("2020-01-05 p\n  %s  £5\n  X  £-2\n  %s  £-3\n\n2020-01-06 %s\n  %s:sub  £1 ; %s\n  Y\n", a, b, b, b, a)
	}}
	check := func(x *X, text, a, b string) error {
		if r := x.read(one(text)); r.Err != nil || r.Odd != "" {
			return checkJournal(x, one(text), cmds...)
		}
		for _, arg := range quoted(b) {
			for _, kind := range []string{"", "@", "="} {
				for _, cmd := range cmds {
					if kind != "" && (cmd == "accounts" || cmd == "payees") {
						continue
					}
					for _, l := range layouts {
						c := Case{Cmd: cmd, Files: one(text), Args: []string{kind + arg}, Flat: l.Flat, Coll: l.Coll, Zero: l.Zero}
						if err := expectCase(x, c); err != nil {
							return err
						}
						if cmd != "balance" {
							break
						}
					}
				}
			}
		}
		return nil
	}
	pairs(e, "arguments from accounts", vocabAccounts, f, check)
	groupPairs(e, "arguments from confusable accounts", f, check)
}

var payeeForms = []func(a, b string) string{
	func(a, b string) string { return fmt.Sprintf("2020-01-05 %s\n\n2020-01-05 %s\n", a, b) },
	func(a, b string) string {
		return fmt.Sprintf("2020-02-05 * %s  ; n\n  A  £1\n  B\n2020-01-05 ! %s\n  A  £1\n  B\n2020-01-05 %s\n  A  £1\n  B\n", a, b, a)
	},
	func(a, b string) string {
		return fmt.Sprintf("2020-01-05 %s\n  ; %s\n  A  £1\n  B\n2020-01-05 %s\n  ; %s\n  B  £1\n  A\n", a, b, a, a)
	},
}

// payeePairs runs the commands on every pair of payees, and with each as a filter.
func payeePairs(e *E, cmds []string) {
	check := func(x *X, text, a, b string) error {
		r := x.read(one(text))
		if r.Err != nil || r.Odd != "" {
			return checkJournal(x, one(text), cmds...)
		}
		if err := cases(x, one(text), cmds, nil); err != nil {
			return err
		}
		for _, cmd := range cmds {
			if cmd == "budget" || cmd == "accounts" {
				continue
			}
			for _, arg := range quoted(b)[:3] {
				if cmd == "payees" && strings.HasPrefix(arg, "@") {
					continue
				}
				if cmd != "payees" {
					arg = "@" + arg
				}
				if err := expectCase(x, Case{Cmd: cmd, Files: one(text), Args: []string{arg}}); err != nil {
					return err
				}
			}
		}
		return nil
	}
	pairs(e, "pairs of payees", vocabPayees, payeeForms, check)
	groupPairs(e, "pairs of confusable payees", payeeForms, check)
}

var noteForms = []func(a, b string) string{
	func(a, b string) string {
		return fmt.Sprintf("2020-01-05 p  ; %s\n  A  £1\n  B\n2020-01-05 p  ; %s\n  A  £1\n  B\n", a, b)
	},
	func(a, b string) string {
		return fmt.Sprintf("2020-01-05 p  ; %s\n  ; %s\n  A  £1\n  B\n2020-01-05 q\n  ; %s\n  A  £1\n  B\n", a, b, b)
	},
	func(a, b string) string {
		return fmt.Sprintf("2020-01-05 p\n  ; %s\n  ; %s\n  A  £1 ; %s\n  ; %s\n  B\n", a, b, b, a)
	},
	func(a, b string) string {
		return fmt.Sprintf("2020-01-05 p\n  A  £1 ; %s\n  B  ; %s\n  ; %s\n2020-01-06 p\n  A  £1\n  B ; %s\n", a, b, a, b)
	},
	func(a, b string) string {
		return fmt.Sprintf("2020-01-05 p\n  A  £1\n  ; %s\n  A  £1\n  ; %s\n  A\n  ; %s\n", a, b, a)
	},
}

// notePairs runs the commands on every pair of notes in every place for them.
func notePairs(e *E, cmds []string) {
	check := func(x *X, text, a, b string) error {
		r := x.read(one(text))
		if r.Err != nil || r.Odd != "" {
			return checkJournal(x, one(text), cmds...)
		}
		for _, cmd := range cmds {
			for _, args := range [][]string{nil, {"=" + regexp.QuoteMeta(a)}, {"=^" + regexp.QuoteMeta(b) + "$"}} {
				if err := expectCase(x, Case{Cmd: cmd, Files: one(text), Args: args}); err != nil {
					return err
				}
			}
		}
		return nil
	}
	pairs(e, "pairs of notes", vocabNotes, noteForms, check)
	groupPairs(e, "pairs of confusable notes", noteForms, check)
}

// amountPairs runs the commands on every pair of amounts.
func amountPairs(e *E, cmds []string) {
	sign := func(s string) []string { return []string{s, "-" + s, "+" + s} }
	var all []string
	for i, a := range vocabAmounts {
		all = append(all, sign(a)[:2]...)
		if i%5 == 0 {
			all = append(all, sign(a)[2])
		}
	}
	forms := []func(a, b string) string{
		func(a, b string) string { return fmt.Sprintf("2020-01-05 p\n  A  £%s\n  B  £%s\n  C\n", a, b) },
		func(a, b string) string {
			return fmt.Sprintf("2020-01-05 p\n  A  £%s\n  C\n2020-01-06 p\n  C\n  A:B  £%s\n", a, b)
		},
		func(a, b string) string {
			return fmt.Sprintf("2020-01-05 p\n  A  £%s\n  A:B  £%s\n", a, b)
		},
		func(a, b string) string {
			return fmt.Sprintf("~ 2020-01\n  F  £%s\n2020-01-06 p\n  Expenses:F  £%s\n  Income\n", a, b)
		},
	}
	pairs(e, "pairs of amounts", all, forms, func(x *X, text, a, b string) error {
		return checkJournal(x, one(text), cmds...)
	})
}

// datePairs runs the commands on every pair of dates, with each date of the vocabulary as the
// beginning and as the end of the range, and as today.
func datePairs(e *E, cmds []string) {
	forms := []func(a, b string) string{
		func(a, b string) string {
			return fmt.Sprintf("%s p\n  Expenses:F  £2\n  Assets\n\n%s q\n  Assets  £3\n  Income:I\n", a, b)
		},
		func(a, b string) string {
			return fmt.Sprintf("%s p\n  Income:I  £-3\n  Assets:A\n~ %s\n  F  £1\n%s q\n  Expenses:F  £2\n  Assets:A\n%s r\n  Assets:A  £1\n  Expenses\n", a, a[:7], b, a)
		},
	}
	pairs(e, "pairs of dates", vocabDates, forms, func(x *X, text, a, b string) error {
		if err := cases(x, one(text), cmds, nil); err != nil {
			return err
		}
		for i, d := range vocabDates {
			for _, cmd := range cmds {
				c := Case{Cmd: cmd, Files: one(text)}
				if c.Begin = d; true {
					if err := expectCase(x, c); err != nil {
						return err
					}
				}
				if c.Begin, c.End = "", d; true {
					if err := expectCase(x, c); err != nil {
						return err
					}
				}
				c.Begin, c.End, c.Current, c.Now = "", "", true, int64(strDay(d))*86400+int64(i%24)*3600
				if c.Now <= 0 {
					continue
				}
				if err := expectCase(x, c); err != nil {
					return err
				}
			}
		}
		return nil
	})
}

// agePairs checks the age of money over pairs of dates and of accounts.
func agePairs(e *E) {
	run := func(x *X, text, a, b string) error {
		if r := x.parsed(one(text)); r.Err != nil { // the name is none
			return checkJournal(x, one(text), "statistics")
		}
		_, err := checkAge(x, text)
		return err
	}
	pairs(e, "pairs of accounts", vocabAccounts, []func(a, b string) string{
		func(a, b string) string {
			return fmt.Sprintf("2020-01-01 p\n  Income:Job  £-9\n  Assets\n\n2020-01-08 p\n  %s  £2\n  %s  £1\n  Cash\n\n2020-03-01 p\n  Expenses:Rent  £1\n  Cash\n", a, b)
		},
		func(a, b string) string {
			return fmt.Sprintf("2020-01-01 p\n  %s  £-9\n  Assets\n\n2020-01-04 p\n  %s  £-7\n  Assets\n\n2020-02-08 p\n  Expenses:Rent  £4\n  Cash\n\n2020-02-28 p\n  Expenses  £3.50\n  Cash\n", a, b)
		},
		func(a, b string) string {
			return fmt.Sprintf("2020-01-01 p\n  Income  £-5\n  Income:Job  £-5\n  Assets\n\n2020-01-04 p\n  %s  £-7\n  %s  £8\n  Assets\n\n2020-02-08 p\n  Expenses:Rent  £4\n  %s  £1\n  Cash\n", a, b, b)
		},
	}, run)
	pairs(e, "pairs of dates", vocabDates, []func(a, b string) string{
		func(a, b string) string {
			return fmt.Sprintf("%s p\n  Income:Job  £-9\n  Assets\n\n%s p\n  Expenses:F  £2\n  Cash\n", a, b)
		},
		func(a, b string) string {
			return fmt.Sprintf("%s p\n  Expenses  £1\n  Cash\n%s p\n  Expenses:F  £2\n  Cash\n0001-01-01 p\n  Income  £-1\n  C\n1999-06-30 p\n  Income  £-2\n  C\n", a, b)
		},
		func(a, b string) string {
			return fmt.Sprintf("%s p\n  Income  £-1\n  Cash\n%s p\n  Income:F  £-2\n  Cash\n9999-12-31 p\n  Expenses  £1.50\n  C\n2105-06-30 p\n  Expenses  £1\n  C\n", a, b)
		},
	}, run)
	e.Part("pairs of amounts")
	for _, a := range vocabAmounts {
		for _, b := range vocabAmounts {
			if !e.Mine() {
				e.Pass()
				continue
			}
			e.Do(func(x *X) error {
				x.Key("amounts %s %s", a, b)
				for _, text := range []string{
					fmt.Sprintf("2020-01-01 p\n  Income  £-%s\n  C\n2020-01-05 p\n  Income  £-%s\n  C\n2020-02-01 p\n  Expenses  £%s\n  C\n2020-03-01 p\n  Expenses  £%s\n  C\n", a, b, b, a),
					fmt.Sprintf("2020-01-01 p\n  Income  £-%s\n  C\n2020-01-05 p\n  Income  £-1000000000000000\n  C\n2020-02-01 p\n  Expenses  £%s\n  C\n2020-03-01 p\n  Expenses  £0.01\n  C\n", a, b),
				} {
					if err := run(x, text, a, b); err != nil {
						return err
					}
				}
				return nil
			})
		}
	}
}

// mapPairs runs every pair of names under every order of map iteration.
func mapPairs(e *E) {
	check := func(x *X, text, a, b string) error {
		for _, c := range []Case{{Cmd: "print"}, {Cmd: "balance"}, {Cmd: "balance", Flat: true, Zero: true}, {Cmd: "balance", Coll: true}, {Cmd: "accounts"}, {Cmd: "payees"}, {Cmd: "statistics"}, {Cmd: "budget"}} {
			c.Files, c.Now, c.Maps = one(text), baseNow, []int{0}
			base := x.Run(c)
			x.Outcome(base.Out)
			x.Step(1)
			for s := 1; s < 8; s++ {
				c.Maps = []int{s}
				if err := sameRun(base, x.Run(c), fmt.Sprintf("%s: starting every map iteration at slot %d", c.Cmd, s)); err != nil {
					return err
				}
			}
		}
		return nil
	}
	f := accountForms
	if !e.Thorough {
		f = f[2:5]
	}
	pairs(e, "pairs of accounts", vocabAccounts, f, check)
	pairs(e, "pairs of payees", vocabPayees, payeeForms[:1], check)
}

// agreePairs checks that the commands agree about every pair of values.
func agreePairs(e *E) {
	check := func(x *X, text, a, b string) error {
		r := x.read(one(text))
		if r.Err != nil || r.Odd != "" {
			return nil
		}
		_, err := gather(x, Case{Files: one(text)})
		return err
	}
	pairs(e, "pairs of accounts", vocabAccounts, accountForms, check)
	pairs(e, "pairs of payees", vocabPayees, payeeForms, check)
	groupPairs(e, "pairs of confusable accounts", accountForms[:4], check)
	groupPairs(e, "pairs of confusable payees", payeeForms, check)
	nameOrders(e, accountForms[2:3], func(s string) string { return "2020-01-05 " + s + "\n  " + s + "  1\n  B\n" }, check)
	pairs(e, "pairs of dates", vocabDates, []func(a, b string) string{func(a, b string) string {
		return fmt.Sprintf("%s p\n  Expenses:F  £2\n  Assets\n\n%s q\n  Assets  £3\n  Income:I\n%s r\n", a, b, a)
	}}, check)
	pairs(e, "pairs of amounts", vocabAmounts, []func(a, b string) string{func(a, b string) string {
		return fmt.Sprintf("2020-01-05 p\n  A  £%s\n  A:B  £-%s\n  C\n\n2020-01-05 q\n  A:C  £-%s\n  A\n", a, b, a)
	}}, check)
}

// tripPairs checks that printing keeps every pair of values.
func tripPairs(e *E) {
	check := func(x *X, text, a, b string) error { return roundTrip(x, one(text)) }
	pairs(e, "pairs of accounts", vocabAccounts, accountForms[:2], check)
	pairs(e, "pairs of payees", vocabPayees, payeeForms[1:], check)
	pairs(e, "pairs of notes", vocabNotes, noteForms, check)
	groupPairs(e, "pairs of confusable accounts", accountForms[:2], check)
	groupPairs(e, "pairs of confusable payees", payeeForms[1:], check)
	groupPairs(e, "pairs of confusable notes", noteForms, check)
	pairs(e, "pairs of dates", vocabDates, []func(a, b string) string{func(a, b string) string {
		return fmt.Sprintf("%s p\n  A  £2\n  Assets\n\n%s q\n  Assets  £3\n  Income:I\n%s r\n", a, b, a)
	}}, check)
	pairs(e, "pairs of amounts", vocabAmounts, []func(a, b string) string{func(a, b string) string {
		return fmt.Sprintf("2020-01-05 p\n  A  £%s\n  B  £-%s\n  C\n\n2020-01-05 q\n  A  £-%s\n  D\n", a, b, a)
	}}, check)
}
