package main

import (
	"fmt"
	"strings"
)

// featuresBound describes featurePart.
const featuresBound = "every transaction of 3 states x payee or none x header note or none x note or none x a first posting of 5 amounts (omitted, zero with and without commodity, positive, negative), with or without a comment x a second one likewise, to the same account, one below it or another x what comes after x 3 ways to write it down (LF, CRLF with comments between, in an included file), each with 4 (thorough: 12) of 12 lists of filters where filters matter"

var featureArgs = [][]string{nil, {"^a$"}, {"a", "=pn"}, {"=pn", "^a"}, {"@pay"}, {"=hn"}, {"=tn", "rest"}, {"a:b", "@^$"}, {"=qn", "=pn"}, {"rest", "a", "=qn"}, {"nosuch", "=tn"}, {"@nosuch", "^a"}}

// featureJournals gives every combination of the parts of a transaction, two at a time with all
// others: what one part is must not change what becomes of another.
func featureJournals(names [4]string, f func(name string, files map[string]string)) {
	states := []string{"", "! ", "* "}
	amounts := []string{"", "£0", "£5", "£5.25", "£-5.25"}
	accts := names[:3]
	product([]int{3, 2, 2, 2, 5, 2, 5, 2, 3, 2, 3}, func(ix []int) {
		if ix[4] == 0 && ix[6] == 0 { // two without an amount
			return
		}
		var b strings.Builder
		b.WriteString("2020-02-03 " + states[ix[0]])
		if ix[1] == 1 {
			b.WriteString("Payee")
		}
		if ix[2] == 1 {
			b.WriteString("  ; hn")
		}
		b.WriteString("\n")
		if ix[3] == 1 {
			b.WriteString("  ; tn\n")
		}
		posting := func(acct, amount string, comment bool, c string) {
			b.WriteString("  " + acct)
			if amount != "" {
				b.WriteString("  " + amount)
			}
			if comment {
				b.WriteString("  ; " + c)
			}
			b.WriteString("\n")
		}
		posting(names[0], amounts[ix[4]], ix[5] == 1, "pn")
		posting(accts[ix[8]], amounts[ix[6]], ix[7] == 1, "qn")
		// a third posting makes it balance, or shows that what is omitted does
		if ix[4] == 0 || ix[6] == 0 {
			posting(names[3], "£1", false, "")
		} else if ix[9] == 0 {
			posting(names[3], "", ix[5] == 1, "rn")
		} else {
			q := []int64{0, 0, 500, 525, -525}
			posting(names[3], "£"+fmtQ(-q[ix[4]]-q[ix[6]]), ix[7] == 1, "rn")
		}
		text := b.String()
		if ix[9] == 0 {
			text += "\n"
		}
		after := "2020-02-01 Payee\n  " + names[3] + ":d  £3\n  " + names[0] + "  £-3 ; rn\n"
		files := one(text + after)
		switch ix[10] {
		case 1:
			files = one(strings.ReplaceAll(strings.ReplaceAll(text, "\n  ", "\n; c\n  ")+after, "\n", "\r\n"))
		case 2:
			files = map[string]string{mainFile: after + "include x", "x": strings.TrimRight(text, "\n")}
		}
		f(fmt.Sprint("features ", ix), files)
	})
}

// featurePart runs command lines on all of them; with each, a quarter of the filters in the quick tier.
func featurePart(e *E, cmds []string, layouts []Case) {
	names := [4]string{"a", "a:b", "c", "rest"}
	if cmds[0] == "budget" {
		names = [4]string{"Expenses:F", "Expenses:F:G", "Income:J", "Assets"}
	}
	features(e, names, func(x *X, turn int, files map[string]string) error {
		return featureCases(x, turn, files, cmds, layouts)
	})
}

// features runs a check on all of them.
func features(e *E, names [4]string, check func(x *X, turn int, files map[string]string) error) {
	e.Part("features")
	n := 0
	featureJournals(names, func(name string, files map[string]string) {
		n++
		turn := n
		if !e.Mine() {
			e.Pass()
			return
		}
		e.Do(func(x *X) error {
			x.Key("%s", name)
			x.Sample(jsonString(files))
			return check(x, turn, files)
		})
	})
}

func featureCases(x *X, turn int, files map[string]string, cmds []string, layouts []Case) error {
	if len(layouts) == 0 {
		layouts = []Case{{}}
	}
	for _, cmd := range cmds {
		args := featureArgs
		if cmd == "accounts" || cmd == "payees" {
			args = [][]string{nil, {"a:", "P"}}
		}
		if cmd == "budget" {
			args = [][]string{nil}
		}
		for ai, a := range args {
			if !x.w.Thorough && len(args) > 2 && ai > 0 && ai%4 != turn%4 {
				continue
			}
			for li, l := range layouts {
				if li > 0 && cmd != "balance" {
					break
				}
				if err := expectCase(x, Case{Cmd: cmd, Files: files, Args: a, Flat: l.Flat, Coll: l.Coll, Zero: l.Zero}); err != nil {
					return err
				}
			}
		}
	}
	return nil
}
