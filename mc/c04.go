package main

import (
	"fmt"
	"regexp"
	"strings"
)

func init() {
	register(&Space{
		ID:   "C04",
		Rule: "every short string over a hostile alphabet in every grammatical position, every sequence of hostile lines, every hostile filter argument and date value: each command must return or exit with an error, without a panic, a hang, or an internal failure printed in place of a value; where the reference grammar settles the meaning the report must also be right",
		Bound: map[string]string{
			"lists of arguments": "every list of up to 4 (thorough: 5) out of 9 arguments, 6 of them in error, for every command",
			"widths":             widthsBound,
			"siblings":           siblingsBound,
			"long parts":         longPairsBound,
			"characters":         oddRunesBound,
			"sizes of parts":     sizesBound,
			"formats":            "36 directives of formatting functions, escapes and templates in each of 31 places of a journal (alone and included), in 6 arguments and flags: the outputs are those with plain letters in their place",
			"strings":            "14 characters (incl. invalid UTF-8 and multi-byte), length 0..4 (quick) / 5 (thorough), 13 positions, all six commands to length 3, print beyond",
			"lines":              "27 line kinds, sequences to length 3 (quick) / 4 (thorough), all six commands to length 3",
			"arguments":          "19 regexp characters to length 3, 10 date characters to length 4 (quick) / 5 (thorough)",
			"edits":              "4 journals of all kinds of entries with every part left out and every character replaced or preceded by each of 27; dates two edits away from 4",
			"accounts":           "11 odd account names, triples, all balance layouts and budget",
		},
		Run: runC04,
	})
}

func noCrash(x *X, c Case) error {
	o := x.Run(c)
	x.Outcome(o.Out + o.Panic)
	x.Step(1)
	x.State(c.Cmd, o.Rejected(), strings.Count(o.Out, "\n"))
	if why := o.Crashed(); why != "" {
		return Fail("%s: %s", c.Cmd, why)
	}
	for _, bad := range []string{"%!", "<nil>", "0xc0"} {
		if strings.Contains(o.Out, bad) {
			return Fail("%s: internal failure in the output: %s", c.Cmd, clip(o.Out))
		}
	}
	return nil
}

var amountError = regexp.MustCompile(`error parsing amount.*`)

// samePlain compares a run with one in which a plain token stood for the odd one.
func samePlain(x *X, odd, plain Obs, token, plainToken, what string) error {
	x.Outcome(odd.Out)
	x.Step(1)
	if c := odd.Crashed(); c != "" {
		return Fail("%s: %s", what, c)
	}
	quote := func(s string) string { return strings.Trim(fmt.Sprintf("%q", s), "\"") }
	want, got := plain.Out, odd.Out
	for i, f := range strings.Fields(token) { // it may be shown in parts
		want = strings.ReplaceAll(want, strings.Fields(plainToken)[i], f)
		got = strings.ReplaceAll(got, quote(f), f) // an error may quote it
	}
	if odd.Rejected() && plain.Rejected() {
		// how much of it was taken for an amount is a matter of its characters
		if bad := "%!"; strings.Contains(got, bad) && !strings.Contains(token, bad) {
			return Fail("%s: internal failure in the output: %s", what, clip(got))
		}
		want, got = amountError.ReplaceAllString(want, ""), amountError.ReplaceAllString(got, "")
	}
	if want != got || odd.Exit != plain.Exit {
		return Fail("%s: with %s\n%s--- but with %s\n%s", what, token, clip(odd.Out), plainToken, clip(plain.Out))
	}
	return nil
}

func runC04(e *E) {
	alpha := []string{" ", "\t", "\n", "\r", "A", "1", "-", ".", ";", "~", "£", "\xff", "/", "*"}
	contexts := []struct{ pre, post string }{
		{"", ""},
		{"2020-01-01", ""},
		{"2020-01-01 ", "\n  A  1\n  B\n"},
		{"2020-01-01 p\n", "\n"},
		{"2020-01-01 p\n  ", "\n  B\n"},
		{"2020-01-01 p\n  A", ""},
		{"2020-01-01 p\n  A  ", "\n  B\n"},
		{"2020-01-01 p\n  A  1", "\n  B\n"},
		{"2020-01-01 p\n  A  £", "\n  B"},
		{"2020-01-01 p\n  A  1\n  B\n", "\n2020-01-02 q\n"},
		{"~ ", "\n  A  1\n"},
		{"~ 2020-01\n", "\n  A  1\n\n  B  2\n"},
		{"include ", "\n"},
	}
	e.Part("strings in positions")
	hi := 4
	if e.Thorough {
		hi = 5
	}
	strs(alpha, 0, hi, func(s string) {
		n := len([]rune(s))
		for c := range contexts {
			if !e.Mine() {
				e.Pass()
				continue
			}
			text := contexts[c].pre + s + contexts[c].post
			e.Do(func(x *X) error {
				x.Key("%q in position %d", s, c)
				x.Sample(text)
				cmds := allCommands
				if n > 3 {
					cmds = []string{"print"}
				}
				for _, cmd := range cmds {
					if err := noCrash(x, Case{Cmd: cmd, Files: one(text)}); err != nil {
						return err
					}
				}
				return nil
			})
		}
	})

	e.Part("edits")
	for k, seed := range append([]string{periodSeed}, editSeeds...) {
		edits(seed, editAlphabet, func(text string) {
			if !e.Mine() {
				e.Pass()
				return
			}
			e.Do(func(x *X) error {
				x.Key("edit of %d: %q", k, text)
				for _, cmd := range allCommands {
					if err := noCrash(x, Case{Cmd: cmd, Files: map[string]string{mainFile: text, "x": editInclude}}); err != nil {
						return err
					}
				}
				return nil
			})
		})
	}

	e.Part("line sequences")
	lines := []string{
		"", "2020-01-01 p", "2020-01-01", "2020-01-01 * p ; n", "2020", "~ 2020-02", "~", "~ ", "~2020-02", "include x", "include y", "include m.journal", "include", "include nope", "include .", "i",
		"  A  1", "  B  -1", "  C", "  Expenses  5", "  Expenses:", "  Income:Job  -5", "  ; c", ";", "    ", " A  1", "  :  1",
	}
	x1 := "2020-03-03 x\n  A  1\n  Expenses:F\n"
	y1 := "~ 2020-03\n  F  3\n  G  2"
	hi = 3
	if e.Thorough {
		hi = 4
	}
	seqs(len(lines), 1, hi, func(ix []int) {
		if !e.Mine() {
			e.Pass()
			return
		}
		var l []string
		for _, i := range ix {
			l = append(l, lines[i])
		}
		files := map[string]string{mainFile: strings.Join(l, "\n"), "x": x1, "y": y1}
		e.Do(func(x *X) error {
			x.Key("lines %q", l)
			r := x.parsed(files)
			cmds := allCommands
			if len(ix) > 3 {
				cmds = []string{"print", "budget"}
			}
			for _, cmd := range cmds {
				c := Case{Cmd: cmd, Files: files}
				if err := noCrash(x, c); err != nil {
					return err
				}
				// an entry "include ." names a directory, which the reference does not model
				if r.Err == nil || r.Err.Why != "no such file" {
					if err := checkReport(x.trail[len(x.trail)-1].Obs, r, cmd); err != nil {
						return err
					}
				}
			}
			return nil
		})
	})

	e.Part("filter arguments")
	journal := "2020-01-01 * Shop  ; a note\n  Assets:Cash  £1.00 ; (c)\n  Expenses:Food\n\n2020-01-02 @x\n  =y\n" // the second is in error
	journal = strings.Replace(journal, "\n2020-01-02 @x\n  =y\n", "\n2020-01-02 a@x\n  B  2\n  C\n", 1)
	strs(strings.Split(`()[]*+?\aA@=^$|{}.-`, ""), 0, 3, func(s string) {
		for _, cmd := range allCommands {
			if !e.Mine() {
				e.Pass()
				continue
			}
			e.Do(func(x *X) error {
				x.Key("%s with argument %q", cmd, s)
				return noCrash(x, Case{Cmd: cmd, Files: one(journal), Args: []string{s}})
			})
		}
	})
	for _, s := range []string{"\xff", "a\xff", "£", "(?P<n>", "(?i", "(?z)", `\p{Greek}`, `\pX`, `\Q`, "a{1001}", "a{2,1}", "[[:alpha:]]", "[[:x:]]", strings.Repeat("(", 1200), strings.Repeat("a?", 500), "((((a{100}){100}){100}){100})", "\n", "@", "=", "@(", "=(", "@@", "==", "@=", " "} {
		for _, cmd := range allCommands {
			e.Do(func(x *X) error {
				x.Key("%s with argument %q", cmd, s)
				return noCrash(x, Case{Cmd: cmd, Files: one(journal), Args: []string{s, "a"}})
			})
		}
	}

	e.Part("date values")
	hi = 4
	if e.Thorough {
		hi = 5
	}
	dates := []string{}
	strs(strings.Split("012/-. 9aé", ""), 0, hi, func(s string) { dates = append(dates, s) })
	for _, y := range []string{"2020", "0000", "9999", "-2020", "20 0"} {
		strs([]string{"/", "-", ".", "0", "1", "2"}, 1, 5, func(s string) { dates = append(dates, y+s) })
	}
	for _, d := range []string{"2020/01/02", "2020-01", "01.02", "2020"} {
		few := strings.Split("/-.019a", "")
		edits(d, few, func(s string) {
			edits(s, few, func(s string) { dates = append(dates, s) })
		})
	}
	for i, s := range dates {
		if !e.Mine() {
			e.Pass()
			continue
		}
		e.Do(func(x *X) error {
			cmd := allCommands[i%len(allCommands)]
			x.Key("%s with date %q", cmd, s)
			if err := noCrash(x, Case{Cmd: cmd, Files: one(journal), Begin: s}); err != nil {
				return err
			}
			return noCrash(x, Case{Cmd: cmd, Files: one(journal), End: s})
		})
	}

	e.Part("formats")
	// what is a directive to a formatting function means no more than another character
	forms := []string{
		"2020-01-01 T\n  A  1\n  B\n", "2020-01-01 p ; T\n  ; T\n  A  1 ; T\n  B\n  ; T\n", "2020-01-01 p\n  T  1\n  B:T\n", "2020-01-01 p\n  A  T1\n  B  T-1\n", "2020-01-01 p\n  A  £T\n  B\n", "2020-01-01 p\n  A  1T\n  B\n",
		"2020-01-01 p\n  A  1  T\n  B\n", "2020-01-01 p\n  A  1 T\n  B\n", "2020-01-01 p\n  A  1\n  B  2\n  ; T\n", "2020-01-01 p\n  A  1\n  B\n  C:T\n", "2020-01-01 T\n  A  1\n", "T", "T\n", "inT", "2T\n", "2020-01-T p\n  A  1\n", "2020-01-01T\n",
		"~ T\n  A  1\n", "~ 2020-01\n  T  1\n\n2020-01-01 p\n  Expenses:T  1\n  Income:T\n", "~T\n", "  T  1\n", "2020-01-01 p\n  (T)  1\n", "2020-01-01 p\n  =T  1\n  B\n", "include T", "include x/T\n", "include Tx", "include T/y", "; T\n2020-01-01 p\n  A  1\n  B\n", "2020-01-01 p\n  A:T  1\n  A:T:T  2\n  T\n", "2020-01-01 p\n  A  TT1\n  B\n", "2020-01-01 p\n  A T 1\n  B\n",
	}
	verbs := []string{"%d", "%s", "%v", "%%", "%", "%!", "%!s(MISSING)", "%[1]d", "%[2]*.[1]*f", "%*d", "%n", "%x", "%q", "%.2f", "%05d", "%+v", "%T", "%p", "%c", "%U", "% d", "%-20s", "%1000000d", "%w", "%z", "\\n", "\\x00", "${A}", "$1", "$0", "{{.}}", "{}", "<b>", "&lt", "\\t", "\\"}
	for vi, v := range verbs {
		plain := strings.NewReplacer("%", "q", "\\", "q", "$", "q", "{", "q", "}", "q", "<", "q", ">", "q", "&", "q").Replace(v)
		for fi := range forms {
			for kind := 0; kind < 2; kind++ { // in an included file
				if !e.Mine() {
					e.Pass()
					continue
				}
				e.Do(func(x *X) error {
					x.Key("format %d %q kind %d", fi, v, kind)
					token := func(s string) string { return "Z" + s + "Z" }
					lay := func(s string) map[string]string {
						text := strings.ReplaceAll(forms[fi], "T", token(s))
						files := map[string]string{mainFile: text, token(s) + "x": "2020-01-02 T\n  A  1\n  B\n"}
						if kind == 1 {
							files = map[string]string{mainFile: "2020-02-01 p\n  C  1\n  B\n\ninclude d" + token(s), "d" + token(s): text}
						}
						if strings.ContainsAny(s, "/") {
							delete(files, token(s)+"x")
						}
						return files
					}
					for _, c := range []Case{{Cmd: "print"}, {Cmd: "balance"}, {Cmd: "balance", Flat: true}, {Cmd: "balance", Coll: true, Zero: true}, {Cmd: "accounts"}, {Cmd: "payees"}, {Cmd: "statistics"}, {Cmd: "budget"}} {
						c.Files = lay(v)
						a := x.Run(c)
						c.Files = lay(plain)
						b := x.Run(c)
						if err := samePlain(x, a, b, token(v), token(plain), c.Cmd); err != nil {
							return err
						}
					}
					return nil
				})
			}
		}
		for ci, cmd := range allCommands {
			e.Do(func(x *X) error {
				x.Key("format argument %q of %s", v, cmd)
				text := one("2020-01-01 Z" + v + "Z\n  A:Z" + v + "Z  1 ; Z" + v + "Z\n  B\n")
				for _, f := range []func(c *Case, s string){
					func(c *Case, s string) { c.Begin = "Z" + s + "Z" }, func(c *Case, s string) { c.End = "Z" + s + "Z" }, func(c *Case, s string) { c.File = "Z" + s + "Z" },
					func(c *Case, s string) { c.Raw = []string{cmd, "-f", mainFile, "--Z" + s + "Z"} }, func(c *Case, s string) { c.Raw = []string{"Z" + s + "Z", "-f", mainFile} }, func(c *Case, s string) { c.Raw = []string{cmd, "-f", mainFile, "--current=Z" + s + "Z"} },
				} {
					c := Case{Cmd: cmd, Files: text}
					f(&c, v)
					a := x.Run(c)
					f(&c, plain)
					if err := samePlain(x, a, x.Run(c), "Z"+v+"Z", "Z"+plain+"Z", fmt.Sprint(c.argv(false))); err != nil {
						return err
					}
				}
				x.State("format", vi, ci)
				return nil
			})
		}
	}
	e.Part("odd accounts")
	e.Part("odd accounts")
	accts := []string{"A", "A:", "A::", "A::B", "A: :B", "Expenses", "Expenses:", "Expenses::F", "Income", "Income:", "Expenses:F:G"}
	product([]int{len(accts), len(accts), len(accts)}, func(ix []int) {
		if !e.Mine() {
			e.Pass()
			return
		}
		text := "~ 2020-01\n  " + accts[ix[2]] + "  £4\n  F  £1\n\n2020-01-01 p\n  " + accts[ix[0]] + "  £1\n  " + accts[ix[1]] + "  £2\n  " + accts[ix[2]] + "\n"
		e.Do(func(x *X) error {
			x.Key("accounts %q %q %q", accts[ix[0]], accts[ix[1]], accts[ix[2]])
			for _, c := range []Case{{Cmd: "budget"}, {Cmd: "statistics"}, {Cmd: "balance"}, {Cmd: "balance", Flat: true}, {Cmd: "balance", Coll: true}, {Cmd: "balance", Zero: true}, {Cmd: "balance", Flat: true, Zero: true}, {Cmd: "balance", Coll: true, Zero: true}} {
				c.Files = one(text)
				if err := noCrash(x, c); err != nil {
					return err
				}
			}
			return nil
		})
	})
	charPart(e, func(x *X, files map[string]string) error {
		for _, cmd := range allCommands {
			if err := noCrash(x, Case{Cmd: cmd, Files: files}); err != nil {
				return err
			}
		}
		return nil
	})
	longPairs(e, func(x *X, files map[string]string) error {
		return noCrash(x, Case{Cmd: "print", Files: files})
	})
	sizePart(e, 1100, nil, func(x *X, files map[string]string) error {
		for _, c := range []Case{{Cmd: "print"}, {Cmd: "balance"}, {Cmd: "balance", Flat: true, Zero: true}, {Cmd: "balance", Coll: true}, {Cmd: "accounts"}, {Cmd: "payees"}, {Cmd: "statistics"}, {Cmd: "budget"}} {
			c.Files = files
			o := x.Run(c)
			x.Outcome(o.Out)
			if bad := o.Crashed(); bad != "" {
				return Fail("%s: %s", c.Cmd, bad)
			}
		}
		return nil
	})
	widthPart(e, []string{"balance"}, allLayouts)
	siblingPart(e, []string{"balance"}, allLayouts)
	e.Part("lists of arguments")
	hi = 4
	if e.Thorough {
		hi = 5
	}
	vocabulary := []string{"a", "@A", "=", "(", "[", "*", "@(", "=+", "\\"}
	seqs(len(vocabulary), 1, hi, func(ix []int) {
		if !e.Mine() {
			e.Pass()
			return
		}
		var args []string
		bad := false
		for _, i := range ix {
			args = append(args, vocabulary[i])
			bad = bad || i > 2
		}
		e.Do(func(x *X) error {
			x.Key("arguments %q", args)
			for _, cmd := range allCommands {
				if err := noCrash(x, Case{Cmd: cmd, Files: one(journal), Args: args}); err != nil {
					return err
				}
				if o := x.trail[len(x.trail)-1].Obs; bad && cmd != "budget" && !o.Rejected() {
					valid := cmd == "accounts" || cmd == "payees" // where @ and = are no prefixes
					for _, i := range ix {
						_, err := regexp.Compile(vocabulary[i])
						valid = valid && err == nil
					}
					if !valid {
						return Fail("%s: no error but\n%s", cmd, clip(o.Out))
					}
				}
			}
			return nil
		})
	})
}
