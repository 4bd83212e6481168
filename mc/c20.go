package main

import (
	"fmt"
	"path"
	"strings"
)

func init() {
	register(&Space{
		ID:   "C20",
		Rule: "every kind of error at every position among valid entries, in the main file and in files included one to three levels deep from different directories, under every command with and without filters and date ranges: the output must be an error that names the faulty entry's file, a line of the entry (or the line that ends it) and the line of every include on the way, and must contain nothing of a report",
		Bound: map[string]string{
			"surroundings of a run": sameAsksBound,
			"other dialects":        dialectsBound2,
			"other kinds of file":   magicBound,
			"entries before":        "5 errors after every number of 6 other kinds of entry to 30 and around 64, 100, 128 and 256, under every command",
			"transactions before":   "4 errors after every number of transactions from 0 to 70 and 34 numbers around powers of two, and the sizes a growing slice has, up to 4097, with ascending, equal, descending or mixed dates, for every command",
			"neighbours":            neighboursBound,
			"surroundings":          nestsBound,
			"errors":                "56 kinds of faulty entry",
			"positions":             "0..3 entries of 6 kinds before (all combinations up to 3; thorough 5), 4 endings after",
			"lines":                 "an error after 25 numbers of lines from 999 to 200000, before, within and around the faulty entry",
			"files":                 "errors in and below files of 36 names",
			"characters":            "each of 170 odd characters at 9 places before an error",
			"nesting":               "0..3 includes, with 0..2 entries before and after each directive",
			"commands":              "9 command lines for every position of an error, and 18 for every kind of it",
		},
		Run: runC20,
	})
}

// faulty entries; Zqx never occurs in them, but in every valid entry.
var faults = []string{
	"2020-13-01 x\n  A  1\n  B\n", "2020-02-30 x", "2020-00-10 x\n  A  1\n  B", "20x", "2020", "2020-01-01x\n  A  1\n  B", "2020-1-1 x\n", "2020-01/01 x\n  A  1\n  B", "1", "٣",
	"2020-01-01 x\n  A  12x\n  B", "2020-01-01 x\n  A  1\n  B  1..2\n", "2020-01-01 x\n  A  £\n  B", "2020-01-01 x\n  A  £ \n  B", "2020-01-01 x\n  A  --1\n  B",
	"2020-01-01 x\n  ; note\n  A  1.234\n  B\n", "2020-01-01 x\n  A  1.\n  B", "2020-01-01 x\n  A  92233720368547758.08\n  B", "2020-01-01 x\n  A  1 2\n  B\n", "2020-01-01 x\n  A  1  2\n  B\n", "2020-01-01 x\n  A  1 USD\n  B\n",
	"2020-01-01 x\n  A  1\n  B  2", "2020-01-01 x\n  A  1\n  B  2\n", "2020-01-01 x\n  A  1\n  B  2\n  ; n\n\t\n", "2020-01-01 x\n  A  1", "2020-01-01 x ; n\n; c\n  A  0.01\n; d", "2020-01-01 x\n  A  1\n  B  -1\n  C  1\n  D  0",
	"2020-01-01 x\n  A\n  B", "2020-01-01 x\n  A\n  B\n  C  1\n", "2020-01-01 x\n  A  1\n  B\n  C  ; n\n  D  2", "2020-01-01 x\n  A  5\n  B\n  C\n",
	"2020-01-01 x\n  -A  1\n  B", "2020-01-01 x\n  A  1\n  (B)\n", "2020-01-01 x\n  A  1\n  7  -1\n", "2020-01-01 x\n A  1\n  B", "2020-01-01 x\n  A  1\n  B\n  £ 3",
	"zzz", " ", " x", "-", "!", "ünknown", "include", "include ", "incl d", "include nope", "include e", "include e/", "include ./e/.  ; c", "include loop", "include loop/z", "include e/z/z", "include " + strings.Repeat("n", 300), "include " + strings.Repeat("n/", 3000) + "n", "include ./e/../nope  ; c", "~2020-01\n  A  1", "~", "  A  1", "\tA", "  A  1\n  B\n",
	"~ 2020-01\n  A  x\n", "~ 2020-01\n  A\n  B\n", "~ 2020-01\n  A  1\n  .\n",
}

func runC20(e *E) {
	askSame(e, "print", "balance", "budget")
	valid := []string{
		"2020-01-02 Zqx\n  Zqx:A  1\n  Zqx:B\n", "2020-01-02 Zqx\n  Zqx:A  1\n  Zqx:B  -1", "; Zqx\n", "\n\n", "~ 2020-01\n  Zqx  1\n", "2020-01-02 Zqx\r\n\tZqx:A  1\r\n; c\r\n  Zqx\r\n\r\n",
	}
	after := []string{"", "\n2020-01-05 Zqx\n  Zqx:A  1\n  Zqx:B\n", "\n\n~ 2020-02\n  Zqx  3", "\ninclude inc"}
	few := []Case{
		{Cmd: "print"}, {Cmd: "balance"}, {Cmd: "accounts"}, {Cmd: "payees"}, {Cmd: "statistics"}, {Cmd: "budget"},
	}
	all := append(append([]Case(nil), few...),
		Case{Cmd: "print", Args: []string{"nothing"}}, Case{Cmd: "print", Begin: "2030-01-01"}, Case{Cmd: "print", End: "2019-01-01", Args: []string{"@x", "=n"}},
		Case{Cmd: "balance", Flat: true}, Case{Cmd: "balance", Coll: true, Zero: true}, Case{Cmd: "balance", Args: []string{"A"}, Begin: "2020-01-02"},
		Case{Cmd: "accounts", Args: []string{"Z"}}, Case{Cmd: "payees", Args: []string{"q"}, Current: true},
		Case{Cmd: "statistics", End: "2020-01-01"}, Case{Cmd: "statistics", Args: []string{"nothing"}}, Case{Cmd: "budget", Begin: "2030-01-01"}, Case{Cmd: "budget", Current: true})
	check := func(x *X, files map[string]string, where string, cases []Case) error {
		r := x.parsed(files)
		if r.Odd != "" {
			return nil
		}
		if r.Err == nil && (strings.Contains(files[where], "B  -1\n  A  1\n") || strings.Contains(files[where], "B  -1\n\tA")) {
			return nil // what comes before is still open and takes these postings
		}
		if r.Err == nil {
			return Fail("harness: the journal is not in error: %v", files)
		}
		if path.Clean(r.Err.File) != where {
			return Fail("harness: the error is in %s, not in %s", r.Err.File, where)
		}
		for _, c := range cases {
			c.Files = files
			o := x.Run(c)
			what := strings.Join(c.argv(false), " ")
			if cr := o.Crashed(); cr != "" {
				return Fail("%s: %s", what, cr)
			}
			if !o.Rejected() {
				return Fail("%s of a journal in error (%s): no error but\n%s", what, r.Err.Why, clip(o.Out))
			}
			for _, s := range []string{"Zqx", "----", "Transactions", "No transactions", "Category", "Funds"} {
				if strings.Contains(o.Out, s) {
					return Fail("%s of a journal in error (%s): besides the error there is something of a report (%q):\n%s", what, r.Err.Why, s, clip(o.Out))
				}
			}
			if n := len(errorLocs(o.Out)); n != len(r.Err.Chain)+1 {
				return Fail("%s: %d locations:\n%s", what, n, clip(o.Out))
			}
			if err := checkLocation(o, r.Err, what); err != nil {
				return err
			}
			x.Outcome(fmt.Sprint(errorLocs(o.Out)))
		}
		return nil
	}
	inc := "2020-03-01 Zqx\n  Zqx:A  1\n  Zqx:B\n"

	e.Part("every error, every command")
	for fi, f := range faults {
		for ai, a := range after {
			for vi := -1; vi < len(valid); vi++ {
				e.Do(func(x *X) error {
					x.Key("error %d after %d before %d", fi, vi, ai)
					pre := ""
					if vi >= 0 {
						pre = valid[vi] + "\n"
					}
					files := map[string]string{mainFile: pre + f + a, "inc": inc, "e/z": ""}
					x.Sample(jsonString(files))
					return check(x, files, mainFile, all)
				})
			}
		}
	}
	e.Part("positions")
	depth := 3
	if e.Thorough {
		depth = 5
	}
	for fi, f := range faults {
		seqs(len(valid), 2, depth, func(ix []int) {
			var l []string
			for _, i := range ix {
				l = append(l, valid[i])
			}
			pre := strings.Join(l, "\n") + "\n"
			name := fmt.Sprint(ix)
			e.Do(func(x *X) error {
				x.Key("error %d after %s", fi, name)
				return check(x, map[string]string{mainFile: pre + f + after[1], "inc": inc, "e/z": ""}, mainFile, few)
			})
		})
	}
	e.Part("nesting")
	// the error in a file included through 1..3 directives, each with entries around it
	dirs := [][]string{{"x"}, {"d/x"}, {"d/x", "d/y"}, {"d/x", "d/e/y"}, {"d/x", "y"}, {"a", "b", "c"}, {"d/a", "d/e/b", "c"}}
	rel := map[string]string{"d/x>d/y": "y", "d/x>d/e/y": "e/y", "d/x>y": "../y", "a>b": "b", "b>c": "c", "d/a>d/e/b": "e/b", "d/e/b>c": "../../c"}
	for fi, f := range faults {
		if strings.Contains(f, "./e/") {
			continue
		}
		for di, d := range dirs {
			for pi, pre := range []string{"", valid[0] + "\n", valid[1] + "\n", "\n; c\r\n" + valid[5] + valid[0] + "\n"} {
				for ai, a := range after[:3] {
					e.Do(func(x *X) error {
						x.Key("error %d in %d below %d before %d", fi, di, pi, ai)
						files := map[string]string{"d/e/z": "", "z": "2020-03-01 Zqx\n  Zqx:A  1\n  Zqx:B\n"}
						prev := mainFile
						for _, name := range d {
							r := name
							if v, ok := rel[prev+">"+name]; ok {
								r = v
							}
							// the file is read well once before, when there is something else before it
							text := pre + "include " + r + a
							if prev == mainFile && pi > 1 {
								text = "include z\n\n" + text
							}
							files[prev] = text
							prev = name
						}
						files[prev] = pre + f + a
						return check(x, files, prev, few)
					})
				}
			}
		}
	}
	e.Part("cycles and missing files")
	for n := 1; n <= 4; n++ {
		for back := -1; back < n; back++ {
			for pi, pre := range []string{"", valid[0] + "\n", "\n\n; c\n"} {
				e.Do(func(x *X) error {
					x.Key("chain of %d to %d after %d", n, back, pi)
					files := map[string]string{mainFile: pre + "include f0"}
					for i := 0; i < n; i++ {
						to := fmt.Sprintf("f%d", i+1)
						if i == n-1 {
							to = fmt.Sprintf("f%d", back)
							if back < 0 {
								to = "nope"
							}
						}
						files[fmt.Sprintf("f%d", i)] = pre + "include " + to + "\n" + valid[0]
					}
					return check(x, files, fmt.Sprintf("f%d", n-1), all)
				})
			}
		}
	}
	e.Part("line numbers")
	// long lines, many lines, lines of every ending before the error
	for _, size := range []int{1, 100, 255, 256, 257, 4094, 4095, 4096, 4097, 8191, 8192, 8193, 20000} {
		for _, nl := range []string{"\n", "\r\n"} {
			for n := 1; n <= 3; n++ {
				for fi, f := range []string{"zzz", "2020-01-01 x\n  A  1\n  B  2", "2020-13-01 x", "2020-01-01 x\n  A  1 2\n  B\n"} {
					e.Do(func(x *X) error {
						x.Key("%d lines of %d bytes%q before error %d", n, size, nl, fi)
						pre := strings.Repeat("; "+strings.Repeat("c", size)+nl, n) + "2020-01-02 Zqx" + strings.Repeat("p", size) + nl + "  Zqx:A  1" + nl + "  Zqx:B  ; " + strings.Repeat("n", size) + nl
						return check(x, map[string]string{mainFile: pre + nl + f + after[1]}, mainFile, few)
					})
				}
			}
		}
	}
	for _, n := range []int{999, 1000, 1023, 1024, 4095, 4096, 9998, 9999, 10000, 32765, 32766, 32767, 32768, 32769, 65533, 65534, 65535, 65536, 65537, 99998, 99999, 100000, 131071, 131072, 200000} {
		for kind := 0; kind < 4; kind++ {
			if !e.Mine() {
				e.Pass()
				continue
			}
			e.Do(func(x *X) error {
				x.Key("error after %d lines of kind %d", n, kind)
				fault := "2020-01-01 x\n  A  1\n  B  2\n"
				lines := strings.Repeat([]string{"\n", "; Zqx\n", "# Zqx\r\n"}[kind%3], n)
				cmds := []Case{few[n%6], few[(n+kind+1)%6]}
				switch kind {
				case 2: // within the faulty entry
					return check(x, one("2020-01-02 Zqx\n  Zqx:A  1\n  Zqx:B\n\n2020-01-01 x\n  A  1\n"+lines+"  B  2\n"), mainFile, cmds)
				case 3: // below another file
					return check(x, map[string]string{mainFile: lines + "include d/x\n", "d/x": lines + fault}, "d/x", cmds)
				}
				return check(x, one(lines+fault+after[1]), mainFile, cmds)
			})
		}
	}
	e.Part("names of files")
	// lines are counted alike whatever the files are called and wherever they are
	names := []string{"m", "x.journal", "x.ledger", "x.dat", "x.txt", "x.hledger", "x.j", "x.ldg", "x.csv", "x.md", "x.JOURNAL", ".x", ".journal", "x.", "x.y.z", "X", "2020", "2020.journal", "include", "include.x", "journal", "x-y", "x_y", "é", "a b", "d/x", "d.dat/x", "d/x.dat", "a/b/c/x", "dat", "budget", "prices.db", "index", "README", "x~", "#x"[1:], "~x"}
	for ni, n := range names {
		for li, lines := range []string{"", "\n", "; c\n", valid[0] + "\n", valid[1] + "\n", valid[4], valid[5]} {
			for fi, f := range []string{"zzz", "2020-01-01 x\n  A  1\n  B  2\n", "2020-13-01 x", "include nope", "2020-01-01 x\n  A  1\n  B  1"} {
				for kind := 0; kind < 3; kind++ {
					if !e.Mine() {
						e.Pass()
						continue
					}
					e.Do(func(x *X) error {
						x.Key("file %q lines %d error %d kind %d", n, li, fi, kind)
						files := map[string]string{mainFile: lines + "include " + n + "\n" + inc, n: lines + f}
						where := n
						switch kind {
						case 1: // the second time, it is read in another place
							files = map[string]string{mainFile: inc + "\ninclude k/n\n", "k/n": lines + "include ../" + n + after[1], n: valid[0] + "\n" + lines + f}
						case 2: // below it
							back := strings.Repeat("../", strings.Count(n, "/"))
							files = map[string]string{mainFile: "include " + n, n: lines + "include " + back + "q\n", "q": "\n" + f}
							where = "q"
						}
						return check(x, files, where, few[ni%6:][:1])
					})
				}
			}
		}
	}
	e.Part("characters before an error")
	for ci, c := range oddRunes {
		if strings.Contains(c, "\n") {
			continue
		}
		for pi, p := range []string{"; c%sd\n", "\n#%s\n", "2020-01-01 Zqx p%sq\n  Zqx  1\n  Zqx:B\n", "2020-01-01 Zqx  ; n%sn\n  Zqx  1\n  Zqx:B\n", "2020-01-01 Zqx\n  ; n%s\n  Zqx  1 ; %sx\n  Zqx:B\n", "2020-01-01 Zqx\n  Zqx:a%sb  1\n  Zqx:B\n", "2020-01-01 Zqx\n  Zqx:a  x%sy 1\n  Zqx:B\n", "2020-01-01 x\n  A  1 ; y%sy\n", ";%s%s%s\n2020-01-01 x\n  ; %s%s\n  A  2\n"} {
			pre := strings.ReplaceAll(p, "%s", c)
			for fi, f := range []string{"\nzzz", "2020-01-01 x\n  A  1\n  B  2\n", "\n2020-13-01 x", "include nope", "  A  1 2"} {
				for kind := 0; kind < 2; kind++ {
					if !e.Mine() {
						e.Pass()
						continue
					}
					e.Do(func(x *X) error {
						x.Key("character %q before error %d, form %d kind %d", c, fi, pi, kind)
						files := one(pre + f)
						if kind == 1 {
							files = map[string]string{mainFile: pre[:0] + strings.Repeat("\n", 3) + "; " + c + "\ninclude x", "x": pre + f}
						}
						r := x.parsed(files)
						if r.Odd != "" || r.Err == nil {
							return nil
						}
						o := x.Run(Case{Cmd: allCommands[ci%6], Files: files})
						x.Outcome(o.Out)
						if cr := o.Crashed(); cr != "" {
							return Fail("%s", cr)
						}
						if !o.Rejected() {
							return Fail("no error but\n%s", clip(o.Out))
						}
						return checkLocation(o, r.Err, "a journal in error ("+r.Err.Why+")")
					})
				}
			}
		}
	}
	e.Part("numbers of entries")
	for n := 1; n <= 300; n++ {
		e.Do(func(x *X) error {
			x.Key("error after %d entries", n)
			pre := strings.Repeat(valid[n%2]+"\n", n)
			return check(x, map[string]string{mainFile: pre + "2020-01-01 x\n  A  1\n  B  2\n" + after[1]}, mainFile, few)
		})
	}
	nestPart(e, located(Case{Cmd: "print"}, Case{Cmd: "balance", Args: []string{"x"}, Flat: true}, Case{Cmd: "payees"}, Case{Cmd: "accounts", Begin: "2030-01-01"}, Case{Cmd: "statistics", Current: true}))
	magicPart(e, located(Case{Cmd: "print"}, Case{Cmd: "statistics"}))
	neighbourPart(e, 4, located(Case{Cmd: "print"}))
	dialectPart(e, 2, located(Case{Cmd: "print"}))
	charPart(e, located(Case{Cmd: "print"}))
	e.Part("transactions before")
	for _, n := range append(around(70, 1, 128, 256, 512, 1024, 2048, 4096), 848, 849, 1280, 1281, 1792, 1793, 2050, 2056, 2057, 2560, 2561, 100, 365, 1000, 2000, 3000) {
		for order := 0; order < 4; order++ {
			for fi, f := range []string{"zzz", "2020-01-01 x\n  A  1\n  B  2\n", "2020-13-01 x", "include nope"} {
				if !e.Mine() {
					e.Pass()
					continue
				}
				e.Do(func(x *X) error {
					x.Key("error %d after %d transactions in order %d", fi, n, order)
					pre := repeat(n, func(i int) string {
						day := dayNumber(2000, 1, 1) + []int{i, 0, -i, i * 7 % (n + 1)}[order]
						return fmt.Sprintf("%s Zqx%d\n  Zqx:A  %d\n  Zqx:B%d\n", dayStr(day), i%7, i, i%50)
					})
					files := one(pre + f + after[1])
					where := mainFile
					if fi == 1 {
						files = map[string]string{mainFile: "\n" + pre + "include x\n", "x": f}
						where = "x"
					}
					return check(x, files, where, []Case{few[0], few[1+(n+fi)%5], all[6+(n+order)%12]})
				})
			}
		}
	}
	// the same with entries of every other kind before it, for every command
	for _, n := range around(30, 1, 64, 100, 128, 256) {
		for kind := 0; kind < 6; kind++ {
			for fi, f := range []string{"zzz", "2020-01-01 x\n  A  1\n  B  2\n", "2020-13-01 x", "include nope", "~ 2020-01\n  A\n  B\n"} {
				if !e.Mine() {
					e.Pass()
					continue
				}
				e.Do(func(x *X) error {
					x.Key("error %d after %d entries of kind %d", fi, n, kind)
					pre := repeat(n, func(i int) string {
						y, m := 2000+i/12, i%12+1
						switch kind {
						case 0: // a month each
							return fmt.Sprintf("~ %d-%02d\n  Zqx%d  %d\n  Zqx  1\n\n", y, m, i%5, i)
						case 1: // one month
							return fmt.Sprintf("~ 2020-01\n  Zqx%d  %d\n", i, i)
						case 2: // with transactions of the month
							return fmt.Sprintf("~ %d-%02d\n  Zqx%d  %d\n%d-%02d-02 Zqx\n  Expenses:Zqx%d  1\n  Income:Zqx\n", y, m, i%5, i, y, m, i%5)
						case 3:
							return fmt.Sprintf("%d-%02d-02 Zqx\n  Expenses:Zqx%d  1\n  Income:Zqx\n", y, m, i%5)
						case 4:
							return "include inc\n"
						}
						return fmt.Sprintf("%d-%02d-02 * Zqx%d  ; Zqx\n", y, m, i)
					})
					return check(x, map[string]string{mainFile: pre + f + after[1], "inc": inc}, mainFile, few)
				})
			}
		}
	}
}
