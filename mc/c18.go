package main

import (
	"fmt"
	"strings"
)

func init() {
	register(&Space{
		ID:   "C18",
		Rule: "for every journal of the set and every command line of the set, every map iteration of the run is made to start at every slot: all iterations alike (8 schedules), each single iteration on its own (7 deviations per iteration), and in the thorough tier each pair of iterations; all outputs must be byte-identical to one another and to those of free runs",
		Bound: map[string]string{
			"sizes of parts": sizesBound,
			"vocabulary":     vocabBound,
			"journals":       "all sequences of up to 3 of 7 entries (mixed commodities, periodic entries, shared names), 9 richer journals with up to 8 names per map, includes of several files and journals in error",
			"schedules":      "the runtime iterates a map of up to 8 entries from a random slot round; all 8 slots are tried, at each iteration point of the run, deviating from the all-zero schedule at one point (quick) or two (thorough, 3 slots)",
			"surroundings":   "5 journals with a quarter of 22 command lines each, and one with all of these, in processes with 33 environment variables of 16 values each, 6 time zones, 11 times the files were last changed, 7 modes of them, 4 standard inputs, 16 files that nobody names, 9 kinds of standard output, limits and masks, 14 ways of being started, 29 names of the program, and with the journal named by its whole path 16 variables that lead to it, to its directory or beside it",
			"asks":           asksBound,
			"chance":         "each journal and command line with up to 28 process numbers, 8 sequences of random numbers and 8 fractions of a second",
			"above 8":        "where entries of larger maps are placed is chosen by a seam: 7 placements with a start each",
		},
		Run: runC18,
	})
}

func runC18(e *E) {
	entries := []string{
		"2020-01-01 * Shop  ; hn\n  ; tn\n  Expenses:Food  £10 ; pn\n  Assets:Bank\n",
		"2020-01-02 ! Shop  ; hn\n  Expenses:Food  $5\n  Expenses:Rent  £-5 ; pn\n  Income:Job  $0\n",
		"2020-01-03 Cafe\n  Assets:Cash  20\n  Income:Job  -20\n",
		"2020-01-03 Bar\n  Assets:Cash  EUR 1\n  Income:Job:Sub  -1\n",
		"~ 2020-01\n  Food  £10\n  Rent  $5\n",
		"~ 2020-02\n  Expenses:Food  EUR 3\n  Trip\n",
		"2020-02-01 Zed\n  Income:Job  A0\n  Expenses:Food  B0\n  Assets  C0\n",
	}
	var eight, nine, deep strings.Builder
	for i := 0; i < 8; i++ {
		fmt.Fprintf(&eight, "2020-0%d-0%d P%d  ; n%d\n  Expenses:E%d:Sub  %c %d ; m%d\n  Assets:Bank:B%d  -%d\n\n", i+1, 9-i, i, i, i, 'a'+i, i+1, i, i, i+1)
		fmt.Fprintf(&nine, "~ 2020-0%d\n  Cat%d  %c %d\n  Cat%d  %d\n\n", i+1, i, 'a'+i, i+1, (i+3)%8, i)
		fmt.Fprintf(&deep, "2020-01-0%d D\n  E%s  %d\n  F%s  -%d\n\n", i+1, strings.Repeat(":x", i), i, strings.Repeat(":y", 7-i), i)
	}
	type jn struct {
		name  string
		files map[string]string
	}
	var js []jn
	seqs(len(entries), 0, 3, func(ix []int) {
		var l []string
		for _, i := range ix {
			l = append(l, entries[i])
		}
		js = append(js, jn{fmt.Sprint(ix), one(strings.Join(l, "\n"))})
	})
	inc := map[string]string{mainFile: eight.String()}
	for i := 0; i < 7; i++ {
		inc[mainFile] += fmt.Sprintf("include d/f%d\n", (i*3)%7)
		inc[fmt.Sprintf("d/f%d", i)] = entries[i]
	}
	many := ""
	for d := 1; d <= 12; d++ {
		many += fmt.Sprintf("2020-01-%02d Job\n  Assets:Bank:B%d  %d\n  Income:Job%d\n\n2020-01-%02d Shop%d\n  Expenses:E%d  %d\n  Assets:Bank:B%d\n\n", d, d%8, d*10, d%3, d, d%8, d%8, d*7, (d+3)%8)
	}
	same := "2020-01-01 S\n  A:a  1\n  A:b  2\n  A:a  3 ; x\n  A:c  -4 ; x\n  A:a  -2 ; y\n\n"
	for _, j := range []jn{
		{"eight", one(eight.String())}, {"budget eight", one(nine.String() + eight.String())}, {"deep", one(deep.String())},
		{"includes", inc}, {"many", one(many)}, {"same accounts", one(same + strings.ReplaceAll(same, "01-01", "01-02"))},
		{"all", one(strings.Join(entries, "\n") + nine.String())},
		{"bad entry", one(eight.String() + "2020-13-01 bad\n")},
		{"unbalanced", one(entries[0] + "\n2020-01-01 u\n  A  1\n  B  $2\n  C  £3\n")},
	} {
		js = append(js, j)
	}
	cases := []Case{
		{Cmd: "print"}, {Cmd: "print", Args: []string{"food"}}, {Cmd: "print", Args: []string{"@shop", "=n", "Assets"}}, {Cmd: "print", Begin: "2020-01-02", End: "2020-02-01"},
		{Cmd: "balance"}, {Cmd: "balance", Flat: true}, {Cmd: "balance", Coll: true}, {Cmd: "balance", Zero: true},
		{Cmd: "balance", Args: []string{"e", "=n"}}, {Cmd: "balance", Args: []string{"a:a|Food", "Bank", "=x"}}, {Cmd: "balance", Args: []string{"Assets|Expenses"}, Flat: true},
		{Cmd: "accounts"}, {Cmd: "accounts", Args: []string{"a", "E"}}, {Cmd: "payees"}, {Cmd: "payees", Args: []string{"s", "P"}},
		{Cmd: "statistics"}, {Cmd: "statistics", Args: []string{"a", "=n"}}, {Cmd: "budget"}, {Cmd: "budget", Begin: "2020-01-02"}, {Cmd: "budget", Args: []string{"food"}},
		{Cmd: "print", Begin: "no", End: "neither"}, {Cmd: "balance", Args: []string{"("}},
	}
	const chunks = 8
	for _, j := range js {
		for ci := range cases {
			c := cases[ci]
			c.Files, c.Now = j.files, baseNow
			e.Part("all iterations alike")
			e.Do(func(x *X) error {
				x.Key("%s: %s all", j.name, strings.Join(c.argv(false), " "))
				x.Sample(x.key)
				c := c
				c.Maps = []int{0}
				base := x.Run(c)
				x.Outcome(base.Out)
				for s := 1; s < 8; s++ {
					c.Maps = []int{s}
					if err := sameRun(base, x.Run(c), fmt.Sprintf("starting every map iteration at slot %d", s)); err != nil {
						return err
					}
				}
				c.Maps = nil
				for k := 0; k < 4; k++ {
					if err := sameRun(base, x.Run(c), "a free run"); err != nil {
						return err
					}
				}
				return nil
			})
			for ch := 0; ch < chunks; ch++ {
				e.Part("one iteration differs")
				e.Do(func(x *X) error {
					x.Key("%s: %s one, points %d mod %d", j.name, strings.Join(c.argv(false), " "), ch, chunks)
					c := c
					c.Maps = []int{0}
					base := x.Run(c)
					n := x.points(c)
					x.State(j.name, ci, n)
					for p := ch; p < n; p += chunks {
						x.Step(1)
						m := make([]int, p+2)
						for s := 1; s < 8; s++ {
							m[p] = s
							c.Maps = m
							if err := sameRun(base, x.Run(c), fmt.Sprintf("starting map iteration %d of %d at slot %d", p, n, s)); err != nil {
								return err
							}
						}
					}
					return nil
				})
			}
			if !e.Thorough {
				continue
			}
			for ch := 0; ch < chunks; ch++ {
				e.Part("two iterations differ")
				e.Do(func(x *X) error {
					x.Key("%s: %s two, points %d mod %d", j.name, strings.Join(c.argv(false), " "), ch, chunks)
					c := c
					c.Maps = []int{0}
					base := x.Run(c)
					n := x.points(c)
					if n > 60 {
						n = 60 // the later ones are covered one at a time
					}
					for p := ch; p < n; p += chunks {
						for q := p + 1; q < n; q++ {
							x.Step(1)
							m := make([]int, q+2)
							for _, s := range []int{1, 4, 7} {
								for _, r := range []int{1, 4, 7} {
									m[p], m[q] = s, r
									c.Maps = m
									if err := sameRun(base, x.Run(c), fmt.Sprintf("starting map iteration %d at slot %d and %d at %d of %d", p, s, q, r, n)); err != nil {
										return err
									}
								}
							}
						}
					}
					return nil
				})
			}
		}
	}
	rich := one("2023-05-01 * Employer  ; pay\n  ; n1\n  Income:Job  £-1000\n  Assets:Bank  £1000 ; in\n\n2023-05-02 ! Shop  ; weekly\n  Expenses:Food:Fresh  £30.50 ; apples\n  ; b\n  Expenses:Food  £9.50\n  Assets:Bank\n\n2023-05-03 Shop\n  Assets:Cash:Purse:Left  £5\n  Assets:Bank  £-5\n2023-05-04 shop\n  Assets:Cash:Purse:Left  £-5\n  Assets:Bank  £5\n\n2023-06-14 zero\n  Z:A  £0\n  Z:B:C  £0.00\n\n" +
		"~ 2023-05\n  Food  £50\n  Rent  £400\n\n~ 2023-06\n  Food  £60\n  Trip  £0\n\n2023-06-15 * today\n  Expenses:Rent  £400\n  Assets:Bank\n2023-06-16 tomorrow\n  Expenses:Rent  £1\n  Assets:Bank\n2031-01-01 ! later  ; n\n  Expenses:Trip  £2\n  Income:Job  £-2\n\n2023-04-30 before\n")
	js = append([]jn{{"rich", rich}}, js...)
	e.Part("surroundings")
	// what there is around a run besides the journal and the arguments
	type place struct {
		name string
		f    func(c *Case)
	}
	places := []place{{"nothing", func(c *Case) {}}}
	for _, v := range strings.Fields("LANG LC_ALL LC_NUMERIC LC_COLLATE LC_TIME LANGUAGE TERM COLORTERM NO_COLOR CLICOLOR_FORCE FORCE_COLOR COLUMNS LINES WIDTH PAGER DEBUG VERBOSE GLEDGER_DEBUG USER LOGNAME HOSTNAME PWD SHELL CI GOMAXPROCS EDITOR LEDGER_FILE LEDGER_BEGIN LEDGER_END LEDGER_DATE_FORMAT GLEDGER_COLOR CURRENCY SOURCE_DATE_EPOCH") {
		for _, val := range []string{"", "0", "1", "5", "20", "40", "80", "200", "-1", "C", "de_DE.UTF-8", "tr_TR.UTF-8", "dumb", "2020-01-02", "$", "never"} {
			if v == "GOMAXPROCS" && (val > "4" || val == "200" || val == "20") {
				continue
			}
			places = append(places, place{v + "=" + val, func(c *Case) { c.Env = []string{v + "=" + val} }})
		}
	}
	for _, z := range []string{"Asia/Kolkata", "America/Los_Angeles", "Pacific/Kiritimati", "Pacific/Pago_Pago", "Europe/London", "Pacific/Apia"} {
		places = append(places, place{"TZ=" + z, func(c *Case) { c.TZ = z }})
	}
	for _, s := range []string{"y\n", entries[0], "\x00", strings.Repeat("2020-01-01 in\n  A  1\n  B\n\n", 3000)} {
		places = append(places, place{fmt.Sprintf("standard input of %d bytes", len(s)), func(c *Case) { c.Stdin = s }})
	}
	for _, f := range []string{".gledgerrc", ".gledger", ".ledgerrc", "gledger.conf", "config", ".env", "m.journal~", "m.journal.bak", "m.journal.lock", "m.journal.cache", "budget.journal", "prices.db", "a.journal", "zz.journal", "m", "m.journal.gz"} {
		places = append(places, place{"a file " + f, func(c *Case) {
			more := map[string]string{f: entries[1]}
			for k, v := range c.Files {
				more[k] = v
			}
			c.Files = more
		}})
	}
	for _, t := range []int64{1, baseNow, baseNow - 1, baseNow + 1, baseNow - 3600, baseNow - 86400, baseNow - 40*86400, baseNow - 4000*86400, baseNow + 86400, baseNow + 4000*86400, 1577836800} {
		places = append(places, place{fmt.Sprintf("files last changed at %d", t), func(c *Case) { c.Mtime = t }})
	}
	for _, m := range []uint32{0o400, 0o444, 0o600, 0o640, 0o666, 0o755, 0o777} {
		places = append(places, place{fmt.Sprintf("files of mode %o", m), func(c *Case) { c.Mode = m }})
	}
	for _, o := range outputKinds {
		places = append(places, place{"output to a " + o, func(c *Case) { c.Output = o }})
	}
	for _, v := range []string{"umask 0; ", "umask 077; ", "umask 0777; ", "ulimit -n 40; ", "ulimit -s 1024; ", "ulimit -f 100000; ", "trap '' PIPE HUP INT TERM; "} {
		places = append(places, place{v, func(c *Case) { c.Via = v + `exec "$@"` }})
	}
	for _, v := range []string{`exec "$@" <&-`, `exec "$@" 2>&-`, `exec "$@" 2>&1`, `exec "$@" </dev/zero`, `exec "$@" 5</dev/null 6>/dev/null`, `exec -a ledger "$@"`, `exec -a "" "$@"`, `exec -a -gledger "$@"`, `: | exec "$@"`, `"$@" | cat`, `exec "$@" <"$PWD/m.journal"`, `nice -n 5 "$@"`, `("$@" & wait $!)`, `exec env -i ZONEINFO="$ZONEINFO" TZ=UTC MC_EXEC="$MC_EXEC" "$@"`} {
		places = append(places, place{v, func(c *Case) { c.Via = v }})
	}
	// what may lead to the journal, which is named by its whole path then
	for _, v := range strings.Fields("HOME PWD OLDPWD TMPDIR XDG_CONFIG_HOME XDG_DATA_HOME XDG_CACHE_HOME GOPATH ZDOTDIR CDPATH PATH LEDGER LEDGER_FILE LEDGER_DIR GLEDGER_FILE GLEDGER_HOME") {
		for _, sub := range []string{"", "/", "/d", "/..", "/m.journal", "/nope"} {
			places = append(places, place{"leading " + v + "=scratch" + sub, func(c *Case) { c.Env = []string{v + "=" + scratchDir + sub} }})
		}
	}
	names := strings.Fields("gl l led ledger hledger gledger-dev gledger.exe GLEDGER beancount ./x/gledger /usr/bin/gledger g budget balance bal print accounts acc payees statistics stats -f - --flatten -z test gledger.test sh python3 gledger2 debug")
	for _, n := range names {
		places = append(places, place{"called " + n, func(c *Case) { c.Via = `exec -a '` + n + `' "$@"` }})
		if !strings.HasPrefix(n, "/") && !strings.HasPrefix(n, ".") && !strings.HasPrefix(n, "-") {
			places = append(places, place{"called " + n + " in the file system", func(c *Case) {
				c.Via = `D=$(mktemp -d -p "$PWD/..") && ln "$1" "$D/` + n + `" && { "$D/` + n + `" "${@:2}"; r=$?; rm -r "$D"; exit $r; }`
			}})
		}
	}
	for pi := range places {
		for k, j := range append(js[len(js)-9:], js[0]) {
			around := strings.HasPrefix(places[pi].name, "output to")
			leading := strings.HasPrefix(places[pi].name, "leading ")
			if k > 1 && k != 3 && k != 6 && k != 9 && !around || leading && k == 6 {
				continue
			}
			if !e.Mine() {
				e.Pass()
				continue
			}
			e.Do(func(x *X) error {
				x.Key("%s: with %s", j.name, places[pi].name)
				for ci, c := range cases {
					if k != 9 && (ci+pi)%4 != 0 && !around && !(leading && ci%2 == 1) {
						continue
					}
					c.Files, c.Now = j.files, baseNow
					if leading {
						c.File = "=" + mainFile
					}
					base := x.Run(c)
					if around { // here, too, it is something in particular
						base = x.Fresh(c)
					}
					places[pi].f(&c)
					if c.Output == "null" {
						base.Out = ""
					}
					if strings.HasSuffix(c.Via, "cat") {
						base.Exit = 0
					}
					o := x.Fresh(c)
					if strings.HasSuffix(c.Via, "2>&1") && base.Exit != 0 {
						base.Out = o.Out // the message, which is not here, comes with it
					}
					x.Outcome(o.Out)
					x.State(j.name, pi, ci)
					x.Step(1)
					if o.Out != base.Out || o.Exit != base.Exit || (o.Panic == "") != (base.Panic == "") {
						return Fail("%s changes the output of %s:\n--- without\n%s--- with\n%s", places[pi].name, strings.Join(c.argv(false), " "), clip(base.Out), clip(o.Out))
					}
				}
				return nil
			})
		}
	}
	// chances gives every other outcome of what is left to chance
	chances := func(c Case, full bool, f func(what string, c Case) error) error {
		base := c
		for _, pid := range []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 31, 32, 100, 255, 256, 999, 1000, 32767, 32768, 65535, 65536, 4194303} {
			if !full && pid > 8 && pid < 32768 {
				continue
			}
			c = base
			c.Pid = pid
			if err := f(fmt.Sprintf("process number %d", pid), c); err != nil {
				return err
			}
		}
		for r := 1; r <= 8; r++ {
			c = base
			c.Rand = r
			if err := f(fmt.Sprintf("random numbers of kind %d", r), c); err != nil {
				return err
			}
		}
		for _, n := range []int{1, 999, 1000, 999999, 1000000, 123456789, 500000000, 999999999} {
			c = base
			c.Nanos = n
			if err := f(fmt.Sprintf("clock %d ns later", n), c); err != nil {
				return err
			}
		}
		return nil
	}
	e.Part("chance")
	for _, j := range js {
		for ci := range cases {
			if !e.Mine() {
				e.Pass()
				continue
			}
			c := cases[ci]
			c.Files, c.Now = j.files, baseNow
			e.Do(func(x *X) error {
				x.Key("%s: %s chance", j.name, strings.Join(c.argv(false), " "))
				c := c
				c.Maps, c.Seed = []int{0}, 1
				first := x.Run(c)
				x.Outcome(first.Out)
				x.Step(1)
				return chances(c, len(j.name) < 4 || len(j.name) > 7, func(what string, c Case) error { return sameRun(first, x.Run(c), what) })
			})
		}
	}
	askPart(e, []string{"rich", "all"}, []map[string]string{rich, js[len(js)-3].files}, cases, func(what string, base, o Obs) error {
		if o.Out != base.Out || o.Exit != base.Exit {
			return Fail("%s: the output is another:\n--- without\n%s--- with\n%s", what, clip(base.Out), clip(o.Out))
		}
		return nil
	})
	mapPairs(e)
	sizePart(e, 300, nil, func(x *X, files map[string]string) error {
		for ci, c := range []Case{{Cmd: "print"}, {Cmd: "balance"}, {Cmd: "balance", Flat: true, Args: []string{"1"}}, {Cmd: "accounts"}, {Cmd: "accounts", Args: []string{"", "q"}}, {Cmd: "payees"}, {Cmd: "payees", Args: []string{"", "q"}}, {Cmd: "statistics"}, {Cmd: "statistics", Args: []string{""}}, {Cmd: "budget"}} {
			c.Files, c.Now = files, baseNow
			c.Maps, c.Seed = []int{0}, 1
			first := x.Run(c)
			x.Outcome(first.Out)
			// placements of the entries of large maps, with a start of iteration each
			for k := 2; k <= 7; k++ {
				c.Maps, c.Seed = []int{k * 37 % 64}, k
				if err := sameRun(first, x.Run(c), fmt.Sprintf("placement %d of entries in maps", k)); err != nil {
					return err
				}
			}
			c.Maps, c.Seed = []int{0}, 1
			if (len(files[mainFile])+ci)%3 == 0 {
				if err := chances(c, false, func(what string, c Case) error { return sameRun(first, x.Run(c), what) }); err != nil {
					return err
				}
			}
			c.Maps, c.Seed, c.Now = nil, 0, 0
			if err := sameRun(first, x.Run(c), "a free run"); err != nil && c.Cmd != "statistics" {
				return err
			}
		}
		return nil
	})
}

func sameRun(a, b Obs, what string) error {
	if a.Out != b.Out || a.Exit != b.Exit || (a.Panic == "") != (b.Panic == "") {
		return Fail("%s changes the output:\n--- with every iteration at slot 0\n%s%s--- then\n%s%s", what, clip(a.Out), a.Panic, clip(b.Out), b.Panic)
	}
	return nil
}

// points counts the map iterations of a run.
func (x *X) points(c Case) int {
	return x.w.runHere(c).Points
}
