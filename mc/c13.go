package main

import (
	"fmt"
	"strings"
)

func init() {
	register(&Space{
		ID:   "C13",
		Rule: "every choice of contents (transactions, unfinished transactions, comments, includes by every spelling, missing files) for three files in nested directories: print, balance and statistics must equal the reference, in which an include is the text in its place, and cycles and missing files must be errors",
		Bound: map[string]string{
			"surroundings of a run": sameAsksBound,
			"other kinds of file":   magicBound,
			"neighbours":            neighboursBound,
			"surroundings":          nestsBound,
			"sizes of parts":        sizesBound,
			"contents":              "main up to 3 elements of 8, d/x up to 2 of 7, d/e/y up to 1 (quick) / 2 (thorough) of 5",
			"places":                "every placement of a journal and the two files it leads to in 5 directories, each include spelled in 5 ways, files of the same names in all of them",
			"chains":                "every chain of up to 3 (thorough: 4) out of 8 files of the same names in different places and cases, from 3 main files, run in 5 directories with 3 spellings of the journal's path, that ends, leads back to each of its files, or leads to none",
			"tokens of names":       includeTokensBound,
			"pipes":                 "12 texts through a pipe under two names and through the standard input, at 5 places, every command",
			"names":                 "every printable ASCII character and 12 others at the start, in the middle and at the end of a name, in longer names with and without spaces, alone and in a directory's name, of a file that there is and of one that there is not",
			"links":                 "4 files that include one another by 18, 10, 10 and 10 names (quick: a third of the longest) that lead through 8 symbolic links to directories and files, back up from where these lead, round in circles and to nothing",
			"depth":                 "chains of 1..60 and up to 400 files in one and in nested directories, files included up to 100 and 1025 times, cycles of every length to 12",
		},
		Run: runC13,
	})
}

func runC13(e *E) {
	askSame(e, "print", "statistics")
	mainEl := []string{
		"2020-01-03 m1\n  A  1\n  B\n", "2020-01-02 m2\n  M  2\n  B", "include d/x", "include d/e/y", "include d/../d/e/y  ; c", "; c", "include nope", "  C  0",
	}
	xEl := []string{"2020-01-03 x1\n  X  3\n  B\n", "2020-01-01 x2 ; h\n  A  -4\n  X", "include e/y", "include ../m.journal", "include x", "include ../d/e/../x", "  ; stray"}
	yEl := []string{"2020-01-03 y1\n  Y  5\n  A", "include ../x", "include ../../m.journal", "~ 2020-01\n  Food  1", "2020-01-02 y2\n  Y  6\n  B  -5\n"}
	yMax := 1
	if e.Thorough {
		yMax = 2
	}
	gather := func(el []string, hi int) []string {
		var out []string
		seqs(len(el), 0, hi, func(ix []int) {
			var l []string
			for _, i := range ix {
				l = append(l, el[i])
			}
			out = append(out, strings.Join(l, "\n"))
		})
		return out
	}
	ms, xs, ys := gather(mainEl, 3), gather(xEl, 2), gather(yEl, yMax)
	e.Part("contents")
	for mi, m := range ms {
		usesX, usesY := strings.Contains(m, "include d/x"), strings.Contains(m, "e/y")
		if !usesX && !usesY {
			continue
		}
		for xi, xt := range xs {
			if !usesX && xi > 0 && !strings.Contains(strings.Join(ys, ""), "include ../x") {
				continue
			}
			for yi, yt := range ys {
				if !e.Mine() {
					e.Pass()
					continue
				}
				files := map[string]string{mainFile: m, "d/x": xt, "d/e/y": yt}
				e.Do(func(x *X) error {
					x.Key("main %d x %d y %d", mi, xi, yi)
					x.Sample(jsonString(files))
					if (mi+xi+yi)%4 == 0 {
						return checkJournal(x, files, "print", "statistics", "balance", "budget")
					}
					return checkJournal(x, files, "print", "statistics")
				})
			}
		}
	}
	e.Part("same as in place")
	// the text of a file in place of its directive, with the open transaction closed
	for xi, xt := range xs {
		if strings.Contains(xt, "include") {
			continue
		}
		for mi, m := range ms {
			if !strings.Contains(m, "include d/x") || strings.Contains(m, "e/y") || strings.Contains(m, "nope") {
				continue
			}
			if !e.Mine() {
				e.Pass()
				continue
			}
			files := map[string]string{mainFile: m, "d/x": xt}
			inPlace := one(strings.ReplaceAll(m, "include d/x", "\n"+xt+"\n"))
			e.Do(func(x *X) error {
				x.Key("in place: main %d x %d", mi, xi)
				for _, cmd := range []string{"print", "balance", "accounts", "payees", "budget"} {
					a := x.Run(Case{Cmd: cmd, Files: files})
					b := x.Run(Case{Cmd: cmd, Files: inPlace})
					if a.Rejected() && b.Rejected() {
						continue
					}
					if a.Out != b.Out || a.Crashed() != b.Crashed() {
						return Fail("%s differs:\n--- included\n%s--- in place\n%s", cmd, clip(a.Out), clip(b.Out))
					}
				}
				return nil
			})
		}
	}
	e.Part("depth")
	txn := func(i int) string {
		return fmt.Sprintf("2020-01-%02d f%d\n  A:%d  %d\n  B", i%28+1, i, i, i+1)
	}
	for _, n := range append(around(60, 0)[1:], 99, 100, 101, 126, 127, 128, 129, 200, 254, 255, 256, 257, 300, 400) {
		for shape := 0; shape < 4; shape++ {
			if !e.Mine() {
				e.Pass()
				continue
			}
			files := map[string]string{}
			name := mainFile
			dir := ""
			for i := 0; i < n; i++ {
				next, nextDir, ref := fmt.Sprintf("f%d", i+1), dir, fmt.Sprintf("f%d", i+1)
				switch shape {
				case 1:
					nextDir = fmt.Sprintf("%ss%d/", dir, i%2)
					ref = fmt.Sprintf("s%d/f%d", i%2, i+1)
				case 2:
					if dir == "" {
						nextDir, ref = "q/", "q/"+next
					} else {
						nextDir, ref = "", "../"+next
					}
				}
				text := txn(i) + "\ninclude " + ref + "\n" + txn(i+100)
				if shape == 3 {
					text = "include " + ref
					if i == n-1 {
						text = txn(1) + "\ninclude " + ref
					}
				}
				files[name] = text
				name, dir = nextDir+next, nextDir
			}
			files[name] = txn(n)
			e.Do(func(x *X) error {
				x.Key("chain of %d shape %d", n, shape)
				return checkJournal(x, files, "print", "statistics")
			})
		}
	}
	for _, n := range append(around(100, 0)[1:], 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025) {
		if !e.Mine() {
			e.Pass()
			continue
		}
		files := map[string]string{mainFile: txn(0) + "\n" + strings.Repeat("include d/x\n", n) + txn(1), "d/x": txn(2) + "\ninclude y", "d/y": txn(3)}
		e.Do(func(x *X) error {
			x.Key("included %d times", n)
			return checkJournal(x, files, "print", "statistics", "balance")
		})
	}
	e.Part("cycles")
	for n := 1; n <= 12; n++ {
		for back := 0; back < n; back++ {
			for _, up := range []string{"", "./", "../d/", "e/../"} {
				if !e.Mine() {
					e.Pass()
					continue
				}
				files := map[string]string{mainFile: txn(0) + "\ninclude d/f0", "d/e/z": ""}
				for i := 0; i < n; i++ {
					to := i + 1
					if i == n-1 {
						to = back
					}
					files[fmt.Sprintf("d/f%d", i)] = txn(i) + "\ninclude " + up + fmt.Sprintf("f%d", to)
				}
				e.Do(func(x *X) error {
					x.Key("cycle of %d back to %d by %q", n, back, up)
					return checkJournal(x, files, "print", "accounts")
				})
			}
		}
	}
	e.Part("places")
	places := []string{"", "a/", "a/b/", "c/", "a/b/d/"}
	type spelling func(rel string) string
	spellings := []spelling{
		func(rel string) string { return rel },
		func(rel string) string { return "./" + rel },
		func(rel string) string {
			// by way of another directory that is beside the target
			i := strings.LastIndexByte(rel, '/') + 1
			return rel[:i] + "../" + "a/../" + rel[i:]
		},
		func(rel string) string { return strings.ReplaceAll(rel, "/", "//") },
		func(rel string) string { return "x1/../" + rel },
	}
	from := func(dir, to string) string { // the path of a file seen from a directory
		rel := strings.Repeat("../", strings.Count(dir, "/"))
		return rel + to
	}
	short := func(dir, to string) string { // without going further up than needed
		d, t := strings.SplitAfter(dir, "/"), strings.SplitAfter(to, "/")
		for len(d) > 1 && len(t) > 1 && d[0] == t[0] {
			d, t = d[1:], t[1:]
		}
		return strings.Repeat("../", len(d)-1) + strings.Join(t, "")
	}
	for pi, p := range places {
		for ti, t := range places {
			for ui, u := range places {
				for si, s1 := range spellings {
					for sj, s2 := range spellings {
						if !e.Mine() {
							e.Pass()
							continue
						}
						rel := from
						if (pi+ti+ui)%2 == 0 {
							rel = short
						}
						files := map[string]string{p + "m": txn(0) + "\ninclude " + s1(rel(p, t+"x")) + "\n" + txn(1)}
						if si != 2 && sj != 2 || p != "" && t != "" && u != "" {
							files[t+"x"] = txn(2) + "\ninclude " + s2(rel(t, u+"y")) + "\n" + txn(3)
						} else { // there is nothing beside the top
							files[p+"m"] = txn(0) + "\ninclude " + rel(p, t+"x") + "\n" + txn(1)
							files[t+"x"] = txn(2) + "\ninclude " + rel(t, u+"y") + "\n" + txn(3)
						}
						files[u+"y"] = txn(4)
						// every other place has files of these names too, which nobody includes
						for _, q := range places {
							for i, n := range []string{"x", "y", "x1/n", "a/n"} {
								if _, ok := files[q+n]; !ok {
									files[q+n] = txn(20 + i)
								}
							}
						}
						e.Do(func(x *X) error {
							x.Key("places %q %q %q spelled %d %d", p, t, u, si, sj)
							r := refParse(files, p+"m")
							if r.Err != nil || r.Odd != "" {
								return Fail("reference rejects its own journal: %v %s", r.Err, r.Odd)
							}
							x.Step(8)
							x.State(fmt.Sprint(r.Txns))
							o := x.Run(Case{Cmd: "print", Files: files, File: p + "m"})
							x.Outcome(o.Out)
							if err := ExpectReport(o, renderPrint(r.Txns), "print"); err != nil {
								return err
							}
							return ExpectStats(x.Run(Case{Cmd: "statistics", Files: files, File: p + "m"}), r.Txns, "statistics")
						})
					}
				}
			}
		}
	}
	e.Part("chains of paths")
	// chains over paths that are alike, from every directory, that end, lead back or lead nowhere
	mains := []string{"m", "d/m", "d/d/m"}
	tos := []string{"x", "X", "d/x", "d/d/x", "d/d/d/x", "D/x", "e/x", "d/m"}
	long := 3
	if e.Thorough {
		long = 4
	}
	for _, top := range mains {
		for ci, cwd := range []string{"", "d", "d/d", "e", "d/d/d"} {
			seqs(len(tos), 0, long, func(ix []int) {
				used := map[string]bool{top: true}
				names := []string{top}
				for _, i := range ix {
					if used[tos[i]] {
						return
					}
					used[tos[i]] = true
					names = append(names, tos[i])
				}
				if len(ix) == long && ci > 1 { // the longest from two directories
					return
				}
				for end := -2; end < len(names); end++ {
					if !e.Mine() {
						e.Pass()
						continue
					}
					files := map[string]string{}
					for i, n := range names {
						next := ""
						switch {
						case i+1 < len(names):
							next = names[i+1]
						case end == -1:
							next = "nope"
						case end >= 0:
							next = names[end]
						}
						text := txn(2*i) + "\n"
						if next != "" {
							dir := n[:strings.LastIndexByte(n, '/')+1]
							rel := short
							if i%2 == ci%2 {
								rel = from
							}
							text += "include " + rel(dir, next) + "\n"
						}
						files[n] = text + txn(2*i+1)
					}
					file := ""
					switch (len(ix) + end + ci + 2) % 3 {
					case 0:
						file = "=" + top
					case 1:
						file = short(cwd+"/", top)
					case 2:
						file = from(cwd+"/", top)
					}
					if cwd == "" {
						file = strings.TrimPrefix(file, "../")
					}
					e.Do(func(x *X) error {
						x.Key("chain %q end %d in %q", names, end, cwd)
						r := refParse(files, top)
						x.Step(2 * len(names))
						x.State(fmt.Sprint(r.Txns), r.Err != nil)
						for _, c := range []string{"print", "accounts"} {
							o := x.Run(Case{Cmd: c, Files: files, File: file, Dir: cwd})
							x.Outcome(o.Out)
							if err := checkReport(o, r, c); err != nil {
								return err
							}
						}
						return nil
					})
				}
			})
		}
	}
	e.Part("links")
	// the way to a file may lead through symbolic links, and back from where they lead
	fixed := map[string]string{
		"d/l": linkMark + "../real/sub", "d/f": linkMark + "../real/k", "l2": linkMark + "d/l", "d/self": linkMark + ".", "loop": linkMark + "loop", "dang": linkMark + "nope", "real/sub/up": linkMark + "../..", "real/back": linkMark + "../d",
	}
	mainTo := []string{"real/k", "real/sub/j", "d/f", "d/l/j", "d/l/../k", "d/k", "d/self/k", "d/self/self/l/../sub/j", "l2/j", "l2/../k", "l2/up/d/k", "loop", "dang", "real/back/k", "real/back/l/j", "d/l/up/real/k", "d/l/../../k", "l2/../back/../k"}
	kTo := []string{"", "sub/j", "back/k", "back/f", "../d/l/j", "../l2/up/d/k", "sub/../k", "back/../k", "sub/up/m.journal", "k"}
	jTo := []string{"", "../k", "up/d/k", "../sub/j", "../back/l/../k", "j", "../j", "k", "../../d/j", "../../l2/j"}
	dkTo := []string{"", "l/j", "l/../k", "f", "self/k", "self/../real/k", "k", "../l2/../k", "j", "l/../../d/f"}
	product([]int{len(mainTo), len(kTo), len(jTo), len(dkTo)}, func(ix []int) {
		if !e.Thorough && ix[1]*ix[2]*ix[3] != 0 && (ix[1]+ix[2]+ix[3])%3 != 0 {
			return
		}
		if !e.Mine() {
			e.Pass()
			return
		}
		incl := func(n int, to string) string {
			if to == "" {
				return txn(n)
			}
			return txn(n) + "\ninclude " + to + "\n" + txn(n+1)
		}
		files := map[string]string{mainFile: incl(0, mainTo[ix[0]]), "real/k": incl(4, kTo[ix[1]]), "real/sub/j": incl(8, jTo[ix[2]]), "d/k": incl(12, dkTo[ix[3]]), "d/j": txn(16), "k": txn(20), "real/j": txn(24)}
		for n, to := range fixed {
			files[n] = to
		}
		k := append([]int(nil), ix...)
		e.Do(func(x *X) error {
			x.Key("links %v", k)
			r := x.parsed(files)
			for _, c := range []string{"print", "accounts"} {
				o := x.Run(Case{Cmd: c, Files: files})
				x.Outcome(o.Out)
				if err := checkReport(o, r, c); err != nil {
					return err
				}
			}
			return nil
		})
	})
	e.Part("names")
	var chars []string
	for c := ' ' + 1; c < 127; c++ {
		if c != '/' {
			chars = append(chars, string(c))
		}
	}
	chars = append(chars, "é", "日", "  ", " ", "\u00a0", "e\u0301", "$HOME", "${x}", "%41", "..", "~", "**")
	for _, c := range chars {
		for form, name := range []string{c, c + "x", "x" + c + "y", "x" + c, "dir" + c + "/f", c + "dir/f", "d/" + c, "year2020" + c + "b.journal", "d/some" + c + "where/year" + c + c + "x", "a " + c + " b", "d/year 2020 " + c + "x"} {
			for there := 0; there < 3; there++ {
				for _, tail := range []string{"", "  ; c"} {
					if !e.Mine() {
						e.Pass()
						continue
					}
					// others that a pattern or an expansion might lead to
					files := map[string]string{mainFile: txn(1) + "\ninclude " + name + tail + "\n" + txn(2)}
					for i, n := range []string{"x1y", "xy", "x", "dir/f", "d/x", "xHOMEy", "m", "ax", "xa", "A", "a"} {
						if there < 2 {
							files[n] = txn(10 + i)
						}
					}
					if there == 1 && name != "d" && name != "." && name != ".." && !strings.Contains(name, "../") && !strings.HasSuffix(name, "/..") && name != "d/." {
						files[name] = txn(3)
					}
					e.Do(func(x *X) error {
						x.Key("name %q form %d there %d %q", c, form, there, tail)
						return checkJournal(x, files, "print", "statistics")
					})
				}
			}
		}
	}
	e.Part("spelling")
	for _, gap := range []string{" ", "  ", "   ", "\t", ""} {
		for _, name := range []string{"d/x", "./d/x", "d//x", "d/./x", "d/e/../x", "d/a b.journal", "d/é", "d/i.n-c_1", "d", "d/", "nope", ""} {
			for _, tail := range []string{"", " ", "  ", "\t", " ; c", ";c", "  # c", "\r"} {
				for _, pre := range []string{"", "2020-01-01 p\n  A  1\n  B\n", "\n", "; c\n  \n"} {
					if gap == "\t" && !e.Thorough { // not specified
						continue
					}
					if !e.Mine() {
						e.Pass()
						continue
					}
					body := "2020-02-02 inc\n  I  2\n  J\n"
					files := map[string]string{mainFile: pre + "include" + gap + name + tail + "\n2020-03-03 after\n  K  3\n  L\n",
						"d/x": body, "d/a b.journal": body, "d/é": body, "d/i.n-c_1": body, "d/e/z": body}
					e.Do(func(x *X) error {
						x.Key("include%q%q%q after %q", gap, name, tail, pre)
						return checkJournal(x, files, "print", "statistics")
					})
				}
			}
		}
	}
	sizePart(e, 1100, nil, func(x *X, files map[string]string) error {
		nested := map[string]string{mainFile: "2020-01-08 before\n  B  1\n  C\ninclude d/big\n  \n2020-01-01 behind\n  C  2\n  D\n"}
		for name, text := range files {
			if name == mainFile {
				name = "big"
			}
			nested["d/"+name] = text
		}
		return checkJournal(x, nested, "print", "statistics")
	})
	magicPart(e, checkCommands("print"))
	e.Part("pipes")
	// what is included need not be a file: a pipe has no size, and can be read only once
	pipeTexts := []string{txn(1), "", "\n", txn(1) + txn(2), "; c", "  ", "  C  3\n  D\n", "~ 2020-01\n  F  1\n", "2020-01-01 x\n  A  1\n", "include d/x\n" + txn(3), "include nope\n", strings.Repeat(txn(2)+"\n", 2000)}
	for ti, text := range pipeTexts {
		for pi, pos := range []string{"include %s", "include %s\n" + txn(5), txn(4) + "include %s\n" + txn(5), txn(4) + "\ninclude d/k\n" + txn(6), "include d/x\ninclude %s\ninclude d/x\n"} {
			for ni, name := range []string{"p", "d/p", "/dev/stdin"} {
				for ci, cmd := range []string{"print", "statistics", "balance", "budget", "accounts", "payees"} {
					if strings.Contains(pos, "d/k") && ni != 1 || strings.Contains(text, "include") && ni != 0 || ti > 6 && ci > 2 {
						continue
					}
					if !e.Mine() {
						e.Pass()
						continue
					}
					e.Do(func(x *X) error {
						x.Key("text %d at %d through %s: %s", ti, pi, name, cmd)
						files := map[string]string{mainFile: strings.ReplaceAll(pos, "%s", name), "d/x": txn(7), "d/k": "include p\n"}
						c := Case{Cmd: cmd}
						c.Via = "mkfifo " + name + " || exit 9; cat piped > " + name + " & \"$@\"; r=$?; rm -f " + name + "; kill %1 2> /dev/null; wait 2> /dev/null; exit $r"
						if name == "/dev/stdin" {
							c.Via = "cat piped | \"$@\""
						}
						c.Files = map[string]string{"piped": text}
						for n, f := range files {
							c.Files[n] = f
						}
						files[name] = text
						r := refParse(files, mainFile)
						if r.Odd == "absolute include" && name[0] == '/' { // there is nothing before its directory
							r.Odd = ""
						}
						o := x.Fresh(c)
						x.Step(len(r.Txns))
						x.Outcome(o.Out)
						return checkReport(o, r, cmd)
					})
				}
			}
		}
	}
	includeTokenPart(e, checkCommands("print"))
	nestPart(e, checkCommands("print", "statistics"))
	neighbourPart(e, 3, checkCommands("print", "balance", "statistics"))
}
