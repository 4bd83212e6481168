package main

import (
	"fmt"
	"strings"
)

func init() {
	register(&Space{
		ID:   "C02",
		Rule: "every vector of posting amounts (each omitted or one of five values) up to a length, alone and in every context (after and before other transactions with and without blank lines, at the end of the file, included, next to budget entries), and every pair of short vectors; print and balance must equal the reference, and unbalanced or ambiguous ones must be rejected",
		Bound: map[string]string{
			"with comments":  "every vector of up to 3 (thorough: 4) of 6 amounts, each posting with no comment, one at its end, one below or both, in each state",
			"neighbours":     neighboursBound,
			"surroundings":   nestsBound,
			"sizes of parts": sizesBound,
			"limits":         hugeBound,
			"vocabulary":     vocabBound,
			"other dialects": dialectsBound + " (only in place of an amount, and after one)",
			"vectors":        "amounts {omitted,-3,-1,0,1,2} of length 1..6 (quick) / 7 (thorough); large amounts to 9e16",
			"scales":         "vectors of amounts of four other scales (hundredths to hundreds) to length 5 or 6; 2..20 postings that are off balance by 27 amounts",
			"contexts":       "14 surroundings",
		},
		Run: runC02,
	})
}

func postings(vals []string, comm string) string {
	var b strings.Builder
	for i, v := range vals {
		fmt.Fprintf(&b, "  %c:x", 'A'+i)
		if v != "" {
			b.WriteString("  " + comm + v)
		}
		b.WriteString("\n")
	}
	return b.String()
}

func runC02(e *E) {
	contexts := []func(t string) map[string]string{
		func(t string) map[string]string { return one(t) },
		func(t string) map[string]string { return one(strings.TrimSuffix(t, "\n")) },
		func(t string) map[string]string { return one("2019-01-01 b\n  P  4\n  Q\n" + t) },
		func(t string) map[string]string { return one("2019-01-01 b\n  P\n  Q  4\n\n" + t) },
		func(t string) map[string]string { return one(t + "2019-01-01 b\n  P  4\n  Q\n") },
		func(t string) map[string]string { return one(t + "\n2019-01-01 b\n  P  4\n  Q  -4") },
		func(t string) map[string]string {
			return map[string]string{mainFile: "include x\n2019-01-01 b\n  P  4\n  Q\n", "x": strings.TrimSuffix(t, "\n")}
		},
		func(t string) map[string]string {
			return map[string]string{mainFile: t + "include x\n", "x": "2019-01-01 b\n  P  4\n  Q\n"}
		},
		func(t string) map[string]string {
			return map[string]string{mainFile: "2019-01-01 b\n  P  4\n  Q\ninclude x", "x": t}
		},
		func(t string) map[string]string { return one("~ 2020-01\n  Food  7\n" + t) },
		func(t string) map[string]string { return one(t + "~ 2020-01\n  Food  7\n  Rent  3\n") },
		func(t string) map[string]string { return one("2019-01-01 header only\n" + t) },
		func(t string) map[string]string { return one(strings.ReplaceAll(t, "\n", "\n; c\n  ; note\n")) },
		func(t string) map[string]string { return one("  ; stray\n\n" + t + t) },
	}
	vals := []string{"", "-3", "-1", "0", "1", "2"}
	hi := 6
	if e.Thorough {
		hi = 7
	}
	e.Part("vectors in contexts")
	seqs(len(vals), 0, hi, func(ix []int) {
		for c := range contexts {
			if len(ix) == hi && c > 1 && (ix[0]+2*ix[1]+3*ix[2]+ix[3])%(len(contexts)-2) != c-2 {
				continue
			}
			if !e.Mine() {
				e.Pass()
				continue
			}
			var v []string
			for _, i := range ix {
				v = append(v, vals[i])
			}
			comm := []string{"", "£", "$ "}[c%3]
			if c >= 2 {
				comm = ""
			}
			files := contexts[c]("2020-01-01 t\n" + postings(v, comm))
			e.Do(func(x *X) error {
				x.Key("amounts %q context %d", v, c)
				x.Sample(jsonString(files))
				return checkJournal(x, files, "print", "balance")
			})
		}
	})
	e.Part("vectors of other scales")
	for si, vs := range [][]string{{"", "-0.03", "-0.01", "0.00", "0.01", "0.02"}, {"", "-300", "-100", "0", "100", "200"}, {"", "-0.99", "-0.10", "0.1", "0.9", "1"}, {"", "-33.34", "-33.33", "33.33", "66.67", "100"}} {
		top := 6
		if si > 0 && !e.Thorough {
			top = 5
		}
		seqs(len(vs), 1, top, func(ix []int) {
			if !e.Mine() {
				e.Pass()
				return
			}
			var v []string
			for _, i := range ix {
				v = append(v, vs[i])
			}
			e.Do(func(x *X) error {
				x.Key("amounts %q", v)
				return checkJournal(x, one("2020-01-01 t\n"+postings(v, "£")), "print")
			})
		})
	}
	e.Part("almost in balance")
	// a sum of many amounts that is off by a little
	deltas := []int64{0, 1, -1, 2, -2, 3, 5, -5, 9, 10, -10, 49, 50, -50, 99, 100, -100, 101, 1000, -1000, 65535, 65536, -65536, 1 << 31, -(1 << 31), 1 << 32, -(1 << 32)}
	for n := 2; n <= 20; n++ {
		for ai, a := range vocabAmounts {
			for _, sign := range []int64{1, -1} {
				for _, d := range deltas {
					if !e.Mine() {
						e.Pass()
						continue
					}
					var v []string
					var sum int64
					for i := 0; i < n-1; i++ {
						q, _ := parseQ(vocabAmounts[(ai+i*i*(ai%3))%len(vocabAmounts)])
						if i%3 == 2 {
							q = -q
						}
						sum += sign * q
						v = append(v, fmtQ(sign*q))
					}
					v = append(v, fmtQ(d-sum))
					e.Do(func(x *X) error {
						x.Key("%d postings of %s off by %d", n, a, d)
						return checkJournal(x, one("2020-01-01 t\n"+postings(v, "")), "print")
					})
				}
			}
		}
	}
	e.Part("with comments")
	// every posting of a short vector with none, one at its end, one on the next line or both
	top := 3
	if e.Thorough {
		top = 4
	}
	vs := []string{"", "-1", "0", "0.30", "-0.30", "1"}
	for n := 1; n <= top; n++ {
		sizes := []int{3}
		for i := 0; i < n; i++ {
			sizes = append(sizes, len(vs)*4)
		}
		product(sizes, func(ix []int) {
			if !e.Mine() {
				e.Pass()
				return
			}
			text := "2020-01-01 " + []string{"", "* ", "! "}[ix[0]] + "t\n"
			for k, i := range ix[1:] {
				text += fmt.Sprintf("  %c:x", 'A'+k)
				if v := vs[i/4]; v != "" {
					text += "  £" + v
				}
				text += []string{"\n", " ; c\n", "\n  ; d\n", " ; c\n  ; d\n"}[i%4]
			}
			e.Do(func(x *X) error {
				x.Key("postings %q", text)
				return checkJournal(x, one(text), "print")
			})
		})
	}
	e.Part("accounts posted to again")
	accts := []string{"A", "A:B", "B"}
	few := []string{"", "-1", "0", "0.50", "2"}
	again := 4
	if e.Thorough {
		again = 5
	}
	seqs(len(accts)*len(few), 1, again, func(ix []int) {
		if !e.Mine() {
			e.Pass()
			return
		}
		notes := []string{"", "  ; c\n"}
		text := "2020-01-01 t\n"
		for k, i := range ix {
			text += "  " + accts[i%len(accts)]
			if v := few[i/len(accts)]; v != "" {
				text += "  " + v
			}
			text += "\n" + notes[(k+ix[0])%2*(ix[len(ix)-1]%2)]
		}
		e.Do(func(x *X) error {
			x.Key("postings %q", text)
			return checkJournal(x, one(text), "print")
		})
	})
	e.Part("pairs of vectors")
	var short [][]string
	seqs(len(vals), 0, 3, func(ix []int) {
		var v []string
		for _, i := range ix {
			v = append(v, vals[i])
		}
		short = append(short, v)
	})
	for i := range short {
		for j := range short {
			if !e.Thorough && (len(short[i]) == 3 && len(short[j]) == 3 && (i+j)%3 != 0) {
				continue
			}
			if !e.Mine() {
				e.Pass()
				continue
			}
			sep := []string{"", "\n", "\n\n"}[(i+j)%3]
			text := "2020-01-01 t\n" + postings(short[i], "") + sep + "2020-01-02 u\n" + postings(short[j], "")
			e.Do(func(x *X) error {
				x.Key("amounts %q then %q", short[i], short[j])
				return checkJournal(x, one(text), "print")
			})
		}
	}
	e.Part("exact inference")
	// many quantities with the rest inferred: the inferred amount is exact whatever the magnitude
	var qs []int64
	for k := int64(1); k < 9e16; k *= 7 {
		for _, d := range []int64{-1, 0, 1} {
			qs = append(qs, k+d, -(k + d))
		}
	}
	for i, a := range qs {
		for j, b := range qs {
			if !e.Mine() {
				e.Pass()
				continue
			}
			pos := (i + j) % 3
			v := []string{fmtQ(a), fmtQ(b)}
			v = append(v[:min(pos, len(v))], append([]string{""}, v[min(pos, len(v)):]...)...)
			text := "2020-01-01 t\n" + postings(v, "£")
			w := append([]string(nil), v...)
			w[pos] = fmtQ(-(a + b) + int64((i+j)%2))
			text2 := text + "\n2020-01-01 explicit\n" + postings(w, "£")
			e.Do(func(x *X) error {
				x.Key("amounts %q then %q", v, w)
				return checkJournal(x, one(text2), "print", "balance")
			})
		}
	}
	hugeSums(e, []string{"print", "balance", "accounts", "statistics"}, 5)
	amountPairs(e, []string{"print", "balance"})
	accountPairs(e, []string{"print"}, nil)
	sizeCommands(e, 1100, []Case{{Cmd: "print"}}, "postings", "transactions", "levels of an account", "years", "files")
	nestPart(e, checkCommands("print", "balance", "budget"))
	neighbourPart(e, 3, checkCommands("balance", "statistics"))
	dialectAmountPart(e, 3, checkCommands("print"))
}
