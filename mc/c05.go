package main

import (
	"fmt"
	"strings"
)

func init() {
	register(&Space{
		ID:   "C05",
		Rule: "every history of up to three transactions over a set of accounts with hazardous names (prefixes, equal components, case), every multi-posting transaction up to a length, chains and fans of accounts: the balance report must equal sums computed by definition from the postings",
		Bound: map[string]string{
			"surroundings of a run": sameAsksBound,
			"families of names":     familiesBound,
			"shares":                sharesBound,
			"numbers":               countsBound,
			"features":              featuresBound,
			"orders":                ordersBound,
			"sizes of parts":        sizesBound,
			"limits":                hugeBound,
			"vocabulary":            vocabBound,
			"other dialects":        dialectsBound2,
			"near names":            nearBound,
			"combinations":          "every sequence of up to 2 (thorough: 3) of 12 entries, in one file or two, with each of 7 date ranges, 11 lists of filters and the layouts",
			"histories":             "7 accounts x 7 accounts x 3 amounts per transaction, up to 2 transactions; 4 (thorough: 7) accounts and 2 amounts, 3 transactions; 4 account sets",
			"postings":              "up to 4 (quick) / 5 (thorough) postings over 7 accounts and 3 amounts in one transaction",
			"layouts":               "tree and flat, with and without --show-zero",
		},
		Run: runC05,
	})
}

var c05Sets = [][]string{
	{"A", "A:B", "A:B:C", "A:D", "B", "AB", "A:B:C:D"},
	{"A:A", "A:A:A", "A", "a", "a:A", "AA:A", "A:AA"},
	{"X:Y Z", "X:Y", "X", "X Y:Z", "X:Y:Z", "X-Y:Z", "X.Y"},
	{"É:ß", "É", "E:s", "É:ß:漢", "Z:_", "E", "É:s"},
}

func runC05(e *E) {
	askSame(e, "balance")
	amts := []string{"1.25", "-3", "0"}
	balances := func(x *X, text string, all bool) error {
		r := x.parsed(one(text))
		if r.Err != nil || r.Odd != "" {
			return Fail("reference rejects its own journal: %v %s", r.Err, r.Odd)
		}
		posts := postsOf(r.Txns)
		cs := []Case{{Cmd: "balance"}, {Cmd: "balance", Zero: true}}
		if all {
			cs = append(cs, Case{Cmd: "balance", Flat: true}, Case{Cmd: "balance", Flat: true, Zero: true}, Case{Cmd: "balance", Coll: true})
		}
		for _, c := range cs {
			c.Files = one(text)
			o := x.Run(c)
			x.Outcome(o.Out)
			if err := ExpectReport(o, renderBalance(posts, c.Flat, c.Coll, c.Zero), "balance"); err != nil {
				return err
			}
		}
		return nil
	}
	for si, set := range c05Sets {
		n := len(set) * len(set) * len(amts)
		txn := func(i int) string {
			a, b, q := set[i%len(set)], set[i/len(set)%len(set)], amts[i/len(set)/len(set)]
			return fmt.Sprintf("2020-01-01 t\n  %s  £%s\n  %s\n", a, q, b)
		}
		e.Part(fmt.Sprintf("histories %d", si))
		seqs(n, 1, 2, func(ix []int) {
			if !e.Mine() {
				e.Pass()
				return
			}
			var b strings.Builder
			for _, i := range ix {
				b.WriteString(txn(i))
			}
			text := b.String()
			e.Do(func(x *X) error {
				x.Key("set %d history %v", si, ix)
				x.Sample(text)
				return balances(x, text, len(ix) == 1 || ix[0]%3 == ix[1]%3)
			})
		})
		e.Part(fmt.Sprintf("long histories %d", si))
		few := 4 // accounts
		if e.Thorough {
			few = len(set)
		}
		seqs(few*few*2, 3, 3, func(ix []int) {
			if !e.Mine() {
				e.Pass()
				return
			}
			var b strings.Builder
			for _, i := range ix {
				fmt.Fprintf(&b, "2020-01-01 t\n  %s  £%s\n  %s\n", set[i%few], amts[i/few/few], set[i/few%few])
			}
			text := b.String()
			e.Do(func(x *X) error {
				x.Key("set %d long history %v", si, ix)
				return balances(x, text, false)
			})
		})
		e.Part(fmt.Sprintf("many postings %d", si))
		hi := 4
		if e.Thorough {
			hi = 5
		}
		if si > 1 && !e.Thorough {
			hi = 3
		}
		seqs(len(set)*len(amts), 2, hi, func(ix []int) {
			if !e.Mine() {
				e.Pass()
				return
			}
			var b strings.Builder
			b.WriteString("2020-01-01 t\n")
			for k, i := range ix {
				b.WriteString("  " + set[i%len(set)])
				if k != len(ix)-1 {
					b.WriteString("  " + amts[i/len(set)])
				}
				b.WriteString("\n")
			}
			text := b.String()
			e.Do(func(x *X) error {
				x.Key("set %d postings %v", si, ix)
				return balances(x, text, len(ix) < 4)
			})
		})
	}
	e.Part("chains and fans")
	for depth := 1; depth <= 40; depth++ {
		for fan := 1; fan <= 12; fan++ {
			for order := 0; order < 3; order++ {
				if !e.Mine() {
					e.Pass()
					continue
				}
				var l []string
				for d := 1; d <= depth; d++ {
					p := "A"
					for k := 1; k < d; k++ {
						p += fmt.Sprintf(":n%d", k)
					}
					l = append(l, fmt.Sprintf("2020-01-01 c\n  %s  %d.%02d\n  Z\n", p, d, d))
					if d == depth || d%7 == 3 {
						for f := 0; f < fan; f++ {
							l = append(l, fmt.Sprintf("2020-01-01 f\n  %s:k%d  -%d\n  Z:%d\n", p, f*3%13, f+1, f%4))
						}
					}
				}
				switch order {
				case 1:
					for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
						l[i], l[j] = l[j], l[i]
					}
				case 2:
					var m []string
					for i := range l {
						m = append(m, l[(i*7+3)%len(l)])
					}
					l = m
				}
				text := strings.Join(l, "\n")
				e.Do(func(x *X) error {
					x.Key("depth %d fan %d order %d", depth, fan, order)
					return balances(x, text, true)
				})
			}
		}
	}
	featurePart(e, []string{"balance"}, []Case{{}, {Zero: true}})
	crossPart(e, []string{"balance"}, []Case{{}, {Zero: true}})
	accountPairs(e, []string{"balance"}, []Case{{}, {Zero: true}, {Flat: true}})
	hugeHistories(e, []string{"balance", "print"})
	amountPairs(e, []string{"balance"})
	accountOrders(e, []string{"balance"}, []Case{{}, {Flat: true}})
	sizeCommands(e, 1100, []Case{{Cmd: "balance", Zero: true}, {Cmd: "balance", Args: []string{"1"}}}, "account", "postings", "transactions", "levels", "children", "files", "days", "years")
	countPart(e, countCases([]string{"balance"}, allLayouts[:4]))
	accountFamilies(e, []string{"balance"}, allLayouts[:3])
	sharesPart(e, []string{"balance"})
	dialectPart(e, 2, checkCommands("balance"))
	nearNames(e, func(x *X, text string) error { return balances(x, text, true) })
}
