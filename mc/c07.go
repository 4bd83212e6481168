package main

import (
	"fmt"
	"strings"
)

func init() {
	register(&Space{
		ID:   "C07",
		Rule: "every set of accounts out of a universe of 12 paths (single children, forks, deep chains, sibling order hazards), with every account non-zero or some zero, in all eight combinations of the layout flags: each report must equal the report of that layout over the same reference tree, which is how the layouts are held to agree with each other",
		Bound: map[string]string{
			"surroundings of a run": sameAsksBound,
			"families of names":     familiesBound,
			"siblings":              siblingsBound,
			"features":              featuresBound,
			"orders":                ordersBound,
			"sizes of parts":        sizesBound + " up to 513",
			"vocabulary":            vocabBound,
			"combinations":          "every sequence of up to 2 (thorough: 3) of 12 entries, in one file or two, with each of 7 date ranges, 11 lists of filters and the layouts",
			"sets":                  "all 2^12 subsets of three universes (and, thorough, 2^13 of a fourth), 3 amount patterns",
			"layouts":               "-F, -C, -Z in all combinations",
		},
		Run: runC07,
	})
}

func runC07(e *E) {
	askSame(e, "balance")
	unis := [][]string{
		{"A", "A:B", "A:B:C", "A:B:C:D", "A:B:E", "A:F", "B", "B:C", "B:C:D", "B:C:D:E:F", "B:C:D:G", "C:A:B"},
		{"A", "A:a", "A:B", "A:B C", "A:B:c", "A:Z:A", "A:Z:B", "A:Z:B:X", "a:Q:R", "a:Q:S:T", "Ä:x:y:z", "Z"},
		{"A:1", "A:10", "A:2", "A:2:x", "A:2:x:y:z", "B:P:Q", "B:P:Q:R", "B:P:Q:S", "B:P:Q:S:T:U", "B:Z", "AB", "A B:C"},
		{"Q", "Q:W", "Q:W:E", "Q:W:E:R", "Q:W:E:R:T", "Q:W:E:R:T:Y", "Q:W:X", "Q:W:E:X", "Q:W:E:R:X", "Q:W:E:R:T:X", "Q:X", "R:S:T", "R:S:T:U"},
	}
	for ui, uni := range unis {
		if len(uni) > 12 && !e.Thorough {
			continue
		}
		e.Part(fmt.Sprintf("universe %d", ui))
		for mask := 0; mask < 1<<len(uni); mask++ {
			for pat := 0; pat < 3; pat++ {
				if !e.Mine() {
					e.Pass()
					continue
				}
				var b strings.Builder
				b.WriteString("2020-01-01 t\n")
				n := 0
				for i, a := range uni {
					if mask>>i&1 == 0 {
						continue
					}
					n++
					q := 1 << i
					switch pat {
					case 1:
						if i%3 == mask%3 {
							q = 0
						}
					case 2:
						q = 1 - 2*(n&1)
					}
					fmt.Fprintf(&b, "  %s  £%d\n", a, q)
				}
				if pat == 2 {
					b.WriteString("  A:B\n")
				} else {
					b.WriteString("  ZZ:Y:X\n")
				}
				text := b.String()
				e.Do(func(x *X) error {
					x.Key("universe %d subset %b pattern %d", ui, mask, pat)
					x.Sample(text)
					return layouts(x, one(text))
				})
			}
		}
	}
	e.Part("nothing to show")
	for _, text := range []string{"", "; c\n", "2020-01-01 t\n", "2020-01-01 t\n  A  £0\n  A:B  £0\n", "2020-01-01 t\n  A:B  £1\n  A:B  £-1\n"} {
		e.Do(func(x *X) error {
			x.Key("journal %q", text)
			return layouts(x, one(text))
		})
	}
	featurePart(e, []string{"balance"}, allLayouts)
	crossPart(e, []string{"balance"}, allLayouts)
	accountPairs(e, []string{"balance"}, allLayouts)
	accountFamilies(e, []string{"balance"}, allLayouts)
	accountOrders(e, []string{"balance"}, allLayouts)
	sizeCommands(e, 520, func() []Case {
		var l []Case
		for _, c := range allLayouts {
			c.Cmd = "balance"
			l = append(l, c)
		}
		return l
	}(), "account", "postings", "levels", "children", "years")
	siblingPart(e, []string{"accounts", "balance"}, allLayouts)
}

func layouts(x *X, files map[string]string) error {
	r := x.parsed(files)
	posts := postsOf(r.Txns)
	for m := 0; m < 8; m++ {
		c := Case{Cmd: "balance", Files: files, Flat: m&1 != 0, Coll: m&2 != 0, Zero: m&4 != 0}
		o := x.Run(c)
		x.Outcome(o.Out)
		if err := ExpectReport(o, renderBalance(posts, c.Flat, c.Coll, c.Zero), fmt.Sprintf("balance flat=%v collapse=%v show-zero=%v", c.Flat, c.Coll, c.Zero)); err != nil {
			return err
		}
	}
	return nil
}
