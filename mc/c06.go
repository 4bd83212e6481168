package main

import (
	"fmt"
	"strings"
)

func init() {
	register(&Space{
		ID:   "C06",
		Rule: "every assignment of own balances (not posted to, zero, +1, -1, cancelled to zero by two transactions, 2) to every node of account trees: which accounts the balance report shows, with and without --show-zero, in every layout, and every amount and total, must equal the definition",
		Bound: map[string]string{
			"surroundings of a run": sameAsksBound,
			"features":              featuresBound,
			"sizes of parts":        sizesBound + " up to 513",
			"vocabulary":            vocabBound,
			"combinations":          "every sequence of up to 2 (thorough: 3) of 12 entries, in one file or two, with each of 7 date ranges, 11 lists of filters and the layouts",
			"numbers":               "4 accounts below one another whose balances of -1, 0 and 1 come from 0..4 postings each, in one transaction and in several",
			"trees":                 "3 trees of 7 accounts (a path with branches, a chain, a star) and the balancing account",
			"balances":              "5 choices per account (quick) / 6 (thorough)",
		},
		Run: runC06,
	})
}

func runC06(e *E) {
	askSame(e, "balance")
	trees := [][]string{
		{"A", "A:B", "A:B:C", "A:B:D", "A:E", "F", "F:G"},
		{"A", "A:B", "A:B:C", "A:B:C:D", "A:B:C:D:E", "A:B:C:D:E:F", "B"},
		{"A", "A:B", "A:C", "A:D", "A:E", "A:F", "A:G"},
	}
	vals := 5
	if e.Thorough {
		vals = 6
	}
	for ti, tree := range trees {
		e.Part(fmt.Sprintf("tree %d", ti))
		sizes := make([]int, len(tree))
		for i := range sizes {
			sizes[i] = vals
		}
		product(sizes, func(ix []int) {
			if !e.Mine() {
				e.Pass()
				return
			}
			var a, b strings.Builder
			a.WriteString("2020-01-01 one\n")
			b.WriteString("2020-01-02 two\n")
			for i, v := range ix {
				switch v {
				case 1:
					fmt.Fprintf(&a, "  %s  £0\n", tree[i])
				case 2:
					fmt.Fprintf(&a, "  %s  £1\n", tree[i])
				case 3:
					fmt.Fprintf(&b, "  %s  £-1\n", tree[i])
				case 4:
					fmt.Fprintf(&a, "  %s  £1\n", tree[i])
					fmt.Fprintf(&b, "  %s  £-1\n", tree[i])
				case 5:
					fmt.Fprintf(&b, "  %s  £2\n", tree[i])
				}
			}
			a.WriteString("  Z:Z  £0\n  Z:Y\n")
			b.WriteString("  Z:Z  £0\n  Z\n")
			text := a.String() + b.String()
			k := append([]int(nil), ix...)
			e.Do(func(x *X) error {
				x.Key("tree %d balances %v", ti, k)
				x.Sample(text)
				r := x.parsed(one(text))
				posts := postsOf(r.Txns)
				for _, c := range []Case{{}, {Zero: true}, {Flat: true}, {Coll: true}, {Flat: true, Zero: true}, {Coll: true, Zero: true}} {
					c.Cmd, c.Files = "balance", one(text)
					o := x.Run(c)
					x.Outcome(o.Out)
					if err := ExpectReport(o, renderBalance(posts, c.Flat, c.Coll, c.Zero), fmt.Sprintf("balance flat=%v collapse=%v show-zero=%v", c.Flat, c.Coll, c.Zero)); err != nil {
						return err
					}
				}
				return nil
			})
		})
	}
	e.Part("numbers of postings")
	// an account of a balance may have it from one posting or from several
	accts := []string{"A", "A:B", "A:B:C", "A:D"}
	product([]int{13, 13, 13, 4, 2}, func(ix []int) {
		if !e.Mine() {
			e.Pass()
			return
		}
		var b strings.Builder
		b.WriteString("2020-01-01 one\n")
		for i, a := range accts {
			k, v := (ix[i]+2)/3, int64(ix[i]%3)-1
			if i == 3 {
				k, v = []int{0, 1, 3, 4}[ix[i]], 0
			}
			for j, q := range [][]int64{nil, {v}, {7, v - 7}, {7, -5, v - 2}, {7, -5, 3, v - 5}}[k] {
				if ix[4] == 1 && (i > 0 || j > 0) {
					fmt.Fprintf(&b, "2020-01-0%d more\n", 9-j)
				}
				fmt.Fprintf(&b, "  %s  £%d\n", a, q)
				if ix[4] == 1 {
					b.WriteString("  Z\n")
				}
			}
		}
		if ix[4] == 0 {
			b.WriteString("  Z\n")
		}
		text := b.String()
		k := append([]int(nil), ix...)
		e.Do(func(x *X) error {
			x.Key("numbers of postings %v", k)
			r := x.parsed(one(text))
			if r.Err != nil || r.Odd != "" {
				return Fail("reference rejects its own journal: %v %s", r.Err, r.Odd)
			}
			return layouts(x, one(text))
		})
	})
	featurePart(e, []string{"balance"}, allLayouts)
	crossPart(e, []string{"balance"}, allLayouts)
	accountPairs(e, []string{"balance"}, allLayouts)
	amountPairs(e, []string{"balance"})
	sizeCommands(e, 520, []Case{{Cmd: "balance"}, {Cmd: "balance", Zero: true}, {Cmd: "balance", Flat: true}, {Cmd: "balance", Coll: true}}, "account", "postings", "transactions", "levels", "children")
}
