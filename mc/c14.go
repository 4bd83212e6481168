package main

import (
	"fmt"
	"strings"
)

func init() {
	register(&Space{
		ID:   "C14",
		Rule: "every sequence of budget entries, spendings, earnings and other transactions up to a depth, and products of category paths and months: the budget report must equal the one computed by definition",
		Bound: map[string]string{
			"surroundings of a run": sameAsksBound,
			"families of names":     familiesBound,
			"any clock":             clocksBound,
			"near names":            nearBound,
			"neighbours":            neighboursBound,
			"features":              featuresBound,
			"orders":                ordersBound,
			"sizes of parts":        sizesBound,
			"limits":                hugeBound,
			"vocabulary":            vocabBound,
			"other dialects":        dialectsBound2,
			"combinations":          "every sequence of up to 2 (thorough: 3) of 12 entries, in one file or two, with each of 7 date ranges, 11 lists of filters and the layouts",
			"histories":             "26 events, up to 3 (quick) / 4 (thorough) in any order",
			"paths":                 "9 category paths x 9 spending accounts x 3 months each way",
		},
		Run: runC14,
	})
}

func runC14(e *E) {
	askSame(e, "budget")
	events := []string{
		"~ 2020-01\n  Food  £10\n", "~ 2020-01\n  Food  £-4\n", "~ 2020-02\n  Food  £7\n", "~ 2019-01\n  Rent  £3\n",
		"~ 2020-01\n  Food:Out  £5\n  Rent  £6\n", "~ 2020-01\n  Food  £1\n  Food:Out  £2\n  Food:Out:Pub  £4\n", "~ 2020-02\n  Fun Stuff  £0\n",
		"~ 2020-12\n  Zed  £8\n  Rent\n", "~ 2020-01 \n  ; note\n  Food  £2.50 ; c",
		"2020-01-01 s\n  Expenses:Food  £3\n  Cash\n", "2020-01-31 s\n  Expenses:Food  £-2\n  Cash\n", "2020-02-01 s\n  Expenses:Food  £4\n  Cash\n", "2020-02-29 s\n  Expenses:Food:Out  £9\n  Cash\n",
		"2019-12-31 s\n  Expenses:Rent  £11\n  Cash\n", "2020-01-15 s\n  Expenses:Food:Out:Pub  £1.25\n  Expenses:Rent  £2\n  Cash\n", "2020-01-15 s\n  Expenses  £6\n  Cash\n",
		"2020-01-16 s\n  Expenses:Zed  £1\n  Expenses:Zed  £-1\n",
		"2020-01-05 i\n  Cash  £100\n  Income:Job\n", "2020-02-28 i\n  Cash  £50\n  Income\n", "2019-01-01 i\n  Income:Job:Bonus  £-20\n  Income:Gift  £-1\n  Cash\n", "2020-03-01 i\n  Income:Job  £5\n  Cash\n",
		"2020-01-10 both\n  Expenses:Food  £2\n  Income:Job  £-30\n  Cash\n",
		"2020-04-01 other\n  Cash  £1\n  ExpensesX:Food\n", "2020-04-01 other\n  expenses:Food  £1\n  incomes:Food\n", "2020-04-01 other\n  Assets:Expenses:Food  £1\n  A:Income\n", "2020-01-03 empty\n",
	}
	e.Part("histories")
	hi := 3
	if e.Thorough {
		hi = 4
	}
	seqs(len(events), 0, hi, func(ix []int) {
		if !e.Mine() {
			e.Pass()
			return
		}
		var l []string
		for _, i := range ix {
			l = append(l, events[i])
		}
		text := strings.Join(l, []string{"", "\n"}[len(ix)%2])
		k := append([]int(nil), ix...)
		e.Do(func(x *X) error {
			x.Key("history %v", k)
			x.Sample(text)
			return checkJournal(x, one(text), "budget")
		})
	})
	e.Part("paths")
	cats := []string{"Food", "Food:Out", "Food:Out:Pub", "F", "Foo d", "food", "Rent:Food", "Café", "Expenses:Food"}
	months := []string{"2020-01", "2020-02", "2021-01"}
	product([]int{len(cats), len(cats), len(cats), 3, 3, 3, 2}, func(ix []int) {
		if !e.Thorough && (ix[0]+ix[1]+ix[2])%3 != 0 {
			return
		}
		if !e.Mine() {
			e.Pass()
			return
		}
		t := []string{
			fmt.Sprintf("~ %s\n  %s  £10\n", months[ix[3]], cats[ix[0]]),
			fmt.Sprintf("%s-28 s\n  Expenses:%s  £3\n  Cash\n", months[ix[4]], cats[ix[1]]),
			fmt.Sprintf("%s-01 s\n  Expenses:%s  £0.50\n  Income:%s  £-9\n  Cash\n", months[ix[5]], cats[ix[2]], cats[ix[2]]),
		}
		if ix[6] == 1 {
			t[0], t[2] = t[2], t[0]
		}
		text := strings.Join(t, "\n")
		k := append([]int(nil), ix...)
		e.Do(func(x *X) error {
			x.Key("paths %v", k)
			return checkJournal(x, one(text), "budget")
		})
	})
	e.Part("every day")
	for d := dayNumber(2019, 12, 1); d <= dayNumber(2021, 3, 5); d++ {
		if !e.Mine() {
			e.Pass()
			continue
		}
		text := fmt.Sprintf("%s s\n  Expenses:Food  £3\n  Income:x  £-4\n  Cash\n%s t\n  Expenses:Food  £5\n  Cash\n", dayStr(d), dayStr(d+1))
		e.Do(func(x *X) error {
			x.Key("day %s", dayStr(d))
			return checkJournal(x, one(text), "budget")
		})
	}
	e.Part("many")
	for n := 1; n <= 40; n++ {
		for pat := 0; pat < 3; pat++ {
			if !e.Mine() {
				e.Pass()
				continue
			}
			var b strings.Builder
			for i := 0; i < n; i++ {
				k := []int{i, n - i, i * 7 % n}[pat]
				m := k%12 + 1
				fmt.Fprintf(&b, "~ %04d-%02d\n  C%d:s%d  %d\n  C%d\n", 2020+k/12, m, k%5, k, k+1, k%3)
				fmt.Fprintf(&b, "%04d-%02d-%02d s\n  Expenses:C%d:t  %d.%02d\n  Income\n", 2020+k/12, m, k%28+1, k%4, k, k)
			}
			text := b.String()
			e.Do(func(x *X) error {
				x.Key("many %d pattern %d", n, pat)
				return checkJournal(x, one(text), "budget")
			})
		}
	}
	e.Part("periods that are not months")
	for _, p := range []string{"monthly", "weekly", "2020", "2020-13", "2020-1", "2020/01", "every 2 weeks", "yearly"} {
		e.Do(func(x *X) error {
			x.Key("period %s", p)
			text := "2020-01-01 s\n  Expenses:Food  £3\n  Cash\n\n~ " + p + "\n  Food  £10\n"
			x.State("period", p)
			x.Step(1)
			o := x.Run(Case{Cmd: "budget", Files: one(text)})
			if c := o.Crashed(); c != "" {
				return Fail("%s", c)
			}
			if o.Rejected() {
				return nil
			}
			// no month was named, so no month may appear but January 2020
			for _, l := range strings.Split(o.Out, "\n") {
				if strings.HasSuffix(l, " 00:00:00 +0000 UTC") && l != "2020-01-01 00:00:00 +0000 UTC" {
					return Fail("budget reports the month %s, which is not in the journal:\n%s", l, clip(o.Out))
				}
			}
			return nil
		})
	}
	crossPart(e, []string{"budget"}, nil)
	accountPairs(e, []string{"budget"}, nil)
	categoryOrders(e)
	datePairs(e, []string{"budget"})
	hugeHistories(e, []string{"budget"})
	amountPairs(e, []string{"budget"})
	sizeCommands(e, 1100, []Case{{Cmd: "budget"}}, "budget", "months", "days", "categor", "children", "years")
	featurePart(e, []string{"budget"}, nil)
	neighbourPart(e, 4, checkCommands("budget"))
	categoryFamilies(e)
	clockPart(e, clockCases("budget"))
	nearNames(e, func(x *X, text string) error { return checkJournal(x, one(text), "budget") })
	dialectPart(e, 2, func(x *X, files map[string]string) error {
		text := strings.NewReplacer("\n  A  ", "\n  Expenses:F  ", "\n  B\n", "\n  Income:J\n", "\n  B  ", "\n  Income:J  ").Replace(files[mainFile])
		return checkJournal(x, one(text), "budget")
	})
	dialectEntries(e, checkCommands("budget"))
}
