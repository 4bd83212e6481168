package main

import (
	"fmt"
	"strings"
)

// reading memoises the reference reading of the journal an item is about.
type reading struct {
	text string
	r    refResult
}

var lastReading reading

func (x *X) read(files map[string]string) refResult {
	var b strings.Builder
	for _, k := range sortedKeys(files) {
		b.WriteString(k + "\x00" + files[k] + "\x00")
	}
	key := b.String()
	if lastReading.text != key || lastReading.r.Odd == "" && lastReading.r.Txns == nil && lastReading.r.Err == nil {
		lastReading = reading{key, x.parsed(files)}
	}
	return lastReading.r
}

// expectCase compares the report of any command line (with ISO dates) with the reference's.
func expectCase(x *X, c Case) error {
	r := x.read(c.Files)
	if r.Err != nil || r.Odd != "" {
		return Fail("reference rejects its own journal: %v %s", r.Err, r.Odd)
	}
	for _, a := range c.Args {
		if strings.ContainsRune(a, 0) { // no command line has it
			return nil
		}
	}
	o := x.Run(c)
	x.Outcome(c.Cmd + o.Out)
	x.Step(1)
	ts := normalOf(r.Txns)
	lo, hi := dayNumber(0, 1, 1), dayNumber(9999, 12, 31)+1
	switch {
	case c.Current:
		now := c.Now
		if now == 0 {
			now = baseNow
		}
		hi = int(now/86400) + dayNumber(1970, 1, 1) + 1
	default:
		if c.Begin != "" {
			lo = boundDay(c.Begin, c.Now)
		}
		if c.End != "" {
			hi = boundDay(c.End, c.Now)
		}
	}
	ts = inRange(ts, lo, hi)
	what := fmt.Sprintf("%s begin=%s end=%s current=%v %q", c.Cmd, c.Begin, c.End, c.Current, c.Args)
	switch c.Cmd {
	case "accounts":
		return ExpectReport(o, linesOf(pick(accountNames(ts), c.Args)), what)
	case "payees":
		return ExpectReport(o, linesOf(pick(payeeNames(ts), c.Args)), what)
	case "budget":
		if len(c.Args) > 0 {
			return nil
		}
		return ExpectReport(o, renderBudget(append(ts, periodsOf(r.Txns)...)), what)
	}
	taken, part := selected(ts, c.Args)
	switch c.Cmd {
	case "print":
		return ExpectReport(o, renderPrint(taken), what)
	case "statistics":
		return ExpectStats(o, part, what)
	case "balance":
		return ExpectReport(o, renderBalance(postsOf(part), c.Flat, c.Coll, c.Zero), what)
	}
	return Fail("unknown command %s", c.Cmd)
}

func periodsOf(ts []Txn) []Txn {
	var out []Txn
	for _, t := range ts {
		if t.Period {
			out = append(out, t)
		}
	}
	return out
}

var crossEntries = []string{
	"2020-01-05 * Shop  ; weekly\n  ; card\n  Expenses:Food  £3\n  ; apples\n  Assets:Cash\n",
	"2020-01-03 Employer\n  Assets:Bank  £100\n  Income:Job\n",
	"2020-01-05 shop\n  Assets:Cash  £1\n  Assets:Bank  £-1\n  Assets:Cash:Purse  £0\n",
	"2019-12-31 ! refund  ; Weekly\n  Expenses:Food:Out  £-3\n  Assets:Cash  £3\n",
	"2020-02-29 Shop\n  Expenses:Food  £-3\n  Expenses:Food:Out  £3\n  X\n",
	"2020-01-05 zero\n  Z:A:B:C  £0\n  Z:A  £0\n",
	"2023-06-16 future\n  Expenses:Rent  £7\n  Assets:Bank\n",
	"2023-06-15 today\n  Expenses:Rent  £2.05\n  Assets:Cash  £-2.05\n  ; Card\n",
	"~ 2020-01\n  Food  £10\n",
	"2020-01-04\n  ; Card\n",
	"2020-01-01 A:B\n  A B  £5\n  A:B  £-4\n  A  £-1\n",
	"2020-01-05 é\n  É:ß  £0.99 ; Weekly\n  Assets:Cash\n",
}

var crossArgs = [][]string{nil, {"food"}, {"Cash"}, {"^assets", "@shop"}, {"@Shop"}, {"=card"}, {"=apples"}, {"X|Z"}, {"nosuch"}, {"nosuch", "Z"}, {"=weekly", "Assets:Bank"}}

var crossRanges = []Case{{}, {Begin: "2020-01-05"}, {End: "2020-01-05"}, {Begin: "2020-01-01", End: "2020-02-29"}, {Current: true}, {Current: true, Begin: "2020-01-05", End: "2020-01-06"}, {Begin: "2020-03-01", End: "2020-01-01"}}

// crossPart combines what the other parts look at one by one: every sequence of a few entries, all
// in one file or partly in an included one, with every date range, filter and layout.
func crossPart(e *E, cmds []string, layouts []Case) {
	e.Part("combinations")
	hi := 2
	if e.Thorough {
		hi = 3
	}
	if len(layouts) == 0 {
		layouts = []Case{{}}
	}
	seqs(len(crossEntries), 0, hi, func(ix []int) {
		for form := 0; form < 2; form++ {
			if !e.Mine() {
				e.Pass()
				continue
			}
			var b strings.Builder
			files := map[string]string{}
			for k, i := range ix {
				if form == 1 && k == len(ix)-1 {
					files["d/x"] = crossEntries[i]
					b.WriteString("include d/x\n")
				} else {
					b.WriteString(crossEntries[i])
				}
				if form == 0 {
					b.WriteString("\n")
				}
			}
			files[mainFile] = b.String()
			e.Do(func(x *X) error {
				x.Key("entries %v form %d", ix, form)
				for _, cmd := range cmds {
					args := crossArgs
					if cmd == "accounts" || cmd == "payees" {
						args = [][]string{nil, {"food"}, {"A", "s"}, {"^$"}, {"nosuch"}}
					}
					if cmd == "budget" {
						args = [][]string{nil}
					}
					ls := layouts
					if cmd != "balance" {
						ls = []Case{{}}
					}
					for _, r := range crossRanges {
						for _, a := range args {
							for _, l := range ls {
								c := Case{Cmd: cmd, Files: files, Begin: r.Begin, End: r.End, Current: r.Current, Args: a, Flat: l.Flat, Coll: l.Coll, Zero: l.Zero}
								if err := expectCase(x, c); err != nil {
									return err
								}
							}
						}
					}
				}
				return nil
			})
		}
	})
}

var allLayouts = []Case{{}, {Zero: true}, {Flat: true}, {Coll: true}, {Flat: true, Zero: true}, {Coll: true, Zero: true}, {Flat: true, Coll: true}, {Flat: true, Coll: true, Zero: true}}

// boundDay is the day a date flag means.
func boundDay(s string, now int64) int {
	if now == 0 {
		now = baseNow
	}
	year, _, _ := dateOf(int(now/86400) + dayNumber(1970, 1, 1))
	day, ok := smartDate(s, year)
	if !ok {
		panic("not a date: " + s)
	}
	return day
}
