package main

import (
	"fmt"
	"strings"
)

func init() {
	register(&Space{
		ID:   "C16",
		Rule: "every assignment of income and spending to the days of several calendars, in several journal orders and splits; whenever the property's conditions hold, the reported age of money must be the average of the last ten ages of the first-in-first-out matching computed by definition",
		Bound: map[string]string{
			"surroundings of a run": sameAsksBound,
			"near names":            nearBound,
			"gaps":                  "11, 12 and 14 (thorough: 7 lengths to 20) incomes of a day each, with gaps of 0 to 100 days at every two places, and a first spending that takes 1, 3 or 5 of them",
			"features":              featuresBound,
			"sizes of parts":        sizesBound,
			"vocabulary":            vocabBound,
			"days":                  "5 days with income in {0,1,3,5} and spending in {0,1,2,4} (thorough: 6 days), 4 calendars",
			"length":                "13 (quick) / 16 (thorough) days of spending of 1 or 2 each, against 3 income patterns",
			"few":                   "1..40, 24, 12 days of income of three patterns and every way to spend some of it on 1, 2, 3 days after",
			"orders":                "in date order, reversed, interleaved; one transaction or two per day; income and spending together or apart",
		},
		Run: runC16,
	})
}

type flow struct {
	day     int
	in, out int64
}

func flowText(fl []flow, order, split int) string {
	var l []string
	add := func(day int, acct string, q int64, i int) {
		l = append(l, fmt.Sprintf("%s t%d\n  %s  £%s\n  Assets\n", dayStr(day), i, acct, fmtQ(q)))
	}
	for i, f := range fl {
		if f.in > 0 && f.out > 0 && split == 2 {
			l = append(l, fmt.Sprintf("%s t\n  Expenses:x  £%s\n  Income:y  £%s\n  Assets:z\n", dayStr(f.day), fmtQ(f.out), fmtQ(-f.in)))
			continue
		}
		if f.out > 0 {
			if split == 1 && f.out > 1 {
				add(f.day, "Expenses:Food", f.out-1, i)
				add(f.day, "Expenses", 1, i)
			} else {
				add(f.day, "Expenses:Rent:Flat", f.out, i)
			}
		}
		if f.in > 0 {
			if split == 1 && f.in > 1 {
				add(f.day, "Income", -(f.in - 1), i)
				add(f.day, "Income:Gift", -1, i)
			} else {
				add(f.day, "Income:Job", -f.in, i)
			}
		}
	}
	switch order {
	case 1:
		for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
			l[i], l[j] = l[j], l[i]
		}
	case 2:
		var m []string
		for s := 0; s < 3; s++ {
			for i := s; i < len(l); i += 3 {
				m = append(m, l[i])
			}
		}
		l = m
	}
	l = append(l, "2000-01-01 noise\n  ExpensesX  £5\n  incomes\n", "2030-01-01 noise\n  Assets:Expenses  £5\n  A:Income\n")
	return strings.Join(l, "")
}

func checkAge(x *X, text string) (bool, error) {
	r := refParse(one(text), mainFile)
	want, ok := ageOfMoney(r.Txns)
	if !ok {
		return false, nil
	}
	x.Step(len(r.Txns))
	x.State(text)
	o := x.Run(Case{Cmd: "statistics", Files: one(text)})
	if c := o.Crashed(); c != "" {
		return true, Fail("%s", c)
	}
	_, got := splitStats(o.Out)
	x.Outcome(got)
	for _, w := range want {
		if got == w {
			return true, nil
		}
	}
	return true, Fail("age of money: expected %q, got %q in\n%s", want, got, clip(o.Out))
}

func runC16(e *E) {
	askSame(e, "statistics")
	base := dayNumber(2020, 2, 20)
	calendars := [][]int{{0, 1, 2, 3, 4, 5}, {0, 1, 10, 31, 32, 100}, {0, 7, 8, 400, 800, 10000}, {0, 12000, 24000, 36000, 48000, 60000}}
	ins, outs := []int64{0, 1, 3, 5}, []int64{0, 1, 2, 4}
	n := 5
	if e.Thorough {
		n = 6
	}
	e.Part("days")
	sizes := make([]int, n)
	for i := range sizes {
		sizes[i] = len(ins) * len(outs)
	}
	count := 0
	product(sizes, func(ix []int) {
		var have int64
		for _, k := range ix {
			have += ins[k%4] - outs[k/4]
			if have < 0 {
				return
			}
		}
		count++
		for ci, cal := range calendars {
			if !e.Thorough && n == 5 && count%4 != ci {
				continue
			}
			if e.Thorough && count%8 != ci*2 {
				continue
			}
			if !e.Mine() {
				e.Pass()
				continue
			}
			var fl []flow
			for i, k := range ix {
				fl = append(fl, flow{base + cal[i], ins[k%4], outs[k/4]})
			}
			key := append([]int(nil), ix...)
			variant := count / 4
			e.Do(func(x *X) error {
				x.Key("days %v calendar %d variant %d", key, ci, variant%9)
				text := flowText(fl, variant%3, variant/3%3)
				x.Sample(text)
				ok, err := checkAge(x, text)
				if err == nil && !ok {
					return Fail("the model calls this journal unspecified:\n%s", text)
				}
				return err
			})
		}
	})
	e.Part("more than ten ages")
	m := 13
	if e.Thorough {
		m = 16
	}
	for mask := 0; mask < 1<<m; mask++ {
		for pat := 0; pat < 3; pat++ {
			if !e.Mine() {
				e.Pass()
				continue
			}
			fl := []flow{}
			var need int64
			for i := 0; i < m; i++ {
				need += 1 + int64(mask>>i&1)
			}
			for i := 0; i < m; i++ {
				f := flow{day: base + i*(3+pat), out: 1 + int64(mask>>i&1)}
				switch pat {
				case 0: // all the money at the start
					if i == 0 {
						f.in = need
					}
				case 1: // three at a time
					if i%2 == 0 {
						f.in = 4
					}
				case 2: // uneven
					f.in = []int64{5, 0, 3, 1, 0}[i%5]
					if i == 0 {
						f.in = 9
					}
				}
				fl = append(fl, f)
			}
			e.Do(func(x *X) error {
				x.Key("spending %b pattern %d", mask, pat)
				_, err := checkAge(x, flowText(fl, mask%3, mask/3%3))
				return err
			})
		}
	}
	// one to three days of spending, each of which may use up the income of many days
	e.Part("few days of spending")
	top := []int{0, 40, 24, 12}
	if e.Thorough {
		top = []int{0, 80, 48, 24}
	}
	for k := 1; k <= 3; k++ {
		for n := 1; n <= top[k]; n++ {
			for pat := 0; pat < 3; pat++ {
				amount := func(i int) int64 { return []int64{1, 1 + int64(i%2), 1 + int64(i*i%3)}[pat] }
				var total int
				for i := 0; i < n; i++ {
					total += int(amount(i))
				}
				sizes := make([]int, k)
				for i := range sizes {
					sizes[i] = total
				}
				product(sizes, func(ix []int) {
					sum := 0
					for _, q := range ix {
						sum += q + 1
					}
					if sum > total {
						return
					}
					if !e.Mine() {
						e.Pass()
						return
					}
					var fl []flow
					for i := 0; i < n; i++ {
						fl = append(fl, flow{day: base + i*(1+pat*2), in: amount(i)})
					}
					for i, q := range ix {
						fl = append(fl, flow{day: base + n*5 + i*7, out: int64(q + 1)})
					}
					key := append([]int(nil), ix...)
					e.Do(func(x *X) error {
						x.Key("%d days of income of pattern %d, spending %v", n, pat, key)
						_, err := checkAge(x, flowText(fl, sum%3, n%2))
						return err
					})
				})
			}
		}
	}
	e.Part("no flows")
	for _, text := range []string{"2020-01-01 t\n  A  1\n  B\n", "2020-01-01 t\n  Income  -1\n  B\n"} {
		e.Do(func(x *X) error {
			x.Key("journal %q", text)
			_, err := checkAge(x, text)
			return err
		})
	}
	e.Part("filters and ranges do not apply to the rest")
	for b := 0; b < 6; b++ {
		for en := b; en <= 6; en++ {
			if !e.Mine() {
				e.Pass()
				continue
			}
			e.Do(func(x *X) error {
				x.Key("range %d..%d", b, en)
				var fl []flow
				for i := 0; i < 6; i++ {
					fl = append(fl, flow{base + i*i, 5, 2 + int64(i%2)})
				}
				text := flowText(fl, 0, 0)
				r := refParse(one(text), mainFile)
				want, ok := ageOfMoney(inRange(r.Txns, base+b*b, base+en*en))
				if !ok {
					return nil
				}
				o := x.Run(Case{Cmd: "statistics", Files: one(text), Begin: dayStr(base + b*b), End: dayStr(base + en*en)})
				if o.Out == noStats {
					return nil
				}
				_, got := splitStats(o.Out)
				for _, w := range want {
					if got == w {
						return nil
					}
				}
				return Fail("age of money: expected %q, got %q in\n%s", want, got, clip(o.Out))
			})
		}
	}
	nearNames(e, func(x *X, text string) error {
		_, err := checkAge(x, text)
		return err
	})
	// an income and a spending a day, with gaps between the days of income that differ at two places
	e.Part("gaps")
	gaps := []int{0, 1, 15, 31, 100}
	ms := []int{11, 12, 14}
	if e.Thorough {
		ms = []int{10, 11, 12, 13, 14, 15, 20}
	}
	for _, m := range ms {
		for p := 1; p < m; p++ {
			for q := p; q < m; q++ {
				for gi := 0; gi < len(gaps)*len(gaps); gi++ {
					for first := 1; first <= 5; first += 2 {
						for pace := 0; pace < 2; pace++ {
							if !e.Mine() {
								e.Pass()
								continue
							}
							e.Do(func(x *X) error {
								x.Key("%d incomes, gaps %d at %d and %d at %d, spending %d at first, pace %d", m, gaps[gi/len(gaps)], p, gaps[gi%len(gaps)], q, first, pace)
								var fl []flow
								day := base
								for i := 0; i < m; i++ {
									switch i {
									case p:
										day += gaps[gi/len(gaps)]
									case q:
										day += gaps[gi%len(gaps)]
									default:
										day++
									}
									fl = append(fl, flow{day: day, in: 1})
								}
								day++
								for i := 0; i < m; {
									out := 1
									if i == 0 {
										out = first
									}
									fl = append(fl, flow{day: day, out: int64(out)})
									i += out
									day += 1 + 8*pace
								}
								_, err := checkAge(x, flowText(fl, (p+q)%3, 0))
								return err
							})
						}
					}
				}
			}
		}
	}
	agePairs(e)
	sizePart(e, 1100, []string{"days", "years", "months", "children of an account"}, func(x *X, files map[string]string) error {
		if !strings.Contains(files[mainFile], "Income") {
			return nil
		}
		_, err := checkAge(x, files[mainFile])
		return err
	})
	features(e, [4]string{"Income", "Income:J", "Expenses:F", "Assets"}, func(x *X, turn int, files map[string]string) error {
		if len(files) > 1 {
			return nil
		}
		_, err := checkAge(x, files[mainFile])
		return err
	})
	features(e, [4]string{"Expenses:F", "Expenses", "Assets", "Income:J"}, func(x *X, turn int, files map[string]string) error {
		if len(files) > 1 {
			return nil
		}
		_, err := checkAge(x, files[mainFile])
		return err
	})
}
