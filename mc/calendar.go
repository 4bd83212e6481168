package main

import (
	"fmt"
	"strings"
)

const calendarBound = "every day of 2019 to 2021 (thorough: 1995 to 2030), with transactions of 4 kinds (an amount of zero, two of either sign, no postings, a state, notes and an amount omitted) on that day, the days next to it and the ends of its month, and that day, its month, or its year as the begin or the end in each spelling, or as today"

// calendarPart has every day of some years as the bound of a range.
func calendarPart(e *E, check func(x *X, c Case) error) {
	e.Part("days of the calendar")
	from, to := 2019, 2021
	if e.Thorough {
		from, to = 1995, 2030
	}
	kinds := []string{
		"%s p%d\n  Expenses:z%d  £0\n",
		"%s p%d\n  Expenses:a%d  £2.50\n  Income:b  £-2.50\n",
		"%s p%d\n",
		"%s * p%d  ; hn\n  ; note\n  Assets:s%d  £3 ; c\n  Expenses:o\n",
	}
	for d := dayNumber(from, 1, 1); d <= dayNumber(to, 12, 31); d++ {
		if !e.Mine() {
			e.Pass()
			continue
		}
		y, m, dd := dateOf(d)
		e.Do(func(x *X) error {
			x.Key("day %s", dayStr(d))
			for k := range kinds {
				var b strings.Builder
				for i, at := range []int{d + 1, d, d - 1, dayNumber(y, m, 1), dayNumber(y, m, 1) - 1, dayNumber(y, 1, 1), dayNumber(y, 1, 1) - 1, d, dayNumber(y+1, 1, 1)} {
					kind := kinds[(k+i)%len(kinds)]
					if i < 3 {
						kind = kinds[k]
					}
					if strings.Count(kind, "%d") == 1 {
						fmt.Fprintf(&b, kind, dayStr(at), i)
					} else {
						fmt.Fprintf(&b, kind, dayStr(at), i, i)
					}
				}
				files := one(b.String())
				sep := []string{"-", "/", ".", "-"}[(k+d)%4]
				full := strings.ReplaceAll(dayStr(d), "-", sep)
				noon := int64(d-dayNumber(1970, 1, 1))*86400 + 43200
				cases := []Case{{Begin: full}, {End: full}, {Begin: full[:7]}, {End: full[:7]}, {Begin: full[5:], Now: noon}, {End: full[5:], Now: noon}, {Current: true, Now: noon}, {Begin: full[:7], End: full}}
				if dd == 1 || k == 0 {
					cases = append(cases, Case{Begin: full[:4], End: full}, Case{End: full[:4]}, Case{Begin: full, End: fmt.Sprint(y + 1)})
				}
				for _, c := range cases {
					c.Files = files
					if err := check(x, c); err != nil {
						return err
					}
					x.Step(1)
				}
			}
			return nil
		})
	}
}

// calendarCases runs commands on them.
func calendarCases(cmds ...string) func(x *X, c Case) error {
	return func(x *X, c Case) error {
		for _, cmd := range cmds {
			c.Cmd = cmd
			if err := expectCase(x, c); err != nil {
				return err
			}
		}
		return nil
	}
}
