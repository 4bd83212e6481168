package main

import (
	"fmt"
	"strings"
)

const neighboursBound = "every sequence of up to 3 or 4 (thorough: one more) of 16 entries: transactions with and without a state, with every amount given, the last or the first omitted, that end with a comment, that have no postings, periods with one posting, none or an amount omitted, includes of a transaction and of a period, comments, empty lines and stray lines"

var neighbourEntries = []string{
	"2020-01-05 * s\n  A  1\n  B  -1\n", "2020-01-04 p\n  A  2\n  B  -2\n", "2020-01-06 ! q  ; h\n  ; n\n  Expenses:F  3 ; c\n  Income\n", "2020-01-03 r\n  C\n  A  4\n", "2020-01-05 t\n  A  5\n  ; d\n  B  -5\n  ; e\n",
	"2020-01-07\n", "2020-01-02 u\n  ; only note\n", "~ 2020-01\n  F  6\n", "~ 2020-01\n  F\n  G  -8\n", "~ 2020-03\n", "include i\n", "include j\n", "; k\n", "\n", "  ; stray\n", "  D  9\n",
}

// neighbourPart has every order of entries of every kind, next to one another.
func neighbourPart(e *E, hi int, check func(x *X, files map[string]string) error) {
	e.Part("neighbours")
	if e.Thorough {
		hi++
	}
	seqs(len(neighbourEntries), 1, hi, func(ix []int) {
		if !e.Mine() {
			e.Pass()
			return
		}
		var b strings.Builder
		for _, i := range ix {
			b.WriteString(neighbourEntries[i])
		}
		k := append([]int(nil), ix...)
		e.Do(func(x *X) error {
			x.Key("neighbours %v", k)
			return check(x, map[string]string{mainFile: b.String(), "i": "2020-01-05 ! in\n  I  7\n  J  -7", "j": "~ 2020-02\n  K  8"})
		})
	})
}

const flagPairsBound = "every ordered pair of 41 values (years, months, days and days without a year in three spellings, and some in error) for --begin and --end, with 2 clocks"

var flagDates = []string{
	"", "2019", "2020", "2021", "2023", "2020-01", "2020/01", "2020.01", "2020-02", "2020/02", "2020-12", "2019.12", "2021-01", "2020-01-01", "2020/01/01", "2020.01.01", "2020-01-31", "2020/02/01", "2020-02-29", "2020-12-31", "2021/01/01", "2019-12-31",
	"2023-01-01", "2023-06-15", "01/01", "01-31", "02-01", "02/28", "02-29", "06.15", "12/31", "12-31", "03.01", "2020-13", "2020-02-30", "1/1", "2020-1", "x", "0000", "9999-12-31", "31-12",
}

// flagPairs has every pair of values of the date flags.
func flagPairs(e *E, cmds []string) {
	e.Part("pairs of date flags")
	var b strings.Builder
	for i, d := range []string{"2020-01-31", "0001-01-01", "2018-12-31", "2019-01-01", "2019-12-01", "2019-12-31", "2020-01-01", "2020-01-15", "2020-02-01", "2020-02-28", "2020-02-29", "2020-03-01", "2020-12-01", "2020-12-31", "2021-01-01", "2021-12-31", "2022-12-31", "2023-01-01",
		"2023-01-31", "2023-02-01", "2023-02-28", "2023-03-01", "2023-06-14", "2023-06-15", "2023-06-16", "2023-12-31", "2024-01-01", "2024-02-28", "2024-02-29", "2024-03-01", "2024-12-31", "2025-01-01", "9999-12-31"} {
		fmt.Fprintf(&b, "%s p%d\n  Expenses:c%d  £%d\n  Income\n", d, i, i, i+1)
	}
	files := one(b.String())
	for _, begin := range flagDates {
		for _, end := range flagDates {
			for _, now := range []int64{baseNow, int64(dayNumber(2024, 2, 29)-dayNumber(1970, 1, 1)) * 86400} {
				for ci, cmd := range cmds {
					if !e.Mine() {
						e.Pass()
						continue
					}
					e.Do(func(x *X) error {
						x.Key("%s begin %q end %q clock %d", cmd, begin, end, now)
						ts := normalOf(x.read(files).Txns)
						year, _, _ := dateOf(int(now/86400) + dayNumber(1970, 1, 1))
						lo, hi, ok := -1<<30, 1<<30, true
						if begin != "" {
							lo, ok = smartDate(begin, year)
						}
						if end != "" {
							var good bool
							hi, good = smartDate(end, year)
							ok = ok && good
						}
						x.Step(len(ts))
						x.State("flags", lo, hi, ok, ci)
						o := x.Run(Case{Cmd: cmd, Files: files, Begin: begin, End: end, Now: now})
						x.Outcome(o.Out)
						if !ok {
							return ExpectReject(o, x.key)
						}
						return expectCmd(o, cmd, inRange(ts, lo, hi), x.key)
					})
				}
			}
		}
	}
}

const argumentListsBound = "every list of up to 4 out of 11 filters (thorough: 5), repeated or not, that match everything, some or nothing, on 2 journals"

var listArgs = []string{"@", "@shop", "=", "=n", "a", "^A", "cash", "Food", "nosuch", "@nosuch", "=other"}

var listJournals = []string{
	"2020-01-01 * Shop  ; n\n  Assets:Cash  £1 ; n\n  Expenses:Food\n\n2020-01-02 shop\n  ; other n\n  Assets:Cash  £2\n  B  £-2 ; n\n\n2020-01-03 shops\n  A  £3\n  Food\n",
	"2020-01-01 Shop\n  Assets:Cash  £1\n  Expenses:Food  £-1 ; other\n\n2020-01-02\n  B  £2\n  C\n\n2020-01-02 ! Job  ; note\n  Income:Job  £-50\n  Assets:Cash\n\n2020-01-04 x\n",
}

// argumentLists has every list of arguments, each any number of times.
func argumentLists(e *E, vocabulary []string, hi int, check func(x *X, files map[string]string, args []string) error) {
	e.Part("lists of arguments")
	if e.Thorough {
		hi++
	}
	for j, text := range listJournals {
		files := one(text)
		seqs(len(vocabulary), 1, hi, func(ix []int) {
			if !e.Mine() {
				e.Pass()
				return
			}
			var args []string
			for _, i := range ix {
				args = append(args, vocabulary[i])
			}
			e.Do(func(x *X) error {
				x.Key("journal %d arguments %q", j, args)
				return check(x, files, args)
			})
		})
	}
}

// listCases checks some reports of a list of arguments.
func listCases(cmds ...string) func(x *X, files map[string]string, args []string) error {
	return func(x *X, files map[string]string, args []string) error {
		for _, cmd := range cmds {
			if err := expectCase(x, Case{Cmd: cmd, Files: files, Args: args, Zero: cmd == "balance" && len(args)%2 == 0}); err != nil {
				return err
			}
		}
		return nil
	}
}
