package main

import (
	"fmt"
	"path/filepath"
	"strings"
)

func init() {
	register(&Space{
		ID:   "C09",
		Rule: "every sequence of transaction dates over a few dates and every sequence over two dates at a length beyond the runtime's insertion-sort threshold, and structured sequences of every length to 80: print must show each transaction once, by date, ties in journal order",
		Bound: map[string]string{
			"surroundings of a run": sameAsksBound,
			"features":              featuresBound,
			"sizes of parts":        sizesBound,
			"vocabulary":            vocabBound,
			"other dialects":        dialectsBound2,
			"combinations":          "every sequence of up to 2 (thorough: 3) of 12 entries, in one file or two, with each of 7 date ranges, 11 lists of filters and the layouts",
			"kinds":                 "all sequences of length 1..4 (quick) / 5 (thorough) of five kinds of transaction (states, notes, amounts, no payee) on two dates",
			"4 dates":               "all sequences of length 1..6 (quick) / 8 (thorough)",
			"2 dates":               "all 2^13 (quick) / 2^17 (thorough) sequences of that length",
			"files":                 "transactions of one day or two, of one payee or more, over 4 files included in every order, side by side, with transactions between, and one in another",
			"many":                  "8 lengths from 1500 to 5000 (thorough: 12, to 16385), 13 patterns of one or two dates with entries out of place",
			"sizes":                 "every length to 80 (quick) / 300 (thorough), 6 patterns, also with a filter and split over included files",
		},
		Run: runC09,
	})
}

func orderText(days []int) string {
	var b strings.Builder
	for i, d := range days {
		fmt.Fprintf(&b, "%s p%d\n  A  1\n  B\n", dayStr(d), i)
	}
	return b.String()
}

func runC09(e *E) {
	askSame(e, "print")
	base := dayNumber(2020, 1, 31)
	dates := []int{base, base + 1, base - 365, base + 31}
	check := func(days []int, name string) {
		if !e.Mine() {
			e.Pass()
			return
		}
		text := orderText(days)
		e.Do(func(x *X) error {
			x.Key("%s", name)
			x.Sample(text)
			return checkJournal(x, one(text), "print")
		})
	}
	e.Part("four dates")
	hi := 6
	if e.Thorough {
		hi = 8
	}
	seqs(len(dates), 1, hi, func(ix []int) {
		days := make([]int, len(ix))
		for i, k := range ix {
			days[i] = dates[k]
		}
		check(days, fmt.Sprint("dates ", ix))
	})
	e.Part("two dates")
	n := 13
	if e.Thorough {
		n = 17
	}
	for m := 0; m < 1<<n; m++ {
		days := make([]int, n)
		for i := range days {
			days[i] = base + m>>i&1
		}
		check(days, fmt.Sprintf("two dates %b", m))
	}
	e.Part("kinds of a date")
	kinds := []string{"%s p%d\n  A  1\n  B\n", "%s ! p%d\n  A  -7\n  B\n", "%s * a%d ; n\n  A  0\n", "%s * z%d\n  ; n\n  A  500 ; c\n  B  -2\n  B\n", "%s\n  ; %d\n  Z  3\n  A\n"}
	hi = 4
	if e.Thorough {
		hi = 5
	}
	seqs(len(kinds)*2, 1, hi, func(ix []int) {
		if !e.Mine() {
			e.Pass()
			return
		}
		k := append([]int(nil), ix...)
		e.Do(func(x *X) error {
			x.Key("kinds %v", k)
			var b strings.Builder
			for i, n := range k {
				fmt.Fprintf(&b, kinds[n/2], dayStr(base+n%2), i)
			}
			return checkJournal(x, one(b.String()), "print")
		})
	})
	e.Part("sizes")
	max := 80
	if e.Thorough {
		max = 300
	}
	for n := 1; n <= max; n++ {
		for pat := 0; pat < 6; pat++ {
			days := make([]int, n)
			for i := range days {
				days[i] = base + []int{0, i, -i, i % 2, i % 7, (i * i) % 11}[pat]
			}
			check(days, fmt.Sprintf("size %d pattern %d", n, pat))
			if pat < 3 {
				continue
			}
			if !e.Mine() {
				e.Pass()
				continue
			}
			text := orderText(days)
			// the same, split over an included file, and filtered
			parts := strings.SplitAfter(text, "\n  B\n")
			h := len(parts) / 2
			files := map[string]string{mainFile: strings.Join(parts[:h], "") + "include d/x\n", "d/x": strings.Join(parts[h:], "")}
			e.Do(func(x *X) error {
				x.Key("included size %d pattern %d", n, pat)
				if err := checkJournal(x, files, "print"); err != nil {
					return err
				}
				r := x.parsed(files)
				var odd []Txn
				for i, t := range r.Txns {
					if strings.HasSuffix(fmt.Sprint(i), "1") {
						odd = append(odd, t)
					}
				}
				return ExpectReport(x.Run(Case{Cmd: "print", Files: files, Args: []string{"@1$"}}), renderPrint(odd), "filtered print")
			})
		}
	}
	e.Part("many")
	// long journals of one day or two, with one entry out of its place
	many := []int{1500, 2047, 2048, 2049, 2500, 4096, 4097, 5000}
	if e.Thorough {
		many = append(many, 8192, 8193, 10001, 16385)
	}
	for _, n := range many {
		for _, pat := range []string{"last before", "last after", "first after", "first before", "middle before", "middle after", "ends swapped", "falling", "halves swapped", "same", "alternating", "last two before", "first two after"} {
			days := make([]int, n)
			for i := range days {
				days[i] = base
				switch pat {
				case "falling":
					days[i] -= i
				case "halves swapped":
					if i < n/2 {
						days[i]++
					}
				case "alternating":
					days[i] -= i % 2
				}
			}
			switch pat {
			case "last before":
				days[n-1]--
			case "last after":
				days[n-1]++
			case "first after":
				days[0]++
			case "first before":
				days[0]--
			case "middle before":
				days[n/2]--
			case "middle after":
				days[n/2]++
			case "ends swapped":
				days[0]++
				days[n-1]--
			case "last two before":
				days[n-1]--
				days[n-2]--
			case "first two after":
				days[0]++
				days[1]++
			}
			check(days, fmt.Sprintf("many %d %s", n, pat))
		}
	}
	e.Part("days over files")
	// transactions of the same day and payee in files included in every order of their names
	names := []string{"a", "b", "d/a", "z"}
	perms(len(names), func(order []int) {
		for shape := 0; shape < 3*3*4*2; shape++ {
			if !e.Mine() {
				e.Pass()
				continue
			}
			order, n := append([]int(nil), order...), 0
			one := func() string {
				n++
				day := []int{base, base, base + n%2, base - n%2}[shape/9%4]
				who := []string{"p", fmt.Sprint("p", n), fmt.Sprint("p", n%2)}[shape%3]
				return fmt.Sprintf("%s %s\n  A:%d  1\n  B\n", dayStr(day), who, n)
			}
			f := map[string]string{}
			var visit func(k int) string
			visit = func(k int) string {
				switch shape / 3 % 3 {
				case 0: // side by side
					text := one()
					for _, i := range order {
						f[names[i]] = one()
						text += "include " + names[i] + "\n"
					}
					return text + one()
				case 1: // side by side with transactions between them, some twice
					text := ""
					for j, i := range order {
						if j < 2 {
							f[names[i]] = one() + one()
						} else {
							f[names[i]] = one()
						}
						text += "include " + names[i] + "\n" + one()
					}
					return text + "include " + names[order[0]] + "\n"
				}
				// one in another
				if k == len(order) {
					return one()
				}
				before := one()
				to, from := names[order[k]], mainFile
				if k > 0 {
					from = names[order[k-1]]
				}
				rel, _ := filepath.Rel(filepath.Dir(from), to)
				f[to] = visit(k + 1)
				return before + "include " + rel + "\n" + one()
			}
			f[mainFile] = visit(0)
			if shape/36 == 1 { // the main journal's name comes first, or last, too
				f["zz"] = f[mainFile]
				f[mainFile] = "include zz\n"
			}
			e.Do(func(x *X) error {
				x.Key("files %v shape %d", order, shape)
				for _, c := range []Case{{}, {Args: []string{"@p"}}, {Args: []string{"^A:[1-3]"}}} {
					c.Cmd, c.Files = "print", f
					if err := expectCase(x, c); err != nil {
						return err
					}
				}
				return nil
			})
		}
	})
	crossPart(e, []string{"print"}, nil)
	datePairs(e, []string{"print"})
	payeePairs(e, []string{"print"})
	sizeCommands(e, 1100, []Case{{Cmd: "print"}}, "transactions", "files", "years", "days", "months")
	featurePart(e, []string{"print"}, nil)
	dialectPart(e, 2, checkCommands("print"))
}
