package main

import (
	"fmt"
	"path"
	"strings"
)

func init() {
	register(&Space{
		ID:   "C15",
		Rule: "every history of transactions over dates, payees, account pairs and files up to a depth, with date ranges and filters, and every span of days against every count: each line of the statistics report must equal the counts by definition",
		Bound: map[string]string{
			"surroundings of a run": sameAsksBound,
			"families of names":     familiesBound,
			"shares":                sharesBound,
			"any clock":             clocksBound,
			"lists of arguments":    argumentListsBound,
			"numbers":               countsBound,
			"features":              featuresBound,
			"sizes of parts":        sizesBound,
			"vocabulary":            vocabBound,
			"other dialects":        dialectsBound2,
			"combinations":          "every sequence of up to 2 (thorough: 3) of 12 entries, in one file or two, with each of 7 date ranges, 11 lists of filters and the layouts",
			"histories":             "18 transaction kinds (6 dates x payees x accounts x 3 files), up to 4 (quick) / 5 (thorough)",
			"spans":                 "0..400 days and decades/centuries x 1..30 transactions",
			"names":                 "11 ways to spell the journal's path x 192 shapes of entries and includes in 4 spellings x 3 selections",
			"not checked":           "the humanised age behind the two dates, and here the age of money (C16)",
		},
		Run: runC15,
	})
}

func runC15(e *E) {
	askSame(e, "statistics")
	kinds := []string{
		"2020-03-01 Shop\n  A:B  1\n  C\n", "2020-02-29 shop\n  A:B  1\n  A\n", "2019-12-31 Shop \n  A  1\n  C\n", "2020-03-01\n  c  1\n  C\n", "2021-03-01 * Shop ; note\n  A:B:C  1\n  A:B\n", "1970-01-01 old\n  A\n",
		"0001-01-01 first\n  A  1\n  B\n", "9999-12-31 last\n  Z  1\n  Z\n", "2020-03-02 empty\n", "2020-03-01 S  ; Shop\n  A:B  0\n  D  0\n",
	}
	inc := []string{"include d/x", "include y", "include d/../y", "include nothing", "include d/e/z"}
	files := map[string]string{
		"d/x": "2020-03-01 Shop\n  X  1\n  A\n\n2020-03-05 x\n  X  2\n  A:B\ninclude ../y", "y": "2020-02-01 y\n  Y  1\n  A:B\n", "nothing": "; c\n", "d/e/z": "2018-01-01 Shop\n  Z  1\n  Z\n",
	}
	el := append(append([]string(nil), kinds...), inc...)
	e.Part("histories")
	hi := 4
	if e.Thorough {
		hi = 5
	}
	flags := []Case{{}, {Begin: "2020-03-01"}, {End: "2020-03-01"}, {Begin: "2020-02-01", End: "2020-03-02"}, {Args: []string{"@shop"}}, {Args: []string{"=note", "@old"}}, {Args: []string{"A:B"}}, {Args: []string{"^Z$"}, Begin: "2018"}}
	seqs(len(el), 0, hi, func(ix []int) {
		if !e.Mine() {
			e.Pass()
			return
		}
		var l []string
		sum := 0
		for _, i := range ix {
			l = append(l, el[i])
			sum += i
		}
		f := map[string]string{mainFile: strings.Join(l, "\n")}
		for k, v := range files {
			f[k] = v
		}
		k := append([]int(nil), ix...)
		e.Do(func(x *X) error {
			x.Key("history %v", k)
			x.Sample(f[mainFile])
			r := x.parsed(f)
			if r.Err != nil || r.Odd != "" {
				return Fail("reference rejects its own journal: %v %s", r.Err, r.Odd)
			}
			fl := flags
			if len(k) > 3 {
				fl = flags[sum%len(flags) : sum%len(flags)+1]
			} else if len(k) > 2 {
				fl = []Case{flags[sum%len(flags)], flags[(sum+3)%len(flags)]}
			}
			for _, c := range fl {
				lo, hi := -1<<30, 1<<30
				if c.Begin != "" {
					if len(c.Begin) == 4 {
						lo = strDay(c.Begin + "-01-01")
					} else {
						lo = strDay(c.Begin)
					}
				}
				if c.End != "" {
					hi = strDay(c.End)
				}
				_, part := selected(inRange(r.Txns, lo, hi), c.Args)
				c.Cmd, c.Files = "statistics", f
				o := x.Run(c)
				x.Outcome(o.Out)
				if err := ExpectStats(o, part, fmt.Sprintf("statistics begin %q end %q args %q", c.Begin, c.End, c.Args)); err != nil {
					return err
				}
			}
			return nil
		})
	})
	e.Part("spans and counts")
	var spans []int
	for d := 0; d <= 400; d++ {
		spans = append(spans, d)
	}
	for _, d := range []int{3652, 3653, 36524, 36525, 106751, 106752, 146097, 213503, 730119, 3000000} {
		spans = append(spans, d)
	}
	for _, d := range spans {
		for n := 2; n <= 31; n++ {
			if !e.Thorough && d > 40 && (d+n)%5 != 0 {
				continue
			}
			if !e.Mine() {
				e.Pass()
				continue
			}
			first := dayNumber(2019, 2, 27)
			if d > 400000 {
				first = dayNumber(1, 1, 1)
			}
			var b strings.Builder
			for i := 0; i < n; i++ {
				at := first + d*((i*7+3)%n)/(n-1)
				fmt.Fprintf(&b, "%s p%d\n  A:%d  1\n  B\n", dayStr(at), i%4, i%9)
			}
			text := b.String()
			e.Do(func(x *X) error {
				x.Key("span %d count %d", d, n)
				return checkJournal(x, one(text), "statistics")
			})
		}
	}
	e.Part("file names")
	names := []string{"a", "b", "B", "a b", "d/a", "d/b", "d/c/a", "é", "z.journal", "10", "9"}
	for m := 0; m < 1<<len(names); m++ {
		if !e.Mine() {
			e.Pass()
			continue
		}
		f := map[string]string{}
		var b strings.Builder
		for i := range names {
			j := (i*5 + m) % len(names)
			if m>>j&1 == 1 {
				f[names[j]] = fmt.Sprintf("2020-01-%02d p\n  A  1\n  B\n", j+1)
				fmt.Fprintf(&b, "include %s\n", names[j])
			}
		}
		f[mainFile] = b.String()
		e.Do(func(x *X) error {
			x.Key("files %b", m)
			return checkJournal(x, f, "statistics")
		})
	}
	e.Part("ways to name the file")
	// however the files are named, each is there once
	for _, spelled := range []string{"m.journal", "./m.journal", ".//m.journal", "././m.journal", "d/../m.journal", "d//..//m.journal", "./d/.././m.journal", "d/e/../../m.journal", "=m.journal", "=./m.journal", "=d/../m.journal"} {
		for shape := 0; shape < 4*4*3*4; shape++ {
			for _, c := range []Case{{}, {Begin: "2020-03-01"}, {Args: []string{"@shop"}}} {
				if !e.Mine() {
					e.Pass()
					continue
				}
				before, after, own, inc := shape%4, shape/4%4, shape/16%3, shape/48
				f := map[string]string{"d/e/keep": "", mainFile: ""}
				for i := 0; i < before; i++ {
					f[mainFile] += kinds[i]
				}
				f[mainFile] += []string{"", "include x\n", "include ./x\ninclude d/x\n", "include d/../x\ninclude x\ninclude d/./x\n"}[inc]
				for i := 0; i < after; i++ {
					f[mainFile] += kinds[i]
				}
				f["x"], f["d/x"] = strings.Repeat(kinds[3], own), strings.Repeat(kinds[4], own)+"include ../x\n"
				c.Cmd, c.Files, c.File = "statistics", f, spelled
				e.Do(func(x *X) error {
					x.Key("%s shape %d begin %q args %q", spelled, shape, c.Begin, c.Args)
					r := x.parsed(f)
					if r.Err != nil || r.Odd != "" {
						return Fail("reference rejects its own journal: %v %s", r.Err, r.Odd)
					}
					lo := -1 << 30
					if c.Begin != "" {
						lo = strDay(c.Begin)
					}
					_, part := selected(inRange(r.Txns, lo, 1<<30), c.Args)
					o := x.Run(c)
					x.Outcome(o.Out)
					x.Step(len(part))
					// compare with the names in their shortest form
					lines := strings.Split(o.Out, "\n")
					for i, l := range lines {
						if name, ok := strings.CutPrefix(l, "  "); ok {
							name = strings.TrimPrefix(path.Clean(name), path.Clean(x.w.Scratch)+"/")
							lines[i] = "  " + name
						}
					}
					for i := 2; i < len(lines); i++ { // the order is that of the names as they were given
						for j := i; j > 1 && strings.HasPrefix(lines[j], "  ") && lines[j] < lines[j-1]; j-- {
							lines[j], lines[j-1] = lines[j-1], lines[j]
						}
					}
					o.Out = strings.Join(lines, "\n")
					return ExpectStats(o, part, fmt.Sprintf("statistics of %s begin %q args %q", spelled, c.Begin, c.Args))
				})
			}
		}
	}
	crossPart(e, []string{"statistics"}, nil)
	accountPairs(e, []string{"statistics"}, nil)
	payeePairs(e, []string{"statistics"})
	datePairs(e, []string{"statistics"})
	sizeCommands(e, 1100, []Case{{Cmd: "statistics"}, {Cmd: "statistics", Args: []string{"1"}}})
	featurePart(e, []string{"statistics"}, nil)
	countPart(e, countCases([]string{"statistics"}, nil))
	argumentLists(e, listArgs, 4, listCases("statistics"))
	accountFamilies(e, []string{"statistics"}, nil)
	payeeFamilies(e, []string{"statistics"})
	sharesPart(e, []string{"statistics"})
	clockPart(e, clockCases("statistics"))
	dialectPart(e, 2, checkCommands("statistics"))
}
