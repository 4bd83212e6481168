package main

import (
	"fmt"
	"regexp"
	"strings"
	"unicode"
)

func init() {
	register(&Space{
		ID:   "C17",
		Rule: "every set of names out of a universe with ordering hazards, in several orders and multiplicities, and every list of one or two arguments: accounts and payees must list exactly the matching names, once each, in byte order",
		Bound: map[string]string{
			"surroundings of a run":  sameAsksBound,
			"families of names":      familiesBound,
			"any clock":              clocksBound,
			"subsets with arguments": "all subsets of 8 names (one a prefix, a child or a namesake of another) with every list of up to 3 of 6 arguments",
			"features":               featuresBound,
			"orders":                 ordersBound,
			"sizes of parts":         sizesBound,
			"vocabulary":             vocabBound,
			"other dialects":         dialectsBound2,
			"words":                  queryWordsBound,
			"combinations":           "every sequence of up to 2 (thorough: 3) of 12 entries, in one file or two, with each of 7 date ranges, 11 lists of filters and the layouts",
			"sets":                   "all subsets of 11 names (quick) / 13 (thorough), 4 arrangements",
			"arguments":              "44 arguments: singles and ordered pairs (triples of 20, thorough), with and without a date range",
		},
		Run: runC17,
	})
}

var c17Names = []string{"A", "a", "A:B", "A:b", "AB", "A B", "Z", "é:x", "É", "A:B:C", "b:10", "b:9", "ß"}

func matchName(args []string, name string) bool {
	for _, a := range args {
		if strings.IndexFunc(a, unicode.IsUpper) < 0 {
			a = "(?i)" + a
		}
		if regexp.MustCompile(a).MatchString(name) {
			return true
		}
	}
	return len(args) == 0
}

func pick(names, args []string) []string {
	var out []string
	for _, n := range names {
		if matchName(args, n) {
			out = append(out, n)
		}
	}
	return out
}

func runC17(e *E) {
	askSame(e, "accounts", "payees")
	names := c17Names[:11]
	if e.Thorough {
		names = c17Names
	}
	check := func(text string, c Case, key string) {
		if !e.Mine() {
			e.Pass()
			return
		}
		e.Do(func(x *X) error {
			x.Key("%s arguments %q", key, c.Args)
			x.Sample(text)
			c := c
			c.Files = one(text)
			r := x.parsed(c.Files)
			ts := normalOf(r.Txns)
			if c.Begin != "" {
				ts = inRange(ts, strDay(c.Begin), strDay(c.End))
			}
			c.Cmd = "accounts"
			o := x.Run(c)
			x.Outcome(o.Out)
			if err := ExpectReport(o, linesOf(pick(accountNames(ts), c.Args)), "accounts"); err != nil {
				return err
			}
			c.Cmd = "payees"
			o = x.Run(c)
			x.Outcome(o.Out)
			return ExpectReport(o, linesOf(pick(payeeNames(ts), c.Args)), "payees")
		})
	}
	e.Part("sets")
	for mask := 0; mask < 1<<len(names); mask++ {
		for arr := 0; arr < 4; arr++ {
			var l []string
			for i := range names {
				j := (i*7 + arr) % len(names)
				if mask>>j&1 == 0 {
					continue
				}
				n := names[j]
				switch arr {
				case 0:
					l = append(l, fmt.Sprintf("2020-01-01 %s\n  %s  1\n  %s\n", n, n, n))
				case 1:
					l = append(l, fmt.Sprintf("2020-01-%02d x\n  %s  1\n  Q\n", i+1, n), fmt.Sprintf("2020-01-01 %s\n", n))
				case 2:
					l = append(l, fmt.Sprintf("2020-01-01 %s\n  Q:%s  1\n  %s:q\n2019-01-01 %s\n", n, n, n, n))
				case 3:
					l = append([]string{fmt.Sprintf("2020-01-01 ! %s  ; h\n  %s\n  %s  0 ; c\n", n, n, names[(j+1)%len(names)])}, l...)
				}
			}
			check(strings.Join(l, ""), Case{}, fmt.Sprintf("names %b arrangement %d", mask, arr))
		}
	}
	e.Part("arguments")
	args := []string{"a", "A", "b", "B", ":", "^a$", "^A$", "^a", "b$", "A:B", "a:b", "A B", "é", "É", "ß", "z", "Z", ".", "", "^$", "x", "10|9", "[ab]", "[A-B]", "nosuch", "NOSUCH", "(?i)A:B", "a b", "^b:", "c", "C$", `\d`, `\D$`, ".:.", "..", "^.$",
		"s+", "a*", "b?$", "[^a]", "A|Z", "a|z", `\bb`, "(é|ß)"}
	var b strings.Builder
	for i, n := range c17Names {
		fmt.Fprintf(&b, "2020-01-%02d %s\n  %s  1\n  %s:x\n\n", i+1, c17Names[(i+4)%len(c17Names)], n, n)
	}
	b.WriteString("2020-02-01\n  Q  1\n  Q\n")
	text := b.String()
	for _, a := range args {
		check(text, Case{Args: []string{a}}, "all names")
		for _, c := range args {
			check(text, Case{Args: []string{a, c}}, "all names")
			check(text, Case{Args: []string{a, c}, Begin: "2020-01-03", End: "2020-01-09"}, "some dates")
		}
	}
	if e.Thorough {
		for i := range args {
			for j := range args {
				for k := range args {
					check(text, Case{Args: []string{args[i], args[j], args[k]}}, "all names")
				}
			}
		}
	}
	e.Part("date ranges")
	for lo := 1; lo <= 15; lo++ {
		for hi := 1; hi <= 15; hi++ {
			for _, a := range [][]string{nil, {"a"}, {"B"}} {
				check(text, Case{Args: a, Begin: ymd(2020, 1, lo), End: ymd(2020, 1, hi)}, fmt.Sprintf("range %d %d", lo, hi))
			}
		}
	}
	crossPart(e, []string{"accounts", "payees"}, nil)
	accountPairs(e, []string{"accounts"}, nil)
	accountArguments(e, []string{"accounts", "payees"}, []Case{{}})
	payeePairs(e, []string{"payees"})
	accountOrders(e, []string{"accounts"}, nil)
	payeeOrders(e, []string{"payees"})
	datePairs(e, []string{"accounts", "payees"})
	sizeCommands(e, 1100, []Case{{Cmd: "accounts"}, {Cmd: "payees"}, {Cmd: "accounts", Args: []string{"2$", ":l3"}}, {Cmd: "payees", Args: []string{"7$", "^f"}}})
	e.Part("numbers of arguments")
	for _, n := range append(around(40, 0), 64, 100, 255, 256, 257, 1000) {
		for hit := 0; hit < 3; hit++ { // which argument matches anything: the first, the middle, the last
			for form := 0; form < 3; form++ {
				var l []string
				for i := 0; i < n; i++ {
					switch {
					case i != n*hit/2-hit/2:
						l = append(l, fmt.Sprintf([]string{"x%dx", "X%d", "^nosuch%d$"}[form], i))
					default:
						l = append(l, []string{"b:9", "A", "ß"}[form])
					}
				}
				check(text, Case{Args: l}, fmt.Sprintf("%d arguments, %d", n, hit))
			}
		}
	}
	featurePart(e, []string{"accounts", "payees"}, nil)
	accountFamilies(e, []string{"accounts"}, nil)
	payeeFamilies(e, []string{"payees"})
	clockPart(e, clockCases("accounts", "payees"))
	queryWordPart(e, []string{"accounts", "payees"})
	dialectPart(e, 2, checkCommands("accounts", "payees"))
	e.Part("subsets with arguments")
	eight := []string{"b", "b:b", "b:b:b", "B", "bb", "a:b", "a", "c"}
	for mask := 0; mask < 1<<len(eight); mask++ {
		var b strings.Builder
		for i := range eight {
			if n := eight[(i*3+mask)%len(eight)]; mask>>((i*3+mask)%len(eight))&1 == 1 {
				fmt.Fprintf(&b, "2020-01-02 %s\n  %s  %d\n  %s  -%d\n", n, n, i, n, i)
			}
		}
		text := b.String()
		seqs(6, 0, 3, func(ix []int) {
			var l []string
			for _, i := range ix {
				l = append(l, []string{"b", "^b", "B", "a", "b$", "nosuch"}[i])
			}
			check(text, Case{Args: l}, fmt.Sprintf("subset %b", mask))
		})
	}
}
