package main

import (
	"fmt"
	"strings"
)

func init() {
	register(&Space{
		ID:   "C01",
		Rule: "every sequence of journal lines up to a depth, every combination of the parts of a posting line and of a header line, and every calendar date is read by the real program; print (and accounts, payees, statistics for sequences) must equal what the reference line-by-line state machine makes of it, and journals the machine rejects must be rejected",
		Bound: map[string]string{
			"texts":           textsBound,
			"surroundings":    nestsBound,
			"numbers":         countsBound,
			"neighbours":      neighboursBound,
			"features":        featuresBound,
			"long parts":      longPairsBound,
			"characters":      oddRunesBound,
			"sizes of parts":  sizesBound,
			"vocabulary":      vocabBound,
			"other dialects":  dialectsBound,
			"line sequences":  "16 line kinds, up to depth 4 (quick) / 5 (thorough) each with and without a final newline, LF and CRLF, one deeper in one of these four forms",
			"posting lines":   "indents x accounts x separators x amounts x trailing text, after and before other postings",
			"header lines":    "dates x gaps x states x payees x notes",
			"edits":           "3 journals of all kinds of entries with every part left out and every character replaced or preceded by each of 27 strings",
			"dates":           "pairs of 192 dates, and every day 1899-12-31..2101-01-01 (quick: 1999..2005, 1900, 2100) in three formats, and all near-miss dates",
			"reference model": "see refparse.go; inputs whose meaning the property leaves open are only checked for crashes",
		},
		Run: runC01,
	})
}

var c01Lines = []string{
	"",
	"2020-01-02 * Shop  ; hn",
	"2020-01-01 Café",
	"2020-01-03 !",
	"  A:B  1",
	"\tA:B\t-1",
	"  C d",
	"    ; note",
	"  A  ; on line",
	"  A  £2.50 ; c",
	"; comment",
	"   ",
	"~ 2020-01",
	"x",
	"  9",
	" A  1",
}

func runC01(e *E) {
	e.Part("line sequences")
	depth := 5
	if e.Thorough {
		depth = 6
	}
	seqs(len(c01Lines), 1, depth, func(ix []int) {
		for variant := 0; variant < 4; variant++ {
			if len(ix) == depth && (ix[0]+ix[1]+ix[2]+ix[3])%4 != variant {
				// each deepest sequence in one of the four forms
				continue
			}
			if !e.Mine() {
				e.Pass()
				continue
			}
			eol := "\n"
			if variant >= 2 {
				eol = "\r\n"
			}
			var l []string
			for _, i := range ix {
				l = append(l, c01Lines[i])
			}
			text := strings.Join(l, eol)
			if variant%2 == 0 {
				text += eol
			}
			e.Do(func(x *X) error {
				x.Key("lines %v variant %d", ix, variant)
				x.Sample(text)
				if len(ix) < depth {
					return checkJournal(x, one(text), "print", "accounts", "payees", "statistics", "balance")
				}
				return checkJournal(x, one(text), "print")
			})
		}
	})

	e.Part("posting lines")
	indents := []string{"  ", "    ", "\t", "   \t", "     "}
	accts := []string{"A", "A:B", "Assets:Current Account", "É:ß", "a b c", "A:", "A-1", "Include", "x:1;y", "A B:C  "}
	seps := []string{"  ", "   ", "\t", " \t", "\t\t ", "          "}
	amts := []string{"", "1", "-1", "+1", "0", "£1", "£-1", "£ 1", "EUR 1.5", "1.05", "1.50", "$0.01", "Rs.5", "10,5", "1 USD", "--1", "1.", ".5", "1.234", "x"}
	trails := []string{"", " ", "   ", "\t", " ;c", "  ; c", ";c", "\t# c d  ", "  ;", "  ;  ;x", " z", "  z"}
	placings := []int{0, 1, 2}
	product([]int{len(indents), len(accts), len(seps), len(amts), len(trails), len(placings)}, func(ix []int) {
		if !e.Thorough && ix[0] > 1 && ix[2] > 2 {
			return
		}
		if !e.Mine() {
			e.Pass()
			return
		}
		line := indents[ix[0]] + accts[ix[1]] + seps[ix[2]] + amts[ix[3]] + trails[ix[4]]
		var text string
		switch ix[5] {
		case 0: // alone with a balancing posting
			text = "2020-01-01 p\n" + line + "\n  Z  \n"
			if amts[ix[3]] == "" {
				text = "2020-01-01 p\n" + line + "\n  Z  5\n"
			}
		case 1: // last of the file, no newline
			text = "2020-01-01 p\n  Y  3\n  Z  -3\n  Y  0\n" + line
		case 2: // between notes and comments
			text = "2020-01-01 p ; h\n  ; n\n" + line + "\n  ; after\n  Z\n  ; z\n\n2020-01-01 q\n"
			if amts[ix[3]] == "" {
				text = strings.Replace(text, "\n  Z\n", "\n  Z  7\n", 1)
			}
		}
		e.Do(func(x *X) error {
			x.Key("posting line %q placing %d", line, ix[5])
			return checkJournal(x, one(text), "print")
		})
	})

	e.Part("header lines")
	dates := []string{"2020-01-02", "2020/01/02", "2020.01.02", "2020/01-02", "2020-1-2", "20200102", "2020-02-30", "0001-01-01", "9999-12-31"}
	gaps := []string{"", " ", "  ", " \t", "   "}
	states := []string{"", "*", "!", "* ", "! ", "*  ", "!\t", "**", "!!", "*!"}
	payees := []string{"", "P", "Two Words", "Ünï ☃", "9 lives", "a.b,c", "*x", "x!", "O'Neil & Co (x)"}
	notes := []string{"", " ", " ; n", "  ;n", ";n", "\t# n m", "  ; ", " ;", "  ;  spaced  ", " #;n", "  ; ; n", "\t"}
	product([]int{len(dates), len(gaps), len(states), len(payees), len(notes)}, func(ix []int) {
		if !e.Thorough && ix[0] >= 3 && ix[1] != 1 {
			return
		}
		if !e.Mine() {
			e.Pass()
			return
		}
		h := dates[ix[0]] + gaps[ix[1]] + states[ix[2]] + payees[ix[3]] + notes[ix[4]]
		text := "2019-05-05 before\n  A  1\n  B\n" + h + "\n  ; n\n  A  1\n  B\n"
		e.Do(func(x *X) error {
			x.Key("header %q", h)
			return checkJournal(x, one(text), "print", "payees")
		})
	})

	e.Part("edits")
	for k, seed := range editSeeds {
		edits(seed, editAlphabet, func(text string) {
			if !e.Mine() {
				e.Pass()
				return
			}
			e.Do(func(x *X) error {
				x.Key("edit of %d: %q", k, text)
				return checkJournal(x, map[string]string{mainFile: text, "x": editInclude}, "print", "accounts")
			})
		})
	}

	e.Part("dates")
	day := func(n int) {
		for _, sep := range []string{"-", "/", "."} {
			if !e.Mine() {
				e.Pass()
				continue
			}
			s := dayStr(n)
			text := strings.ReplaceAll(s, "-", sep) + " p\n  A  1\n  B\n"
			e.Do(func(x *X) error {
				x.Key("date %s %s", s, sep)
				return checkJournal(x, one(text), "print", "statistics")
			})
		}
	}
	years := [][2]int{{1899, 1900}, {1999, 2004}, {2100, 2101}}
	if e.Thorough {
		years = [][2]int{{1899, 2101}, {0, 5}, {1582, 1582}, {1752, 1752}, {9998, 9999}}
	}
	for _, r := range years {
		for n := dayNumber(r[0], 1, 1); n <= dayNumber(r[1], 12, 31); n++ {
			day(n)
		}
	}
	e.Part("near-miss dates")
	for _, y := range []string{"2019", "2020", "1900", "2000", "20", "02020"} {
		for m := 0; m <= 14; m++ {
			for d := 0; d <= 33; d++ {
				for _, f := range []string{"%s-%02d-%02d", "%s/%d/%d", "%s.%02d.%02d", "%s/%02d-%02d"} {
					if !e.Mine() {
						e.Pass()
						continue
					}
					h := fmt.Sprintf(f, y, m, d)
					text := h + " p\n  A  1\n  B\n"
					before := fmt.Sprintf(strings.ReplaceAll(f, "%d", "%02d"), y, max(1, min(m, 12)), 1+d%28) + " before\n  A  2\n  B\n"
					e.Do(func(x *X) error {
						x.Key("date %s", h)
						if err := checkJournal(x, one(text), "print"); err != nil {
							return err
						}
						// after a date of the same month, and after itself
						if err := checkJournal(x, one(before+text), "print"); err != nil {
							return err
						}
						return checkJournal(x, one("2020-01-31 x\n"+text+text), "print")
					})
				}
			}
		}
	}
	e.Part("pairs of dates")
	var ds []string
	for _, y := range []string{"2019", "2020", "1999", "0001"} {
		for _, md := range []string{"01-01", "01-10", "01-31", "02-01", "02-28", "02-29", "02-30", "10-01", "11-30", "11-31", "12-31", "13-01", "00-01", "01-00", "1-01", "01-1"} {
			for _, sep := range []string{"-", "/", "."} {
				ds = append(ds, y+sep+strings.ReplaceAll(md, "-", sep))
			}
		}
	}
	for i := range ds {
		for j := range ds {
			if !e.Mine() {
				e.Pass()
				continue
			}
			text := ds[i] + " p\n  A  1\n  B\n" + []string{"", "\n"}[(i+j)%2] + ds[j] + " q\n  A  2\n  B\n"
			e.Do(func(x *X) error {
				x.Key("dates %s %s", ds[i], ds[j])
				return checkJournal(x, one(text), "print")
			})
		}
	}
	notePairs(e, []string{"print"})
	payeePairs(e, []string{"print"})
	accountPairs(e, []string{"print"}, nil)
	charPart(e, checkCommands("print", "accounts"))
	longPairs(e, checkCommands("print"))
	sizeCommands(e, 1100, []Case{{Cmd: "print"}, {Cmd: "accounts"}})
	featurePart(e, []string{"print"}, nil)
	textPart(e, checkCommands("print", "accounts"))
	nestPart(e, checkCommands("print", "accounts", "statistics"))
	countPart(e, countCases([]string{"print", "accounts", "payees"}, nil))
	neighbourPart(e, 4, checkCommands("print"))
	dialectPart(e, 3, checkCommands("print"))
}
