package main

import (
	"fmt"
	"strings"
)

// A place takes any text made of the separators of a journal.
type place struct {
	name  string
	alpha []string
	hi    int
	f     func(s string) string
}

var textPlaces = []place{
	{"comment on a line", []string{"a", " ", ";", "#", "\t"}, 6, func(s string) string {
		return "2020-01-02 p\n  A  1 ;" + s + "\n  B  ;b\n"
	}},
	{"comment on the last line", []string{"a", " ", ";", "#", "\t"}, 5, func(s string) string {
		return "2020-01-02 p\n  A  1\n  ; t\n  B  #" + s
	}},
	{"note", []string{"a", " ", ";", "#", "\t"}, 6, func(s string) string {
		return "2020-01-02 p\n  ;" + s + "\n  A  1\n  #" + s + "\n  B\n"
	}},
	{"header note", []string{"a", " ", ";", "#", "\t"}, 6, func(s string) string {
		return "2020-01-02 p  ;" + s + "\n  A  1\n  B\n"
	}},
	{"payee", []string{"P", " ", "*", "!", ";", "\t", "."}, 5, func(s string) string {
		return "2020-01-02" + s + "\n  A  1\n  B\n"
	}},
	{"account", []string{"A", "b", ":", " ", ".", "-", ";"}, 5, func(s string) string {
		return "2020-01-02 p\n  A" + s + "  1\n  b\n"
	}},
	{"account alone", []string{"A", "1", ":", " ", "\t", ";"}, 5, func(s string) string {
		return "2020-01-02 p\n  A  1\n  " + s + "\n"
	}},
	{"line of a journal", []string{"a", " ", ";", "#", "\t", "~", "1"}, 5, func(s string) string {
		return "2020-01-02 p\n  A  1\n  B\n" + s + "\n2020-01-03 q\n  A  2\n  B\n"
	}},
}

const textsBound = "every string over 5 to 7 separators and letters, of up to 5 or 6 (thorough: one more) characters, in each of 8 places: two comments of postings, notes, note of a header, rest of a header, account with and without an amount, line between transactions"

// textPart puts every text in every place.
func textPart(e *E, check func(x *X, files map[string]string) error) {
	e.Part("texts in places")
	for _, p := range textPlaces {
		hi := p.hi
		if e.Thorough {
			hi++
		}
		strs(p.alpha, 0, hi, func(s string) {
			if !e.Mine() {
				e.Pass()
				return
			}
			text := p.f(s)
			e.Do(func(x *X) error {
				x.Key("%s %q", p.name, s)
				return check(x, one(text))
			})
		})
	}
}

const commoditiesBound = "every commodity over {F,r,.,space} and over {£,s,.,-,0} of up to 6 (5) characters with 6 amounts"

// commodityPart has every commodity made of a few characters.
func commodityPart(e *E, check func(x *X, files map[string]string) error) {
	e.Part("commodities")
	for k, alpha := range [][]string{{"F", "r", ".", " "}, {"£", "s", ".", "-", "0"}} {
		hi := 6 - k
		if e.Thorough {
			hi++
		}
		strs(alpha, 1, hi, func(s string) {
			if strings.Contains(s, "  ") || s[0] == ' ' {
				return
			}
			if !e.Mine() {
				e.Pass()
				return
			}
			e.Do(func(x *X) error {
				x.Key("commodity %q", s)
				for _, a := range []string{"1", "-1", "1.05", ".5", " 0.50", " -12"} {
					if err := check(x, one("2020-01-02 p\n  A  "+s+a+"\n  B\n")); err != nil {
						return Fail("%s%s: %w", s, a, err)
					}
				}
				return nil
			})
		})
	}
}

const countsBound = "transactions with every number of postings (1..6), notes (0..3), comments of a posting (0..2) and of earlier or later transactions (0..2), with and without state, payee and note in the header, in 3 forms (an amount omitted, everything given, zeroes), each with 3 (thorough: all) of 12 lists of 0 to 3 filters for all, one or all but one of the postings"

var countArgs = [][]string{nil, {"^a1"}, {"^a[1-9]"}, {"@pay"}, {"@pay", "@other"}, {"=hn"}, {"=c0", "^a2"}, {"@nosuch", "^a", "=n1"}, {"^a[02-9]"}, {"@^$", "@pay", "@z"}, {"a0", "a1", "a2"}, {"=n", "=c1"}}

// countJournal has so many of everything.
func countJournal(posts, notes, comments, others int, state, payee, hnote bool, form int) string {
	var b strings.Builder
	b.WriteString("2020-02-03")
	if state {
		b.WriteString([]string{" *", " !"}[posts%2])
	}
	if payee {
		b.WriteString(" Payee")
	}
	if hnote {
		b.WriteString("  ; hn")
	}
	b.WriteString("\n")
	for i := 0; i < notes; i++ {
		fmt.Fprintf(&b, "  ; n%d\n", i)
	}
	sum := int64(0)
	for i := 0; i < posts; i++ {
		fmt.Fprintf(&b, "  a%d", i)
		if i == 3 {
			b.WriteString(":sub")
		}
		q := int64(100*i + i)
		if i%2 == 1 {
			q = -q - 5
		}
		switch {
		case form == 2 || posts == 1:
			b.WriteString("  £0")
		case i == posts-1 && form == 0:
		case i == posts-1:
			b.WriteString("  £" + fmtQ(-sum))
		default:
			b.WriteString("  £" + fmtQ(q))
			sum += q
		}
		for k := 0; k < comments; k++ {
			if k == 0 {
				fmt.Fprintf(&b, " ; c%d\n", i)
			} else {
				fmt.Fprintf(&b, "  ; d%d\n", i)
			}
		}
		if comments == 0 {
			b.WriteString("\n")
		}
	}
	t := b.String()
	other := "2020-02-03 * Other  ; hn\n  a0  £1\n  b ; c0\n"
	switch others {
	case 1:
		t = other + t
	case 2:
		t = strings.Replace(other, "-03", "-01", 1) + "\n" + t + "\n" + other
	}
	return t
}

// countPart has every combination of how many there are of each part.
func countPart(e *E, check func(x *X, turn int, files map[string]string) error) {
	e.Part("numbers of everything")
	n := 0
	product([]int{6, 4, 3, 3, 2, 2, 2, 3}, func(ix []int) {
		n++
		turn := n
		if !e.Mine() {
			e.Pass()
			return
		}
		e.Do(func(x *X) error {
			x.Key("numbers %v", ix)
			return check(x, turn, one(countJournal(ix[0]+1, ix[1], ix[2], ix[3], ix[4] == 1, ix[5] == 1, ix[6] == 1, ix[7])))
		})
	})
}

// countCases runs command lines on one of them.
func countCases(cmds []string, layouts []Case) func(x *X, turn int, files map[string]string) error {
	if len(layouts) == 0 {
		layouts = []Case{{}}
	}
	return func(x *X, turn int, files map[string]string) error {
		for _, cmd := range cmds {
			for ai, a := range countArgs {
				if !x.w.Thorough && ai > 0 && ai%4 != turn%4 {
					continue
				}
				if ai > 0 && (cmd == "accounts" || cmd == "payees" || cmd == "budget") {
					break
				}
				for li, l := range layouts {
					if li > 0 && cmd != "balance" {
						break
					}
					if err := expectCase(x, Case{Cmd: cmd, Files: files, Args: a, Flat: l.Flat, Coll: l.Coll, Zero: l.Zero}); err != nil {
						return err
					}
				}
			}
		}
		return nil
	}
}

const widthsBound = "accounts of 1..6 levels, of names of 8 lengths, with commodities of 6 lengths and amounts of 8 lengths, alone or next to a sibling, a child or another at the top that is zero, wide or narrow, in the layouts"

// widthPart has every combination of widths of the columns of a balance.
func widthPart(e *E, cmds []string, layouts []Case) {
	e.Part("widths of columns")
	amounts := []string{"1", "-1", "12.5", "-123.45", "1234567.89", "-123456789.01", "1234567890123.45", "-9223372036854775.07"}
	comms := []string{"", "£", "EUR ", "Dollars", "A long commodity", strings.Repeat("wide ", 8)}
	names := []int{1, 2, 3, 7, 12, 20, 32, 60}
	product([]int{6, len(names), len(comms), len(amounts), 5}, func(ix []int) {
		if !e.Mine() {
			e.Pass()
			return
		}
		depth, name, comm, q := ix[0]+1, names[ix[1]], comms[ix[2]], amounts[ix[3]]
		acct := "A"
		for d := 1; d < depth; d++ {
			acct += ":" + longText(name)[name-1:] + longText(name)[:name-1] + string(rune('a'+d))
		}
		text := "2020-01-02 p\n  " + acct + "  " + comm + q + "\n"
		switch ix[4] {
		case 1:
			text += "  " + acct + "x  " + comm + "0.01\n"
		case 2:
			text += "  " + acct + ":below  " + comm + "-7\n"
		case 3:
			text += "  " + acct + ":y:z  " + comm + "-" + strings.TrimPrefix(q, "-") + "\n  " + acct + ":zero  " + comm + "0\n"
		case 4:
			text += "  " + acct + "x  " + comm + "7\n  A:q:r  " + comm + "-99999999999.99\n  Q" + strings.Repeat("w", name) + "  " + comm + "0\n"
		}
		text += "  Z\n"
		e.Do(func(x *X) error {
			x.Key("widths %v", ix)
			return cases(x, one(text), cmds, layouts)
		})
	})
}

const siblingsBound = "every ordered pair and triple of 9 (triples: 7) siblings whose names differ in case or begin alike, at depths 1..5, all nonzero, one zero, or all zero, in the layouts"

// siblingPart has siblings whose order depends on how names are compared, at every depth.
func siblingPart(e *E, cmds []string, layouts []Case) {
	e.Part("siblings at depths")
	names := []string{"a", "B", "C", "b", "A b", "É", "A", "Ab", "_"}
	for depth := 1; depth <= 5; depth++ {
		prefix := ""
		for d := 1; d < depth; d++ {
			prefix += []string{"n", "N", "m m", "L"}[d-1] + ":"
		}
		for k := 2; k <= 3; k++ {
			n := len(names)
			if k == 3 && !e.Thorough {
				n = 7
			}
			seqs(n, k, k, func(ix []int) {
				for form := 0; form < 3; form++ {
					if !e.Mine() {
						e.Pass()
						continue
					}
					text := "2020-01-02 p\n"
					for i, at := range ix {
						q := []string{fmt.Sprint(i + 1), fmt.Sprint((i + len(ix) - 1) % len(ix) * 2), "0"}[form]
						text += fmt.Sprintf("  %s%s%s  £%s\n", prefix, names[at], []string{"", ":x", ""}[(i+form)%3], q)
					}
					text += "  " + prefix + "Z\n"
					e.Do(func(x *X) error {
						x.Key("siblings %v depth %d form %d", ix, depth, form)
						return cases(x, one(text), cmds, layouts)
					})
				}
			})
		}
	}
}
