package main

import "strings"

// Characters: names that are easily taken for one another, odd characters in every position of a
// journal, names of every length that only differ late or in the case of a letter, and lines with
// more than one long part.

// nameGroups are names that some comparison, normalisation or formatting would take for each other.
// Every ordered pair within a group is taken, and every name by itself.
var nameGroups = func() [][]string {
	join := func(pre string, mids []string, post string) []string {
		var out []string
		for _, m := range mids {
			out = append(out, pre+m+post)
		}
		return out
	}
	g := [][]string{
		// spaces, and what looks like one or like nothing
		join("A", []string{"", " ", "_", "\u00a0", "\u00a0 ", "\u2003", "\u2007", "\u202f", "\u3000", "\u1680", "\u0085", "\u2028", "\u2029", "\r", "\v", "\f", "\u200b", "\u200d", "\u2060", "\ufeff", "\u00ad", "\x00", "\x1b", "\x7f", "\u180e"}, "B"),
		// dashes and other punctuation that is typeset
		join("A", []string{"-", "\u2010", "\u2011", "\u2013", "\u2014", "\u2212", "\u00b7", "\u30fb", "~", " - ", "--"}, "B"),
		join("A", []string{"'", "\u2019", "\u2018", "`", "\u00b4", "\u02bc", "\u2032", "\"", "\u201c", "\u201d", "''"}, "s"),
		{"A...", "A\u2026", "A..", "A.", "A"},
		join("A", []string{":", "\uff1a", "\u2236", "\ua789", "/", "\u2044", "\\", "|", ";", ",", "."}, "b"),
		// case, and its many exceptions
		{"A", "a", "Ａ", "ａ", "А", "Α", "ª", "Å", "\u212b", "A\u030a", "Á", "A\u0301", "á", "À", "Æ", "AE"},
		{"ß", "ss", "ẞ", "SS", "sS", "s", "S", "ſ", "ſs"}, {"I", "i", "İ", "ı", "i\u0307", "I\u0307", "l", "Í"}, {"ǆ", "ǅ", "Ǆ", "dž", "DŽ"}, {"Σ", "σ", "ς"}, {"K", "k", "\u212a"}, {"Ω", "ω", "\u2126"}, {"µ", "μ", "Μ"},
		{"ﬁ", "fi", "FI", "Fi", "f"}, {"É", "é", "E\u0301", "e\u0301", "E", "e", "Ê"}, {"Ñ", "N\u0303", "N"}, {"Ж", "ж", "З"}, {"漢字", "漢", "漢字漢", "漢 字", "漢字:字"}, {"가", "\u1100\u1161"}, {"A😀", "A😁", "A", "A👍", "A👍🏽"},
		// digits
		join("A", []string{"1", "01", "1.0", "1.00", "١", "¹", "１", "½", "①", "Ⅰ", "+1", "-1", "10", "2", "£1", "1 ", "1e0", "0x1", "1,0"}, "b"),
		// components
		{"A:b", "A::b", "A:::b", "A: b", "A :b", "A : b", "A:b:", "A:b::", "A:", "A::", "A", "A:b:c", "A:b::c", "A::b:c", "A:b: c", "A:b :c", "A: ", "A:  b"[:4], "A:.b", "A:b:b"},
		{"Expenses", "Expenses:", "Expenses::", "Expenses::Food", "Expenses: Food", "Expenses :Food", "Expenses:Food", "Expenses:Food:", "Expenses:Food::Out", "Expenses:Food:Out", "Expenses: ", "Expenses:Food ", "Expenses.Food"},
		{"Income", "Income:", "Income::Job", "Income: Job", "Income:Job", "Income:Job:", "Income.Job", "Income :Job"},
		// formats and escapes
		join("A", []string{"", "%", "%%", "%d", "%s", "%v", "%!", "%-5s", "%[1]s", "%c", "%20", "%3A", "{}", "{{.}}", "$", "$1", "${x}", "\\n", "\\", "\\t", "&amp;", "<b>", "\x1b[31m", "\x1b[0m"}, "b"),
		// words that mean something elsewhere
		{"Funds", "Total", "Budget", "Category", "Available", "Activity", "Assigned", "Account", "Root", "root", "_root_", "A_budget_root_"}, {"nil", "null", "NaN", "true", "0", "Infinity", "none", "None"},
		{"include x", "includex", "include", "i"}, {"A;b", "A ;b", "A #b", "A#b", "A"},
	}
	// every sign of punctuation, in the middle and at the end
	var mid, end []string
	for c := '!'; c <= '~'; c++ {
		if c < '0' || c > '9' && c < 'A' || c > 'Z' && c < 'a' || c > 'z' {
			mid = append(mid, "A"+string(c)+"b")
			end = append(end, "Ab"+string(c))
		}
	}
	for i := range mid {
		k := (i + 1) % len(mid)
		g = append(g, []string{mid[i], end[i], "Ab", mid[k]})
	}
	return g
}()

const charsBound = "every ordered pair out of each of 60 groups of names that are easily confused (spaces, dashes, quotes, case and its exceptions, composed characters, digits, empty components, formats, every sign of punctuation)"

// groupPairs is pairs within groups.
func groupPairs(e *E, name string, forms []func(a, b string) string, check func(x *X, text, a, b string) error) {
	e.Part(name)
	for gi, g := range nameGroups {
		for _, a := range g {
			for _, b := range g {
				for k, f := range forms {
					if !e.Mine() {
						e.Pass()
						continue
					}
					text := f(a, b)
					e.Do(func(x *X) error {
						x.Key("%s of group %d %q %q form %d", name, gi, a, b, k)
						return check(x, text, a, b)
					})
				}
			}
		}
	}
}

// oddRunes are characters some function of the library or some editor treats in its own way.
var oddRunes = func() []string {
	var out []string
	for c := rune(0); c <= 0x20; c++ {
		out = append(out, string(c))
	}
	for c := rune(0x7f); c <= 0xa0; c++ {
		out = append(out, string(c))
	}
	for _, c := range []rune{0xad, 0xaa, 0xb2, 0xb5, 0xbd, 0xd7, 0xdf, 0x130, 0x131, 0x17f, 0x1c5, 0x2bc, 0x300, 0x301, 0x3a3, 0x3c2, 0x41, 0x410, 0x5d0, 0x660, 0x661, 0x6f1, 0x967, 0xe51, 0x1100, 0x1680, 0x180e, 0x2000, 0x2003, 0x2007, 0x2009, 0x200a, 0x200b, 0x200c, 0x200d, 0x200e, 0x200f, 0x2010, 0x2013, 0x2014, 0x2018, 0x2019, 0x201c, 0x2026, 0x2028, 0x2029, 0x202a, 0x202e, 0x202f, 0x205f, 0x2060, 0x2070, 0x20ac, 0x2126, 0x212a, 0x212b, 0x2160, 0x2167, 0x2212, 0x2460, 0x3000, 0x3007, 0x30fb, 0x4e00, 0x4e8c, 0xa789, 0xac00, 0xd7ff, 0xe000, 0xfb01, 0xfe0e, 0xfeff, 0xff01, 0xff0d, 0xff10, 0xff11, 0xff1a, 0xff1b, 0xff21, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1d7d9, 0x1f600, 0xe0020, 0x10ffff} {
		out = append(out, string(c))
	}
	return append(out, "\xff", "\xc2", "\xed\xa0\x80", "\xf4\x90\x80\x80", "e\u0301", "\r\n", "\n\r", "\u00a0 ", " \u00a0", "\u2003  ")
}()

// charSeed has every kind of separator.
const charSeed = "2020-01-02 * P q  ; h\n  A:B c  £1.5  ; n\n  ; t\n  X\n; c\n~ 2020-01\n  F  1\ninclude x  ; i\n2020-01-03 r\n  C\tEUR 2\n  D\n"

const oddRunesBound = "each of 170 characters (all control characters and kinds of space, digits and letters of other scripts, invalid UTF-8...) in place of and before every character of a journal with every kind of separator, and alone on a line between any two of its lines (7 forms)"

// charPart puts every odd character in every position.
func charPart(e *E, check func(x *X, files map[string]string) error) {
	e.Part("odd characters in positions")
	do := func(i int, how, text string) {
		if !e.Mine() {
			e.Pass()
			return
		}
		files := map[string]string{mainFile: text, "x": editInclude}
		e.Do(func(x *X) error {
			x.Key("%s %d: %q", how, i, text)
			return check(x, files)
		})
	}
	for _, c := range oddRunes {
		for i, r := range charSeed {
			do(i, "replaced", charSeed[:i]+c+charSeed[i+len(string(r)):])
			do(i, "inserted", charSeed[:i]+c+charSeed[i:])
		}
		do(len(charSeed), "inserted", charSeed+c)
		if strings.Contains(c, "\n") {
			continue
		}
		for i := range charSeed {
			if i == 0 || charSeed[i-1] == '\n' {
				for _, form := range []string{"%s\n", "%s %s\n", " %s\n", "  %s\n", "\t%s\n", "\n%s\n\n", "; %s\n"} {
					do(i, "a line of its own", charSeed[:i]+strings.ReplaceAll(form, "%s", c)+charSeed[i:])
				}
			}
		}
	}
}

// variants are names of about a length that differ in one place, one letter's case, or at the end.
func variants(n int) []string {
	base := longText(n + 8)
	base = strings.Map(func(r rune) rune { // letters only, so that case matters everywhere
		if r <= '9' {
			return r - '0' + 'g'
		}
		return r
	}, base)
	b := "a" + base[:n-1]
	up := strings.ToUpper
	set := []string{b, up(b), up(b[:1]) + b[1:], b[:n-1] + up(b[n-1:]), b[:n-1] + "é", b[:n-1] + "z", b[:n-1], b + "s", b + " s", b + "S", b[:n/2] + up(b[n/2:n/2+1]) + b[n/2+1:], b[:n/2] + "z" + b[n/2+1:], b[:n-1] + "1", b[:n-1] + "B"}
	seen := map[string]bool{"": true}
	var out []string
	for _, s := range set {
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	return out
}

const ordersBound = "names of every length from 1 to 70 and of 100, 127..129, 255..257 and 300 characters: every ordered pair of 14 that differ in one place, in case or at the end, and all of these at once in three orders"

var orderSizes = around(70, 1, 100, 128, 256, 300)[1:]

// nameOrders checks reports of names that only differ late, in case, or in length.
func nameOrders(e *E, forms []func(a, b string) string, each func(name string) string, check func(x *X, text, a, b string) error) {
	e.Part("orders of names")
	for _, n := range orderSizes {
		vs := variants(n)
		for i, a := range vs {
			for k, b := range vs {
				for fi, f := range forms {
					if !e.Mine() {
						e.Pass()
						continue
					}
					text := f(a, b)
					e.Do(func(x *X) error {
						x.Key("names of %d: %d %d form %d", n, i, k, fi)
						return check(x, text, a, b)
					})
				}
			}
		}
		for order := 0; order < 3; order++ {
			if !e.Mine() {
				e.Pass()
				continue
			}
			var text strings.Builder
			for i := range vs {
				k := i
				switch order {
				case 1:
					k = len(vs) - 1 - i
				case 2:
					k = i * 5 % len(vs)
				}
				text.WriteString(each(vs[k]))
			}
			e.Do(func(x *X) error {
				x.Key("names of %d in order %d", n, order)
				return check(x, text.String(), "", "")
			})
		}
	}
}

// accountOrders, payeeOrders and categoryOrders run commands on such names.
func accountOrders(e *E, cmds []string, layouts []Case) {
	nameOrders(e, accountForms[2:4], func(s string) string { return "2020-01-05 p\n  " + s + "  £1\n  A:" + s + "  £2\n  Z\n" },
		func(x *X, text, a, b string) error { return cases(x, one(text), cmds, layouts) })
}

func payeeOrders(e *E, cmds []string) {
	nameOrders(e, payeeForms[1:2], func(s string) string { return "2020-01-05 " + s + "\n  A  1\n  B\n" },
		func(x *X, text, a, b string) error { return cases(x, one(text), cmds, nil) })
}

func categoryOrders(e *E) {
	nameOrders(e, accountForms[4:5], func(s string) string {
		return "~ 2020-01\n  " + s + "  £1\n2020-01-05 p\n  Expenses:" + s + "  £1\n  Cash\n"
	}, func(x *X, text, a, b string) error { return cases(x, one(text), []string{"budget"}, nil) })
}

// longParts is a transaction whose parts are as long as wanted.
func longParts(n [7]int) string {
	part := func(i int, first string) string {
		if n[i] == 0 {
			return ""
		}
		return first + longText(n[i]-1)
	}
	hn, t, c, d := part(1, "h"), part(2, "t"), part(4, "c"), part(5, "d")
	line := func(pre, s string) string {
		if s == "" {
			return ""
		}
		return pre + s
	}
	return "2020-01-02 * " + part(0, "p") + line("  ; ", hn) + "\n" + line("  ; ", t) + nl(t) +
		"  A" + part(3, "a") + "  £1.00" + line(" ; ", c) + "\n" + line("  ; ", d) + nl(d) + "  B" + part(6, "b") + line(" ; ", d) + "\n"
}

func nl(s string) string {
	if s == "" {
		return ""
	}
	return "\n"
}

const longPairsBound = "every two of 7 parts of a transaction (payee, notes, accounts) of every two of 26 lengths up to 1025, the others short or absent"

// longPairs has two long parts at once.
func longPairs(e *E, check func(x *X, files map[string]string) error) {
	e.Part("pairs of long parts")
	sizes := []int{0, 2, 10, 20, 30, 31, 32, 39, 40, 41, 59, 60, 61, 64, 72, 79, 80, 81, 100, 120, 127, 128, 129, 255, 256, 1025}
	for rest := 0; rest <= 3; rest += 3 {
		for i := 0; i < 7; i++ {
			for k := 0; k < i; k++ {
				for _, a := range sizes {
					for _, b := range sizes {
						if !e.Mine() {
							e.Pass()
							continue
						}
						n := [7]int{rest, rest, rest, rest, rest, rest, rest}
						n[i], n[k] = a, b
						e.Do(func(x *X) error {
							x.Key("long parts %v", n)
							return check(x, one(longParts(n)+"2020-01-09 after\n  Z  9\n  A  -9\n"))
						})
					}
				}
			}
		}
	}
}

// checkCommands is checkJournal as a check of a part.
func checkCommands(cmds ...string) func(x *X, files map[string]string) error {
	return func(x *X, files map[string]string) error { return checkJournal(x, files, cmds...) }
}
