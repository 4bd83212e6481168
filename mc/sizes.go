package main

import (
	"fmt"
	"strings"
)

// family is a journal with one part repeated or one part as long as wanted.
type family struct {
	name string
	max  int // beyond which it is not built (0: no limit)
	f    func(n int) map[string]string
	cmds []string // what C22 runs on it
}

const sizesBound = "journals with one part of a line of any length, or one part repeated, for 13 + 28 parts (postings, notes, days, months, levels and children of accounts and categories, years, files...): sizes 0..40 and within 1 of 64, 100, 128, 256, 365, 512, 1000 and 1024 (thorough: 2048, 4096)"

func around(lo int, d int, pow ...int) []int {
	var out []int
	seen := map[int]bool{}
	add := func(n int) {
		if n >= 0 && !seen[n] {
			seen[n] = true
			out = append(out, n)
		}
	}
	for n := 0; n <= lo; n++ {
		add(n)
	}
	for _, p := range pow {
		for n := p - d; n <= p+d; n++ {
			add(n)
		}
	}
	return out
}

func repeat(n int, f func(i int) string) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString(f(i))
	}
	return b.String()
}

// longText is a text no two stretches of which are alike.
func longText(n int) string {
	var b strings.Builder
	for i := 0; b.Len() < n; i++ {
		fmt.Fprintf(&b, "%x", i)
	}
	return b.String()[:n]
}

// lengthFamilies have one part of a line of length n.
var lengthFamilies = []struct {
	name string
	f    func(n int) string
}{
	{"payee", func(n int) string { return "2020-01-02 " + longText(n) + "\n  A  1\n  B\n" }},
	{"payee of runes", func(n int) string { return "2020-01-02 " + strings.Repeat("é", n/2) + "x\n  A  1\n  B\n" }},
	{"header note", func(n int) string { return "2020-01-02 p  ; h" + longText(n) + "\n  A  1\n  B\n" }},
	{"note", func(n int) string { return "2020-01-02 p\n  ; n" + longText(n) + "\n  A  1\n  B\n" }},
	{"posting note", func(n int) string {
		return "2020-01-02 p\n  A  1 ; c" + longText(n) + "\n  B  ; d" + longText(n) + "\n"
	}},
	{"comment", func(n int) string { return "2020-01-02 p\n; " + longText(n) + "\n  A  1\n  B\n" }},
	{"account", func(n int) string { return "2020-01-02 p\n  A" + longText(n) + "  1\n  B\n" }},
	{"account of words", func(n int) string { return "2020-01-02 p\n  A" + strings.Repeat(" b", n/2) + "  1\n  B\n" }},
	{"commodity", func(n int) string {
		return "2020-01-02 p\n  A  " + strings.Repeat("x", n) + "1\n  B\n"
	}},
	{"zeroes", func(n int) string { return "2020-01-02 p\n  A  " + strings.Repeat("0", n) + "1\n  B\n" }},
	{"space before", func(n int) string { return "2020-01-02 p\n  " + strings.Repeat(" ", n) + "A  1\n  B\n" }},
	{"space between", func(n int) string {
		return "2020-01-02 " + strings.Repeat(" ", n) + "p\n  A  " + strings.Repeat(" ", n) + "1\n  B\n"
	}},
	{"space after", func(n int) string {
		return "2020-01-02 p\n  A  1" + strings.Repeat(" ", n) + "\n  B" + strings.Repeat(" ", n) + "\n"
	}},
}

// inOne makes a family's files of a text.
func inOne(f func(n int) string) func(n int) map[string]string {
	return func(n int) map[string]string { return one(f(n)) }
}

func levels(n int) string {
	return repeat(n, func(i int) string { return fmt.Sprintf(":l%d", i) })
}

func numberedTxn(i int) string {
	return fmt.Sprintf("2020-01-%02d f%d\n  A:a%d  %d\n  B\n", i%28+1, i, i%30, i+1)
}

var start2019 = dayNumber(2019, 1, 30)

// countFamilies have one part n times.
var countFamilies = []family{
	{"transactions", 0, inOne(func(n int) string {
		return repeat(n, func(i int) string {
			return fmt.Sprintf("2020-%02d-%02d p%d\n  A  %d\n  B\n\n", i%12+1, i*7%28+1, i%5, i)
		})
	}), allCommands},
	{"transactions without space between", 0, inOne(func(n int) string {
		return repeat(n, func(i int) string { return fmt.Sprintf("2020-01-%02d p%d\n  A  %d\n  B\n", 28-i%28, i, i) })
	}), allCommands},
	{"postings", 0, inOne(func(n int) string {
		return "2020-01-02 p\n" + repeat(n, func(i int) string { return fmt.Sprintf("  A:a%d  %d ; n%d\n", i, i, i) }) + "  B\n"
	}), allCommands},
	{"postings to one account, the omitted one first", 0, inOne(func(n int) string {
		return "2020-01-02 p\n  B\n" + repeat(n, func(i int) string { return fmt.Sprintf("  A  %d.%02d\n", i, i%100) })
	}), allCommands},
	{"postings that cancel out", 0, inOne(func(n int) string {
		return "2020-01-02 p\n" + repeat(n, func(i int) string {
			return fmt.Sprintf("  A:a%d  %d.%02d\n  A:b%d:c  -%d.%02d\n", i%7, i, i%100, i%5, i, i%100)
		}) + "  B:d\n"
	}), allCommands},
	{"notes", 0, inOne(func(n int) string {
		return "2020-01-02 p\n" + repeat(n, func(i int) string { return fmt.Sprintf("  ; n%d\n", i) }) + "  A  1\n  B\n"
	}), allCommands[:3]},
	{"notes of a posting", 0, inOne(func(n int) string {
		return "2020-01-02 p\n  A  1\n" + repeat(n, func(i int) string { return fmt.Sprintf("  ; n%d\n", i) }) + "  B\n  ; last\n"
	}), allCommands[:3]},
	{"notes of every part", 0, inOne(func(n int) string {
		note := func(p string) string {
			return repeat(n, func(i int) string { return fmt.Sprintf("  ; %s%d\n", p, i) })
		}
		return "2020-01-02 p ; h\n" + note("t") + "  A  1 ; a\n" + note("a") + "  B\n" + note("b") + "2020-01-03 q\n" + note("u") + "  C\n" + note("c") + "  D  2\n"
	}), allCommands[:3]},
	{"empty notes", 0, inOne(func(n int) string {
		return "2020-01-02 p ;\n" + strings.Repeat("  ;\n", n) + "  A  1 ;\n" + strings.Repeat("  ;\n", n/2) + "  B\n" + strings.Repeat("  ; \n", n)
	}), allCommands[:3]},
	{"equal notes", 0, inOne(func(n int) string {
		return "2020-01-02 p ; n\n" + strings.Repeat("  ; n\n", n) + "  A  1 ; n\n" + strings.Repeat("  ; n\n", n) + "  B\n" + strings.Repeat("  ; n\n", n)
	}), allCommands[:3]},
	{"equal postings", 0, inOne(func(n int) string {
		return "2020-01-02 p\n" + strings.Repeat("  A:x  1.50\n", n) + "  B\n"
	}), allCommands},
	{"postings of zero", 0, inOne(func(n int) string {
		return "2020-01-02 p\n" + strings.Repeat("  A:x  0\n  A:y  0.00 ;\n", n) + "  B\n"
	}), allCommands},
	{"equal transactions", 0, inOne(func(n int) string {
		return strings.Repeat("2020-01-02 * p\n  A  1 ; c\n  B\n", n)
	}), allCommands},
	{"transactions without postings", 0, inOne(func(n int) string {
		return strings.Repeat("2020-01-02\n", n) + repeat(n, func(i int) string { return fmt.Sprintf("2020-01-%02d x\n", i%28+1) })
	}), allCommands},
	{"equal budget entries", 0, inOne(func(n int) string {
		return strings.Repeat("~ 2020-01\n  Food  2\n  Food  -1\n", n) + strings.Repeat("2020-01-02 p\n  Expenses:Food  1\n  Income:x\n", n)
	}), allCommands},
	{"comments and empty lines", 0, inOne(func(n int) string {
		return repeat(n, func(i int) string { return []string{"\n", "; c\n", "# d\n", "  \n"}[i%4] }) + "2020-01-02 p\n  A  1\n  B\n" + strings.Repeat("\n", n)
	}), allCommands},
	{"comments in a transaction", 0, inOne(func(n int) string {
		return "2020-01-02 p\n  A  1\n" + repeat(n, func(i int) string { return []string{"; c\n", "# d\n"}[i%2] }) + "  B  2\n" + repeat(n, func(i int) string { return "# e\n" }) + "  C\n"
	}), allCommands},
	{"levels of an account", 1100, inOne(func(n int) string {
		return "2020-01-02 p\n  A" + levels(n) + "  3\n  B\n"
	}), allCommands},
	{"levels of an account, then a fork", 1100, inOne(func(n int) string {
		return "2020-01-02 p\n  A" + levels(n) + ":x  3\n  A" + levels(n) + ":y  4\n  A" + levels(n/2) + ":z:zz  5\n  A" + levels(n) + ":x:w  -3\n  B\n"
	}), allCommands},
	{"levels of an account that is zero again", 1100, inOne(func(n int) string {
		return "2020-01-02 p\n  A" + levels(n) + "  3\n  A" + levels(n) + "  -3\n  A" + levels(n/2) + ":q  1\n  B\n\n2020-01-03 p\n  C" + levels(n) + "  0\n  D\n"
	}), allCommands},
	{"levels of an account with forks", 64, inOne(func(n int) string {
		return "2020-01-02 p\n" + repeat(n, func(i int) string { return fmt.Sprintf("  A%s:x%d  %d\n", levels(i), i%3, i) }) + "  B\n"
	}), allCommands},
	{"levels of a category", 1100, inOne(func(n int) string {
		return "~ 2020-01\n  Food" + levels(n) + "  30\n  Food  1\n\n2020-01-02 p\n  Expenses:Food" + levels(n) + "  3\n  Expenses:Food" + levels(n/2) + ":x  0.50\n  Income" + levels(n) + "  -40\n  A\n"
	}), allCommands},
	{"children of an account", 2100, inOne(func(n int) string {
		return repeat(n, func(i int) string {
			return fmt.Sprintf("2020-01-02 p\n  Expenses:c%d:d  %d\n  Income:j%d\n\n", i, i+1, i)
		})
	}), allCommands},
	{"children of an account, most of them zero", 2100, inOne(func(n int) string {
		return repeat(n, func(i int) string {
			q := 0
			if i%3 == 1 {
				q = i
			}
			return fmt.Sprintf("2020-01-02 p\n  A:c%d:d  %d\n  Z%d\n\n", i*7%(n+1), q, i%9)
		})
	}), allCommands},
	{"accounts at the top", 2100, inOne(func(n int) string {
		return repeat(n, func(i int) string { return fmt.Sprintf("2020-01-02 p%d\n  N%d  %d\n  M%d:x\n", i, n-i, i, i) })
	}), allCommands},
	{"budget entries", 0, inOne(func(n int) string {
		return repeat(n, func(i int) string { return fmt.Sprintf("~ 20%02d-%02d\n  Food%d  %d\n", i/12%100, i%12+1, i%9, i) }) + "\n2020-01-02 p\n  Expenses:Food1  1\n  B\n"
	}), []string{"budget", "print", "balance"}},
	{"postings of a budget entry", 0, inOne(func(n int) string {
		return "~ 2020-01\n" + repeat(n, func(i int) string { return fmt.Sprintf("  Food%d  %d\n", i, i) }) + "\n2020-01-02 p\n  Expenses:Food1  1\n  B\n"
	}), []string{"budget", "print", "balance"}},
	{"budget entries of a month", 0, inOne(func(n int) string {
		return repeat(n, func(i int) string {
			return fmt.Sprintf("~ 2020-01\n  Food:f%d  %d\n  Rent\n\n2020-01-%02d p\n  Expenses:Food:g%d  2\n  Income:j%d  -7\n  A\n", i%3, i, i%28+1, i%4, i%2)
		})
	}), []string{"budget", "print", "balance"}},
	{"months", 4100, inOne(func(n int) string {
		return repeat(n, func(i int) string {
			y, m := 1990+i/12, i%12+1
			return fmt.Sprintf("~ %04d-%02d\n  Food:x  %d\n  Rent  1\n\n%04d-%02d-15 p\n  Expenses:Food:y  %d\n  Income:j  -%d\n  A\n", y, m, i, y, 12-i%12, i%50, i*2)
		})
	}), []string{"budget", "statistics"}},
	{"days of income and spending", 4100, inOne(func(n int) string {
		return "2018-12-31 p\n  A\n  Income:x  -50\n" + repeat(n, func(i int) string {
			return fmt.Sprintf("%s p\n  Expenses:Food  %d\n  Income:j%d  -3\n  A\n", dayStr(start2019+i), 1+i*3%4, i%3)
		})
	}), []string{"statistics", "budget", "balance"}},
	{"days of spending, one of income", 4100, inOne(func(n int) string {
		return fmt.Sprintf("2018-12-31 p\n  A  %d\n  Income:x\n", 10*n+1) + repeat(n, func(i int) string {
			return fmt.Sprintf("%s p\n  Expenses:Food  %d\n  A\n", dayStr(start2019+2*(n-i)), 1+i%9)
		})
	}), []string{"statistics", "budget", "balance"}},
	{"days of income, one of spending", 4100, inOne(func(n int) string {
		return repeat(n, func(i int) string {
			return fmt.Sprintf("%s p\n  A  %d\n  Income:j\n", dayStr(start2019+i), 1+i%9)
		}) + fmt.Sprintf("%s p\n  Expenses:Food  %d\n  A\n", dayStr(start2019+n+3), max(1, n))
	}), []string{"statistics", "budget", "balance"}},
	{"years", 1100, inOne(func(n int) string {
		return repeat(n, func(i int) string {
			return fmt.Sprintf("%04d-%02d-%02d p\n  Expenses:Food  1\n  Income:j\n", 3000-i, i%12+1, i%28+1)
		})
	}), allCommands},
	{"files nested", 120, func(n int) map[string]string {
		files := map[string]string{}
		for i := 0; i <= n; i++ {
			name := fmt.Sprintf("f%d", i)
			if i == 0 {
				name = mainFile
			}
			files[name] = numberedTxn(i)
			if i < n {
				files[name] = numberedTxn(i) + fmt.Sprintf("include f%d\n", i+1) + numberedTxn(i+1)
			}
		}
		return files
	}, []string{"print", "balance", "statistics"}},
	{"files", 260, func(n int) map[string]string {
		files := map[string]string{mainFile: numberedTxn(0)}
		for i := 1; i <= n; i++ {
			files[fmt.Sprintf("f%d", i)] = numberedTxn(i)
			files[mainFile] += fmt.Sprintf("include f%d\n", i)
		}
		return files
	}, []string{"print", "balance", "statistics"}},
}

// sizePart runs a check on every journal of the families, or those of a list of names, up to a size.
func sizePart(e *E, limit int, only []string, check func(x *X, files map[string]string) error) {
	sizes := around(40, 1, 64, 100, 128, 256, 365, 512, 1000, 1024)
	if e.Thorough {
		sizes = around(80, 2, 100, 128, 256, 365, 512, 730, 1000, 1024, 2048, 4096)
		limit *= 4
	}
	wanted := func(name string) bool {
		for _, o := range only {
			if strings.Contains(name, o) {
				return true
			}
		}
		return len(only) == 0
	}
	do := func(name string, n int, f func(n int) map[string]string) {
		if n > limit {
			return
		}
		if !e.Mine() {
			e.Pass()
			return
		}
		e.Do(func(x *X) error {
			x.Key("size %s of %d", name, n)
			return check(x, f(n))
		})
	}
	rest := "\n2020-01-09 after\n  Z  9\n  A  -9\n"
	e.Part("sizes of parts")
	for _, l := range lengthFamilies {
		if !wanted("length of " + l.name) {
			continue
		}
		for _, n := range sizes {
			text := func(n int) map[string]string {
				if l.name == "commodity" {
					return one(l.f(n))
				}
				return one(l.f(n) + rest)
			}
			do("length of "+l.name, n, text)
		}
	}
	for _, c := range countFamilies {
		if !wanted("number of " + c.name) {
			continue
		}
		for _, n := range sizes {
			if c.max > 0 && n > c.max {
				continue
			}
			do("number of "+c.name, n, c.f)
		}
	}
}

// sizeCommands checks reports of the families' journals.
func sizeCommands(e *E, limit int, cases []Case, only ...string) {
	sizePart(e, limit, only, func(x *X, files map[string]string) error {
		for _, c := range cases {
			c.Files = files
			if err := expectCase(x, c); err != nil {
				return err
			}
		}
		return nil
	})
}

const hugeBound = "amounts at the limit of 64 bits: every vector of up to 5 of 9 (omitted, the greatest and the next, half, a hundredth or two); every history of up to 2 transactions (and, for the budget, entries) between 4 accounts with 7 amounts, and of 3 out of some 15 (thorough: all) of these"

// hugeSums are transactions whose amounts fit 64 bits but whose sum may not.
func hugeSums(e *E, cmds []string, hi int) {
	e.Part("sums around 64 bits")
	vals := []string{"", "92233720368547758.07", "-92233720368547758.07", "92233720368547758.06", "46116860184273879.04", "-46116860184273879.04", "0.01", "-0.01", "0.02"}
	seqs(len(vals), 1, hi, func(ix []int) {
		if !e.Mine() {
			e.Pass()
			return
		}
		var v []string
		for _, i := range ix {
			v = append(v, vals[i])
		}
		c := cmds
		if len(ix) > 3 {
			c = cmds[:1]
		}
		e.Do(func(x *X) error {
			x.Key("amounts %q", v)
			return checkJournal(x, one("2020-01-01 t\n"+postings(v, "£")), c...)
		})
	})
}

// hugeHistories are transactions that balance, with sums in the reports that may not fit 64 bits.
func hugeHistories(e *E, cmds []string) {
	e.Part("reports around 64 bits")
	accts := []string{"Expenses:F", "Expenses:F:G", "Income:J", "F"}
	vals := []string{"92233720368547758.07", "-92233720368547758.07", "92233720368547758.06", "46116860184273879.04", "-46116860184273879.04", "0.01", "-0.02"}
	budget := cmds[0] == "budget"
	n := len(accts) * len(accts) * len(vals)
	if budget {
		n += 2 * len(vals)
	}
	entry := func(i int) string {
		if k := i - len(accts)*len(accts)*len(vals); k >= 0 {
			return fmt.Sprintf("~ 2020-01\n  F%s  %s\n", []string{"", ":G"}[k%2], vals[k/2])
		}
		a, b, v := accts[i%len(accts)], accts[i/len(accts)%len(accts)], vals[i/len(accts)/len(accts)]
		return fmt.Sprintf("2020-01-01 t\n  %s  %s\n  %s\n", a, v, b)
	}
	// three in a row are taken from fewer
	var few []int
	for i := 0; i < n; i++ {
		k := i - len(accts)*len(accts)*len(vals)
		if e.Thorough || k >= 0 && k/2 < 3 || k < 0 && i%len(accts) != i/len(accts)%len(accts) && i%len(accts) < 3 && i/len(accts)%len(accts) > 1 && i/len(accts)/len(accts)%3 == 0 {
			few = append(few, i)
		}
	}
	each := func(ix []int) {
		if !e.Mine() {
			e.Pass()
			return
		}
		var text string
		for _, i := range ix {
			text += entry(i)
		}
		e.Do(func(x *X) error {
			x.Key("history %v", ix)
			x.Sample(text)
			return checkJournal(x, one(text), cmds...)
		})
	}
	seqs(n, 1, 2, each)
	seqs(len(few), 3, 3, func(ix []int) {
		each([]int{few[ix[0]], few[ix[1]], few[ix[2]]})
	})
}
