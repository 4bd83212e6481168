package main

import (
	"fmt"
	"regexp"
	"strings"
)

func init() {
	register(&Space{
		ID:   "C24",
		Rule: "every sequence of entries of a small alphabet with every date range and some payee filters: all commands are run and their outputs compared with each other (the output of print is read as a journal, and the counts, names and sums the other reports show must be those of it), and every range is split at every day: print must be the two parts one after the other, counts and balances their sums",
		Bound: map[string]string{
			"surroundings of a run": sameAsksBound,
			"families of names":     familiesBound,
			"any clock":             clocksBound,
			"lists of arguments":    argumentListsBound,
			"numbers":               countsBound,
			"features":              featuresBound,
			"sizes of parts":        sizesBound,
			"calendar":              calendarBound,
			"vocabulary":            vocabBound,
			"journals":              "sequences of up to 3 (quick) / 4 (thorough) of 10 entries on 4 days, and up to 6 of 3",
			"ranges":                "begin and end at each of 6 days or absent; every split day",
			"current":               "every sequence of up to 2 of 13 entries with --current and each of 4 x 5 values of --begin and --end",
			"filters":               "none, one and two payee filters",
		},
		Run: runC24,
	})
}

var treeLine = regexp.MustCompile(`^ *(\S*?)(-?\d+)\.(\d\d)  ( *)(\S.*)$`)

// readBalance reads a balance report in tree layout into amounts by path, and the total.
func readBalance(out string) (map[string]int64, int64, error) {
	m := map[string]int64{}
	parts := strings.Split(out, balRule)
	if len(parts) != 2 {
		return nil, 0, Fail("not a balance report:\n%s", clip(out))
	}
	var path []string
	for _, l := range strings.Split(strings.TrimRight(parts[0], "\n"), "\n") {
		if l == "" {
			continue
		}
		f := treeLine.FindStringSubmatch(l)
		if f == nil {
			return nil, 0, Fail("not a line of a balance report: %q", l)
		}
		q, ok := parseQ(f[2] + "." + f[3])
		if !ok || len(f[4])%2 != 0 || len(f[4])/2 > len(path) {
			return nil, 0, Fail("not a line of a balance report: %q", l)
		}
		path = append(path[:len(f[4])/2], f[5])
		p := strings.Join(path, ":")
		if _, dup := m[p]; dup {
			return nil, 0, Fail("%q is listed twice:\n%s", p, clip(out))
		}
		m[p] = q
	}
	total, ok := parseQ(strings.TrimSpace(parts[1]))
	if !ok {
		return nil, 0, Fail("not a total: %q", parts[1])
	}
	return m, total, nil
}

type reports struct {
	print    string
	txns     []Txn
	n        int
	accounts int
	payees   int
	bal      map[string]int64
	total    int64
}

// gather runs the commands on one selection and checks that they agree.
func gather(x *X, c Case) (r reports, err error) {
	run := func(cmd string, f func(c *Case)) Obs {
		c := c
		c.Cmd = cmd
		if f != nil {
			f(&c)
		}
		o := x.Run(c)
		x.Outcome(cmd + o.Out)
		if bad := o.Crashed(); bad != "" && err == nil {
			err = Fail("%s: %s", cmd, bad)
		}
		if o.Rejected() && err == nil {
			err = Fail("%s: %s", cmd, clip(o.Out))
		}
		return o
	}
	p := run("print", nil)
	st := run("statistics", nil)
	b := run("balance", func(c *Case) { c.Zero = true })
	if err != nil {
		return r, err
	}
	r.print = p.Out
	ref := refParse(one(p.Out), mainFile)
	if ref.Err != nil || ref.Odd != "" {
		return r, Fail("the output of print is not a journal (%v %s):\n%s", ref.Err, ref.Odd, clip(p.Out))
	}
	r.txns = ref.Txns
	r.n, r.accounts, r.payees = len(ref.Txns), len(accountNames(ref.Txns)), len(payeeNames(ref.Txns))
	x.Step(r.n)
	x.State(p.Out)
	counts, _ := splitStats(st.Out)
	if got, want := noFiles(counts), noFiles(renderStats(ref.Txns)); got != want {
		return r, Fail("statistics\n%s--- are not those of print\n%s--- which says\n%s", got, want, clip(p.Out))
	}
	want := map[string]int64{}
	readable := true
	for _, q := range postsOf(ref.Txns) {
		parts := strings.Split(q.Acct, ":")
		for i := range parts {
			want[strings.Join(parts[:i+1], ":")] += q.Q
			// the tree shows where a name starts by spaces
			readable = readable && parts[i] != "" && parts[i][0] != ' '
		}
	}
	if readable {
		if r.bal, r.total, err = readBalance(b.Out); err != nil {
			return r, err
		}
	}
	if !readable {
		r.bal = want
	} else if fmt.Sprint(want) != fmt.Sprint(r.bal) || r.total != 0 {
		return r, Fail("balance is %v (total %d), but the amounts print shows add up to %v:\n%s", r.bal, r.total, want, clip(p.Out))
	}
	if len(c.Args) == 0 {
		a, y := run("accounts", nil), run("payees", nil)
		if err != nil {
			return r, err
		}
		if err := ExpectReport(a, linesOf(accountNames(ref.Txns)), "accounts against print"); err != nil {
			return r, err
		}
		if err := ExpectReport(y, linesOf(payeeNames(ref.Txns)), "payees against print"); err != nil {
			return r, err
		}
	}
	return r, nil
}

// noFiles leaves out the list of files, which print does not show.
func noFiles(stats string) string {
	if i := strings.Index(stats, "First transaction:"); i >= 0 {
		return stats[i:]
	}
	return stats
}

func runC24(e *E) {
	askSame(e, "statistics", "accounts", "payees", "balance")
	entries := []string{
		"2020-02-28 * Shop  ; h\n  Expenses:Food  10\n  Assets:Bank\n", "2020-02-29 Job\n  Assets:Bank  20.50\n  Income:Job:Main\n", "2020-02-29 ! Shop\n  Assets:Bank  -5 ; n\n  Assets  5",
		"2020-03-01 Cafe\n  Expenses:Food:Out  0.01\n  Expenses:Food  -0.01", "2020-03-01 Café shop\n  A  7\n  A:b  -3\n  A:b:c  -4\n", "2020-03-02 Zero\n  Z  0\n  Y:Z  0\n", "2020-02-28 Job\n  B\n  A:b  -1\n",
		"2020-03-02\n  Assets:Bank  1\n  Assets:Bank  2\n  Assets:Bank\n", "~ 2020-02\n  Food  1\n", "include inc\n",
	}
	inc := "2020-03-01 Included\n  I:J  3\n  Assets:Bank\n\n2020-02-28 Shop\n  I  2\n  A\n"
	days := []string{"", "2020-02-28", "2020-02-29", "2020-03-01", "2020-03-02", "2020-03-03"}
	filters := [][]string{nil, {"@shop"}, {"@^job$", "@caf"}}
	explore := func(name string, text string) {
		files := map[string]string{mainFile: text, "inc": inc}
		if !strings.Contains(text, "include") {
			files = one(text)
		}
		for fi, args := range filters {
			if !e.Mine() {
				e.Pass()
				continue
			}
			e.Do(func(x *X) error {
				x.Key("%s filter %d", name, fi)
				x.Sample(jsonString(files))
				got := map[[2]int]reports{}
				for b := range days {
					for n := range days {
						if b > 0 && n > 0 && n < b {
							continue
						}
						r, err := gather(x, Case{Files: files, Begin: days[b], End: days[n], Args: args})
						if err != nil {
							return Fail("%q to %q: %w", days[b], days[n], err)
						}
						got[[2]int{b, n}] = r
					}
				}
				for b := range days {
					for n := range days {
						whole, ok := got[[2]int{b, n}]
						if !ok {
							continue
						}
						for m := 1; m < len(days); m++ {
							l, ok1 := got[[2]int{b, m}]
							r, ok2 := got[[2]int{m, n}]
							if !ok1 || !ok2 {
								continue
							}
							what := fmt.Sprintf("%q to %q split at %s", days[b], days[n], days[m])
							if whole.print != l.print+r.print {
								return Fail("%s: print\n%s--- is not\n%s--- and\n%s", what, clip(whole.print), clip(l.print), clip(r.print))
							}
							if whole.n != l.n+r.n {
								return Fail("%s: %d transactions are not %d and %d", what, whole.n, l.n, r.n)
							}
							sum := map[string]int64{}
							for p, q := range l.bal {
								sum[p] += q
							}
							for p, q := range r.bal {
								sum[p] += q
							}
							if fmt.Sprint(sum) != fmt.Sprint(whole.bal) {
								return Fail("%s: balance %v is not %v and %v", what, whole.bal, l.bal, r.bal)
							}
							x.Step(1)
						}
					}
				}
				return nil
			})
		}
	}
	hi := 3
	if e.Thorough {
		hi = 4
	}
	e.Part("sequences of 10 entries")
	seqs(len(entries), 0, hi, func(ix []int) {
		var l []string
		for _, i := range ix {
			l = append(l, entries[i])
		}
		explore(fmt.Sprint(ix), strings.Join(l, "\n"))
	})
	e.Part("longer sequences of 3")
	lo, top := 4, 5
	if e.Thorough {
		top = 7
	}
	three := []string{entries[1], entries[4], "2020-02-28 Shop\n  A:b  2\n  Assets:Bank\n"}
	seqs(3, lo, top, func(ix []int) {
		var l []string
		for _, i := range ix {
			l = append(l, three[i])
		}
		explore("of three "+fmt.Sprint(ix), strings.Join(l, "\n"))
	})
	more := append(append([]string(nil), crossEntries...), "2024-01-31 next year\n  New:Account  £9\n  Assets:Bank\n")
	e.Part("current with a range")
	seqs(len(more), 1, 2, func(ix []int) {
		if !e.Mine() {
			e.Pass()
			return
		}
		var b strings.Builder
		for _, i := range ix {
			b.WriteString(more[i] + "\n")
		}
		files := one(b.String())
		e.Do(func(x *X) error {
			x.Key("current %v", ix)
			for _, begin := range []string{"", "2020-01-05", "2023-06-16", "2030-01-01"} {
				for _, end := range []string{"", "2020-01-06", "2023-06-15", "2024-01-01", "2025-01-01"} {
					for _, args := range filters {
						c := Case{Files: files, Begin: begin, End: end, Current: true, Args: args}
						if _, err := gather(x, c); err != nil {
							return Fail("current, %q to %q %q: %w", begin, end, args, err)
						}
					}
				}
			}
			return nil
		})
	})
	features(e, [4]string{"a", "a:b", "c", "rest"}, func(x *X, turn int, files map[string]string) error {
		c := Case{Files: files}
		if turn%4 == 1 {
			c.Args = [][]string{{"@pay"}, {"@^$"}, {"@nosuch", "@P"}}[turn/4%3]
		}
		_, err := gather(x, c)
		return err
	})
	agreePairs(e)
	sizePart(e, 1100, nil, func(x *X, files map[string]string) error {
		whole, err := gather(x, Case{Files: files})
		if err != nil {
			return err
		}
		for _, day := range []string{"2020-01-05", "2019-03-01"} {
			l, err := gather(x, Case{Files: files, End: day})
			if err != nil {
				return err
			}
			r, err := gather(x, Case{Files: files, Begin: day})
			if err != nil {
				return err
			}
			if whole.print != l.print+r.print {
				return Fail("print\n%s--- is not\n%s--- and\n%s", clip(whole.print), clip(l.print), clip(r.print))
			}
		}
		return nil
	})
	countPart(e, func(x *X, turn int, files map[string]string) error {
		wholes := [][]string{nil, {"@pay"}, {"@pay", "@other"}, {"=hn"}, {"@pay", "=hn"}, {"@^$", "@nosuch", "@p"}, {"@nosuch"}, {"=hn", "@oth", "@z"}}
		for i, args := range wholes {
			if i == 0 || i%2 == turn%2 {
				if _, err := gather(x, Case{Files: files, Args: args}); err != nil {
					return Fail("%q: %w", args, err)
				}
			}
		}
		return nil
	})
	calendarPart(e, func(x *X, c Case) error {
		_, err := gather(x, c)
		return err
	})
	clockPart(e, func(x *X, files map[string]string, now int64) error {
		_, err := gather(x, Case{Files: files, Now: now})
		return err
	})
	sisters := func(x *X, files map[string]string) error {
		_, err := gather(x, Case{Files: files})
		return err
	}
	familyPart(e, func(s string, i int) string {
		return fmt.Sprintf("2020-01-%02d p%s\n  A:%s  £%d\n  A:%s:%s  £1\n  Z\n", i%28+1, s, s, i+1, s, s)
	}, sisters)
	// filters that take a transaction as a whole
	argumentLists(e, []string{"@", "@shop", "@Shop", "=^other n$", "@nosuch", "@^$"}, 4, func(x *X, files map[string]string, args []string) error {
		_, err := gather(x, Case{Files: files, Args: args})
		return err
	})
}
