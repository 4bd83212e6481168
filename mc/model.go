package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// ---------------------------------------------------------------- the reference model's values

// Post is a posting of the model.
type Post struct {
	Acct   string
	Comm   string
	Q      int64
	Elided bool // the amount was not written (Q and Comm are then inferred)
	Notes  []string
}

// Txn is a transaction (or, if Period is set, a budget entry) of the model.
type Txn struct {
	Date   string // YYYY-MM-DD
	State  byte   // ' ', '!' or '*'
	Payee  string
	HNote  string
	Notes  []string
	Posts  []Post
	File   string
	Period bool
	Month  string // YYYY-MM
}

// Rejected is the verdict that a journal is in error.
type Rejected struct {
	File  string
	From  int // first line of the faulty entry
	To    int // line that ends it
	Chain []Loc
	Why   string
}

// Loc is a line of a file.
type Loc struct {
	File string
	Line int
}

// ---------------------------------------------------------------- calendar

func isLeap(y int) bool { return y%4 == 0 && (y%100 != 0 || y%400 == 0) }

func monthDays(y, m int) int {
	switch m {
	case 2:
		if isLeap(y) {
			return 29
		}
		return 28
	case 4, 6, 9, 11:
		return 30
	}
	return 31
}

// dayNumber counts days since 1970-01-01.
func dayNumber(y, m, d int) int {
	if m <= 2 {
		y--
	}
	era := y / 400
	if y < 0 {
		era = (y - 399) / 400
	}
	yoe := y - era*400
	mp := (m + 9) % 12
	doy := (153*mp+2)/5 + d - 1
	doe := yoe*365 + yoe/4 - yoe/100 + doy
	return era*146097 + doe - 719468
}

func dateOf(n int) (y, m, d int) {
	n += 719468
	era := n / 146097
	if n < 0 {
		era = (n - 146096) / 146097
	}
	doe := n - era*146097
	yoe := (doe - doe/1460 + doe/36524 - doe/146096) / 365
	y = yoe + era*400
	doy := doe - (365*yoe + yoe/4 - yoe/100)
	mp := (5*doy + 2) / 153
	d = doy - (153*mp+2)/5 + 1
	m = mp + 3
	if m > 12 {
		m -= 12
	}
	if m <= 2 {
		y++
	}
	return
}

func ymd(y, m, d int) string { return fmt.Sprintf("%04d-%02d-%02d", y, m, d) }

func dayStr(n int) string { y, m, d := dateOf(n); return ymd(y, m, d) }

// strDay converts a canonical date.
func strDay(s string) int {
	y, _ := strconv.Atoi(s[:4])
	m, _ := strconv.Atoi(s[5:7])
	d, _ := strconv.Atoi(s[8:10])
	return dayNumber(y, m, d)
}

func digits(s string) bool {
	if s == "" {
		return false
	}
	for _, c := range []byte(s) {
		if c < '0' || c > '9' {
			return false
		}
	}
	return true
}

// validDate is the date grammar of transactions: YYYY-MM-DD with '-', '.' or '/', one separator.
func validDate(s string) (string, bool) {
	if len(s) != 10 || s[4] != s[7] || !strings.ContainsRune("-./", rune(s[4])) {
		return "", false
	}
	if !digits(s[:4]) || !digits(s[5:7]) || !digits(s[8:]) {
		return "", false
	}
	y, _ := strconv.Atoi(s[:4])
	m, _ := strconv.Atoi(s[5:7])
	d, _ := strconv.Atoi(s[8:])
	if m < 1 || m > 12 || d < 1 || d > monthDays(y, m) {
		return "", false
	}
	return ymd(y, m, d), true
}

// ---------------------------------------------------------------- amounts

// fmtQ displays hundredths.
func fmtQ(q int64) string {
	neg := q < 0
	s := strconv.FormatInt(q, 10)
	if neg {
		s = s[1:]
	}
	for len(s) < 3 {
		s = "0" + s
	}
	s = s[:len(s)-2] + "." + s[len(s)-2:]
	if neg {
		s = "-" + s
	}
	return s
}

func padLeft(s string, n int) string {
	for k := len([]rune(s)); k < n; k++ {
		s = " " + s
	}
	return s
}

func padRight(s string, n int) string {
	for k := len([]rune(s)); k < n; k++ {
		s += " "
	}
	return s
}

// parseQ is the amount grammar: [+-]digits[.d[d]], in hundredths, within int64.
func parseQ(s string) (int64, bool) {
	neg := false
	if s != "" && (s[0] == '+' || s[0] == '-') {
		neg = s[0] == '-'
		s = s[1:]
	}
	whole, dec := s, ""
	if i := strings.IndexByte(s, '.'); i >= 0 {
		whole, dec = s[:i], s[i+1:]
		if len(dec) < 1 || len(dec) > 2 || !digits(dec) {
			return 0, false
		}
	}
	if !digits(whole) {
		return 0, false
	}
	for len(dec) < 2 {
		dec += "0"
	}
	all := strings.TrimLeft(whole+dec, "0")
	if all == "" {
		return 0, true
	}
	const max = "9223372036854775807"
	if len(all) > len(max) || len(all) == len(max) && all > max {
		return 0, false
	}
	q, err := strconv.ParseInt(all, 10, 64)
	if err != nil {
		return 0, false
	}
	if neg {
		q = -q
	}
	return q, true
}

// ---------------------------------------------------------------- reports

func (p Post) String() string {
	s := p.Acct + "    " + p.Comm + fmtQ(p.Q)
	for _, n := range p.Notes {
		s += "\n      ; " + n
	}
	return s
}

func (t Txn) String() string {
	s := t.Date + " " + string(t.State) + " " + t.Payee
	if t.HNote != "" {
		s += "    ; " + t.HNote
	}
	for _, n := range t.Notes {
		s += "\n    ; " + n
	}
	for _, p := range t.Posts {
		s += "\n    " + p.String()
	}
	return s + "\n"
}

func byDate(ts []Txn) []Txn {
	// one list per date: stable by construction
	dates, on := map[string]bool{}, map[string][]Txn{}
	for _, t := range ts {
		dates[t.Date] = true
		on[t.Date] = append(on[t.Date], t)
	}
	var out []Txn
	for _, d := range uniqSorted(dates) {
		out = append(out, on[d]...)
	}
	return out
}

func normalOf(ts []Txn) []Txn {
	var out []Txn
	for _, t := range ts {
		if !t.Period {
			out = append(out, t)
		}
	}
	return out
}

// renderPrint is what print shows for the transactions, in journal order.
func renderPrint(ts []Txn) string {
	var b strings.Builder
	for _, t := range byDate(normalOf(ts)) {
		b.WriteString(t.String())
		b.WriteString("\n")
	}
	return b.String()
}

func uniqSorted(m map[string]bool) []string {
	var l []string
	for s := range m {
		l = append(l, s)
	}
	sort.Strings(l)
	return l
}

func linesOf(l []string) string {
	if len(l) == 0 {
		return ""
	}
	return strings.Join(l, "\n") + "\n"
}

func accountNames(ts []Txn) []string {
	m := map[string]bool{}
	for _, t := range normalOf(ts) {
		for _, p := range t.Posts {
			m[p.Acct] = true
		}
	}
	return uniqSorted(m)
}

func payeeNames(ts []Txn) []string {
	m := map[string]bool{}
	for _, t := range normalOf(ts) {
		m[t.Payee] = true
	}
	return uniqSorted(m)
}

// node of the reference account tree
type node struct {
	name, path string
	q          int64
	comm       string
	kids       map[string]*node
}

func newNode(name, path string) *node { return &node{name: name, path: path, kids: map[string]*node{}} }

func (n *node) names() []string {
	var l []string
	for k := range n.kids {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// buildTree sums postings over the tree of accounts: by definition, not incrementally; an account's
// amount is the sum over all postings whose path is its own or starts with it and a colon.
func buildTree(posts []Post) *node {
	root := newNode("", "")
	comm := ""
	for _, p := range posts {
		if comm == "" {
			comm = p.Comm
		}
	}
	for _, p := range posts {
		cur := root
		path := ""
		for i, c := range strings.Split(p.Acct, ":") {
			if i == 0 {
				path = c
			} else {
				path += ":" + c
			}
			k := cur.kids[c]
			if k == nil {
				k = newNode(c, path)
				k.comm = comm
				cur.kids[c] = k
			}
			cur = k
		}
	}
	var fill func(n *node)
	fill = func(n *node) {
		n.q = 0
		for _, p := range posts {
			if n.path == "" || p.Acct == n.path || strings.HasPrefix(p.Acct, n.path+":") {
				n.q += p.Q
			}
		}
		for _, k := range n.kids {
			fill(k)
		}
	}
	fill(root)
	return root
}

// shown tells whether an account is listed without --show-zero.
func (n *node) shown() bool {
	if n.q != 0 {
		return true
	}
	for _, k := range n.kids {
		if k.shown() {
			return true
		}
	}
	return false
}

func (n *node) hideZero() {
	for name, k := range n.kids {
		if !k.shown() {
			delete(n.kids, name)
		} else {
			k.hideZero()
		}
	}
}

const balRule = "--------------------\n"

func (n *node) line(depth int, name string) string {
	return padLeft(n.comm+fmtQ(n.q), 20) + "  " + strings.Repeat("  ", depth) + name
}

// renderBalance is the balance report over postings.
func renderBalance(posts []Post, flat, coll, zero bool) string {
	root := buildTree(posts)
	if !zero {
		root.hideZero()
	}
	var lines []string
	switch {
	case flat:
		var walk func(n *node)
		walk = func(n *node) {
			for _, name := range n.names() {
				k := n.kids[name]
				if len(k.kids) == 0 {
					lines = append(lines, k.line(0, k.path))
				} else {
					walk(k)
				}
			}
		}
		walk(root)
	default:
		var walk func(n *node, depth int)
		walk = func(n *node, depth int) {
			for _, name := range n.names() {
				k := n.kids[name]
				label := k.name
				for coll && len(k.kids) == 1 {
					k = k.kids[k.names()[0]]
					label += ":" + k.name
				}
				lines = append(lines, k.line(depth, label))
				walk(k, depth+1)
			}
		}
		walk(root, 0)
	}
	return strings.Join(lines, "\n") + "\n" + balRule + padLeft(fmtQ(root.q), 20) + "\n"
}

func postsOf(ts []Txn) []Post {
	var out []Post
	for _, t := range normalOf(ts) {
		out = append(out, t.Posts...)
	}
	return out
}

// ---------------------------------------------------------------- statistics

type statsModel struct {
	Files           []string
	First, Last     int
	N               int
	Accounts        int
	Payees          int
	Age             string // "" leaves the line unchecked
	posts           []Post
	incomeByDay     map[int]int64
	expenseByDay    map[int]int64
	ageUnspecified  bool
	distinctPayees  map[string]bool
	distinctAccount map[string]bool
}

const noStats = "No transactions matched arguments.\n"

// renderStats gives the report with the humanised ages of the two dates left out.
func renderStats(ts []Txn) string {
	ts = normalOf(ts)
	if len(ts) == 0 {
		return noStats
	}
	files, accts, pays := map[string]bool{}, map[string]bool{}, map[string]bool{}
	first, last := strDay(ts[0].Date), strDay(ts[0].Date)
	for _, t := range ts {
		files[t.File] = true
		pays[t.Payee] = true
		for _, p := range t.Posts {
			accts[p.Acct] = true
		}
		d := strDay(t.Date)
		if d < first {
			first = d
		}
		if d > last {
			last = d
		}
	}
	var b strings.Builder
	fmt.Fprintf(&b, "Transactions found in %d files:\n", len(files))
	for _, f := range uniqSorted(files) {
		fmt.Fprintf(&b, "  %s\n", f)
	}
	fmt.Fprintf(&b, "First transaction:\t%s\n", dayStr(first))
	fmt.Fprintf(&b, "Last transaction:\t%s\n", dayStr(last))
	days := last - first
	fmt.Fprintf(&b, "Time period:\t\t%d days\n", days)
	per := days
	if per == 0 {
		per = 1
	}
	fmt.Fprintf(&b, "Transactions:\t\t%d (%s per day)\n", len(ts), tenths(len(ts), per))
	fmt.Fprintf(&b, "Unique accounts:\t%d\n", len(accts))
	fmt.Fprintf(&b, "Unique payees:\t\t%d\n", len(pays))
	return b.String()
}

// tenths is a/b to one decimal place; a tie may be shown either way, which ratesEqual allows for.
func tenths(a, b int) string {
	// round(10a/b), the float nearest the quotient decides ties as printf does
	return strconv.FormatFloat(float64(a)/float64(b), 'f', 1, 64)
}

// splitStats separates the age of money line and strips the humanised dates.
func splitStats(out string) (rest, age string) {
	if out == noStats {
		return out, ""
	}
	var b strings.Builder
	for _, l := range strings.SplitAfter(out, "\n") {
		switch {
		case strings.HasPrefix(l, "First transaction:\t"), strings.HasPrefix(l, "Last transaction:\t"):
			if i := strings.Index(l, " ("); i >= 0 && strings.HasSuffix(l, ")\n") {
				l = l[:i] + "\n"
			}
			b.WriteString(l)
		case strings.HasPrefix(l, "Age of money:\t\t"):
			age = strings.TrimSuffix(strings.TrimPrefix(l, "Age of money:\t\t"), "\n")
		default:
			b.WriteString(l)
		}
	}
	return b.String(), age
}

// ExpectStats compares a statistics report with the expected transactions.
func ExpectStats(o Obs, ts []Txn, what string) error {
	if c := o.Crashed(); c != "" {
		return Fail("%s: %s", what, c)
	}
	got, age := splitStats(o.Out)
	want := renderStats(ts)
	if got != want {
		return Fail("%s:\n--- expected\n%s--- got\n%s", what, want, clip(o.Out))
	}
	if want != noStats {
		n, ok := strings.CutSuffix(age, " days")
		if !ok || !digits(n) {
			return Fail("%s: malformed age of money %q", what, age)
		}
	}
	return nil
}

// ageOfMoney gives the admissible reports of the age of money (two when the average is a tie),
// and whether the property specifies it.
func ageOfMoney(ts []Txn) (want []string, specified bool) {
	inc, exp := map[int]int64{}, map[int]int64{}
	for _, t := range normalOf(ts) {
		for _, p := range t.Posts {
			switch strings.Split(p.Acct, ":")[0] {
			case "Income":
				inc[strDay(t.Date)] -= p.Q
			case "Expenses":
				exp[strDay(t.Date)] += p.Q
			}
		}
	}
	type lot struct {
		day int
		q   int64
	}
	order := func(m map[int]int64) []lot {
		var l []lot
		for d, q := range m {
			l = append(l, lot{d, q})
		}
		sort.Slice(l, func(i, j int) bool { return l[i].day < l[j].day })
		return l
	}
	in, out := order(inc), order(exp)
	for _, l := range append(append([]lot(nil), in...), out...) {
		if l.q <= 0 {
			return nil, false
		}
	}
	var ages []int
	i := 0
	for _, e := range out {
		for e.q > 0 {
			for i < len(in) && in[i].q == 0 {
				i++
			}
			if i == len(in) || in[i].day > e.day {
				return nil, false // spending that is not covered
			}
			take := e.q
			if in[i].q < take {
				take = in[i].q
			}
			in[i].q -= take
			e.q -= take
			ages = append(ages, e.day-in[i].day)
		}
	}
	if len(ages) > 10 {
		ages = ages[len(ages)-10:]
	}
	if len(ages) == 0 {
		return []string{"0 days"}, true
	}
	sum := 0
	for _, a := range ages {
		sum += a
	}
	n := len(ages)
	lo := sum / n
	switch twice := 2 * (sum - lo*n); {
	case twice < n:
		want = []string{fmt.Sprintf("%d days", lo)}
	case twice > n:
		want = []string{fmt.Sprintf("%d days", lo+1)}
	default:
		want = []string{fmt.Sprintf("%d days", lo), fmt.Sprintf("%d days", lo+1)}
	}
	return want, true
}

// ---------------------------------------------------------------- budget

// renderBudget is the budget report over normal transactions and budget entries.
func renderBudget(ts []Txn) string {
	type month struct {
		income         int64
		comm           string
		budget, spent  map[string]int64
		cats           map[string]bool
		fundsCommodity string
	}
	months := map[string]*month{}
	get := func(k string) *month {
		if months[k] == nil {
			months[k] = &month{budget: map[string]int64{}, spent: map[string]int64{}, cats: map[string]bool{}}
		}
		return months[k]
	}
	for _, t := range ts {
		for _, p := range t.Posts {
			parts := strings.Split(p.Acct, ":")
			if t.Period {
				m := get(t.Month)
				if p.Acct == "_budget_root_" {
					continue
				}
				m.budget[parts[0]] += p.Q
				m.cats[parts[0]] = true
				m.comm = p.Comm
				continue
			}
			switch parts[0] {
			case "Expenses":
				m := get(t.Date[:7])
				if len(parts) > 1 {
					m.spent[parts[1]] += p.Q
					m.cats[parts[1]] = true
				}
				m.comm = p.Comm
			case "Income":
				m := get(t.Date[:7])
				m.income -= p.Q
				if m.fundsCommodity == "" {
					m.fundsCommodity = p.Comm
				}
			}
		}
	}
	var keys []string
	for k := range months {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var b strings.Builder
	for _, k := range keys {
		m := months[k]
		fmt.Fprintf(&b, "%s-01 00:00:00 +0000 UTC\n\n", k)
		row := func(name, v string) { b.WriteString(padLeft(name, 30) + " | " + padLeft(v, 20) + "\n") }
		row("Funds", m.fundsCommodity+fmtQ(m.income))
		row("Overspent in 2020-??", "£??.??")
		row("Budgeted", "£??.??")
		row("Budgeted in the future", "£??.??")
		b.WriteString(strings.Repeat("-", 53) + "\n")
		row("To be budgeted", "£??.??")
		b.WriteString("\n\n")
		b.WriteString(padRight("Category", 30) + " | " + padRight("Budgeted", 20) + " | " + padRight("Activity", 20) + " | " + padRight("Available", 20) + " |\n")
		b.WriteString(strings.Repeat("-", 50) + strings.Repeat("-", 51) + "\n")
		for _, c := range uniqSorted(m.cats) {
			b.WriteString(padRight(c, 30) + " | " + padLeft(fmtQ(m.budget[c]), 20) + " | " + padLeft(fmtQ(-m.spent[c]), 20) + " | " + padLeft(m.comm+fmtQ(m.budget[c]-m.spent[c]), 20) + " |\n")
		}
		b.WriteString("\n")
	}
	return b.String()
}
