package main

import (
	"archive/zip"
	"fmt"
	"os"
	"sort"
	"strings"
	"time"
)

func init() {
	register(&Space{
		ID:   "C10",
		Rule: "every pair of bounds and every transaction date of windows of days, in each time zone, at each hour of the clock, for each command: the report must equal the reference report over the transactions whose calendar dates are in range",
		Bound: map[string]string{
			"surroundings of a run": sameAsksBound,
			"any clock":             clocksBound,
			"pairs of flags":        flagPairsBound,
			"sizes of parts":        sizesBound,
			"calendar":              calendarBound,
			"vocabulary":            vocabBound,
			"combinations":          "every sequence of up to 2 (thorough: 3) of 12 entries, in one file or two, with each of 7 date ranges, 11 lists of filters and the layouts",
			"windows":               "7 windows of 9 days (year ends, leap days, days whose midnight does not exist or exists twice), all (begin,end) pairs incl. none",
			"zones":                 "14 zones (quick) / every zone of the tz database (thorough)",
			"clock":                 "every hour, and the seconds around local midnight, of the days of each window for --current",
		},
		Run: runC10,
	})
}

var c10Cmds = []string{"print", "balance", "accounts", "payees", "statistics", "budget"}

// dayJournal has one transaction on each of the days, not in order.
func dayJournal(first, n int) (string, []Txn) {
	var b strings.Builder
	var ts []Txn
	for k := 0; k < n; k++ {
		d := first + (k*5+2)%n
		t := Txn{Date: dayStr(d), State: ' ', Payee: fmt.Sprintf("p%d", k), File: mainFile, Posts: []Post{
			{Acct: fmt.Sprintf("Expenses:c%d", k), Comm: "£", Q: int64(100 << uint(k))}, {Acct: "Income", Comm: "£", Q: -int64(100 << uint(k))}}}
		fmt.Fprintf(&b, "%s %s\n  %s  £%s\n  Income\n", t.Date, t.Payee, t.Posts[0].Acct, fmtQ(t.Posts[0].Q))
		ts = append(ts, t)
	}
	return b.String(), ts
}

func inRange(ts []Txn, lo, hi int) []Txn {
	var out []Txn
	for _, t := range ts {
		if d := strDay(t.Date); d >= lo && d < hi {
			out = append(out, t)
		}
	}
	return out
}

func expectCmd(o Obs, cmd string, ts []Txn, what string) error {
	switch cmd {
	case "print":
		return ExpectReport(o, renderPrint(ts), what)
	case "balance":
		return ExpectReport(o, renderBalance(postsOf(ts), false, false, false), what)
	case "accounts":
		return ExpectReport(o, linesOf(accountNames(ts)), what)
	case "payees":
		return ExpectReport(o, linesOf(payeeNames(ts)), what)
	case "statistics":
		return ExpectStats(o, ts, what)
	case "budget":
		return ExpectReport(o, renderBudget(ts), what)
	}
	return Fail("unknown command %s", cmd)
}

var c10Zones = []string{"UTC", "America/New_York", "Pacific/Kiritimati", "Pacific/Pago_Pago", "Asia/Kolkata", "America/Sao_Paulo", "Africa/Cairo", "Asia/Beirut", "Australia/Lord_Howe", "America/Havana", "Asia/Kathmandu", "Europe/London", "Asia/Tehran", "Etc/GMT+12"}

func allZones() []string {
	r, err := zip.OpenReader(os.Getenv("ZONEINFO"))
	must(err)
	defer r.Close()
	var l []string
	for _, f := range r.File {
		if !strings.HasSuffix(f.Name, "/") {
			l = append(l, f.Name)
		}
	}
	sort.Strings(l)
	return l
}

func runC10(e *E) {
	askSame(e, "accounts", "payees", "print", "statistics", "balance", "budget")
	zs := c10Zones
	if e.Thorough {
		zs = allZones()
	}
	windows := []int{
		dayNumber(2019, 12, 28), dayNumber(2020, 2, 25), dayNumber(2018, 11, 1), // Sao Paulo skips a midnight
		dayNumber(2018, 2, 14), dayNumber(2021, 3, 25), dayNumber(1900, 2, 25), dayNumber(2023, 6, 11),
	}
	const n = 9
	e.Part("begin and end")
	for zi, z := range zs {
		for wi, w := range windows {
			text, ts := dayJournal(w+1, n-2)
			for b := -1; b < n; b++ {
				for en := -1; en < n; en++ {
					for ci, cmd := range c10Cmds {
						if e.Thorough && zi > 20 && (b+en+ci)%5 != 0 {
							continue
						}
						if !e.Mine() {
							e.Pass()
							continue
						}
						e.Do(func(x *X) error {
							lo, hi := -1<<30, 1<<30
							c := Case{Cmd: cmd, Files: one(text), TZ: z}
							if b >= 0 {
								lo = w + b
								c.Begin = dayStr(lo)
							}
							if en >= 0 {
								hi = w + en
								c.End = dayStr(hi)
							}
							x.Key("zone %s window %d begin %q end %q %s", z, wi, c.Begin, c.End, cmd)
							want := inRange(ts, lo, hi)
							x.Step(len(ts))
							x.State(wi, b, en, len(want))
							o := x.Run(c)
							x.Outcome(o.Out)
							return expectCmd(o, cmd, want, x.key)
						})
					}
				}
			}
		}
	}
	e.Part("current")
	for zi, z := range zs {
		loc := zone(z)
		for wi, w := range windows {
			if e.Thorough && zi > 20 && wi > 2 {
				continue
			}
			text, ts := dayJournal(w, n)
			var nows []int64
			for h := -14; h < (n+1)*24; h++ {
				nows = append(nows, int64(w)*86400+int64(h)*3600)
			}
			// the seconds around each local midnight
			for d := 0; d <= n; d++ {
				y, m, dd := dateOf(w + d)
				mid := time.Date(y, time.Month(m), dd, 0, 0, 0, 0, loc).Unix()
				nows = append(nows, mid-1, mid, mid+1, mid+1800)
			}
			for ni, now := range nows {
				cmds := c10Cmds[ni%len(c10Cmds) : ni%len(c10Cmds)+1]
				if ni%7 == 0 || ni >= len(nows)-4*(n+1) && zi < 14 {
					cmds = c10Cmds
				}
				for _, cmd := range cmds {
					if !e.Mine() {
						e.Pass()
						continue
					}
					e.Do(func(x *X) error {
						t := time.Unix(now, 0).In(loc)
						today := dayNumber(t.Year(), int(t.Month()), t.Day())
						c := Case{Cmd: cmd, Files: one(text), TZ: z, Now: now, Current: true}
						switch ni % 4 { // --current overrides the others
						case 1:
							c.Begin = dayStr(w + 2)
						case 2:
							c.End = dayStr(w + 2)
						case 3:
							c.Begin, c.End = dayStr(w+3), dayStr(w+5)
						}
						x.Key("zone %s now %d (%s) %s --current begin %q end %q", z, now, t.Format(time.RFC3339), cmd, c.Begin, c.End)
						want := inRange(ts, -1<<30, today+1)
						x.Step(len(ts))
						x.State("current", wi, today-w, len(want))
						o := x.Run(c)
						x.Outcome(o.Out)
						return expectCmd(o, cmd, want, x.key)
					})
				}
			}
		}
	}
	e.Part("bounds far away")
	text, ts := "", []Txn{}
	for _, d := range []string{"0000-01-01", "0000-12-31", "0001-01-01", "0001-01-02", "1582-10-10", "1970-01-01", "2262-04-12", "9999-12-31"} {
		text += d + " p" + d + "\n  Expenses:a  £1\n  Income\n"
		ts = append(ts, Txn{Date: d, State: ' ', Payee: "p" + d, File: mainFile, Posts: []Post{{Acct: "Expenses:a", Comm: "£", Q: 100}, {Acct: "Income", Comm: "£", Q: -100}}})
	}
	for _, z := range zs {
		for _, b := range append([]Txn{{}}, ts...) {
			for _, en := range append([]Txn{{}}, ts...) {
				for _, cmd := range c10Cmds {
					if !e.Mine() {
						e.Pass()
						continue
					}
					e.Do(func(x *X) error {
						lo, hi := -1<<30, 1<<30
						if b.Date != "" {
							lo = strDay(b.Date)
						}
						if en.Date != "" {
							hi = strDay(en.Date)
						}
						x.Key("zone %s begin %q end %q %s", z, b.Date, en.Date, cmd)
						o := x.Run(Case{Cmd: cmd, Files: one(text), TZ: z, Begin: b.Date, End: en.Date})
						x.Outcome(o.Out)
						x.State("far", b.Date, en.Date)
						return expectCmd(o, cmd, inRange(ts, lo, hi), x.key)
					})
				}
			}
		}
	}
	crossPart(e, []string{"print", "balance", "accounts", "payees", "statistics", "budget"}, nil)
	datePairs(e, allCommands)
	flagPairs(e, allCommands)
	clockPart(e, clockCases(allCommands...))
	calendarPart(e, calendarCases(allCommands...))
	sizeCommands(e, 1100, []Case{
		{Cmd: "print", Begin: "2020-01-10", End: "2020-02-01"}, {Cmd: "balance", Begin: "2019-06-01"}, {Cmd: "statistics", End: "2020-01-09"}, {Cmd: "accounts", Begin: "2020-01-10"}, {Cmd: "payees", End: "2020-01-10"}, {Cmd: "budget", Begin: "2019-02-15", End: "2021-03-01"}, {Cmd: "statistics", Current: true},
	}, "transactions", "files", "years", "days", "months", "accounts")
}
