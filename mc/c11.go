package main

import (
	"fmt"
	"strconv"
	"strings"
	"time"
)

func init() {
	register(&Space{
		ID:   "C11",
		Rule: "every product of date components and separators, and every short string over a date alphabet, as --begin and as --end: the reference grammar's date decides which of the transactions around it are listed, and everything else must be an error",
		Bound: map[string]string{
			"surroundings of a run": sameAsksBound,
			"pairs of flags":        flagPairsBound,
			"components":            "years x separators x months 0..13 (1 and 2 digits) x days 0..32 x suffixes",
			"words":                 dateWordsBound,
			"strings":               "9 characters, length 1..4 (quick) / 6 (thorough)",
			"clock":                 "the current year is leap and not, and at the turn of the year in zones on either side",
		},
		Run: runC11,
	})
}

const dateWordsBound = "every sequence of up to two out of 92 words and numbers that mean something in the date expressions of other tools, joined by nothing, a space or one of five separators, in several cases"

var dateWords = strings.Fields("today yesterday tomorrow now this last next day days week month months quarter year years ago in since until from to begin end start current latest jan january feb february mar april may june jul august sep september oct nov dec december mon monday tue wednesday thu fri saturday sun sunday weekly monthly yearly Q1 q2 Q4 W01 w53 H1 T T10:00 10:00 12:00:00 Z UTC +01:00 +1d -1d -7 +1 0 1 2 4 12 31 2020 20200102 202001 01 06 1577836800 @0 ^ ~ * ? 1st 2nd 2020-01 2020-01-02 2020/02/29 01/02 2020-W10 2020-060")

// smartDate is the grammar of date flags.
func smartDate(s string, year int) (day int, ok bool) {
	for _, c := range []byte(s) {
		if (c < '0' || c > '9') && !strings.ContainsRune("/-.", rune(c)) {
			return 0, false
		}
	}
	sep := strings.IndexAny(s, "/-.")
	if sep < 0 {
		if len(s) != 4 {
			return 0, false
		}
		y, _ := strconv.Atoi(s)
		return dayNumber(y, 1, 1), true
	}
	parts := strings.Split(s, s[sep:sep+1])
	for _, p := range parts {
		if !digits(p) {
			return 0, false
		}
	}
	num := func(p string) int { n, _ := strconv.Atoi(p); return n }
	var y, m, d int
	switch {
	case len(parts) == 2 && len(parts[0]) == 4 && len(parts[1]) == 2:
		y, m, d = num(parts[0]), num(parts[1]), 1
	case len(parts) == 2 && len(parts[0]) == 2 && len(parts[1]) == 2:
		y, m, d = year, num(parts[0]), num(parts[1])
	case len(parts) == 3 && len(parts[0]) == 4 && len(parts[1]) == 2 && len(parts[2]) == 2:
		y, m, d = num(parts[0]), num(parts[1]), num(parts[2])
	default:
		return 0, false
	}
	if m < 1 || m > 12 || d < 1 || d > monthDays(y, m) {
		return 0, false
	}
	return dayNumber(y, m, d), true
}

func runC11(e *E) {
	askSame(e, "print", "payees")
	type clock struct {
		now int64
		tz  string
	}
	// the zone decides which year it is
	clocks := []clock{
		{0, ""},
		{int64(dayNumber(2024, 2, 29)) * 86400, "UTC"},
		{int64(dayNumber(2023, 12, 31))*86400 + 23*3600, "Pacific/Kiritimati"},
		{int64(dayNumber(2025, 1, 1)) * 86400, "America/New_York"},
	}
	check := func(s string, ci int) {
		if s == "" { // no flag
			return
		}
		if !e.Mine() {
			e.Pass()
			return
		}
		e.Do(func(x *X) error {
			k := clocks[ci]
			now := k.now
			if now == 0 {
				now = baseNow
			}
			year := time.Unix(now, 0).In(zone(k.tz)).Year()
			x.Key("date %q clock %d", s, ci)
			day, ok := smartDate(s, year)
			around := day
			if !ok {
				around = dayNumber(2020, 6, 15)
			}
			lo := dayNumber(0, 1, 1)
			text, ts := "", []Txn{}
			for _, d := range []int{around + 1, around - 1, around, around + 40, around - 400} {
				if d < lo || d > dayNumber(9999, 12, 31) {
					continue
				}
				t := Txn{Date: dayStr(d), State: ' ', Payee: dayStr(d)}
				text += t.Date + " " + t.Payee + "\n  A  1\n  B\n"
				ts = append(ts, t)
			}
			x.State(ok, day, year)
			x.Step(1)
			for _, begin := range []bool{true, false} {
				c := Case{Cmd: "payees", Files: one(text), TZ: k.tz, Now: now}
				want := inRange(ts, day, 1<<30)
				if begin {
					c.Begin = s
				} else {
					c.End = s
					want = inRange(ts, -1<<30, day)
				}
				o := x.Run(c)
				x.Outcome(o.Out)
				var err error
				if ok {
					err = ExpectReport(o, linesOf(payeeNames(want)), fmt.Sprintf("begin=%v date %q", begin, s))
				} else {
					err = ExpectReject(o, fmt.Sprintf("begin=%v date %q", begin, s))
				}
				if err != nil {
					return err
				}
				// it is the flag that is in error, whatever there is to compare it with
				for i, text := range []string{"", "~ 2020-01\n  F  1\n"} {
					c.Cmd, c.Files = []string{"accounts", "budget"}[i], one(text)
					if ok && i == 1 {
						continue
					}
					o := x.Run(c)
					what := fmt.Sprintf("%s of a journal without transactions, begin=%v date %q", c.Cmd, begin, s)
					if ok {
						err = ExpectReport(o, "", what)
					} else {
						err = ExpectReject(o, what)
					}
					if err != nil {
						return err
					}
				}
			}
			return nil
		})
	}
	e.Part("components")
	years := []string{"2020", "2019", "1900", "2000", "0001", "0000", "9999", "20", "020", "02020", "+020", "-020", ""}
	seps := []string{"/", "-", ".", "", " ", "//"}
	two := func(lo, hi int) []string {
		var l []string
		for i := lo; i <= hi; i++ {
			l = append(l, fmt.Sprintf("%02d", i))
			if i < 10 {
				l = append(l, fmt.Sprint(i))
			}
		}
		return append(l, "", "001", "1 ")
	}
	months, days := two(0, 13), two(0, 32)
	for _, y := range years {
		check(y, 0)
		for _, s1 := range seps {
			for _, m := range months {
				for ci := range clocks {
					check(y+s1+m, ci)
				}
				for _, s2 := range seps[:4] {
					if s2 != s1 && !e.Thorough && (len(y) != 4 || len(m) != 2) {
						continue
					}
					for _, d := range days {
						check(y+s1+m+s2+d, 0)
					}
				}
			}
		}
	}
	for _, m := range months {
		for _, s := range seps {
			for _, d := range days {
				for ci := range clocks {
					check(m+s+d, ci)
				}
			}
		}
	}
	e.Part("decorated")
	for _, base := range []string{"2020", "2020/06", "2020-06-22", "2020.06.22", "06/22", "02-29", "2020-02-29", "2019-02-29"} {
		for _, deco := range []string{" %s", "%s ", "%s/", "%s-", "%s.", "/%s", "-%s", ".%s", "+%s", "%sZ", "%s 00:00", "%sT00:00:00Z", "%s\n", "%s,5", "%s.5", "0%s", "%s0", "١%s"} {
			for ci := range clocks {
				check(fmt.Sprintf(deco, base), ci)
			}
		}
	}
	e.Part("words")
	joinedTokens(dateWords, 2, func(s string) {
		check(s, len(s)%4)
		if e.Thorough || len(s) < 6 {
			check(strings.ToUpper(s), 1)
			check(strings.Title(s), 2)
		}
	})
	for _, a := range dateWords {
		for _, sep := range []string{"-", "/", ".", ":", ","} {
			for _, b := range dateWords {
				check(a+sep+b, 0)
			}
		}
	}
	e.Part("every day")
	span := [][2]int{{2019, 2021}, {1899, 1900}}
	if e.Thorough {
		span = [][2]int{{1890, 2110}, {0, 4}}
	}
	for _, r := range span {
		for d := dayNumber(r[0], 1, 1); d <= dayNumber(r[1], 12, 31); d++ {
			for _, sep := range []string{"-", "/", "."} {
				check(strings.ReplaceAll(dayStr(d), "-", sep), 0)
			}
		}
	}
	e.Part("strings")
	hi := 4
	if e.Thorough {
		hi = 6
	}
	strs(strings.Split("01239/-.+", ""), 1, hi, func(s string) { check(s, 0) })
	strs(strings.Split("012/-.", ""), 5, 5, func(s string) { check(s, len(s)%2) })
	flagPairs(e, []string{"payees", "print", "budget"})
}
