package main

import (
	"fmt"
	"math/big"
	"path"
	"strconv"
	"strings"
)

const mainFile = "m.journal"

func one(content string) map[string]string { return map[string]string{mainFile: content} }

func oneCommodity(ts []Txn) bool {
	c, seen := "", false
	for _, t := range ts {
		for _, p := range t.Posts {
			if seen && p.Comm != c {
				return false
			}
			c, seen = p.Comm, true
		}
	}
	return true
}

func sumsFit(ts []Txn) bool {
	var pos, neg int64
	for _, t := range ts {
		for _, p := range t.Posts {
			if p.Q > 0 {
				if pos += p.Q; pos < 0 {
					return false
				}
			} else {
				if neg += p.Q; neg > 0 || p.Q == -1<<63 {
					return false
				}
			}
		}
	}
	return true
}

// bigSums are sums that may not fit 64 bits.
type bigSums map[string]*big.Int

func (b bigSums) add(key string, q int64) {
	if b[key] == nil {
		b[key] = new(big.Int)
	}
	b[key].Add(b[key], big.NewInt(q))
}

func (b bigSums) sub(key string, q int64) {
	b.add(key, 0)
	b[key].Sub(b[key], big.NewInt(q))
}

func (b bigSums) fit() bool {
	for _, s := range b {
		if !s.IsInt64() {
			return false
		}
	}
	return true
}

// balanceSums are the sums that a balance shows.
func balanceSums(posts []Post) bigSums {
	b := bigSums{}
	for _, p := range posts {
		b.add("", p.Q)
		for i, c := range p.Acct + ":" {
			if c == ':' {
				b.add(p.Acct[:i]+":", p.Q)
			}
		}
	}
	return b
}

// budgetSums are the sums that a budget shows.
func budgetSums(ts []Txn) bigSums {
	b := bigSums{}
	for _, t := range ts {
		for _, p := range t.Posts {
			parts := strings.Split(p.Acct, ":")
			switch {
			case t.Period && p.Acct != "_budget_root_":
				b.add(t.Month+" budgeted "+parts[0], p.Q)
				b.add(t.Month+" available "+parts[0], p.Q)
			case t.Period:
			case parts[0] == "Income":
				b.sub(t.Date[:7]+" funds", p.Q)
			case parts[0] == "Expenses" && len(parts) > 1:
				b.sub(t.Date[:7]+" activity "+parts[1], p.Q)
				b.sub(t.Date[:7]+" available "+parts[1], p.Q)
			}
		}
	}
	return b
}

// ExpectSums requires the report or, if a sum in it does not fit 64 bits, an error. Sums that fit in
// the end may not fit on the way, where either will do, but never another report.
func ExpectSums(o Obs, want, what string, sums bigSums, always bool) error {
	if always {
		return ExpectReport(o, want, what)
	}
	if c := o.Crashed(); c != "" {
		return Fail("%s: %s", what, c)
	}
	if o.Rejected() || strings.Count(o.Out, "\n") == 1 && strings.Contains(o.Out, "too large") {
		return nil
	}
	if !sums.fit() {
		return Fail("%s: a sum does not fit 64 bits, but there is a report\n%s", what, clip(o.Out))
	}
	return ExpectReport(o, want, what)
}

// parsed is the reference reading, with its model state recorded.
func (x *X) parsed(files map[string]string) refResult {
	s := &refState{files: files}
	err := s.file(mainFile)
	x.Step(s.steps)
	r := refResult{Txns: s.out, Err: err, Odd: s.odd}
	if err != nil {
		x.State("rejected", err.Why, len(s.out), r.Odd)
	} else {
		x.State("accepted", fmt.Sprint(s.out), r.Odd)
	}
	return r
}

var allCommands = []string{"print", "balance", "accounts", "payees", "statistics", "budget"}

// checkJournal runs the commands on a journal and compares each with the reference model.
func checkJournal(x *X, files map[string]string, cmds ...string) error {
	r := x.parsed(files)
	for _, c := range cmds {
		o := x.Run(Case{Cmd: c, Files: files})
		x.Outcome(c + o.Out + o.Panic)
		if err := checkReport(o, r, c); err != nil {
			return err
		}
	}
	return nil
}

// checkReport compares one unfiltered report with the reference reading.
func checkReport(o Obs, r refResult, cmd string) error {
	if c := o.Crashed(); c != "" {
		return Fail("%s: %s", cmd, c)
	}
	if r.Odd != "" {
		return nil
	}
	if r.Err != nil {
		return ExpectReject(o, cmd+" of a journal in error ("+r.Err.Why+")")
	}
	normal := normalOf(r.Txns)
	if o.Rejected() && (cmd != "balance" && cmd != "budget" || sumsFit(r.Txns)) {
		return Fail("%s: a valid journal is rejected: %s", cmd, clip(o.Out))
	}
	switch cmd {
	case "print":
		return ExpectReport(o, renderPrint(normal), cmd)
	case "balance":
		if !oneCommodity(normal) {
			return nil
		}
		posts := postsOf(normal)
		return ExpectSums(o, renderBalance(posts, false, false, false), cmd, balanceSums(posts), sumsFit(normal))
	case "accounts":
		return ExpectReport(o, linesOf(accountNames(normal)), cmd)
	case "payees":
		return ExpectReport(o, linesOf(payeeNames(normal)), cmd)
	case "statistics":
		return ExpectStats(o, normal, cmd)
	case "budget":
		if !oneCommodity(r.Txns) {
			return nil
		}
		for _, t := range r.Txns {
			if t.Period && len(t.Posts) == 0 {
				return nil
			}
		}
		return ExpectSums(o, renderBudget(r.Txns), cmd, budgetSums(r.Txns), sumsFit(r.Txns))
	}
	return Fail("unknown command %s", cmd)
}

// errorLocs reads the file:line chain of an error message.
func errorLocs(out string) []Loc {
	var l []Loc
	for _, line := range strings.Split(out, "\n") {
		rest, ok := strings.CutPrefix(line, "error at ")
		if !ok {
			break
		}
		i := strings.LastIndexByte(rest, ':')
		if i < 0 {
			break
		}
		n, err := strconv.Atoi(rest[i+1:])
		if err != nil {
			break
		}
		l = append(l, Loc{rest[:i], n})
	}
	return l
}

// checkLocation requires the message to locate the faulty entry.
func checkLocation(o Obs, e *Rejected, what string) error {
	locs := errorLocs(o.Out)
	if len(locs) != len(e.Chain)+1 {
		return Fail("%s: expected %d locations, got %v in\n%s", what, len(e.Chain)+1, locs, clip(o.Out))
	}
	for i, l := range e.Chain {
		if path.Clean(locs[i].File) != path.Clean(l.File) || locs[i].Line != l.Line {
			return Fail("%s: expected the include at %v, got %v in\n%s", what, l, locs[i], clip(o.Out))
		}
	}
	last := locs[len(locs)-1]
	if path.Clean(last.File) != path.Clean(e.File) || last.Line < e.From || last.Line > e.To {
		return Fail("%s: expected a line of %s from %d to %d (%s), got %v in\n%s", what, e.File, e.From, e.To, e.Why, last, clip(o.Out))
	}
	return nil
}

// seqs enumerates all sequences over n symbols of the lengths lo..hi, shortest first.
func seqs(n, lo, hi int, f func(s []int)) {
	for k := lo; k <= hi; k++ {
		s := make([]int, k)
		for {
			f(s)
			i := k - 1
			for ; i >= 0; i-- {
				s[i]++
				if s[i] < n {
					break
				}
				s[i] = 0
			}
			if i < 0 {
				break
			}
		}
	}
}

// strs enumerates all strings over an alphabet of the lengths lo..hi.
func strs(alpha []string, lo, hi int, f func(s string)) {
	seqs(len(alpha), lo, hi, func(ix []int) {
		var b strings.Builder
		for _, i := range ix {
			b.WriteString(alpha[i])
		}
		f(b.String())
	})
}

// product enumerates index tuples.
func product(sizes []int, f func(ix []int)) {
	ix := make([]int, len(sizes))
	for _, s := range sizes {
		if s == 0 {
			return
		}
	}
	for {
		f(ix)
		i := len(ix) - 1
		for ; i >= 0; i-- {
			ix[i]++
			if ix[i] < sizes[i] {
				break
			}
			ix[i] = 0
		}
		if i < 0 {
			return
		}
	}
}

// edits enumerates every text one edit away: every part left out, and every character replaced by
// and preceded by each of an alphabet.
func edits(text string, alpha []string, f func(s string)) {
	f(text)
	for i := range text {
		for j := i + 1; j <= len(text); j++ {
			f(text[:i] + text[j:])
		}
	}
	for i, r := range text {
		for _, a := range alpha {
			f(text[:i] + a + text[i+len(string(r)):])
			f(text[:i] + a + text[i:])
		}
	}
	for _, a := range alpha {
		f(text + a)
	}
}

var editAlphabet = []string{" ", "  ", "\t", "\n", "\r", "\r\n", "0", "9", "-", "+", ".", "/", ":", ";", "#", "~", "*", "!", "A", "z", "é", "£", "i", "\n  ", "\n\n", "\xff", "\x00"}

// editSeeds are journals that use everything there is.
var editSeeds = []string{
	"2020-01-02 * Shop Co  ; hn\n  ; note\n  A:Cash A  £1.50  ; c\n  Exp:F\n    ; d\n\n2020/02/03 ! B\n\tX\t£-2\n\tY\n",
	"~ 2020-01\n  Food:Out  10\n  Rent  3.05\n\n2020.01.31 p\n  Expenses:Food  2\n  Income:Job  -30\n  Cash\n",
	"include x\n; c\n2020-01-01 z\n  A  -1\n  B  1\ninclude x\n2020-01-03 y\n",
}

var periodSeed = "~ 2020/01/15\n  A  1\n~ every 2 weeks\n  B  2\n~ monthly from 2020-01-01 to 2020/12\n  C  3\n"

const editInclude = "2020-01-02 in x\n  I  5\n  J"

// perms calls f with every order of 0..n-1.
func perms(n int, f func(order []int)) {
	order := make([]int, n)
	for i := range order {
		order[i] = i
	}
	var place func(k int)
	place = func(k int) {
		if k == n {
			f(order)
			return
		}
		for i := k; i < n; i++ {
			order[k], order[i] = order[i], order[k]
			place(k + 1)
			order[k], order[i] = order[i], order[k]
		}
	}
	place(0)
}
