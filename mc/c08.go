package main

import (
	"fmt"
	"strings"
)

func init() {
	register(&Space{
		ID:   "C08",
		Rule: "every combination of the fields of a transaction and every accepted line sequence up to a depth is printed; the output must be accepted, contain the same transactions (by the reference reading), give the same balance, accounts and payees reports, and print to exactly the same text",
		Bound: map[string]string{
			"neighbours":     neighboursBound,
			"texts":          textsBound,
			"numbers":        countsBound,
			"surroundings":   nestsBound,
			"features":       featuresBound,
			"long parts":     longPairsBound,
			"characters":     oddRunesBound,
			"sizes of parts": sizesBound,
			"vocabulary":     vocabBound,
			"other dialects": dialectsBound2,
			"fields":         "states x payees x header notes x notes x commodities x amounts x comments x elided positions",
			"line sequences": "15 line kinds to depth 4 (quick) / 5 (thorough)",
		},
		Run: runC08,
	})
}

func roundTrip(x *X, files map[string]string) error {
	r := x.parsed(files)
	o := x.Run(Case{Cmd: "print", Files: files})
	if r.Err != nil || r.Odd != "" {
		if c := o.Crashed(); c != "" {
			return Fail("print: %s", c)
		}
		return nil
	}
	if o.Rejected() {
		return Fail("a valid journal is rejected: %s", clip(o.Out))
	}
	if c := o.Crashed(); c != "" {
		return Fail("print: %s", c)
	}
	x.Outcome(o.Out)
	again := one(o.Out)
	r2 := x.parsed(again)
	if r2.Err != nil || r2.Odd != "" {
		return Fail("the output of print is not a journal (%v %s):\n%s", r2.Err, r2.Odd, clip(o.Out))
	}
	want := byDate(normalOf(r.Txns))
	if len(want) != len(r2.Txns) {
		return Fail("%d transactions, but %d in the output of print:\n%s", len(want), len(r2.Txns), clip(o.Out))
	}
	for i := range want {
		if want[i].String() != r2.Txns[i].String() {
			return Fail("transaction %d changed:\n--- was\n%s--- is\n%s", i+1, want[i], r2.Txns[i])
		}
	}
	if err := ExpectReport(x.Run(Case{Cmd: "print", Files: again}), o.Out, "printing the output of print"); err != nil {
		return err
	}
	for _, c := range []Case{{Cmd: "balance", Zero: true}, {Cmd: "accounts"}, {Cmd: "payees"}} {
		c.Files = files
		before := x.Run(c)
		c.Files = again
		if err := ExpectReport(x.Run(c), before.Out, c.Cmd+" of the output of print"); err != nil {
			return err
		}
	}
	return nil
}

func runC08(e *E) {
	e.Part("fields")
	heads := []string{"", " *", " !", " P", " * P q", " ! Ünï x", " *P", " * 12 o'clock", " ! *x"}
	hnotes := []string{"", " ; h", "\t;h  ", "  # ; h", "  ;", "  ;   \t"}
	notes := []string{"", "  ; n\n", "\t;n;m \n  #  o\n", "  ;\n", "  ; \t x\n"}
	comms := []string{"", "£", "$ ", "EUR ", "Rs.", "a "}
	amts := []string{"1", "-1.5", "0", "+12345678901.01", "-0.01"}
	pcs := []string{"", " ; c\n", "\n  ; c\n    ; d\n", ";c \n", "\n  ;\n", "  # ;\n\t; e\n"}
	last := []string{"  B\n", "  B:C d  \n  ; z", "  B  ; z\n", "  Á:b\t; y\n\n", "  B:1"}
	product([]int{len(heads), len(hnotes), len(notes), len(comms), len(amts), len(pcs), len(last)}, func(ix []int) {
		if !e.Thorough && (ix[0]+ix[1]+ix[2]+ix[3]+ix[4]+ix[5]+ix[6])%2 != 0 {
			return
		}
		if !e.Mine() {
			e.Pass()
			return
		}
		pc := pcs[ix[5]]
		if pc == "" {
			pc = "\n"
		}
		text := "2020-02-03" + heads[ix[0]] + hnotes[ix[1]] + "\n" + notes[ix[2]] + "  A:b c  " + comms[ix[3]] + amts[ix[4]] + pc + last[ix[6]]
		k := append([]int(nil), ix...)
		e.Do(func(x *X) error {
			x.Key("fields %v", k)
			x.Sample(text)
			return roundTrip(x, one(text))
		})
	})
	e.Part("line sequences")
	lines := []string{"", "2020-01-02 * Shop  ; hn", "2020-01-01", "2019-12-31 ! x", "  A  1", "  A  -1", "  B", "\tB c:d  ; on line", "    ;note", "  C  2 #c", ";x", "  ;", "  C  -2.00", "~ 2020-01", "include s"}
	hi := 4
	if e.Thorough {
		hi = 5
	}
	seqs(len(lines), 1, hi, func(ix []int) {
		if !e.Mine() {
			e.Pass()
			return
		}
		var l []string
		for _, i := range ix {
			l = append(l, lines[i])
		}
		files := map[string]string{mainFile: strings.Join(l, "\n"), "s": "2020-01-01 * inc ; h\n  ; n\n  S  4 ; c\n  T"}
		e.Do(func(x *X) error {
			x.Key("lines %q", l)
			return roundTrip(x, files)
		})
	})
	e.Part("amounts")
	for _, comm := range comms {
		for i := 0; i < 4000; i++ {
			if !e.Mine() {
				e.Pass()
				continue
			}
			q := int64(i-2000)*int64(i%13+1) + int64(i%5)*1e12
			text := fmt.Sprintf("2020-01-01 t\n  A  %s%s\n  B\n  C  %s%s\n", comm, fmtQ(q), comm, fmtQ(-q/3))
			e.Do(func(x *X) error {
				x.Key("amount %s%d", comm, q)
				return roundTrip(x, one(text))
			})
		}
	}
	tripPairs(e)
	charPart(e, roundTrip)
	longPairs(e, roundTrip)
	sizePart(e, 1100, nil, roundTrip)
	features(e, [4]string{"a", "a:b", "c", "rest"}, func(x *X, turn int, files map[string]string) error {
		return roundTrip(x, files)
	})
	textPart(e, roundTrip)
	nestPart(e, roundTrip)
	neighbourPart(e, 3, roundTrip)
	dialectPart(e, 2, roundTrip)
	countPart(e, func(x *X, turn int, files map[string]string) error { return roundTrip(x, files) })
}
