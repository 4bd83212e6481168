package main

import (
	"fmt"
	"math"
	"strings"
)

func init() {
	register(&Space{
		ID:   "C03",
		Rule: "every string over an amount alphabet up to a length, after each commodity, must be read exactly or rejected, as the grammar says; every quantity of a range and around powers of two and ten must be displayed exactly, by print and by balance",
		Bound: map[string]string{
			"surroundings of a run": sameAsksBound,
			"characters in amounts": "every printable ASCII character and 6 others, and every pair of the 4 that separate digits elsewhere, at every place of 12 amounts, added or in place of another, with 2 commodities",
			"commodities":           commoditiesBound,
			"vocabulary":            vocabBound,
			"other dialects":        dialectsBound + " (only in place of an amount, and after one)",
			"strings":               "{0,1,9,.,-,+} up to 6 characters (quick) / {0,1,5,9,.,-,+} up to 7 (thorough), 7 commodities",
			"quantities":            "-200000..200000 hundredths (thorough: -3000000..3000000), +-3 around 10^k and 2^k up to 64-bit limits",
		},
		Run: runC03,
	})
}

func runC03(e *E) {
	askSame(e, "print", "balance")
	comms := []string{"", "£", "$ ", "EUR ", "Rs.", "₿", "kr"}
	alpha := strings.Split("019.-+", "")
	hi := 6
	if e.Thorough {
		alpha = strings.Split("0159.-+", "")
		hi = 7
	}
	e.Part("amount strings")
	strs(alpha, 1, hi, func(s string) {
		for c, comm := range comms {
			if len(s) == hi && c > 1 && len(s)%5 != c-2 && !(s[0] == '.' || s[0] == '-') {
				continue
			}
			if !e.Mine() {
				e.Pass()
				continue
			}
			text := "2020-01-01 t\n  A  " + comm + s + "\n  B\n"
			e.Do(func(x *X) error {
				x.Key("amount %q", comm+s)
				x.Sample(text)
				return checkJournal(x, one(text), "print")
			})
		}
	})
	e.Part("odd amounts")
	odd := []string{"1 ", "1 2", "1  2", "1\t2", "1,000", "1e3", "0x10", "1_000", "½", "١", "１", "1½", "$", "£-", "£+", "£ - 1", "- 1", "-£1", "+£1", "£--1", "(1)", "1%", "1/2",
		"1;2", "1#2", "1 ;c", "1.;c", "1.5;c", "£", "EUR", "USD USD 1", "1 USD", "1USD", "USD1.", "A.1", "A..1", "£.5", "£.", ".", "..", "∞", "NaN", "Inf", "0b1", "0o7", "00", "007", "000000000000000000000001", "-0", "+0", "-0.00", "-0.01", "0.1", "0.10", "0.010"}
	for _, big := range []string{"92233720368547758.07", "92233720368547758.08", "92233720368547758", "92233720368547759", "92233720368547757.99", "9223372036854775807", "9223372036854775808",
		"92233720368547758.0", "92233720368547758.1", "99999999999999999999", "18446744073709551616", "184467440737095516.16", "184467440737095516.17", "00092233720368547758.07", "9007199254740993.01", "90071992547409.93", "90071992547409.91", "45035996273704.97"} {
		odd = append(odd, big, "-"+big, "+"+big)
	}
	for _, s := range odd {
		for _, comm := range comms {
			for _, tail := range []string{"", " ", "  ; c"} {
				if !e.Mine() {
					e.Pass()
					continue
				}
				text := "2020-01-01 t\n  A  " + comm + s + tail + "\n  B\n"
				e.Do(func(x *X) error {
					x.Key("amount %q", comm+s+tail)
					return checkJournal(x, one(text), "print", "balance")
				})
			}
		}
	}
	e.Part("quantities")
	var qs []int64
	top := int64(200000)
	if e.Thorough {
		top = 3000000
	}
	for q := -top; q <= top; q++ {
		qs = append(qs, q)
	}
	around := func(k int64) {
		for d := int64(-3); d <= 3; d++ {
			if d > 0 && k > math.MaxInt64-d {
				continue
			}
			qs = append(qs, k+d, -(k + d))
		}
	}
	for k := int64(1); k > 0 && k <= math.MaxInt64/10; k *= 10 {
		around(k)
		around(9 * k)
	}
	for b := uint(0); b < 63; b++ {
		around(int64(1) << b)
	}
	around(math.MaxInt64)
	const pack = 12
	for i := 0; i < len(qs); i += pack {
		if !e.Mine() {
			e.Pass()
			continue
		}
		comm := comms[(i/pack)%len(comms)]
		var b strings.Builder
		for _, q := range qs[i:min(i+pack, len(qs))] {
			fmt.Fprintf(&b, "2020-01-01 t\n  A  %s%s\n  B\n", comm, fmtQ(q))
		}
		text := b.String()
		e.Do(func(x *X) error {
			x.Key("quantities %d..", qs[i])
			return checkJournal(x, one(text), "print")
		})
	}
	e.Part("displayed sums")
	for i, q := range qs {
		if !e.Mine() {
			e.Pass()
			continue
		}
		comm := comms[i%len(comms)]
		text := fmt.Sprintf("2020-01-01 t\n  A:B  %s%s\n  A:C  %s0\n  B\n", comm, fmtQ(q), comm)
		e.Do(func(x *X) error {
			x.Key("balance of %d", q)
			return checkJournal(x, one(text), "balance")
		})
	}
	amountPairs(e, []string{"print", "balance", "budget"})
	commodityPart(e, checkCommands("print", "balance"))
	e.Part("characters in amounts")
	var chars []string
	for c := ' '; c < 127; c++ {
		chars = append(chars, string(c))
	}
	chars = append(chars, "é", "½", "١", "\u00a0", "\u2212", "e+")
	tried := map[string]bool{}
	try := func(s string) {
		for _, comm := range []string{"", "£"} {
			if tried[comm+s] {
				continue
			}
			tried[comm+s] = true
			if !e.Mine() {
				e.Pass()
				continue
			}
			e.Do(func(x *X) error {
				x.Key("amount %q", comm+s)
				return checkJournal(x, one("2020-01-01 t\n  A  "+comm+s+"\n  B\n"), "print", "balance")
			})
		}
	}
	for _, a := range []string{"1", "12", "1000", "1000.00", "12345.67", "100000.5", "0.05", "9999999.99", "00100.10", "-1234.5", "+77777.77", "1234567890123.45"} {
		for i := 0; i <= len(a); i++ {
			for _, c := range chars {
				try(a[:i] + c + a[i:])
				if i < len(a) {
					try(a[:i] + c + a[i+1:])
				}
			}
			for k := i; k <= len(a); k++ {
				for _, c := range []string{"_", ",", "'", " "} {
					for _, d := range []string{"_", ",", "'", " "} {
						try(a[:i] + c + a[i:k] + d + a[k:])
					}
				}
			}
		}
	}
	dialectAmountPart(e, 3, checkCommands("print", "balance"))
}
