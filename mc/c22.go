package main

import (
	"fmt"
	"strings"
)

func init() {
	register(&Space{
		ID:   "C22",
		Rule: "every part of a journal at every size of a set that surrounds the capacities in the code (4, 5, 8, 256, 1024, 2048) and in the library (the 4096-byte read buffer, 64 KiB), and a short transaction at every alignment with the read buffer; print, balance, accounts, payees, statistics and budget must equal the reference model's reports",
		Bound: map[string]string{
			"long parts": longPairsBound,
			"lengths":    "of 13 parts of a line, with \\n and \\r\\n and no final newline: 1..20, and every size within 3 of 64, 128, 256, 512, 1024, 2048, 4096, 8192, 12288, 65536",
			"counts":     "of 28 repeatable parts: 0..40 and every size within 2 of 64, 128, 256, 512, 1024, 2048, 4096 (thorough: 16384)",
			"great ones": "lines of 100000 to 2 MiB (11 parts), 9999 to 100001 transactions",
			"alignment":  "a comment of every length from 0 to 4200 (thorough: 12400) before a transaction, one shape per length (thorough: 4)",
			"nesting":    "includes nested 1..120 deep and 400 deep, files included one after another up to 700 (more than may be open at once), one file up to 10001 times, accounts up to 1000 levels deep, and in the flat layouts 2049 (thorough: 4097)",
			"arguments":  "0..40 and 256 filter arguments",
			"total size": "files of about 32 KiB to 2 MiB (thorough: 16 MiB), alone and included, with an entry across the limit",
		},
		Run: runC22,
	})
}

func runC22(e *E) {
	rest := "\n2020-01-09 after\n  Z  9\n  A  -9\n"
	sizes := around(20, 3, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 12288, 65536)
	for _, l := range lengthFamilies {
		e.Part("length of " + l.name)
		for _, n := range sizes {
			for shape := 0; shape < 3; shape++ {
				if !e.Mine() {
					e.Pass()
					continue
				}
				text := l.f(n)
				switch shape {
				case 0:
					text += rest
				case 1:
					text = strings.ReplaceAll(rest+text+rest, "\n", "\r\n")
				case 2:
					text = strings.TrimSuffix(strings.TrimPrefix(rest, "\n")+"\n"+text, "\n")
				}
				if l.name == "commodity" {
					text = strings.TrimSuffix(l.f(n), "\n")
				}
				e.Do(func(x *X) error {
					x.Key("%s of %d, shape %d", l.name, n, shape)
					return checkJournal(x, one(text), allCommands...)
				})
			}
		}
	}
	longPairs(e, checkCommands("print", "balance", "accounts", "payees"))
	for li, l := range lengthFamilies {
		if l.name == "commodity" || l.name == "zeroes" {
			continue
		}
		e.Part("great lengths")
		for _, n := range []int{100000, 131072 - 20, 131072, 1<<20 - 20, 1 << 20, 1<<20 + 1, 1 << 21} {
			if !e.Mine() {
				e.Pass()
				continue
			}
			text := l.f(n) + rest
			e.Do(func(x *X) error {
				x.Key("%s of %d", l.name, n)
				return checkJournal(x, one(text), "print", allCommands[1+(li+n)%5])
			})
		}
	}
	for _, c := range countFamilies[:2] {
		e.Part("great numbers")
		for _, n := range []int{9999, 10000, 10001, 16383, 16384, 16385, 32767, 32768, 32769, 65535, 65536, 65537, 100001} {
			if !e.Mine() {
				e.Pass()
				continue
			}
			files := c.f(n)
			e.Do(func(x *X) error {
				x.Key("%d %s", n, c.name)
				return checkJournal(x, files, "print", "balance", "payees", "statistics")
			})
		}
	}
	amounts := around(40, 2, 64, 128, 256, 512, 1024, 2048, 4096)
	if e.Thorough {
		amounts = append(amounts, 16383, 16384, 16385)
	}
	for _, c := range countFamilies {
		e.Part("number of " + c.name)
		for _, n := range amounts {
			if c.max > 0 && n > c.max {
				continue
			}
			if !e.Mine() {
				e.Pass()
				continue
			}
			files := c.f(n)
			e.Do(func(x *X) error {
				x.Key("%d %s", n, c.name)
				if n < 4 {
					x.Sample(files[mainFile])
				}
				return checkJournal(x, files, c.cmds...)
			})
		}
	}

	e.Part("alignment")
	shapes := []string{
		"2020-01-02 * payee one  ; head\n  ; note\n  Assets:Bank account  £12.34 ; first\n  Expenses:Food\n\n; c\n~ 2020-03\n  Food  £5\n",
		"2020-01-02 payee two\r\n\tExpenses:Food\t\t£12.34\r\n\tB\r\n\r\n2020-01-03 three\r\n  A  £-1\r\n  B  £1",
		"2020-01-02 é\n  Ä:ö  £1\n  日本:日本  £-1.00\n  ß:ü  ; 日本\n",
		"\n\n\n2020-01-02\n  A  £1\n  B\n2020-01-03 ! x\n  A\n  B  £2",
	}
	hi := 4200
	if e.Thorough {
		hi = 12400
	}
	for n := 0; n <= hi; n++ {
		for si, s := range shapes {
			if !e.Thorough && si != n%2 {
				continue
			}
			if !e.Mine() {
				e.Pass()
				continue
			}
			text := ";" + strings.Repeat("c", n) + "\n" + s
			e.Do(func(x *X) error {
				x.Key("shape %d after a comment of %d", si, n)
				return checkJournal(x, one(text), "print")
			})
		}
	}

	e.Part("includes")
	txn := numberedTxn
	for _, n := range []int{200, 254, 255, 256, 257, 400} {
		if !e.Mine() {
			e.Pass()
			continue
		}
		files := map[string]string{}
		for i := 0; i <= n; i++ {
			name := fmt.Sprintf("f%d", i)
			if i == 0 {
				name = mainFile
			}
			files[name] = txn(i)
			if i < n {
				files[name] = txn(i) + fmt.Sprintf("include f%d\n", i+1) + txn(i+1)
			}
		}
		e.Do(func(x *X) error {
			x.Key("includes nested %d deep", n)
			return checkJournal(x, files, "print", "balance", "statistics")
		})
	}
	for _, n := range []int{1, 2, 3, 4, 5, 8, 16, 17, 100, 255, 256, 257, 500, 511, 512, 513, 700} {
		if !e.Mine() {
			e.Pass()
			continue
		}
		files := map[string]string{mainFile: txn(0)}
		for i := 1; i <= n; i++ {
			files[fmt.Sprintf("f%d", i)] = txn(i)
			files[mainFile] += fmt.Sprintf("include f%d\n", i)
		}
		e.Do(func(x *X) error {
			x.Key("%d files included one after another", n)
			return checkJournal(x, files, "print", "balance", "statistics")
		})
	}
	for _, n := range []int{1000, 1023, 1024, 1025, 1200, 2047, 2048, 2049, 4095, 4096, 4097, 10001} {
		for kind := 0; kind < 2; kind++ {
			if !e.Mine() {
				e.Pass()
				continue
			}
			files := map[string]string{mainFile: strings.Repeat("include d/f\n", n) + txn(1), "d/f": txn(2)}
			if kind == 1 { // by way of another
				files = map[string]string{mainFile: txn(1) + strings.Repeat("include g\n", n/40) + txn(3), "g": strings.Repeat("include d/f\n", 40), "d/f": txn(2)}
			}
			e.Do(func(x *X) error {
				x.Key("file included %d times, kind %d", n, kind)
				return checkJournal(x, files, "print", "balance", "statistics")
			})
		}
	}
	for _, n := range []int{1, 8, 64, 200, 255} {
		e.Do(func(x *X) error {
			x.Key("included file's name of %d", n)
			name := strings.Repeat("n", n)
			return checkJournal(x, map[string]string{mainFile: txn(0) + "include d/" + name + "\n" + txn(1), "d/" + name: txn(2)}, "print", "statistics")
		})
	}
	for _, n := range []int{1, 4, 5, 8, 9, 60, 200} {
		e.Do(func(x *X) error {
			x.Key("included file %d directories down", n)
			name := strings.Repeat("d/", n)
			return checkJournal(x, map[string]string{mainFile: txn(0) + "include " + name + "f\n" + txn(1), name + "f": txn(2) + "include " + strings.Repeat("../", n) + "g\n", "g": txn(3)}, "print", "statistics")
		})
	}

	e.Part("levels")
	levels := []int{1024, 1025, 1500, 1501, 2000, 2001, 2049}
	if e.Thorough {
		levels = []int{1000, 1023, 1024, 1025, 1499, 1500, 1501, 1502, 1999, 2000, 2001, 2047, 2048, 2049, 2500, 3000, 4095, 4096, 4097}
	}
	for _, n := range levels {
		for kind := 0; kind < 3; kind++ {
			if n > 1501 && kind > 0 && !e.Thorough {
				continue
			}
			if !e.Mine() {
				e.Pass()
				continue
			}
			deep := "A" + strings.Repeat(":b", n-1)
			text := "2020-01-02 p\n  " + deep + "  £2.50\n  C\n"
			switch kind {
			case 1: // it and its parents have their own
				text += "\n2020-01-03 q\n  A:b  £1\n  " + deep[:len(deep)-2] + "  £3\n  " + deep + ":b\n"
			case 2: // beside another that far down
				text += "\n2020-01-03 q\n  " + deep[:len(deep)-2] + ":c  £1\n  A:b:c\n  " + deep + "  £1\n"
			}
			e.Do(func(x *X) error {
				x.Key("%d levels, kind %d", n, kind)
				cs := []Case{{Cmd: "balance", Flat: true}, {Cmd: "accounts"}}
				if n < 1101 || e.Thorough {
					cs = append(cs, []Case{{Cmd: "balance", Flat: true, Zero: true}, {Cmd: "print"}, {Cmd: "statistics"}, {Cmd: "balance", Flat: true, Args: []string{"^A"}}, {Cmd: "accounts", Args: []string{":b$"}}}...)
				}
				for _, c := range cs {
					c.Files = one(text)
					if err := expectCase(x, c); err != nil {
						return err
					}
				}
				return nil
			})
		}
	}

	// files of every size there may be a limit at, alone and included, with a transaction at the end
	e.Part("file sizes")
	entry := func(i int) string {
		return fmt.Sprintf("2020-01-%02d payee %d ; %064d\n  A:a%d  %d\n  B\n", i%28+1, i%977, i, i%7, i%9)
	}
	limits := []int{1 << 15, 1 << 16, 100000, 1 << 17, 1 << 18, 1 << 19, 1000000, 1 << 20, 1 << 21}
	if e.Thorough {
		limits = append(limits, 1<<22, 10000000, 1<<23, 1<<24)
	}
	for _, size := range limits {
		for shape := 0; shape < 3; shape++ {
			if !e.Mine() {
				e.Pass()
				continue
			}
			var b strings.Builder
			for i := 0; b.Len() < size-200; i++ {
				b.WriteString(entry(i))
			}
			last := "2020-02-01 last\n  A:z  5\n  B\n"
			// the last entry lies across the limit
			fmt.Fprintf(&b, "; %s\n%s; the end\n2020-02-02 beyond\n  A:y  4\n  B", strings.Repeat("c", max(0, size-b.Len()-len(last)/2-3)), last)
			files := one(b.String())
			switch shape {
			case 1:
				files = map[string]string{mainFile: txn(0) + "include d/big\n" + txn(1), "d/big": b.String()}
			case 2:
				files = map[string]string{mainFile: strings.Repeat("; "+strings.Repeat("c", 997)+"\n", size/1000) + "include d/big\n" + txn(1), "d/big": "include small\n" + txn(2), "d/small": txn(3)}
			}
			e.Do(func(x *X) error {
				x.Key("a file of %d bytes, shape %d", size, shape)
				return checkJournal(x, files, "print", "balance", "payees", "statistics")
			})
		}
	}

	e.Part("arguments")
	text := repeat(300, func(i int) string {
		return fmt.Sprintf("2020-01-%02d p%d;\n  A:a%dz  %d\n  B  ; n%d;\n", i%28+1, i, i, i+1, i)
	})
	for _, n := range append(around(40, 0), 255, 256, 257) {
		for kind := 0; kind < 3; kind++ {
			e.Do(func(x *X) error {
				var args []string
				for i := 0; i < n; i++ {
					args = append(args, []string{fmt.Sprintf(":a%dz", i*3%300), fmt.Sprintf("@p%d$", i*7%300), fmt.Sprintf("=^n%d;", i*5%300)}[kind])
				}
				x.Key("%d arguments of kind %d", n, kind)
				return filtered(x, one(text), args, []string{"print", "balance", "statistics"})
			})
		}
	}
	for _, n := range around(10, 1, 64, 256, 1000) {
		e.Do(func(x *X) error {
			x.Key("argument of length %d", n)
			name := longText(n)
			text := "2020-01-02 P" + name + "\n  A" + name + "  1\n  B\n\n2020-01-03 P" + name[:n/2] + "\n  B  1\n  C\n"
			for _, a := range []string{"@p" + name + "$", "^a" + name, "@p" + name[:n/2]} {
				if err := filtered(x, one(text), []string{a}, []string{"print", "balance"}); err != nil {
					return err
				}
			}
			return nil
		})
	}
}
