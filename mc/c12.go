package main

import (
	"fmt"
	"regexp"
	"strings"
	"unicode"
)

func init() {
	register(&Space{
		ID:   "C12",
		Rule: "every list of one or two (thorough: three) arguments from a set of filters on a journal with diverse transactions, and every transaction built from field values with every single filter: print, statistics and balance must take exactly what the definition of matching says",
		Bound: map[string]string{
			"surroundings of a run": sameAsksBound,
			"shares":                sharesBound,
			"lists of arguments":    argumentListsBound,
			"numbers":               countsBound,
			"features":              featuresBound,
			"sizes of parts":        sizesBound,
			"vocabulary":            vocabBound,
			"words":                 queryWordsBound,
			"combinations":          "every sequence of up to 2 (thorough: 3) of 12 entries, in one file or two, with each of 7 date ranges, 11 lists of filters and the layouts",
			"lists":                 "64 filters, all singles and ordered pairs; triples of 24 (thorough)",
			"constructs":            "71 constructs of the regular expression language x 3 kinds x 7 prefixes x 5 suffixes (those that compile)",
			"shapes":                "payees x header notes x notes x posting comments x accounts, every single filter and (thorough) pairs of 16",
		},
		Run: runC12,
	})
}

var compiled = map[string]*regexp.Regexp{}

// matches is what a filter argument matches of a transaction, by definition.
func matches(arg string, t Txn) (whole bool, posts map[int]bool) {
	kind := byte(0)
	if arg != "" && (arg[0] == '@' || arg[0] == '=') {
		kind = arg[0]
		arg = arg[1:]
	}
	upper := false
	for _, r := range arg {
		upper = upper || unicode.IsUpper(r)
	}
	if !upper {
		arg = "(?i)" + arg
	}
	re := compiled[arg]
	if re == nil {
		re = regexp.MustCompile(arg)
		if len(compiled) > 5000 {
			compiled = map[string]*regexp.Regexp{}
		}
		compiled[arg] = re
	}
	posts = map[int]bool{}
	switch kind {
	case '@':
		whole = re.MatchString(t.Payee)
	case '=':
		whole = re.MatchString(t.HNote)
		for _, n := range t.Notes {
			whole = whole || re.MatchString(n)
		}
		for i, p := range t.Posts {
			for _, n := range p.Notes {
				if re.MatchString(n) {
					posts[i] = true
				}
			}
		}
	default:
		for i, p := range t.Posts {
			posts[i] = re.MatchString(p.Acct)
		}
	}
	return whole, posts
}

// selected gives the transactions any argument matches, and the postings balance adds up.
func selected(ts []Txn, args []string) (taken []Txn, part []Txn) {
	for _, t := range ts {
		whole := len(args) == 0
		hit := map[int]bool{}
		for _, a := range args {
			w, p := matches(a, t)
			whole = whole || w
			for i, ok := range p {
				if ok {
					hit[i] = true
				}
			}
		}
		if !whole && len(hit) == 0 {
			continue
		}
		taken = append(taken, t)
		if whole {
			part = append(part, t)
			continue
		}
		u := t
		u.Posts = nil
		for i, p := range t.Posts {
			if hit[i] {
				u.Posts = append(u.Posts, p)
			}
		}
		part = append(part, u)
	}
	return
}

func filtered(x *X, files map[string]string, args []string, cmds []string) error {
	r := x.parsed(files)
	if r.Err != nil || r.Odd != "" {
		return Fail("reference rejects its own journal: %v %s", r.Err, r.Odd)
	}
	ts := normalOf(r.Txns)
	taken, part := selected(ts, args)
	x.Step(len(ts) * len(args))
	x.State(args, len(taken), len(postsOf(part)))
	for _, cmd := range cmds {
		c := Case{Cmd: cmd, Files: files, Args: args}
		var err error
		what := fmt.Sprintf("%s with %q", cmd, args)
		switch cmd {
		case "print":
			o := x.Run(c)
			x.Outcome(o.Out)
			err = ExpectReport(o, renderPrint(taken), what)
		case "statistics":
			// the accounts are those of the matching postings
			o := x.Run(c)
			x.Outcome(o.Out)
			err = ExpectStats(o, part, what)
		case "balance":
			for _, f := range []Case{{}, {Flat: true, Zero: true}} {
				c.Flat, c.Zero = f.Flat, f.Zero
				o := x.Run(c)
				x.Outcome(o.Out)
				if err == nil {
					err = ExpectReport(o, renderBalance(postsOf(part), c.Flat, false, c.Zero), what)
				}
			}
		}
		if err != nil {
			return err
		}
	}
	return nil
}

const c12Journal = `2020-01-05 * Corner Shop  ; weekly groceries
  ; paid by card
  Expenses:Food:Fruit  £3.00 ; apples
  Expenses:Food  £2.00
  ; Bread
  Assets:Current

2020-01-03 employer
  Assets:Current  £100.00
  Income:Salary

2020-01-04 ! SHOP
  expenses:shop  £1.00
  ; ring, bell
  assets:cash

2020-01-03 Café Ünïcode ; Tax
  Expenses:Été  £4.00
  Assets:Cash  ; tax
2020-01-05
  ; shop
  ; other
  Expenses:Gift Shop  £7.00
  Assets:Current  £-7.00
2020-01-06 a@b =c
  X:@y  £1.00 ; =z
  X:=y
2020-01-06 empty ; nothing
`

var c12Filters = []string{
	"", "shop", "Shop", "SHOP", "food", "^Expenses", "^expenses", "assets", "Assets", "cash$", "current|salary", "Food$", "fruit", ":", "nosuch", ".", "^$", "é", "É", "Été", "x:@", "x:=",
	"@", "@shop", "@Shop", "@SHOP", "@^$", "@.", "@employer", "@ü", "@Ü", "@nosuch", "@a@b", "@corner shop", "@food", "@apples", "@(?-i)SHOP",
	"=", "=card", "=Card", "=apples", "=bread", "=Bread", "=tax", "=Tax", "=TAX", "=shop", "=weekly", "=^$", "=.", "=nosuch", "==z", "=ring", "=bell", "=other|nothing", "=Expenses", "=employer",
	" @shop", "@ shop", "@shop ", "  =card", "= card", "=card ", " food", "food ", "\t@shop", " ", "  ", "@ ", "= ", "\\@shop", "\\=card", "'@shop", "\u00a0@shop",
	"gift shop", "s:c", "a.*b", "[A-Z]", "(?i)FOOD", "salary", `\bFood\b`,
}

func runC12(e *E) {
	askSame(e, "print", "balance", "statistics")
	cmds := []string{"print", "statistics", "balance"}
	try := func(files map[string]string, args []string, name string) {
		if !e.Mine() {
			e.Pass()
			return
		}
		args = append([]string(nil), args...)
		e.Do(func(x *X) error {
			x.Key("%s arguments %q", name, args)
			x.Sample(jsonString(args))
			return filtered(x, files, args, cmds)
		})
	}
	e.Part("lists")
	f := c12Filters
	try(one(c12Journal), nil, "journal")
	for _, a := range f {
		try(one(c12Journal), []string{a}, "journal")
		for _, b := range f {
			try(one(c12Journal), []string{a, b}, "journal")
		}
	}
	if e.Thorough {
		for i := 0; i < len(f); i += 2 {
			for j := 1; j < len(f); j += 2 {
				for k := 0; k < len(f); k++ {
					try(one(c12Journal), []string{f[i], f[j], f[k]}, "journal")
				}
			}
		}
	}
	e.Part("shapes")
	payees := []string{"", " ab", " Ab c"}
	hnotes := []string{"", "  ; ab", "  ; X"}
	notes := []string{"", "  ; ab\n", "  ; x\n  ; AB\n"}
	pcs := []string{"\n", " ; ab\n", "\n  ; x\n  ; Ab\n"}
	accts := []string{"ab", "Ab:X", "q:aB", "X"}
	filters := []string{"ab", "Ab", "x", "X", "^ab$", "q", "@ab", "@Ab", "@x", "@^$", "=ab", "=Ab", "=X", "=^x$", "b$", "=."}
	product([]int{len(payees), len(hnotes), len(notes), len(pcs), len(pcs), len(accts), len(accts)}, func(ix []int) {
		if !e.Thorough && (ix[0]+ix[1]+ix[2]+ix[3]+ix[4]+ix[5]+ix[6])%3 != 0 {
			return
		}
		text := "2020-01-01" + payees[ix[0]] + hnotes[ix[1]] + "\n" + notes[ix[2]] + "  " + accts[ix[5]] + "  £5" + pcs[ix[3]] + "  " + accts[ix[6]] + pcs[ix[4]]
		text += "2020-01-02 zz\n  zz  £1\n  ab:zz\n"
		name := fmt.Sprint("shape ", ix)
		for i, a := range filters {
			try(one(text), []string{a}, name)
			if e.Thorough {
				for _, b := range filters[i+1:] {
					try(one(text), []string{a, b}, name)
				}
			}
		}
	})
	e.Part("date range and filter")
	for b := 2; b <= 7; b++ {
		for en := 2; en <= 7; en++ {
			for _, a := range f {
				if !e.Mine() {
					e.Pass()
					continue
				}
				e.Do(func(x *X) error {
					x.Key("begin %d end %d argument %q", b, en, a)
					r := x.parsed(one(c12Journal))
					ts := inRange(r.Txns, dayNumber(2020, 1, b), dayNumber(2020, 1, en))
					taken, part := selected(ts, []string{a})
					c := Case{Files: one(c12Journal), Args: []string{a}, Begin: ymd(2020, 1, b), End: ymd(2020, 1, en)}
					c.Cmd = "print"
					if err := ExpectReport(x.Run(c), renderPrint(taken), "print"); err != nil {
						return err
					}
					c.Cmd = "statistics"
					if err := ExpectStats(x.Run(c), part, "statistics"); err != nil {
						return err
					}
					c.Cmd = "balance"
					return ExpectReport(x.Run(c), renderBalance(postsOf(part), false, false, false), "balance")
				})
			}
		}
	}
	featurePart(e, []string{"print", "statistics", "balance"}, nil)
	crossPart(e, []string{"print", "statistics", "balance"}, nil)
	accountArguments(e, []string{"print", "statistics", "balance"}, []Case{{}, {Flat: true, Zero: true}})
	payeePairs(e, []string{"print", "statistics", "balance"})
	notePairs(e, []string{"print", "statistics", "balance"})
	sizeCommands(e, 1100, []Case{
		{Cmd: "print", Args: []string{"1$"}}, {Cmd: "balance", Args: []string{"2$", "@p3$"}}, {Cmd: "statistics", Args: []string{"=9$"}}, {Cmd: "balance", Args: []string{"^a:", "=^n.7", "@NO"}},
	})
	// every construct of the regular expression language whose spelling has letters or is empty
	e.Part("constructs")
	cons := []string{`\W`, `\S`, `\D`, `\B`, `\w`, `\s`, `\d`, `\b`, `\A`, `\z`, `\PL`, `\pL`, `\p{Lu}`, `\P{Lu}`, `\p{Greek}`, `\p{Ll}`, `\QA.\E`, `\Qa.\E`, `\Q.\E`, `\x41`, `\x61`, `\x{C9}`, `\x{e9}`, `\101`, `\141`, `[[:upper:]]`, `[[:alpha:]]`, `[[:^alpha:]]`, `[\D]`, `[^\W]`, `[A-Z]`, `[a-z]`, `[^A-Z]`, `[^a-z]`, `(?i)A`, `(?-i)a`, `(?-i)A`, `(?i:A)b`, `(?s).`, `(?U)a+`, `(?P<n>a)`, `(?P<N>a)`, `(?:a)`, `a{1,2}`, `A{2}`, `\.`, `\\`, `\\A`, `\\a`, `\$`, `a|B`, `(a)(B)`, `é`, `É`, `ß`, `ſ`, `ǅ`, `K`, `Ω`, `日`, `ª`, `①`, `Ⓐ`, `ⓐ`, `Ⅷ`, `\` + "`", `\-`, `\_`, `\C`, ``, ` `, `.`}
	var b3 strings.Builder
	for i, n := range []string{"a", "A", "b", "B", "A.b", "a.B", "é", "É", "ß", "ſ", "s", "S", "ǅ", "ǆ", "K", "k", "Ω", "ω", "ω", "日", "a1", "ⓐ", "Ⓐ", "ⅷ", "a b", "AA", "aa", "A_b", "a-b", "a\\a", "a\\A", "a$"} {
		fmt.Fprintf(&b3, "2020-01-%02d %s\n  X%s  %d ; %s\n  Y:%s\n\n", i%28+1, n, n, i+1, n, n)
	}
	text3 := b3.String()
	if r := refParse(one(text3), mainFile); r.Err != nil || r.Odd != "" {
		panic(fmt.Sprint(r.Err, r.Odd))
	}
	for _, p := range []string{"", "@", "="} {
		for _, pre := range []string{"", "^", "x", "a", "A", "(?i)", "b|"} {
			for _, c := range cons {
				for _, post := range []string{"", "$", "b", "B", "|q"} {
					if _, err := regexp.Compile(pre + c + post); err != nil {
						continue
					}
					if !e.Mine() {
						e.Pass()
						continue
					}
					arg := p + pre + c + post
					e.Do(func(x *X) error {
						x.Key("construct %q", arg)
						return filtered(x, one(text3), []string{arg}, []string{"print", "balance", "statistics"})
					})
				}
			}
		}
	}
	countPart(e, countCases([]string{"print", "statistics", "balance"}, nil))
	argumentLists(e, listArgs, 4, listCases("print", "balance"))
	sharesPart(e, []string{"print", "balance", "statistics"})
	queryWordPart(e, []string{"print", "balance", "statistics"})
}
