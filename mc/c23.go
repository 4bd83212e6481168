package main

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
)

func init() {
	register(&Space{
		ID:   "C23",
		Rule: "every combination of a way to give --file (or none), what it names, what LEDGER_FILE is and names, and a command, each run of the real binary in a process of its own: the report must be the reference report of the journal asked for, or an error and nothing of a report; and no file, directory or link around it may change in name, content, mode or time",
		Bound: map[string]string{
			"other kinds of file": magicBound,
			"asks":                asksBound,
			"flag":                "9 ways to write it, before or after the command",
			"names":               "48 (journals in other directories, absolute, odd names, links, standard input) of which 25 cannot be read (missing, a directory, dangling and looping links, below a file, too long)",
			"asked twice":         "5 ways to write --file, in pairs, of 6 names (2 of which cannot be read), in 3 places: the last one counts",
			"environment":         "unset, empty, 4 readable and 8 unreadable names; 11 other variables that name journals, and a journal on standard input, all of which must not matter",
			"commands":            "6, and their aliases and filters and dates with a part of the configurations",
			"modes":               "22, of each of 5 journals, with 11 names and the environment (the checks run as root, who may read them all; where they do not, the closed ones are skipped)",
			"permissions":         "2 journals and a directory, each closed or open, for an unprivileged user (skipped where the check may not become one)",
		},
		Run: runC23,
	})
}

// snapshot describes everything in the working directory.
func snapshot() string {
	var l []string
	filepath.Walk(".", func(p string, st os.FileInfo, err error) error {
		if err != nil {
			l = append(l, p+" "+err.Error())
			return nil
		}
		s := fmt.Sprintf("%s %v %d %d", p, st.Mode(), st.Size(), st.ModTime().UnixNano())
		switch {
		case st.Mode().IsRegular():
			b, _ := os.ReadFile(p)
			s += " " + string(b)
		case st.Mode()&os.ModeSymlink != 0:
			t, _ := os.Readlink(p)
			s += " -> " + t
		}
		l = append(l, s)
		return nil
	})
	sort.Strings(l)
	return strings.Join(l, "\n")
}

func runC23(e *E) {
	journalOf := func(tag string, n int) string {
		return fmt.Sprintf("~ 2020-01\n  Cat%s  %d\n\n2020-01-02 Payee%s\n  Expenses:Acct%s  %d\n  Assets:Bank%s\n", tag, n, tag, tag, n, tag)
	}
	files := map[string]string{
		mainFile: journalOf("Main", 11), "d/sub.journal": journalOf("Sub", 12), "a b é.journal": journalOf("Odd", 13), "env.journal": journalOf("Env", 14),
		"d/top": "include ../m.journal\ninclude sub.journal\n" + journalOf("Top", 15), "empty": "", "-f": journalOf("Dash", 16), "x=y": journalOf("Eq", 17),
		".ledger": journalOf("Dot", 18), ".gledgerrc": journalOf("Rc", 19), "ledger": journalOf("Led", 20), "~": journalOf("Tilde", 21), "$HOME": journalOf("Var", 22),
		"x$HOME": journalOf("XVar", 23), "x${USER}y": journalOf("XUser", 24), "x": journalOf("X", 25), "xy": journalOf("XY", 26), "*": journalOf("Star", 27), "%41": journalOf("Percent", 28), "file:m.journal": journalOf("Url", 29), "m.journal ": journalOf("Blank", 30), "M.journal": journalOf("Upper", 31),
		"tmp/kept": "1", "cfg/gledger/config": "2", "journal": journalOf("Plain", 32), "main.journal": journalOf("Mjn", 33), "-": journalOf("Hyphen", 36), "stdin": journalOf("Name", 37), ".hledger.journal": journalOf("Hled", 34), "d/m.journal": journalOf("DMain", 35),
	}
	input := journalOf("Stdin", 38)
	type target struct {
		name string
		ok   bool
	}
	targets := []target{
		{"m.journal", true}, {"./d/../m.journal", true}, {"d/sub.journal", true}, {"a b é.journal", true}, {"d/top", true}, {"empty", true}, {"x=y", true}, {"link", true}, {"d/link", true}, {"@/m.journal", true}, {"@/d/top", true}, {"/dev/null", true}, {"$HOME", true}, {"x$HOME", true}, {"x${USER}y", true}, {"~", true}, {"*", true}, {"%41", true}, {"file:m.journal", true}, {"m.journal ", true}, {"M.journal", true}, {"-f", true}, {"-", true}, {"stdin", true}, {"/dev/stdin", true},
		{"nope", false}, {"d/nope", false}, {"d", false}, {".", false}, {"@", false}, {"dangling", false}, {"loop", false}, {"m.journal/x", false}, {"linkdir", false}, {strings.Repeat("n", 300), false}, {"M.JOURNAL", false}, {"$HOME/m.journal", false}, {"~/m.journal", false}, {"$x", false}, {"m.*", false}, {" m.journal", false}, {"m.journal/", false}, {"m.journal\n", false}, {"m", false}, {"file://m.journal", false}, {"\"m.journal\"", false}, {"m%2Ejournal", false}, {"d/nope/../../m.journal", false},
	}
	envs := []struct {
		set bool
		target
	}{
		{false, target{"", false}}, {true, target{"env.journal", true}}, {true, target{"@/env.journal", true}}, {true, target{"nope", false}}, {true, target{"d", false}}, {true, target{"", false}}, {true, target{"dangling", false}}, {true, target{" env.journal", false}}, {true, target{"x$HOME", true}}, {true, target{"$HOME/m.journal", false}}, {true, target{"~/m.journal", false}}, {true, target{"env.journal:m.journal", false}}, {true, target{"env.journal ", false}},
	}
	forms := []struct {
		name  string
		f     func(n string) []string
		names bool // gives the name
	}{
		{"none", func(string) []string { return nil }, false},
		{"-f X", func(n string) []string { return []string{"-f", n} }, true},
		{"-fX", func(n string) []string { return []string{"-f" + n} }, true},
		{"-f=X", func(n string) []string { return []string{"-f=" + n} }, true},
		{"--file X", func(n string) []string { return []string{"--file", n} }, true},
		{"--file=X", func(n string) []string { return []string{"--file=" + n} }, true},
		{"-f ''", func(string) []string { return []string{"-f", ""} }, false},
		{"--file=", func(string) []string { return []string{"--file="} }, false},
		{"-cf X", func(n string) []string { return []string{"-cf", n} }, true},
	}
	links := map[string]string{"link": "m.journal", "d/link": "../env.journal", "dangling": "nowhere", "loop": "loop2", "loop2": "loop", "linkdir": "d"}
	content := func(name string) map[string]string {
		f := map[string]string{}
		for k, v := range files {
			f[k] = v
		}
		return f
	}
	resolve := func(x *X, name string) string {
		return strings.Replace(name, "@", x.w.Scratch, 1)
	}
	// the modes of files that do not have the usual one
	var modes map[string]os.FileMode
	// run runs one configuration and judges it
	run := func(x *X, args []string, env []string, named *target, cmd string, judge func(o Obs, ts []Txn) error) error {
		x.w.layFiles(files)
		for _, l := range sortedKeys(links) {
			if err := os.Symlink(links[l], l); err != nil && !os.IsExist(err) {
				return err
			}
		}
		for name, m := range modes {
			must(os.Chmod(name, m))
			defer os.Chmod(name, 0o644)
		}
		before := snapshot()
		env = append(env, "TMPDIR=@/tmp", "XDG_CACHE_HOME=@/tmp", "XDG_CONFIG_HOME=@/cfg", "XDG_DATA_HOME=@/cfg", "XDG_STATE_HOME=@/cfg", "USER=q",
			"GLEDGER_FILE=d/m.journal", "HLEDGER_FILE=d/m.journal", "LEDGER=d/m.journal", "LEDGER_JOURNAL=d/m.journal", "ledger_file=d/m.journal", "LEDGERFILE=d/m.journal", "JOURNAL=d/m.journal", "FILE=d/m.journal", "GLEDGER_DIR=d", "LEDGER_DIR=d", "LEDGER_FILES=d/m.journal")
		for i := range env {
			env[i] = strings.Replace(env[i], "@", x.w.Scratch, 1)
		}
		o := x.Fresh(Case{Files: files, Raw: args, Env: env, Stdin: input})
		after := snapshot()
		for l := range links {
			os.Remove(l)
		}
		what := fmt.Sprintf("%v gledger %q", env, args)
		if before != after {
			return Fail("%s changed the files around it:\n--- before\n%s\n--- after\n%s", what, clip(before), clip(after))
		}
		if c := o.Crashed(); c != "" {
			return Fail("%s: %s", what, c)
		}
		x.Outcome(cmd + o.Out)
		if named == nil || !named.ok {
			all := o.Out + o.Stderr
			if strings.TrimSpace(all) == "" {
				return Fail("%s: no error, and nothing else", what)
			}
			for _, s := range []string{"Payee", "Acct", "Cat", "Bank", "----", "Transactions", "No transactions"} {
				if strings.Contains(all, s) {
					return Fail("%s: the journal cannot be read, but there is a report:\n%s", what, clip(all))
				}
			}
			if named == nil && !strings.Contains(strings.ToLower(all), "journal") {
				return Fail("%s: no journal is given, but the message is\n%s", what, clip(all))
			}
			return nil
		}
		// what the names in it stand for
		f := content("")
		main := strings.TrimPrefix(resolve(x, named.name), x.w.Scratch+"/")
		switch main {
		case "link":
			main = "m.journal"
		case "d/link":
			main = "env.journal"
		case "/dev/null":
			main = "empty"
		case "/dev/stdin":
			f[main] = input
		}
		r := refParse(f, strings.TrimPrefix(main, "./"))
		if r.Err != nil || r.Odd != "" {
			return Fail("harness: %v %s", r.Err, r.Odd)
		}
		x.State(main, cmd)
		x.Step(len(r.Txns))
		if err := judge(o, r.Txns); err != nil {
			return Fail("%s: %w", what, err)
		}
		return nil
	}
	judgeOf := func(cmd string, name string) func(o Obs, ts []Txn) error {
		return func(o Obs, ts []Txn) error {
			if cmd != "statistics" {
				return expectCmd(o, cmd, normalFor(cmd, ts), cmd)
			}
			// the files' names are given as they were reached
			if len(ts) == 0 {
				return ExpectReport(o, noStats, cmd)
			}
			for _, t := range ts {
				if !t.Period && !strings.Contains(o.Out, "Transactions:\t\t"+fmt.Sprint(len(normalOf(ts)))+" ") {
					return Fail("not the statistics of %d transactions:\n%s", len(normalOf(ts)), o.Out)
				}
			}
			return nil
		}
	}

	for _, form := range forms {
		for ti, t := range targets {
			if !form.names && ti > 0 {
				break
			}
			if strings.HasPrefix(form.name, "-f") && form.name != "-f X" && (strings.HasPrefix(t.name, "=")) {
				continue
			}
			for ei, env := range envs {
				for _, cmd := range allCommands {
					for pos := 0; pos < 2; pos++ {
						e.Part("flag " + form.name)
						if pos == 1 && form.name == "-cf X" {
							continue // cobra does not look for a command behind joined shorthands
						}
						if !e.Mine() {
							e.Pass()
							continue
						}
						e.Do(func(x *X) error {
							x.Key("%s %q env %d %s position %d", form.name, t.name, ei, cmd, pos)
							x.Sample(x.key)
							fl := form.f(resolve(x, t.name))
							args := append([]string{cmd}, fl...)
							if pos == 1 {
								args = append(append([]string(nil), fl...), cmd)
							}
							var ev []string
							if env.set {
								ev = []string{"LEDGER_FILE=" + env.name}
							}
							var named *target
							switch {
							case form.names:
								named = &t
							case env.set:
								named = &env.target
								if env.name == "" {
									// the empty name: any error will do
									named = &target{"", false}
								}
							}
							return run(x, args, ev, named, cmd, judgeOf(cmd, t.name))
						})
					}
				}
			}
		}
	}

	e.Part("asked twice")
	// the journal that is named last is asked for
	twice := []int{0, 2, 4, 5, 25, 27}
	for f1, form := range forms {
		for f2, last := range forms {
			if !form.names || !last.names || form.name == "-cf X" || last.name == "-cf X" {
				continue
			}
			for _, t1 := range twice {
				for _, t2 := range twice {
					if t1 == t2 {
						continue
					}
					for ei, env := range envs[:2] {
						for ci, cmd := range allCommands {
							for pos := 0; pos < 3; pos++ {
								if (f1+f2+t1+t2+ei+ci)%6 != 0 && !e.Thorough {
									continue
								}
								if !e.Mine() {
									e.Pass()
									continue
								}
								e.Do(func(x *X) error {
									t := targets[t2]
									x.Key("%s %q then %s %q env %d %s position %d", form.name, targets[t1].name, last.name, t.name, ei, cmd, pos)
									a, b := form.f(targets[t1].name), last.f(t.name)
									var args []string
									switch pos {
									case 0:
										args = append(append([]string{cmd}, a...), b...)
									case 1:
										args = append(append(append([]string(nil), a...), cmd), b...)
									case 2:
										args = append(append(append([]string(nil), a...), b...), cmd)
									}
									var ev []string
									if env.set {
										ev = []string{"LEDGER_FILE=" + env.name}
									}
									return run(x, args, ev, &t, cmd, judgeOf(cmd, t.name))
								})
							}
						}
					}
				}
			}
		}
	}
	e.Part("aliases and arguments")
	alias := map[string][]string{"accounts": {"acc", "a"}, "balance": {"bal", "b"}, "budget": {"bud", "B"}, "payees": {"pay"}, "statistics": {"stats", "s"}}
	for _, cmd := range allCommands {
		for _, name := range append([]string{cmd}, alias[cmd]...) {
			for _, extra := range [][]string{nil, {"Bank"}, {"@payee"}, {"--begin=2019-01-01"}, {"-b", "2019-01-01", "-e", "2021-01-01"}, {"-c"}, {"Acct", "Bank"}} {
				for ei, env := range envs[:4] {
					for _, fl := range [][]string{nil, {"-f", "m.journal"}, {"-f", "nope"}} {
						if (cmd == "accounts" || cmd == "payees") && len(extra) > 0 && extra[0][0] == '@' {
							continue
						}
						e.Do(func(x *X) error {
							x.Key("%s %q %q env %d", name, extra, fl, ei)
							var named *target
							var ev []string
							if env.set {
								ev = []string{"LEDGER_FILE=" + env.name}
								named = &env.target
							}
							if fl != nil {
								named = &target{fl[1], fl[1] == mainFile}
							}
							args := append(append([]string{name}, fl...), extra...)
							return run(x, args, ev, named, cmd, func(o Obs, ts []Txn) error {
								tag := "Main"
								if fl == nil {
									tag = "Env"
								}
								if cmd == "payees" && len(extra) > 0 && extra[0][0] != '-' {
									return ExpectReport(o, "", cmd) // no payee matches
								}
								if cmd == "statistics" {
									return judgeOf(cmd, "")(o, ts)
								}
								if !strings.Contains(o.Out, tag) {
									return Fail("not the report of %s:\n%s", tag, o.Out)
								}
								for _, other := range []string{"Main", "Env", "Sub", "Top", "Dot", "Rc", "Led"} {
									if other != tag && strings.Contains(o.Out, other) {
										return Fail("the report of %s is not of %s:\n%s", other, tag, o.Out)
									}
								}
								return nil
							})
						})
					}
				}
			}
		}
	}
	e.Part("modes of the files")
	for _, m := range []os.FileMode{0, 0o400, 0o440, 0o444, 0o600, 0o622, 0o640, 0o646, 0o660, 0o664, 0o666, 0o700, 0o755, 0o775, 0o777, 0o111, 0o222, 0o333, 0o644 | os.ModeSetuid, 0o755 | os.ModeSetgid, 0o644 | os.ModeSticky, 0o666 | os.ModeSetuid | os.ModeSetgid | os.ModeSticky} {
		if os.Geteuid() != 0 && m&0o400 == 0 {
			continue
		}
		for _, name := range []string{mainFile, "d/sub.journal", "env.journal", "d/top", "a b é.journal"} {
			for _, t := range targets[:11] {
				for ei, env := range envs[:3] {
					for _, cmd := range allCommands {
						if name != "env.journal" && ei > 0 {
							continue
						}
						if !e.Mine() {
							e.Pass()
							continue
						}
						e.Do(func(x *X) error {
							x.Key("%s of %q env %d with %s of mode %v", cmd, t.name, ei, name, m)
							modes = map[string]os.FileMode{name: m}
							defer func() { modes = nil }()
							var ev []string
							named, args := &t, []string{cmd, "-f", resolve(x, t.name)}
							if env.set {
								ev = []string{"LEDGER_FILE=" + env.name}
								named, args = &env.target, []string{cmd}
							}
							return run(x, args, ev, named, cmd, judgeOf(cmd, t.name))
						})
					}
				}
			}
		}
	}
	e.Part("without permission")
	// run by a user who may not read the file, or not enter its directory
	for _, cmd := range allCommands {
		for _, flag := range []string{mainFile, "d/sub.journal", ""} {
			for ei, env := range envs[:4] {
				for mode := 0; mode < 8; mode++ {
					e.Do(func(x *X) error {
						x.Key("%s of %q env %d without permission %d", cmd, flag, ei, mode)
						if !x.w.nobody() {
							return nil // cannot become another user here
						}
						x.w.layFiles(files)
						closed := map[string]bool{}
						shut := func(bit int, name string) {
							if mode&bit != 0 {
								must(os.Chmod(name, 0))
								closed[name] = true
							}
						}
						shut(1, mainFile)
						shut(2, "env.journal")
						shut(4, "d")
						defer func() {
							for _, n := range []string{mainFile, "env.journal"} {
								must(os.Chmod(n, 0o644))
							}
							must(os.Chmod("d", 0o755))
						}()
						named, args, main := (*target)(nil), []string{cmd}, ""
						var ev []string
						if env.set {
							ev = []string{"LEDGER_FILE=" + env.name}
							named = &target{env.name, env.ok && !closed["env.journal"]}
							main = "env.journal"
						}
						if flag != "" {
							args = append(args, "-f", flag)
							named = &target{flag, !(flag == mainFile && closed[mainFile] || flag != mainFile && closed["d"])}
							main = flag
						}
						for i := range ev {
							ev[i] = strings.Replace(ev[i], "@", x.w.Scratch, 1)
						}
						o := x.Fresh(Case{Files: files, Raw: args, Env: append(ev, "X=1"), Nobody: true})
						what := fmt.Sprintf("%v gledger %q with %v closed", ev, args, closed)
						if c := o.Crashed(); c != "" {
							return Fail("%s: %s", what, c)
						}
						x.Outcome(cmd + o.Out)
						if named != nil && named.ok {
							r := refParse(files, main)
							x.Step(len(r.Txns))
							if err := judgeOf(cmd, "")(o, r.Txns); err != nil {
								return Fail("%s: %w", what, err)
							}
							return nil
						}
						all := o.Out + o.Stderr
						if strings.TrimSpace(all) == "" {
							return Fail("%s: no error, and nothing else", what)
						}
						for _, s := range []string{"Payee", "Acct", "Bank", "----", "Transactions", "No transactions"} {
							if strings.Contains(all, s) {
								return Fail("%s: the journal cannot be read, but there is a report:\n%s", what, clip(all))
							}
						}
						return nil
					})
				}
			}
		}
	}
	magicPart(e, checkCommands(allCommands...))
	askJournals := []map[string]string{files, {mainFile: "2020-01-01 Payee  ; n\n  Acct  £1\n  Bank\n\ninclude d/x\n", "d/x": "~ 2020-01\n  Cat  £3\n\n2020-01-02 * Other\n  Expenses:Cat  £2\n  Z  £0\n  Bank\n"}}
	var askCases []Case
	for _, cmd := range allCommands {
		askCases = append(askCases, Case{Cmd: cmd}, Case{Cmd: cmd, Args: []string{"Bank"}}, Case{Cmd: cmd, Raw: []string{cmd}, Env: []string{"LEDGER_FILE=" + mainFile}}, Case{Cmd: cmd, File: "=" + mainFile, Current: true})
	}
	for _, f := range []string{"d", ""} {
		askCases = append(askCases, Case{Cmd: "print", File: f}, Case{Cmd: "balance", Raw: []string{"balance"}, Env: []string{"LEDGER_FILE=" + f}})
	}
	askCases = append(askCases, Case{Cmd: "accounts", Raw: []string{"accounts"}})
	askPart(e, []string{"files", "two files"}, askJournals, askCases, func(what string, base, o Obs) error {
		if len(o.Touched) > 0 || len(base.Touched) > 0 {
			return Fail("%s changes files: %q %q", what, o.Touched, base.Touched)
		}
		if o.Out != base.Out || o.Exit != base.Exit {
			return Fail("%s: not the report of the journal that is asked for:\n--- which is\n%s--- but\n%s", what, clip(base.Out), clip(o.Out))
		}
		return nil
	})
	e.Part("nothing is written")
	// every call that would change the file system, wherever it is, seen in the library
	for _, cmd := range allCommands {
		for _, t := range targets {
			if strings.HasPrefix(t.name, "@") {
				continue
			}
			for _, extra := range []Case{{}, {Begin: "2020-01-01"}, {End: "2020-01-01"}, {Current: true}, {Args: []string{"Bank"}}, {Flat: true}, {Coll: true, Zero: true}, {Begin: "nonsense"}} {
				if !e.Mine() {
					e.Pass()
					continue
				}
				e.Do(func(x *X) error {
					c := extra
					c.Cmd, c.File, c.Files, c.Touch = cmd, t.name, files, true
					x.Key("touched by %s of %q %s %v", cmd, t.name, c.Begin, c.Args)
					o := x.Run(c)
					x.Step(1)
					x.State("touched", cmd, t.name, len(o.Touched))
					if len(o.Touched) > 0 {
						return Fail("%s of %s changes files: %q", cmd, t.name, o.Touched)
					}
					if bad := o.Crashed(); bad != "" {
						return Fail("%s of %s: %s", cmd, t.name, bad)
					}
					return nil
				})
			}
		}
	}
	e.Part("other commands read nothing")
	for _, args := range [][]string{{"version"}, {}, {"help"}, {"--help"}, {"print", "--help"}, {"nonsense"}, {"print", "--nonsense"}} {
		for ei, env := range envs {
			e.Do(func(x *X) error {
				x.Key("%q env %d", args, ei)
				var ev []string
				if env.set {
					ev = []string{"LEDGER_FILE=" + env.name}
				}
				x.w.layFiles(files)
				before := snapshot()
				o := x.Fresh(Case{Files: files, Raw: args, Env: append(ev, "X=1"), Stdin: input})
				if after := snapshot(); before != after {
					return Fail("gledger %q changed the files around it:\n--- before\n%s\n--- after\n%s", args, clip(before), clip(after))
				}
				if c := o.Crashed(); c != "" {
					return Fail("gledger %q: %s", args, c)
				}
				if strings.Contains(o.Out, "Payee") || strings.Contains(o.Out, "Acct") {
					return Fail("gledger %q shows a journal:\n%s", args, clip(o.Out))
				}
				return nil
			})
		}
	}
}

// normalFor leaves the transactions a command works on.
func normalFor(cmd string, ts []Txn) []Txn {
	if cmd == "budget" {
		return ts
	}
	return normalOf(ts)
}

// nobody tells whether cases can be run as an unprivileged user, and lets that user in.
func (w *Worker) nobody() bool {
	if w.nobodyOK == 0 {
		w.nobodyOK = -1
		parent := filepath.Dir(w.Scratch)
		if os.Chmod(parent, 0o711) == nil && os.Chmod(w.Scratch, 0o755) == nil {
			c := exec.Command(w.Gledger, "version")
			c.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: 65534, Gid: 65534}}
			if c.Run() == nil {
				w.nobodyOK = 1
			}
		}
	}
	return w.nobodyOK > 0
}
