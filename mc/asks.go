package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"syscall"
)

const asksBound = "whatever else a run asks the system for (variables, files and links, seen in the standard library by a seam, also before main, and also what a run with a variable set asks for besides): each variable with 24 values, each path with 9 kinds of file, directory and link"

// askedBefore is what was asked for while packages were initialised.
var askedBefore [][2]string

// stopAsks is called when main begins.
func stopAsks() {
	askedBefore = syscall.VerifAsked
	syscall.VerifAsk = func(kind, name string) {}
}

// asked gives the variables and the files that a run of a case asks for, besides the journal.
func (x *X) asked(c Case) (vars, paths []string) {
	var all [][2]string
	all = append(all, askedBefore...)
	for _, kv := range c.Env {
		k, v, _ := strings.Cut(kv, "=")
		old, had := os.LookupEnv(k)
		os.Setenv(k, v)
		defer func() {
			if had {
				os.Setenv(k, old)
			} else {
				os.Unsetenv(k)
			}
		}()
	}
	x.w.onAsk = func(kind, name string) { all = append(all, [2]string{kind, name}) }
	x.w.runHere(c)
	x.w.onAsk = nil
	seen := map[string]bool{}
	for _, a := range all {
		name := a[1]
		if a[0] == "path" {
			if !filepath.IsAbs(name) {
				name = filepath.Join(x.w.Scratch, c.Dir, name)
			}
			rel, ok := strings.CutPrefix(filepath.Clean(name), x.w.Scratch+"/")
			if !ok {
				continue // not to be changed
			}
			name = rel
			if _, there := c.Files[name]; there || len(name) > 200 {
				continue
			}
			if _, err := os.Lstat(name); err == nil {
				continue
			}
		} else if name == "" || name == "LEDGER_FILE" || name == "TZ" || name == "ZONEINFO" || strings.HasPrefix(name, "GO") || strings.HasPrefix(name, "MC_") {
			continue
		}
		if seen[a[0]+name] {
			continue
		}
		seen[a[0]+name] = true
		if a[0] == "path" {
			paths = append(paths, name)
		} else {
			vars = append(vars, name)
		}
	}
	return vars, paths
}

// askPart gives a run every answer to what it asks for, whatever that is: the report must not
// depend on any, nor may any file be changed.
func askPart(e *E, journals []string, all []map[string]string, cases []Case, judge func(what string, base, o Obs) error) {
	e.Part("what a run asks for")
	for j, name := range journals {
		for ci := range cases {
			if !e.Mine() {
				e.Pass()
				continue
			}
			e.Do(func(x *X) error {
				c := cases[ci]
				c.Files, c.Now, c.Touch = all[j], baseNow, true
				what := strings.Join(c.argv(false), " ")
				x.Key("%s: %s, answers", name, what)
				base := x.Fresh(c)
				x.Outcome(base.Out)
				tried := map[string]bool{}
				try := func(c Case, how string) error {
					x.Step(1)
					x.State(name, what, how)
					return judge(fmt.Sprintf("%s: %s", what, how), base, x.Fresh(c))
				}
				files := func(c Case, paths []string, how string) error {
					for _, p := range paths {
						if tried[p] || x.w.below(p) {
							continue
						}
						tried[p] = true
						for k, content := range []string{c.Files[mainFile], "", "x\n", "2020-01-01 Other\n  O  1\n  P\n", "{\"show-zero\": true, \"file\": \"m.journal\"}\n", "[default]\nfile = m.journal\nshow-zero = true\nflatten = true\n", linkMark + mainFile, linkMark + "nope", "/dir"} {
							d := c
							d.Files = map[string]string{}
							for k, v := range c.Files {
								d.Files[k] = v
							}
							if content == "/dir" {
								d.Files[p+"/x"] = "x\n"
							} else {
								d.Files[p] = content
							}
							if err := try(d, fmt.Sprintf("%swith a file %s of kind %d", how, p, k)); err != nil {
								return err
							}
						}
						must(os.RemoveAll(filepath.Join(x.w.Scratch, p)))
					}
					return nil
				}
				vars, paths := x.asked(c)
				if err := files(c, paths, ""); err != nil {
					return err
				}
				for _, v := range vars {
					for _, val := range []string{"", "0", "1", "2", "3", "10", "40", "80", "-1", "true", "false", "yes", "no", "on", "off", "never", "always", "C", "de_DE.UTF-8", mainFile, "2020-01-02", "%Y", x.w.Scratch, "/nope"} {
						d := c
						d.Env = append(append([]string(nil), c.Env...), v+"="+val)
						if err := try(d, "with "+v+"="+val); err != nil {
							return err
						}
						_, more := x.asked(d)
						if err := files(d, more, "with "+v+"="+val+", "); err != nil {
							return err
						}
					}
				}
				return nil
			})
		}
	}
}

// below tells whether a path leads through a file.
func (w *Worker) below(p string) bool {
	for d := filepath.Dir(p); d != "."; d = filepath.Dir(d) {
		if i, err := os.Stat(d); err == nil && !i.IsDir() {
			return true
		}
	}
	return false
}

const sameAsksBound = "a journal with everything in it, each command with its flags and filters: every environment variable the run looks up with each of 24 values, and every file it looks for with each of 9 contents (none on the unchanged tree but the journal's)"

const askJournal = `2019-12-31 * Opening  ; start
    Assets:Bank    £100.00
    Equity
2020-01-02 ! Shop
    ; weekly
    Expenses:Food:Fruit    £10.50  ; apples
    Expenses:Food    £-0.50
    Assets:Bank

2020-01-02 Work
    Assets:Bank    £2,000
    Income:Job

~ 2020-01
    Food    £100
    Rent    £650

include d/sub
2021-03-01 Shop
    Expenses:Rent    £650
    Assets:Bank    £-650.00
2020-01-01 early
    a:b    £0
    a:c    £1234567.89
    a
`

// askSame has the reports of the property's commands be the same whatever the environment says.
func askSame(e *E, cmds ...string) {
	files := map[string]string{mainFile: strings.Replace(askJournal, "2,000", "2000", 1), "d/sub": "2020-02-29 * Zoo\n  Expenses:Fun  £3.33\n  Assets:Cash\n"}
	var cases []Case
	for _, cmd := range cmds {
		cases = append(cases, Case{Cmd: cmd}, Case{Cmd: cmd, Args: []string{"Food"}}, Case{Cmd: cmd, Args: []string{"shop", "B"}}, Case{Cmd: cmd, Begin: "2020-01-02"}, Case{Cmd: cmd, End: "2020/02", Args: []string{"a"}}, Case{Cmd: cmd, Begin: "06/22"})
		if cmd == "balance" {
			cases = append(cases, Case{Cmd: cmd, Flat: true}, Case{Cmd: cmd, Coll: true, Zero: true})
		}
	}
	bad := map[string]string{mainFile: askJournal}
	all := []map[string]string{files, bad}
	askPart(e, []string{"good", "bad"}, all, cases, func(what string, base, o Obs) error {
		if why := o.Crashed(); why != "" {
			return Fail("%s: %s", what, why)
		}
		if o.Out != base.Out || o.Exit != base.Exit {
			return Fail("%s: not what it is without\n--- without\n%s\n--- with\n%s", what, clip(base.Out), clip(o.Out))
		}
		return nil
	})
}
