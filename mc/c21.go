//go:build api

package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/rikchilvers/gledger/journal"
)

func init() {
	register(&Space{
		ID:   "C21",
		Rule: "all sequences of operations (create, find, unlink, prune, remove by matcher, remove empty, set an amount), from the root and from accounts below it, over small universes of paths, executed on journal.Account and on a reference (a set of paths with amounts); after every operation the whole hierarchy is compared: structure, identity, paths, components, lookups, leaves, sorted names, ancestors; and all reachable states of a two-name, three-level hierarchy, every operation from each",
		Bound: map[string]string{
			"odd names":    "every ordered pair of 124 (of 155) paths of up to 3 components out of a, b, A, a space and nothing, created, found, unlinked, pruned and removed in 3 orders",
			"widths":       "every operation on hierarchies of every width to 70 and some to 340",
			"richer trees": "4 trees with 4 to 9 siblings, then every sequence of 3 (thorough: 4) of 27 operations",
			"sequences":    "5 universes; length 4 (quick) / 5 (thorough) over 17..24 operations",
			"states":       "all hierarchies over names a, b to depth 3 (676), every operation from every state, each state built in 3 ways",
			"sizes":        "paths of every depth to 64, up to 300 children",
		},
		Run: runC21,
	})
}

// refTree is the reference: the accounts there are, with their amounts.
type refTree map[string]int64

func (t refTree) clone() refTree {
	c := refTree{}
	for k, v := range t {
		c[k] = v
	}
	return c
}

func (t refTree) String() string {
	var l []string
	for p, q := range t {
		l = append(l, fmt.Sprintf("%s=%d", p, q))
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

func under(p, of string) bool { return of == "" || p == of || strings.HasPrefix(p, of+":") }

func (t refTree) add(p string) {
	parts := strings.Split(p, ":")
	for i := range parts {
		q := strings.Join(parts[:i+1], ":")
		if _, ok := t[q]; !ok {
			t[q] = 0
		}
	}
}

func (t refTree) drop(p string) {
	for q := range t {
		if under(q, p) {
			delete(t, q)
		}
	}
}

// keep removes what is below `of` and neither matches nor has a descendant that does.
func (t refTree) keep(of string, match func(p string, q int64) bool) {
	var gone []string
	for p := range t {
		if !under(p, of) || p == of {
			continue
		}
		ok := false
		for d, q := range t {
			ok = ok || under(d, p) && match(d, q)
		}
		if !ok {
			gone = append(gone, p)
		}
	}
	for _, p := range gone {
		delete(t, p)
	}
}

func join(a, b string) string {
	if a == "" {
		return b
	}
	return a + ":" + b
}

func depthOf(p string) int {
	if p == "" {
		return 0
	}
	return strings.Count(p, ":") + 1
}

type world struct {
	root *journal.Account
	ref  refTree
	ids  map[string]*journal.Account
}

func newWorld(rootName string) *world {
	return &world{root: journal.NewAccount(rootName), ref: refTree{}, ids: map[string]*journal.Account{}}
}

// at gives the account of a path the reference has.
func (w *world) at(p string) *journal.Account {
	if p == "" {
		return w.root
	}
	return w.ids[p]
}

func (w *world) has(p string) bool {
	_, ok := w.ref[p]
	return ok || p == ""
}

type treeOp struct {
	name string
	do   func(w *world) error
}

func opCreate(from, p string) treeOp {
	return treeOp{"create " + p + " from " + from, func(w *world) error {
		if !w.has(from) {
			return nil
		}
		full := join(from, p)
		was, had := w.ids[full]
		comps := strings.Split(p, ":")
		a := w.at(from).FindOrCreateAccount(comps)
		if strings.Join(comps, ":") != p {
			return Fail("the components asked for were changed to %v", comps)
		}
		if a == nil {
			return Fail("no account")
		}
		if had && a != was {
			return Fail("an existing account is not found")
		}
		w.ref.add(full)
		if a.Path != full {
			return Fail("the account given is %q", a.Path)
		}
		return nil
	}}
}

func opUnlink(p string) treeOp {
	return treeOp{"unlink " + p, func(w *world) error {
		if !w.has(p) {
			return nil
		}
		a := w.at(p)
		kept := map[string]*journal.Account{}
		for n, c := range a.Children {
			kept[n] = c
		}
		a.Unlink()
		if p == "" {
			return nil
		}
		w.ref.drop(p)
		// what is unlinked is on its own, with all it had below it
		if a.Parent != nil || a.Head() != a {
			return Fail("an unlinked account still has a parent")
		}
		up := 0
		if err := a.WalkAncestors(func(*journal.Account) error { up++; return nil }); err != nil || up != 1 {
			return Fail("an unlinked account has %d ancestors", up-1)
		}
		if len(kept) != len(a.Children) {
			return Fail("an unlinked account had %d accounts below it and has %d", len(kept), len(a.Children))
		}
		for n, c := range kept {
			if a.Children[n] != c || c.Parent != a {
				return Fail("an unlinked account has lost %q", n)
			}
		}
		return nil
	}}
}

func opPrune(from string, depth int) treeOp {
	return treeOp{fmt.Sprintf("prune %s to %d", from, depth), func(w *world) error {
		if !w.has(from) {
			return nil
		}
		w.at(from).PruneChildren(depth, 0)
		for p := range w.ref {
			if under(p, from) && p != from && depthOf(p)-depthOf(from) > depth {
				delete(w.ref, p)
			}
		}
		return nil
	}}
}

func opRemove(from, what string, match func(p string, q int64) bool) treeOp {
	return treeOp{"keep in " + from + " " + what, func(w *world) error {
		if !w.has(from) {
			return nil
		}
		any := false
		for p, q := range w.ref {
			any = any || under(p, from) && match(p, q)
		}
		if from == "" {
			any = any || match("", 0)
		}
		got := w.at(from).RemoveChildren(func(a journal.Account) bool { return match(a.Path, a.Amount.Quantity) })
		if got != any {
			return Fail("reports %v, but whether anything matches is %v", got, any)
		}
		w.ref.keep(from, match)
		return nil
	}}
}

func opEmpty(from string) treeOp {
	return treeOp{"remove empty in " + from, func(w *world) error {
		if !w.has(from) {
			return nil
		}
		w.at(from).RemoveEmptyChildren()
		w.ref.keep(from, func(_ string, q int64) bool { return q != 0 })
		return nil
	}}
}

func opSet(p string, q int64) treeOp {
	return treeOp{fmt.Sprintf("set %s to %d", p, q), func(w *world) error {
		if !w.has(p) {
			return nil
		}
		w.at(p).Amount.Quantity = q
		w.ref[p] = q
		return nil
	}}
}

// check compares everything reachable with the reference.
func (w *world) check() error {
	seen := map[string]*journal.Account{}
	var walk func(a *journal.Account, path string, chain []*journal.Account) error
	walk = func(a *journal.Account, path string, chain []*journal.Account) error {
		if len(chain) > 200 {
			return Fail("%q: the hierarchy does not end", path)
		}
		names := a.SortedChildNames()
		if !sort.StringsAreSorted(names) || len(names) != len(a.Children) {
			return Fail("sorted names of %q are %v", path, names)
		}
		chain = append(chain, a)
		var up []*journal.Account
		if err := a.WalkAncestors(func(b *journal.Account) error { up = append(up, b); return nil }); err != nil {
			return err
		}
		if len(up) != len(chain) {
			return Fail("%q has %d ancestors", path, len(up))
		}
		for i := range up {
			if up[i] != chain[len(chain)-1-i] {
				return Fail("ancestor %d of %q is %q", i, path, up[i].Name)
			}
		}
		if len(chain) > 1 && a.Head() != chain[1] {
			return Fail("the head of %q is %q", path, a.Head().Name)
		}
		for _, n := range names {
			c, ok := a.Children[n]
			if !ok {
				return Fail("%q lists %q, which it does not have", path, n)
			}
			p := join(path, n)
			switch {
			case c.Name != n:
				return Fail("%q is under the name %q", c.Name, p)
			case c.Parent != a:
				return Fail("%q does not have its parent", p)
			case c.Path != p:
				return Fail("%q has the path %q", p, c.Path)
			case strings.Join(c.PathComponents, ":") != p || len(c.PathComponents) != depthOf(p):
				return Fail("%q has the components %v", p, c.PathComponents)
			case c.CreatePath() != p:
				return Fail("%q creates the path %q", p, c.CreatePath())
			}
			q, ok := w.ref[p]
			if !ok {
				return Fail("%q should not be there", p)
			}
			if c.Amount.Quantity != q {
				return Fail("%q has the amount %d, not %d", p, c.Amount.Quantity, q)
			}
			if old, ok := w.ids[p]; ok && old != c {
				return Fail("%q is another account than before", p)
			}
			seen[p] = c
			if err := walk(c, p, chain); err != nil {
				return err
			}
		}
		return nil
	}
	if err := walk(w.root, "", nil); err != nil {
		return err
	}
	for p := range w.ref {
		if seen[p] == nil {
			return Fail("%q is missing", p)
		}
	}
	w.ids = seen
	leaves := map[*journal.Account]string{}
	for p, a := range seen {
		leaf := true
		for q := range w.ref {
			leaf = leaf && (q == p || !under(q, p))
		}
		if leaf {
			leaves[a] = p
		}
	}
	if len(w.ref) == 0 {
		leaves[w.root] = ""
	}
	got := w.root.Leaves()
	if len(got) != len(leaves) {
		return Fail("there are %d leaves, but %d are given", len(leaves), len(got))
	}
	dup := map[*journal.Account]bool{}
	for _, a := range got {
		if _, ok := leaves[a]; !ok || dup[a] {
			return Fail("%q is given as a leaf (again: %v)", a.Path, dup[a])
		}
		dup[a] = true
	}
	if n := len(w.root.FindAccounts(func(journal.Account) bool { return true })); n != len(w.ref)+1 {
		return Fail("finding all gives %d accounts of %d", n, len(w.ref)+1)
	}
	for p, a := range seen {
		if f := w.root.FindOrCreateAccount(append([]string(nil), a.PathComponents...)); f != a {
			return Fail("finding %q by its components gives another account", p)
		}
		if f := w.root.FindAccounts(func(b journal.Account) bool { return b.Path == p }); len(f) != 1 || f[0] != a {
			return Fail("finding %q by its path gives %d accounts", p, len(f))
		}
	}
	return nil
}

func (w *world) apply(o treeOp, trail []string) error {
	if err := o.do(w); err != nil {
		return Fail("%s: %s: %w", strings.Join(trail, ", "), o.name, err)
	}
	if err := w.check(); err != nil {
		return Fail("after %s, %s: %w", strings.Join(trail, ", "), o.name, err)
	}
	return nil
}

func matchPath(s string) func(string, int64) bool {
	return func(p string, _ int64) bool { return p == s }
}

func matchLast(s string) func(string, int64) bool {
	return func(p string, _ int64) bool { return p == s || strings.HasSuffix(p, ":"+s) }
}

func never(string, int64) bool  { return false }
func always(string, int64) bool { return true }

func runC21(e *E) {
	universes := [][]treeOp{
		{ // two names, three levels
			opCreate("", "a"), opCreate("", "b"), opCreate("", "a:a"), opCreate("", "a:b"), opCreate("", "a:b:a"), opCreate("", "a:b:b"), opCreate("", "b:a"), opCreate("a", "b"), opCreate("a:b", "c"),
			opUnlink("a"), opUnlink("a:b"), opUnlink("a:b:a"), opPrune("", 1), opPrune("", 2), opPrune("a", 1),
			opRemove("", "a", matchLast("a")), opRemove("", "a:b", matchPath("a:b")), opRemove("a", "nothing", never), opSet("a:b", 1), opSet("b", -1), opSet("a", 5), opEmpty(""), opEmpty("a"),
		},
		{ // deep siblings
			opCreate("", "a:b:c"), opCreate("", "a:b:c:d"), opCreate("", "a:b:c:e"), opCreate("", "a:b:c:d:f"), opCreate("", "a:b:c:d:g"), opCreate("", "a:b:c:d:f:h"), opCreate("", "a:b:c:e:f:g:h:i:j"), opCreate("a:b:c:e:f:g:h", "i:k"),
			opCreate("a:b:c", "d:f"), opCreate("a:b:c:d", "k:l"), opCreate("a:b:c:d", "k:m"), opUnlink("a:b:c:d"), opUnlink("a:b"), opPrune("", 4), opPrune("a:b:c", 1), opRemove("", "f", matchLast("f")), opRemove("", "h", matchLast("h")),
			opSet("a:b:c:e", 3), opEmpty(""),
		},
		{ // names that look alike
			opCreate("", "a"), opCreate("", "aa"), opCreate("", "A"), opCreate("", "a:aa"), opCreate("", "aa:a"), opCreate("", "a "), opCreate("", "a b:a"), opCreate("", "é"), opCreate("", "a:a:a"), opCreate("a", "a"), opCreate("", "a:"),
			opUnlink("a"), opUnlink("aa"), opPrune("", 1), opRemove("", "a:a", matchPath("a:a")), opRemove("", "aa", matchLast("aa")), opRemove("", "é", matchPath("é")), opSet("aa:a", 2), opEmpty(""),
		},
		{ // amounts
			opCreate("", "x:y"), opCreate("", "x:z"), opCreate("", "w"), opCreate("", "x:y:v"),
			opSet("x", 1), opSet("x", 0), opSet("x:y", 2), opSet("x:y", 0), opSet("x:z", -2), opSet("w", 4), opSet("x:y:v", -1), opSet("x:y:v", 0),
			opEmpty(""), opEmpty("x"), opEmpty("x:y"), opRemove("", "x:y", matchPath("x:y")), opRemove("", "positive", func(_ string, q int64) bool { return q > 0 }), opRemove("x", "negative", func(_ string, q int64) bool { return q < 0 }), opUnlink("x:y"), opPrune("", 1),
		},
		{ // pruning
			opCreate("", "a:b:c:d"), opCreate("", "a:c"), opCreate("", "b:c:d"), opCreate("", "b:d"), opCreate("", "c"), opPrune("", 0), opPrune("", 1), opPrune("", 2), opPrune("", 3), opPrune("", 9), opPrune("a", 0), opPrune("a", 1), opPrune("a", 2), opPrune("b:c", 0),
			opRemove("", "nothing", never), opRemove("", "everything", always), opUnlink("a:b"), opUnlink("b"), opUnlink(""), opCreate("b", "c:d"),
		},
	}
	depth := 4
	if e.Thorough {
		depth = 5
	}
	for ui, ops := range universes {
		for _, rootName := range []string{journal.RootID, journal.BudgetRootID} {
			if rootName == journal.BudgetRootID && ui > 1 && !e.Thorough {
				continue
			}
			d := depth
			if rootName == journal.BudgetRootID {
				d = 3
			}
			e.Part(fmt.Sprintf("sequences of universe %d", ui))
			seqs(len(ops), 2, 2, func(ix []int) {
				if !e.Mine() {
					e.Pass()
					return
				}
				head := append([]int(nil), ix...)
				e.Do(func(x *X) error {
					x.Key("universe %d %s: %s, %s", ui, rootName, ops[head[0]].name, ops[head[1]].name)
					x.Sample(x.key)
					var err error
					seqs(len(ops), d-2, d-2, func(rest []int) {
						if err != nil {
							return
						}
						w := newWorld(rootName)
						var trail []string
						for k, i := range append(append([]int(nil), head...), rest...) {
							// the state after a prefix was checked with the first sequence that has it
							o := ops[i]
							if !firstWith(rest, k-2) {
								if err = o.do(w); err == nil {
									w.refresh()
								}
							} else {
								x.Step(1)
								err = w.apply(o, trail)
								x.State(ui, rootName, w.ref.String())
							}
							if err != nil {
								return
							}
							trail = append(trail, o.name)
						}
						x.Trace(1)
						x.Outcome(w.ref.String())
					})
					return err
				})
			})
		}
	}

	e.Part("sequences from richer trees")
	wide := []treeOp{
		opCreate("", "a"), opCreate("", "b"), opCreate("", "e"), opCreate("", "p:a"), opCreate("", "p:b"), opCreate("", "p:e"), opCreate("", "p:f:g"), opCreate("p", "h"), opCreate("", "p:c:x"), opCreate("", "p:c:y"),
		opUnlink("a"), opUnlink("b"), opUnlink("p:a"), opUnlink("p:b"), opUnlink("p:c"), opUnlink("p:d"), opUnlink("p:c:x"),
		opSet("p:b", 3), opSet("p:c", 0), opSet("p:c:z", 2), opEmpty(""), opEmpty("p"), opPrune("", 1), opPrune("p", 1), opRemove("", "b", matchLast("b")), opRemove("p", "c", matchLast("c")), opRemove("", "nothing", never),
	}
	var seeds [][]treeOp
	grow := func(ps ...string) {
		var l []treeOp
		for _, p := range ps {
			l = append(l, opCreate("", p))
		}
		seeds = append(seeds, l)
	}
	grow("a", "b", "c", "d", "p:a", "p:b", "p:c", "p:d")
	grow("p:d", "p:c", "p:b", "p:a", "p:c:x", "p:c:y", "p:c:z", "p:c:w")
	grow("c", "p:c:z:1", "p:c:z:2", "p:c:z:3", "p:b:q", "d", "p:e", "z", "y", "x", "w", "v", "u")
	grow("p:a:b:c", "p:b:c:a", "p:c:a:b", "a:p", "b:p", "c:p")
	length := 3
	if e.Thorough {
		length = 4
	}
	for si, seed := range seeds {
		for fi := 0; fi < 2*len(wide); fi++ {
			if !e.Mine() {
				e.Pass()
				continue
			}
			first, quiet := wide[fi/2], fi%2 == 1
			e.Do(func(x *X) error {
				x.Key("tree %d, then %s, quiet %v", si, first.name, quiet)
				var err error
				seqs(len(wide), length-1, length-1, func(ix []int) {
					if err != nil {
						return
					}
					w := newWorld(journal.RootID)
					var trail []string
					for k, o := range append(append([]treeOp(nil), seed...), first) {
						// looked at now and then while it grows, as the caches a tree may have would be
						if k%3 == 2 || k == len(seed)-1 || k == len(seed) && !quiet {
							err = w.apply(o, trail)
						} else if err = o.do(w); err == nil {
							w.refresh()
						}
						if err != nil {
							return
						}
						trail = append(trail, o.name)
					}
					for k, i := range ix {
						// looked at after every operation, or only after the last
						if quiet && k < len(ix)-1 {
							if err = wide[i].do(w); err == nil {
								w.refresh()
							}
						} else {
							err = w.apply(wide[i], trail)
						}
						if err != nil {
							return
						}
						x.Step(1)
						trail = append(trail, wide[i].name)
						x.State("wide", w.ref.String())
					}
					x.Trace(1)
				})
				return err
			})
		}
	}

	e.Part("every operation from every state")
	// all prefix-closed sets of paths over a, b to depth 3
	names := []string{"a", "b"}
	var trees func(prefix string, d int) [][]string
	trees = func(prefix string, d int) [][]string {
		if d == 0 {
			return [][]string{nil}
		}
		out := [][]string{nil}
		for _, n := range names {
			p := join(prefix, n)
			var with [][]string
			for _, sub := range trees(p, d-1) {
				with = append(with, append([]string{p}, sub...))
			}
			var next [][]string
			for _, o := range out {
				next = append(next, o)
				for _, t := range with {
					next = append(next, append(append([]string(nil), o...), t...))
				}
			}
			out = next
		}
		return out
	}
	var all []string
	strs([]string{"a", "b"}, 1, 3, func(s string) { all = append(all, strings.Join(strings.Split(s, ""), ":")) })
	var every []treeOp
	for _, p := range all {
		every = append(every, opCreate("", p), opUnlink(p), opSet(p, 1), opEmpty(p), opRemove("", p, matchPath(p)), opPrune(p, 0), opPrune(p, 1))
		for _, q := range all {
			if depthOf(q) > 1 && strings.HasPrefix(q, p+":") {
				every = append(every, opCreate(p, strings.TrimPrefix(q, p+":")))
			}
		}
	}
	every = append(every, opPrune("", 0), opPrune("", 1), opPrune("", 2), opPrune("", 3), opEmpty(""), opRemove("", "nothing", never), opRemove("", "all", always), opRemove("", "a", matchLast("a")), opRemove("", "b", matchLast("b")))
	for ti, t := range trees("", 3) {
		for how := 0; how < 3; how++ {
			if !e.Mine() {
				e.Pass()
				continue
			}
			e.Do(func(x *X) error {
				x.Key("tree %d built in way %d: %v", ti, how, t)
				build := func() (*world, error) {
					w := newWorld(journal.RootID)
					switch how {
					case 0: // from the top
						for _, p := range t {
							opCreate("", p).do(w)
						}
					case 1: // leaves first, in reverse
						for i := len(t) - 1; i >= 0; i-- {
							opCreate("", t[i]).do(w)
						}
					case 2: // the full tree, less what is not in it
						for _, p := range all {
							opCreate("", p).do(w)
						}
						w.refresh()
						in := map[string]bool{}
						for _, p := range t {
							in[p] = true
						}
						for _, p := range all {
							if !in[p] && w.has(p) {
								opUnlink(p).do(w)
							}
						}
					}
					w.refresh()
					return w, w.check()
				}
				for _, o := range every {
					w, err := build()
					if err != nil {
						return Fail("%v: %w", t, err)
					}
					if len(t) > 0 {
						// an amount somewhere, so that something is worth keeping
						opSet(t[len(t)/2], 7).do(w)
					}
					if err := w.apply(o, []string{fmt.Sprint(t)}); err != nil {
						return err
					}
					x.Trace(1)
					x.Step(1)
					x.State("every", w.ref.String())
				}
				return nil
			})
		}
	}

	e.Part("odd names")
	var odd []string
	seqs(5, 1, 3, func(ix []int) {
		var l []string
		for _, i := range ix {
			l = append(l, []string{"a", "", " ", "A", "b"}[i])
		}
		if l[0] != "" { // the reference gives the root the path ""
			odd = append(odd, strings.Join(l, ":"))
		}
	})
	for i := range odd {
		for j := range odd {
			if !e.Mine() {
				e.Pass()
				continue
			}
			e.Do(func(x *X) error {
				x.Key("names %q %q", odd[i], odd[j])
				for variant := 0; variant < 3; variant++ {
					w := newWorld(journal.RootID)
					ops := []treeOp{opCreate("", odd[i]), opCreate("", odd[j]), opCreate("", odd[i])}
					switch variant {
					case 0:
						ops = append(ops, opCreate(odd[i], odd[j]), opSet(odd[j], 3), opEmpty(""))
					case 1:
						ops = append(ops, opUnlink(odd[j]), opCreate("", join(odd[i], "x")), opCreate("", odd[j]))
					case 2:
						ops = append(ops, opPrune("", 1), opCreate("", odd[j]), opRemove("", odd[j], matchPath(odd[j])))
					}
					for _, o := range ops {
						if err := w.apply(o, nil); err != nil {
							return err
						}
						x.Step(1)
					}
					x.Trace(1)
				}
				return nil
			})
		}
	}

	e.Part("sizes")
	for d := 1; d <= 64; d++ {
		e.Do(func(x *X) error {
			x.Key("depth %d", d)
			w := newWorld(journal.RootID)
			var parts []string
			for i := 0; i < d; i++ {
				parts = append(parts, fmt.Sprintf("n%d", i))
			}
			p := strings.Join(parts, ":")
			x.Trace(1)
			x.Step(4 + d)
			for _, o := range []treeOp{opCreate("", p), opCreate("", join(p, "x")), opCreate("", join(p, "y")), opSet(p, 1)} {
				if err := w.apply(o, nil); err != nil {
					return err
				}
			}
			for i := 1; i <= d; i++ {
				if err := w.apply(opCreate("", strings.Join(parts[:i], ":")+":z"), nil); err != nil {
					return err
				}
			}
			for _, o := range []treeOp{opEmpty(""), opPrune("", d/2), opCreate("", p)} {
				if err := w.apply(o, nil); err != nil {
					return err
				}
			}
			return nil
		})
	}
	// every operation on wide hierarchies, of every width
	for n := 1; n <= 340; n++ {
		if n > 70 && n%16 > 1 && n%100 > 1 {
			continue
		}
		e.Do(func(x *X) error {
			x.Key("every operation on %d children", n)
			build := func() *world {
				w := newWorld(journal.RootID)
				for i := 0; i < n; i++ {
					opCreate("", fmt.Sprintf("p:c%d", i)).do(w)
					if i%2 == 0 {
						opCreate("", fmt.Sprintf("p:c%d:d%d:e", i, i%3)).do(w)
					}
					if i%3 == 0 {
						opCreate("", fmt.Sprintf("q%d", i)).do(w)
					}
				}
				w.refresh()
				for i := 0; i < n; i += 5 {
					opSet(fmt.Sprintf("p:c%d", i), int64(i)).do(w)
				}
				return w
			}
			last := fmt.Sprintf("p:c%d", n-1)
			ops := []treeOp{opPrune("", 0), opPrune("", 1), opPrune("", 2), opPrune("", 3), opPrune("p", 0), opPrune("p", 1), opPrune("p", 2), opEmpty(""), opEmpty("p"), opRemove("", "nothing", never), opRemove("", "all", always), opRemove("", "one", matchPath(last)), opRemove("p", "the first", matchPath("p:c0")), opRemove("", "e", matchLast("e")), opUnlink("p"), opUnlink(last), opUnlink("p:c0"), opCreate("p", "new:x"), opSet(last, 9)}
			for i, o := range ops {
				if n > 70 && (i+n)%4 > 0 {
					continue
				}
				w := build()
				if err := w.apply(o, []string{fmt.Sprint(n)}); err != nil {
					return err
				}
				// and another after it
				if err := w.apply(opCreate("", "p:c0:d0:e"), []string{fmt.Sprint(n)}); err != nil {
					return err
				}
				x.Trace(1)
				x.Step(2)
			}
			return nil
		})
	}
	for n := 1; n <= 300; n += 13 {
		e.Do(func(x *X) error {
			x.Key("%d children", n)
			w := newWorld(journal.RootID)
			x.Trace(1)
			x.Step(n + 2)
			for i := 0; i < n; i++ {
				p := fmt.Sprintf("p:c%d", i)
				opCreate("", p).do(w)
				w.refresh()
				if i%3 == 0 {
					opSet(p, int64(i)).do(w)
				}
			}
			for _, o := range []treeOp{opCreate("", "p:c0:d"), opRemove("", "c1", matchPath("p:c1")), opCreate("", "p:c0:d"), opSet("p:c1", 3), opEmpty("")} {
				if err := w.apply(o, nil); err != nil {
					return err
				}
			}
			return nil
		})
	}
}

// refresh takes over the accounts there are, without checking them.
func (w *world) refresh() {
	ids := map[string]*journal.Account{}
	var walk func(a *journal.Account, p string, d int)
	walk = func(a *journal.Account, p string, d int) {
		if d > 200 {
			return
		}
		for n, c := range a.Children {
			ids[join(p, n)] = c
			walk(c, join(p, n), d+1)
		}
	}
	walk(w.root, "", 0)
	w.ids = ids
}

// firstWith tells whether everything after position k of a sequence is zero, so that this is the
// first sequence with this prefix.
func firstWith(s []int, k int) bool {
	for i := range s {
		if i > k && s[i] != 0 {
			return false
		}
	}
	return true
}
