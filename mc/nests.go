package main

import (
	"fmt"
	"strings"
)

const nestsBound = "each of 10 bodies (balanced, off balance, two omitted, bare, an account in error, a period...) with 5 endings, after each of 5 and before each of 7 entries, in the main file or one included through 1..3 files, each of which goes on in one of 4 ways"

// nestPart puts a body in every surrounding, at every depth of inclusion.
func nestPart(e *E, check func(x *X, files map[string]string) error) {
	e.Part("surroundings and depths")
	bodies := []string{
		"2020-01-05 t\n  A  1\n  B  -1",
		"2020-01-05 t\n  A  1\n  B",
		"2020-01-05 t\n  A  1\n  B  -2",
		"2020-01-05 t\n  A\n  B",
		"2020-01-05 t\n  A  1",
		"2020-01-05 t",
		"2020-01-05 t\n  A  x",
		"~ 2020-02\n  F  1",
		"~ 2020-02",
		"  ; stray",
	}
	tails := []string{"\n", "", "\n  ; n\n", "  ; c\n", "\n; k\n"}
	befores := []string{"", "2020-01-04 b\n  C  4\n  D\n", "~ 2020-01\n  G  3\n", "; k\n", "include s\n"}
	afters := []string{"", "\n", "2020-01-06 a\n  E  5\n  F\n", "~ 2020-03\n  H  2\n", "include s\n", "; k\n", "  I  6\n"}
	rests := []string{"", "2020-01-07 r\n  J  7\n  K\n", "\n~ 2020-04\n  L  8\n", "  ; after\n\n"}
	product([]int{4, len(bodies), len(tails), len(befores), len(afters), len(rests)}, func(ix []int) {
		if ix[0] == 0 && ix[5] > 0 || ix[2] == 1 && ix[4] > 0 {
			return
		}
		if !e.Mine() {
			e.Pass()
			return
		}
		text := befores[ix[3]] + bodies[ix[1]] + tails[ix[2]] + afters[ix[4]]
		files := map[string]string{"s": "2020-01-03 s\n  S  9\n  T"}
		name := mainFile
		for d := 0; d < ix[0]; d++ {
			next := fmt.Sprintf("f%d", d)
			outer := fmt.Sprintf("include %s\n", next)
			if d == ix[0]-1 || d%2 == 1 {
				outer = []string{"", "2020-01-01 o\n  M  1\n  N\n"}[(ix[3]+d)%2] + outer + rests[ix[5]]
			}
			if ix[5] == 0 && ix[4]%2 == 0 {
				outer = strings.TrimSuffix(outer, "\n")
			}
			files[name] = outer
			name = next
		}
		files[name] = text
		e.Do(func(x *X) error {
			x.Key("surroundings %v", ix)
			return check(x, files)
		})
	})
}

// located runs commands on a journal in error, whose messages must lead to it; and on any other
// journal that no error is reported.
func located(cmds ...Case) func(x *X, files map[string]string) error {
	return func(x *X, files map[string]string) error {
		r := x.parsed(files)
		if r.Odd != "" {
			return nil
		}
		for _, c := range cmds {
			c.Files = files
			o := x.Run(c)
			what := strings.Join(c.argv(false), " ")
			if why := o.Crashed(); why != "" {
				return Fail("%s: %s", what, why)
			}
			if r.Err == nil {
				if o.Rejected() {
					return Fail("%s: a valid journal is rejected: %s", what, clip(o.Out))
				}
				continue
			}
			if err := ExpectReject(o, what); err != nil {
				return err
			}
			if err := checkLocation(o, r.Err, what); err != nil {
				return err
			}
			x.Outcome(fmt.Sprint(errorLocs(o.Out)))
		}
		return nil
	}
}
