// Command mc model-checks gledger: each property is a bounded space of behaviours (journals, flag
// values, environment answers, operation sequences) that is enumerated completely, every element
// being executed on the real code and compared with a reference model written here.
package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"os"
	"sort"
	"strings"
	"syscall"
	"time"
)

// Case is one run of a gledger command.
type Case struct {
	Files   map[string]string `json:"files,omitempty"` // relative path -> content
	Cmd     string            `json:"cmd"`
	File    string            `json:"file,omitempty"` // -f; defaults to "m.journal"; "=x" is the absolute path of x
	Dir     string            `json:"dir,omitempty"`  // the working directory, below that of the files
	Begin   string            `json:"begin,omitempty"`
	End     string            `json:"end,omitempty"`
	Current bool              `json:"current,omitempty"`
	Flat    bool              `json:"flat,omitempty"`
	Coll    bool              `json:"collapse,omitempty"`
	Zero    bool              `json:"zero,omitempty"`
	Args    []string          `json:"args,omitempty"`   // positional
	Raw     []string          `json:"raw,omitempty"`    // if set, the whole command line (fresh process only)
	TZ      string            `json:"tz,omitempty"`     // IANA zone; "" is UTC
	Now     int64             `json:"now,omitempty"`    // unix seconds the clock shows; 0 is baseNow
	Maps    []int             `json:"maps,omitempty"`   // map-iteration choices (see seams.go)
	Env     []string          `json:"env,omitempty"`    // extra environment (fresh process only)
	Stdin   string            `json:"stdin,omitempty"`  // what there is to read (fresh process only)
	Nobody  bool              `json:"nobody,omitempty"` // as an unprivileged user (fresh process only)
	Mtime   int64             `json:"mtime,omitempty"`  // when the files were last changed, in unix seconds
	Mode    uint32            `json:"mode,omitempty"`   // the mode of the files
	Touch   bool              `json:"touch,omitempty"`  // record what the run does to the file system
	Nanos   int               `json:"nanos,omitempty"`  // what the clock shows of the next second
	Pid     int               `json:"pid,omitempty"`    // the number of the process
	Rand    int               `json:"rand,omitempty"`   // which random numbers there are (see seams.go)
	Seed    int               `json:"seed,omitempty"`   // which placement of maps' entries
	Output  string            `json:"output,omitempty"` // what standard output is (fresh process only; see output.go)
	Via     string            `json:"via,omitempty"`    // a line of bash that runs "$@" (fresh process only)
}

// baseNow is what the clock shows unless a case says otherwise: 2023-06-15 12:00:00 UTC.
const baseNow = 1686830400

// Obs is what a run showed.
type Obs struct {
	Out     string   `json:"out"`
	Panic   string   `json:"panic,omitempty"`
	Exit    int      `json:"exit,omitempty"`
	Timeout bool     `json:"timeout,omitempty"`
	Stderr  string   `json:"stderr,omitempty"`
	Points  int      `json:"-"`                 // map iterations seen (in process, when controlled)
	Touched []string `json:"touched,omitempty"` // what it opened for writing, created, renamed...
}

// Crashed tells whether the run ended other than by returning or exiting.
func (o Obs) Crashed() string {
	switch {
	case o.Timeout:
		return "the command did not end"
	case o.Panic != "":
		return "panic: " + o.Panic
	case strings.Contains(o.Out, "PANIC="):
		return "a value's String method panicked"
	case strings.Contains(o.Out, "%!") && strings.Contains(o.Out, "(BADINDEX)"):
		return "bad format"
	case o.Exit != 0 && o.Exit != 1:
		return fmt.Sprintf("exit status %d: %s", o.Exit, firstLines(o.Stderr, 3))
	}
	return ""
}

// Rejected tells whether the output is an error message rather than a report. Every command
// prints errors in the form of a first line that starts with "error" or names the failed operation.
func (o Obs) Rejected() bool {
	if o.Exit == 1 {
		return true
	}
	return strings.HasPrefix(o.Out, "error ")
}

func firstLines(s string, n int) string {
	l := strings.SplitN(s, "\n", n+1)
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, " | ")
}

type runRec struct {
	Case Case `json:"case"`
	Obs  Obs  `json:"obs"`
}

// X is the execution context of one item of a space.
type X struct {
	w     *Worker
	fresh bool
	key   string
	trail []runRec
}

// Key names the item, for known findings and replays.
func (x *X) Key(format string, a ...interface{}) {
	if len(a) == 0 {
		x.key = format
	} else {
		x.key = fmt.Sprintf(format, a...)
	}
}

// Run runs a case on the real code.
func (x *X) Run(c Case) Obs {
	x.w.Traces++
	if c.Current && c.Now == 0 { // the real program would see the real clock
		c.Now = baseNow
	}
	var o Obs
	if x.fresh || c.Raw != nil || len(c.Env) > 0 {
		o = x.w.runFresh(c)
	} else {
		o = x.w.runHere(c)
	}
	x.trail = append(x.trail, runRec{c, o})
	return o
}

// Fresh runs a case in a process of its own.
func (x *X) Fresh(c Case) Obs {
	x.w.Traces++
	if c.Current && c.Now == 0 { // the real program would see the real clock
		c.Now = baseNow
	}
	o := x.w.runFresh(c)
	x.trail = append(x.trail, runRec{c, o})
	return o
}

// Trace counts an execution of the implementation that did not go through Run.
func (x *X) Trace(n int) { x.w.Traces += int64(n) }

// Step counts transitions of the reference model.
func (x *X) Step(n int) { x.w.Steps += int64(n) }

// State records a state of the reference model.
func (x *X) State(parts ...interface{}) {
	h := fnv.New64a()
	for _, p := range parts {
		switch v := p.(type) {
		case string:
			h.Write([]byte(v))
		default:
			fmt.Fprint(h, v)
		}
		h.Write([]byte{0})
	}
	x.w.States[h.Sum64()] = struct{}{}
}

// Outcome records a distinct observed outcome (a vacuity guard).
func (x *X) Outcome(s string) {
	h := fnv.New64a()
	h.Write([]byte(s))
	x.w.Outcomes[h.Sum64()] = struct{}{}
}

// Sample keeps a few actual cases for the evidence.
func (x *X) Sample(s string) {
	if len(x.w.Samples) < 4 && !x.fresh {
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		x.w.Samples = append(x.w.Samples, s)
	}
}

// Fail formats a mismatch.
func Fail(format string, a ...interface{}) error { return fmt.Errorf(format, a...) }

// ExpectReport compares a report with the expected one.
func ExpectReport(o Obs, want, what string) error {
	if c := o.Crashed(); c != "" {
		return Fail("%s: %s", what, c)
	}
	if o.Out != want {
		return Fail("%s:\n--- expected\n%s--- got\n%s", what, clip(want), clip(o.Out))
	}
	return nil
}

// ExpectReject requires an error message.
func ExpectReject(o Obs, what string) error {
	if c := o.Crashed(); c != "" {
		return Fail("%s: %s", what, c)
	}
	if !o.Rejected() {
		return Fail("%s: expected an error but got\n%s", what, clip(o.Out))
	}
	return nil
}

func clip(s string) string {
	if len(s) > 3000 {
		return s[:1500] + "\n[...]\n" + s[len(s)-1400:]
	}
	return s
}

// Space describes how one property is explored.
type Space struct {
	ID    string
	Rule  string // what is enumerated and against what, for the evidence
	Bound map[string]string
	Run   func(e *E)
}

var spaces = map[string]*Space{}

func register(s *Space) { spaces[s.ID] = s }

// E enumerates the items of a space; the same enumeration runs in every worker, each of which
// executes its own share.
type E struct {
	Thorough bool
	w        *Worker
	idx      int64
	sub      map[string]int64
	cur      string
}

// Part names the sub-space the following items belong to.
func (e *E) Part(name string) { e.cur = name }

// Skip tells that there is nothing left to do for this worker.
func (e *E) stop() bool { return e.w.stopped }

// Do is one item.
func (e *E) Do(f func(x *X) error) {
	i := e.idx
	e.idx++
	if e.w.stopped {
		return
	}
	if e.w.Only >= 0 {
		if i != e.w.Only {
			return
		}
	} else if i < e.w.Start || i%int64(e.w.Of) != int64(e.w.K) {
		return
	}
	if i&255 < int64(e.w.Of) && time.Now().After(e.w.deadline) {
		e.w.TimedOut = true
		e.w.stopped = true
		return
	}
	e.sub[e.cur]++
	e.w.do(i, f)
}

// Mine tells whether the next item belongs to this worker, to avoid preparing others' items.
func (e *E) Mine() bool {
	if e.w.stopped {
		return false
	}
	if e.w.Only >= 0 {
		return e.idx == e.w.Only
	}
	return e.idx >= e.w.Start && e.idx%int64(e.w.Of) == int64(e.w.K)
}

// Pass skips one item that is not Mine.
func (e *E) Pass() { e.idx++ }

func jsonString(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		return err.Error()
	}
	return string(b)
}

func sortedKeys(m map[string]string) []string {
	k := make([]string, 0, len(m))
	for s := range m {
		k = append(k, s)
	}
	sort.Strings(k)
	return k
}

func must(err error) {
	if err != nil {
		if errors.Is(err, syscall.EMFILE) { // runs in this process have left files open
			leaked()
		}
		fmt.Fprintln(os.Stderr, "harness error:", err)
		os.Exit(70)
	}
}
