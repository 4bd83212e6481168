package main

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

type options struct {
	prop, tier, verif, scratch, gledger string
	jobs                                int
	seed                                int
	replay                              string
	budget                              time.Duration
	level                               string
}

type report struct {
	Items, Traces, Steps, Confirms, Artefact int64
	Samples                                  []string
	TimedOut                                 bool
	Sub                                      map[string]int64
	StatesFile, OutcomesFile                 string
	Total                                    int64
}

func main() {
	stopAsks()
	if spec, ok := os.LookupEnv("MC_EXEC"); ok {
		execMode(spec)
		return
	}
	var o options
	var worker string
	var start, only int64
	var fresh bool
	flag.StringVar(&o.prop, "prop", "", "property")
	flag.StringVar(&o.tier, "tier", "quick", "quick or thorough")
	flag.StringVar(&o.verif, "verif", "/verif", "where evidence and replays go")
	flag.StringVar(&o.scratch, "scratch", "", "scratch directory")
	flag.StringVar(&o.gledger, "gledger", "", "gledger binary")
	flag.IntVar(&o.jobs, "jobs", 8, "workers")
	flag.IntVar(&o.seed, "seed", 1, "recorded only: nothing here is random")
	flag.StringVar(&o.replay, "replay", "", "replay a violation")
	flag.DurationVar(&o.budget, "budget", 0, "stop enumerating after this long")
	flag.StringVar(&worker, "worker", "", "k/n (internal)")
	flag.Int64Var(&start, "start", 0, "first item (internal)")
	flag.Int64Var(&only, "only", -1, "single item (internal)")
	flag.BoolVar(&fresh, "fresh", false, "fresh processes only (internal)")
	flag.Parse()
	if o.budget == 0 {
		o.budget = 10 * time.Minute
		if o.tier == "thorough" {
			o.budget = 60 * time.Minute
		}
	}
	if o.replay != "" {
		os.Exit(replay(o))
	}
	if spaces[o.prop] == nil {
		fmt.Fprintln(os.Stderr, "no such property:", o.prop)
		os.Exit(64)
	}
	if worker != "" {
		runWorker(o, worker, start, only, fresh)
		return
	}
	os.Exit(supervise(o))
}

// ---------------------------------------------------------------- worker

func runWorker(o options, worker string, start, only int64, fresh bool) {
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(2 << 30)
	// a runaway recursion should end while the machine still has memory, and a leak of open files soon
	debug.SetMaxStack(256 << 20)
	syscall.Setrlimit(syscall.RLIMIT_NOFILE, &syscall.Rlimit{Cur: 512, Max: 512})
	parts := strings.Split(worker, "/")
	k, _ := strconv.Atoi(parts[0])
	n, _ := strconv.Atoi(parts[1])
	dir := filepath.Join(o.scratch, fmt.Sprintf("w%d", k))
	must(os.MkdirAll(dir, 0o755))
	must(os.Chdir(dir))
	os.Unsetenv("LEDGER_FILE")
	os.Setenv("HOME", dir)
	time.Local = zone("UTC")
	w := &Worker{
		Prop: o.prop, K: k, Of: n, Start: start, Only: only, Fresh: fresh, Thorough: o.tier == "thorough", Scratch: dir, Gledger: o.gledger,
		States: map[uint64]struct{}{}, Outcomes: map[uint64]struct{}{}, present: map[string]string{},
		known: knownKeys(o, o.prop), deadline: time.Now().Add(o.budget),
	}
	w.cleanDir()
	syscall.CloseOnExec(3) // or what this process starts would keep it open
	ev := os.NewFile(3, "events")
	w.events = json.NewEncoder(ev)
	p, err := os.OpenFile(filepath.Join(o.scratch, fmt.Sprintf("progress%d", k)), os.O_CREATE|os.O_RDWR, 0o644)
	must(err)
	w.progress = p
	w.captureStdout()
	e := &E{Thorough: o.tier == "thorough", w: w, sub: map[string]int64{}}
	spaces[o.prop].Run(e)
	r := report{Items: w.items, Traces: w.Traces, Steps: w.Steps, Confirms: w.Confirms, Artefact: w.Artefact,
		Samples: w.Samples, TimedOut: w.TimedOut, Sub: e.sub, Total: e.idx}
	suffix := fmt.Sprintf("%d-%d", k, os.Getpid())
	r.StatesFile = filepath.Join(o.scratch, "states"+suffix)
	r.OutcomesFile = filepath.Join(o.scratch, "outcomes"+suffix)
	dump(r.StatesFile, w.States)
	dump(r.OutcomesFile, w.Outcomes)
	must(w.events.Encode(map[string]interface{}{"report": r}))
}

func (w *Worker) cleanDir() {
	entries, _ := os.ReadDir(".")
	for _, e := range entries {
		os.RemoveAll(filepath.Join(w.Scratch, e.Name()))
	}
}

func dump(path string, m map[uint64]struct{}) {
	f, err := os.Create(path)
	must(err)
	b := bufio.NewWriter(f)
	var buf [8]byte
	for h := range m {
		binary.LittleEndian.PutUint64(buf[:], h)
		b.Write(buf[:])
	}
	must(b.Flush())
	must(f.Close())
}

func load(path string, into map[uint64]struct{}) {
	b, err := os.ReadFile(path)
	must(err)
	for i := 0; i+8 <= len(b); i += 8 {
		into[binary.LittleEndian.Uint64(b[i:])] = struct{}{}
	}
}

// ---------------------------------------------------------------- supervisor

type supervisor struct {
	o     options
	mu    sync.Mutex
	viol  []Violation
	known []Violation
	reps  []report
	procs map[int]*exec.Cmd
	stop  bool
	notes []string
}

// stallAfter is how long one item may take in a worker before it is tried on its own.
const stallAfter = 90 * time.Second

func (s *supervisor) worker(k int) {
	start := int64(0)
	for {
		s.mu.Lock()
		if s.stop {
			s.mu.Unlock()
			return
		}
		s.mu.Unlock()
		done, last, why := s.spawn(k, start, -1, false, stallAfter)
		if done {
			return
		}
		s.mu.Lock()
		stopped := s.stop
		s.mu.Unlock()
		if stopped {
			return
		}
		// The worker died (or stalled) in item `last`: decide that item in fresh processes
		before := s.count()
		done2, _, why2 := s.spawn(k, 0, last, true, 6*freshTimeout)
		s.mu.Lock()
		s.notes = append(s.notes, fmt.Sprintf("worker %d ended in item %d (%s); decided in fresh processes (completed=%v %s)", k, last, why, done2, why2))
		s.mu.Unlock()
		if s.count() > before {
			return
		}
		start = last + 1
	}
}

func (s *supervisor) count() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return len(s.viol)
}

func (s *supervisor) spawn(k int, start, only int64, fresh bool, stall time.Duration) (done bool, last int64, why string) {
	o := s.o
	self, err := os.Executable()
	must(err)
	args := []string{"-prop", o.prop, "-tier", o.tier, "-verif", o.verif, "-scratch", o.scratch, "-gledger", o.gledger,
		"-budget", o.budget.String(), "-worker", fmt.Sprintf("%d/%d", k, o.jobs), "-start", fmt.Sprint(start), "-only", fmt.Sprint(only)}
	if fresh {
		args = append(args, "-fresh")
	}
	r, wr, err := os.Pipe()
	must(err)
	c := exec.Command(self, args...)
	c.ExtraFiles = []*os.File{wr}
	errPath := filepath.Join(o.scratch, fmt.Sprintf("stderr%d", k))
	ef, err := os.Create(errPath)
	must(err)
	c.Stderr = ef
	c.Stdout = ef
	c.Env = append(os.Environ(), "GOMAXPROCS=2", "GOTRACEBACK=single")
	must(c.Start())
	wr.Close()
	ef.Close()
	s.mu.Lock()
	s.procs[k] = c
	s.mu.Unlock()
	finished := make(chan bool, 1)
	stalled := false
	go func() { // watch for stalls
		prog := filepath.Join(o.scratch, fmt.Sprintf("progress%d", k))
		prev, since := "", time.Now()
		for {
			select {
			case <-finished:
				return
			case <-time.After(2 * time.Second):
			}
			b, _ := os.ReadFile(prog)
			if string(b) != prev {
				prev, since = string(b), time.Now()
			} else if time.Since(since) > stall {
				stalled = true
				c.Process.Kill()
				return
			}
		}
	}()
	dec := json.NewDecoder(bufio.NewReader(r))
	for {
		var m map[string]json.RawMessage
		if err := dec.Decode(&m); err != nil {
			break
		}
		if raw, ok := m["violation"]; ok {
			var v Violation
			must(json.Unmarshal(raw, &v))
			s.mu.Lock()
			if v.Known {
				s.known = append(s.known, v)
			} else {
				s.viol = append(s.viol, v)
				s.stop = true
				for j, p := range s.procs {
					if j != k {
						p.Process.Kill()
					}
				}
			}
			s.mu.Unlock()
		}
		if raw, ok := m["report"]; ok {
			var rep report
			must(json.Unmarshal(raw, &rep))
			s.mu.Lock()
			s.reps = append(s.reps, rep)
			s.mu.Unlock()
			done = true
		}
	}
	err = c.Wait()
	finished <- true
	r.Close()
	if done {
		return true, 0, ""
	}
	b, _ := os.ReadFile(filepath.Join(o.scratch, fmt.Sprintf("progress%d", k)))
	last, _ = strconv.ParseInt(strings.TrimSpace(string(b)), 10, 64)
	eb, _ := os.ReadFile(errPath)
	why = fmt.Sprint(err)
	if stalled {
		why = "stalled"
	}
	if len(eb) > 0 {
		why += ": " + firstLines(string(eb), 4)
	}
	if err != nil && strings.Contains(string(eb), "harness error") {
		fmt.Fprintln(os.Stderr, string(eb))
		os.Exit(70)
	}
	return false, last, why
}

func supervise(o options) int {
	began := time.Now()
	if o.scratch == "" {
		fmt.Fprintln(os.Stderr, "no scratch directory")
		return 64
	}
	s := &supervisor{o: o, procs: map[int]*exec.Cmd{}}
	var wg sync.WaitGroup
	for k := 0; k < o.jobs; k++ {
		wg.Add(1)
		go func(k int) { defer wg.Done(); s.worker(k) }(k)
	}
	wg.Wait()

	states, outcomes := map[uint64]struct{}{}, map[uint64]struct{}{}
	var t report
	t.Sub = map[string]int64{}
	exhaustive := len(s.viol) == 0
	for _, r := range s.reps {
		t.Items += r.Items
		t.Traces += r.Traces
		t.Steps += r.Steps
		t.Confirms += r.Confirms
		t.Artefact += r.Artefact
		if len(t.Samples) < 6 {
			t.Samples = append(t.Samples, r.Samples...)
		}
		if r.TimedOut {
			exhaustive = false
		}
		if r.Total > t.Total {
			t.Total = r.Total
		}
		for k, v := range r.Sub {
			t.Sub[k] += v
		}
		load(r.StatesFile, states)
		load(r.OutcomesFile, outcomes)
	}
	if len(t.Samples) > 6 {
		t.Samples = t.Samples[:6]
	}
	if len(t.Samples) == 0 {
		t.Samples = []string{"(none)"}
	}
	sp := spaces[o.prop]
	ev := map[string]interface{}{
		"property": o.prop, "tier": o.tier, "seed": o.seed, "level": o.level0(),
		"coverage": map[string]interface{}{
			"states":                        len(states),
			"transitions":                   t.Steps,
			"traces_validated_against_impl": t.Traces,
			"evaluations":                   t.Items,
			"distinct_nontrivial":           len(outcomes),
			"rule":                          sp.Rule,
			"bounds":                        sp.Bound,
			"items_by_part":                 t.Sub,
			"items_in_space":                t.Total,
			"items_rerun_in_fresh_processes_of_the_real_binary": t.Confirms,
			"in_process_failures_not_confirmed_by_fresh_runs":   t.Artefact,
			"exhaustive": exhaustive,
			"samples":    t.Samples,
			"notes":      s.notes,
		},
		"assumptions": append([]string{
			"states are distinct canonical states of the reference model, transitions its steps, traces the executions of the real code compared with it",
			"distinct_nontrivial counts distinct observed outcomes; nothing is sampled, VERIF_SEED is unused",
		}, sp.assumptions()...),
		"wall_s":     time.Since(began).Seconds(),
		"violations": len(s.viol),
	}
	b, err := json.MarshalIndent(ev, "", " ")
	must(err)
	must(os.MkdirAll(filepath.Join(o.verif, "evidence"), 0o755))
	must(os.WriteFile(filepath.Join(o.verif, "evidence", o.prop+".json"), append(b, '\n'), 0o644))

	fmt.Printf("%s %s: %d items (%d in space, exhaustive=%v), %d states, %d transitions, %d runs of the real code, %d distinct outcomes, %d fresh-process confirmations, %.1fs\n",
		o.prop, o.tier, t.Items, t.Total, exhaustive, len(states), t.Steps, t.Traces, len(outcomes), t.Confirms, time.Since(began).Seconds())
	var subs []string
	for k := range t.Sub {
		subs = append(subs, k)
	}
	sort.Strings(subs)
	for _, k := range subs {
		fmt.Printf("  %-28s %d\n", k, t.Sub[k])
	}
	for _, n := range s.notes {
		fmt.Println("note:", n)
	}
	seen := map[string]bool{}
	for _, v := range s.known {
		if !seen[v.Key] {
			seen[v.Key] = true
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", o.prop, v.Key)
		}
	}
	if len(s.viol) > 0 {
		sort.Slice(s.viol, func(i, j int) bool { return s.viol[i].Index < s.viol[j].Index })
		v := s.viol[0]
		path := writeReplay(o, v)
		fmt.Printf("VIOLATION property=%s replay=%s\n", o.prop, path)
		fmt.Printf("item %d key=%q\n%s\n", v.Index, v.Key, v.Err)
		return 1
	}
	return 0
}

func (o options) level0() string {
	if o.prop == "C19" {
		return "fault_enumeration"
	}
	return "model_checking"
}

func (s *Space) assumptions() []string {
	if s.Bound == nil {
		return nil
	}
	var a []string
	for _, k := range sortedKeys(s.Bound) {
		a = append(a, k+": "+s.Bound[k])
	}
	return a
}

// ---------------------------------------------------------------- known findings and replays

// knownKeys reads the keys of the findings recorded for a property: lines of the form
// known: property=<id> key=<key> -- <what fails>
func knownKeys(o options, prop string) map[string]bool {
	m := map[string]bool{}
	b, err := os.ReadFile(filepath.Join(o.verif, "known_findings.txt"))
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		pre := "known: property=" + prop + " key="
		if strings.HasPrefix(l, pre) {
			m[strings.SplitN(strings.TrimPrefix(l, pre), " -- ", 2)[0]] = true
		}
	}
	return m
}

type replayFile struct {
	Property string   `json:"property"`
	Tier     string   `json:"tier"`
	Index    int64    `json:"index"`
	Key      string   `json:"key"`
	Error    string   `json:"error"`
	HowTo    []string `json:"how_to"`
	Runs     []runRec `json:"runs"`
}

func writeReplay(o options, v Violation) string {
	dir := filepath.Join(o.verif, "replays")
	must(os.MkdirAll(dir, 0o755))
	path := filepath.Join(dir, o.prop+".json")
	if len(v.Trail) > 40 {
		v.Trail = v.Trail[len(v.Trail)-40:]
	}
	b, err := json.MarshalIndent(replayFile{Property: o.prop, Tier: o.tier, Index: v.Index, Key: v.Key, Error: v.Err,
		HowTo: []string{
			"bash /verif/run.sh replay " + path + "   runs exactly this item again, in fresh processes of the real binary",
			"or by hand: create 'files' of a run and run gledger <cmd> -f <file> with its flags; 'obs' is what it printed",
		}, Runs: v.Trail}, "", " ")
	must(err)
	must(os.WriteFile(path, append(b, '\n'), 0o644))
	return path
}

func replay(o options) int {
	b, err := os.ReadFile(o.replay)
	must(err)
	var rf replayFile
	must(json.Unmarshal(b, &rf))
	o.prop, o.tier = rf.Property, rf.Tier
	s := &supervisor{o: o, procs: map[int]*exec.Cmd{}}
	done, _, why := s.spawn(0, 0, rf.Index, true, 6*freshTimeout)
	if len(s.viol)+len(s.known) > 0 {
		v := append(s.viol, s.known...)[0]
		fmt.Printf("VIOLATION property=%s replay=%s\nitem %d key=%q\n%s\n", o.prop, o.replay, v.Index, v.Key, v.Err)
		return 1
	}
	if !done {
		fmt.Println("replay did not complete:", why)
		return 70
	}
	fmt.Println("the item passes now")
	return 0
}
