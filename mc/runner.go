package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"github.com/rikchilvers/gledger/cmd"
)

// scratchDir is where the worker lays its files.
var scratchDir string

// Worker executes its share of a space.
type Worker struct {
	Prop     string
	K, Of    int
	Start    int64
	Only     int64
	Fresh    bool // run every case in its own process
	Thorough bool
	Scratch  string
	Gledger  string // the real binary
	Traces   int64
	Steps    int64
	Confirms int64 // items also executed in a fresh process of the real binary
	Artefact int64 // in-process failures that a fresh process did not confirm
	States   map[uint64]struct{}
	Outcomes map[uint64]struct{}
	Samples  []string
	TimedOut bool

	known    map[string]bool
	deadline time.Time
	stopped  bool
	progress *os.File
	capture  int // memfd behind file descriptor 1
	present  map[string]string
	events   *json.Encoder
	items    int64
	stack    []byte
	nobodyOK int
	onAsk    func(kind, name string)
	altered  bool // the files do not have the times and the mode they are made with
}

// Violation is what a worker reports.
type Violation struct {
	Index int64    `json:"index"`
	Key   string   `json:"key"`
	Err   string   `json:"err"`
	Trail []runRec `json:"trail"`
	Known bool     `json:"known"`
}

func memfd() int {
	name := []byte("out\x00")
	fd, _, e := syscall.Syscall(319, uintptr(unsafe.Pointer(&name[0])), 1, 0)
	if e == 0 {
		return int(fd)
	}
	f, err := os.CreateTemp("", "mc-out")
	must(err)
	os.Remove(f.Name())
	return int(f.Fd())
}

// captureStdout puts a memory file behind descriptor 1.
func (w *Worker) captureStdout() {
	w.capture = memfd()
	must(syscall.Dup2(w.capture, 1))
}

func (w *Worker) resetOut() {
	syscall.Ftruncate(w.capture, 0)
	syscall.Seek(w.capture, 0, 0)
}

func (w *Worker) readOut() string {
	var st syscall.Stat_t
	if err := syscall.Fstat(w.capture, &st); err != nil {
		return "fstat: " + err.Error()
	}
	if st.Size == 0 {
		return ""
	}
	b := make([]byte, st.Size)
	n := 0
	for n < len(b) {
		k, err := syscall.Pread(w.capture, b[n:], int64(n))
		if err != nil || k <= 0 {
			break
		}
		n += k
	}
	return string(b[:n])
}

// needFiles ends this process if runs in it have left too many files open: the item is then decided
// in fresh processes.
func (w *Worker) needFiles() {
	fd, err := syscall.Dup(0)
	if err == nil {
		syscall.Close(fd)
	}
	if err != nil || fd > 200 {
		leaked()
	}
}

func leaked() {
	fmt.Fprintln(os.Stderr, "files were left open")
	syscall.Exit(75)
}

// layFiles makes the working directory hold exactly the given files.
func (w *Worker) layFiles(files map[string]string) {
	scratchDir = w.Scratch
	for name := range w.present {
		if _, keep := files[name]; !keep {
			os.Remove(name)
			delete(w.present, name)
		}
	}
	for name, content := range files {
		if old, ok := w.present[name]; ok && old == content {
			continue
		}
		if dir := filepath.Dir(name); dir != "." {
			must(os.MkdirAll(dir, 0o755))
		}
		if to, ok := strings.CutPrefix(content, linkMark); ok {
			os.RemoveAll(filepath.Join(w.Scratch, name)) // perhaps an empty directory
			must(os.Symlink(to, name))
			w.present[name] = content
			continue
		}
		if strings.HasPrefix(w.present[name], linkMark) {
			os.Remove(name)
		}
		err := os.WriteFile(name, []byte(content), 0o644)
		if errors.Is(err, syscall.EISDIR) { // left by earlier files; there are none in it now
			os.RemoveAll(filepath.Join(w.Scratch, name))
			err = os.WriteFile(name, []byte(content), 0o644)
		}
		must(err)
		w.present[name] = content
	}
}

// alter gives the files the times and the mode a case asks for.
func (w *Worker) alter(c Case) {
	if c.Mtime == 0 && c.Mode == 0 && !w.altered {
		return
	}
	w.altered = c.Mtime != 0 || c.Mode != 0
	when, mode := time.Now(), os.FileMode(0o644)
	if c.Mtime != 0 {
		when = time.Unix(c.Mtime, 0)
	}
	if c.Mode != 0 {
		mode = os.FileMode(c.Mode)
	}
	for name := range c.Files {
		must(os.Chtimes(name, when, when))
		must(os.Chmod(name, mode))
	}
}

func (c Case) argv(explicit bool) []string {
	if c.Raw != nil {
		return c.Raw
	}
	file := c.File
	if file == "" {
		file = "m.journal"
	}
	if name, ok := strings.CutPrefix(file, "="); ok {
		file = filepath.Join(scratchDir, name)
	}
	a := []string{c.Cmd, "-f", file}
	if explicit {
		// flags keep their values between runs in one process, so say all of them every time
		a = append(a, "--begin="+c.Begin, "--end="+c.End, fmt.Sprintf("--current=%v", c.Current))
		if c.Cmd == "balance" || c.Cmd == "budget" {
			a = append(a, fmt.Sprintf("--flatten=%v", c.Flat), fmt.Sprintf("--collapse=%v", c.Coll), fmt.Sprintf("--show-zero=%v", c.Zero))
		}
	} else {
		if c.Begin != "" {
			a = append(a, "--begin="+c.Begin)
		}
		if c.End != "" {
			a = append(a, "--end="+c.End)
		}
		if c.Current {
			a = append(a, "--current")
		}
		if c.Flat {
			a = append(a, "--flatten")
		}
		if c.Coll {
			a = append(a, "--collapse")
		}
		if c.Zero {
			a = append(a, "--show-zero")
		}
	}
	if len(c.Args) > 0 {
		a = append(a, "--")
		a = append(a, c.Args...)
	}
	return a
}

var zones = map[string]*time.Location{}

func zone(name string) *time.Location {
	if name == "" {
		name = "UTC"
	}
	if l, ok := zones[name]; ok {
		return l
	}
	l, err := time.LoadLocation(name)
	must(err)
	zones[name] = l
	return l
}

// runHere runs a case in this process, through the command line entry point.
func (w *Worker) runHere(c Case) (o Obs) {
	w.needFiles()
	w.layFiles(c.Files)
	w.alter(c)
	w.resetOut()
	if c.Dir != "" {
		must(os.MkdirAll(c.Dir, 0o755))
		must(os.Chdir(c.Dir))
		defer func() { must(os.Chdir(w.Scratch)) }()
	}
	loc := zone(c.TZ)
	now := c.Now
	if now == 0 {
		now = baseNow
	}
	os.Args = append([]string{"gledger"}, c.argv(true)...)
	func() {
		defer func() {
			if r := recover(); r != nil {
				clearMaps()
				clearClock()
				if code, ok := r.(exitCode); ok {
					o.Exit = int(code)
					return
				}
				o.Panic = fmt.Sprint(r) + " @ " + panicSite(debug.Stack())
			}
		}()
		saved := time.Local
		time.Local = loc
		defer func() { time.Local = saved }()
		setClock(now, c.Nanos)
		setChance(c.Seed, c.Rand, c.Pid)
		defer setChance(0, 0, 0)
		setMaps(c.Maps)
		os.VerifExit = func(code int) { panic(exitCode(code)) }
		defer func() { os.VerifExit = nil }()
		if c.Touch {
			syscall.VerifTouch = func(op, path string) { o.Touched = append(o.Touched, op+" "+path) }
			defer func() { syscall.VerifTouch = nil }()
		}
		if w.onAsk != nil {
			saved := syscall.VerifAsk
			syscall.VerifAsk = w.onAsk
			defer func() { syscall.VerifAsk = saved }()
		}
		cmd.Execute()
		o.Points = clearMaps()
		clearClock()
	}()
	o.Out = w.readOut()
	return o
}

// panicSite finds the innermost function of gledger on the stack.
func panicSite(stack []byte) string {
	lines := strings.Split(string(stack), "\n")
	for i, l := range lines {
		if strings.Contains(l, "rikchilvers/gledger/") && i+1 < len(lines) {
			return strings.TrimSpace(l) + " " + strings.TrimSpace(strings.SplitN(lines[i+1], " +0x", 2)[0])
		}
	}
	return "?"
}

// exitCode is what a call of os.Exit unwinds with when it must not end this process.
type exitCode int

const freshTimeout = 30 * time.Second

// runFresh runs a case in a process of its own: the real binary, unless the case needs the clock
// or the map iteration order, which only the harness build can set.
func (w *Worker) runFresh(c Case) (o Obs) {
	w.needFiles()
	w.layFiles(c.Files)
	w.alter(c)
	bin, args := w.Gledger, c.argv(false)
	env := []string{"PATH=/usr/bin:/bin", "HOME=" + w.Scratch, "GOTRACEBACK=single", "ZONEINFO=" + os.Getenv("ZONEINFO")}
	if c.TZ != "" {
		env = append(env, "TZ="+c.TZ)
	} else {
		env = append(env, "TZ=UTC")
	}
	if c.Now != 0 || c.Maps != nil || c.Touch || c.Nanos != 0 || c.Seed != 0 || c.Rand != 0 || c.Pid != 0 || bin == "" {
		if c.Maps != nil {
			args = c.argv(true)
		}
		self, err := os.Executable()
		must(err)
		bin = self
		now := c.Now
		if now == 0 {
			now = baseNow
		}
		env = append(env, "MC_EXEC="+jsonString(execSpec{Now: now, Nanos: c.Nanos, Maps: c.Maps, Touch: c.Touch, Seed: c.Seed, Rand: c.Rand, Pid: c.Pid}))
	}
	env = append(env, c.Env...)
	ctx, cancel := context.WithTimeout(context.Background(), freshTimeout)
	defer cancel()
	if c.Via != "" {
		args = append([]string{"-c", c.Via, "bash", bin}, args...)
		bin = "/bin/bash"
	}
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Env = env
	if c.Dir != "" {
		cmd.Dir = filepath.Join(w.Scratch, c.Dir)
		must(os.MkdirAll(cmd.Dir, 0o755))
	}
	// the kernel ends it with the thread that started it, which must therefore stay
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if c.Nobody {
		cmd.SysProcAttr.Credential = &syscall.Credential{Uid: 65534, Gid: 65534}
	}
	if c.Stdin != "" {
		cmd.Stdin = strings.NewReader(c.Stdin)
	}
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if c.Output != "" {
		if read := w.connect(c.Output, cmd); read != nil {
			defer func() { o.Out = read() }()
		}
	}
	err := cmd.Run()
	o = Obs{Out: out.String(), Stderr: errb.String()}
	if c.Touch {
		o.Stderr = ""
		for _, l := range strings.SplitAfter(errb.String(), "\n") {
			if t, ok := strings.CutPrefix(l, touchMark); ok {
				o.Touched = append(o.Touched, strings.TrimSuffix(t, "\n"))
			} else {
				o.Stderr += l
			}
		}
	}
	if ctx.Err() != nil {
		o.Timeout = true
		return o
	}
	if err != nil {
		if ee, ok := err.(*exec.ExitError); ok {
			o.Exit = ee.ExitCode()
			if o.Exit == 2 && strings.Contains(o.Stderr, "goroutine ") {
				o.Panic = firstLines(o.Stderr, 1) + " @ " + panicSite(errb.Bytes())
				o.Exit = 0
			}
		} else {
			must(err)
		}
	}
	return o
}

type execSpec struct {
	Now                    int64
	Nanos, Seed, Rand, Pid int
	Maps                   []int
	Touch                  bool
}

const touchMark = "verif-touched: "

// execMode is the body of a fresh process with seams set.
func execMode(spec string) {
	var s execSpec
	must(json.Unmarshal([]byte(spec), &s))
	os.Unsetenv("MC_EXEC")
	setClock(s.Now, s.Nanos)
	if s.Maps != nil {
		// the first run in a process iterates over some more maps (to set the commands up): do that
		// before, so that iterations are numbered as in any other process
		warmUp()
		setMaps(s.Maps)
	}
	setChance(s.Seed, s.Rand, s.Pid)
	if s.Touch {
		syscall.VerifTouch = func(op, path string) { syscall.Write(2, []byte(touchMark+op+" "+path+"\n")) }
	}
	cmd.Execute()
}

func warmUp() {
	saved, err := syscall.Dup(1)
	must(err)
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	must(err)
	must(syscall.Dup2(int(null.Fd()), 1))
	defer func() {
		recover()
		os.VerifExit = nil
		must(syscall.Dup2(saved, 1))
	}()
	os.VerifExit = func(code int) { panic(exitCode(code)) }
	cmd.Execute()
}

func (w *Worker) attempt(f func(x *X) error, fresh bool) (x *X, err error) {
	x = &X{w: w, fresh: fresh}
	defer func() {
		if r := recover(); r != nil {
			clearMaps()
			clearClock()
			err = fmt.Errorf("panic: %v @ %s", r, panicSite(debug.Stack()))
		}
	}()
	err = f(x)
	return x, err
}

// conformEvery is how often an item that passed here is executed again in fresh processes.
const conformEvery = 997

func (w *Worker) do(i int64, f func(x *X) error) {
	if w.progress != nil {
		var b [16]byte
		copy(b[:], fmt.Sprintf("%-16d", i))
		w.progress.WriteAt(b[:], 0)
	}
	w.items++
	var x *X
	var err error
	if !w.Fresh {
		x, err = w.attempt(f, false)
		if err == nil {
			if w.items%conformEvery != 1 {
				return
			}
			w.Confirms++
		}
	} else {
		w.Confirms++
	}
	wasHere := err
	traces := w.Traces
	// confirm (or conform) in fresh processes of the real binary
	fails := 0
	const tries = 3
	for t := 0; t < tries; t++ {
		var fx *X
		fx, err = w.attempt(f, true)
		if err == nil {
			break
		}
		x = fx
		fails++
	}
	if wasHere != nil {
		w.Traces = traces
	}
	if fails < tries {
		if wasHere != nil {
			w.Artefact++
		}
		return
	}
	v := Violation{Index: i, Key: x.key, Err: err.Error(), Trail: x.trail, Known: w.known[x.key]}
	must(w.events.Encode(map[string]interface{}{"violation": v}))
	if !v.Known {
		w.stopped = true
	}
}
