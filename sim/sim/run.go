// Package sim is the frame every simulated run lives in: the choices, the
// library builds under test, the scheduler, the recorded events and the
// verdict.
package sim

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/phoreproject/bls/zzverif/simrt"

	"verifsim/core"
	"verifsim/tape"
)

// Request asks a worker process for one run.
type Request struct {
	Mode  string              `json:"mode"` // run, eval, solo, segment
	Prop  string              `json:"prop"`
	Seed  uint64              `json:"seed"`
	Tier  string              `json:"tier"`
	Tape  map[string][]uint64 `json:"tape,omitempty"`
	Plans [][]Switch          `json:"plans,omitempty"`
	Race  bool                `json:"race,omitempty"`
	Full  bool                `json:"full,omitempty"` // keep the whole trace
	Body  json.RawMessage     `json:"body,omitempty"`
	Focus []string            `json:"focus,omitempty"` // operations seen to touch shared state
}

// Switch is one recorded preemption: task From, after Step statements, is
// paused and To continues.
type Switch struct {
	From int    `json:"f"`
	Step int64  `json:"s"`
	To   int    `json:"t"`
	Site string `json:"at,omitempty"`
}

// Violation is a broken property.
type Violation struct {
	Class  string `json:"class"`
	Detail string `json:"detail"`
}

// Result is what a worker reports.
type Result struct {
	OK     bool                `json:"ok"`
	Viol   *Violation          `json:"viol,omitempty"`
	Err    string              `json:"err,omitempty"` // trouble of the harness itself
	Stats  map[string]int64    `json:"stats,omitempty"`
	Faults map[string]int64    `json:"faults,omitempty"`
	States []uint64            `json:"states,omitempty"`
	Shape  uint64              `json:"shape"`
	Digest uint64              `json:"digest"`
	Trace  []string            `json:"trace,omitempty"`
	Tape   map[string][]uint64 `json:"tape,omitempty"`
	Plans  [][]Switch          `json:"plans,omitempty"`
	Steps  int64               `json:"steps"`
	Ticks  int64               `json:"ticks"`
	Body   json.RawMessage     `json:"body,omitempty"`
	// GoPanic is set by helper processes that the library ended.
	GoPanic string `json:"gopanic,omitempty"`
}

// Run is one simulation.
type Run struct {
	T      *tape.Tape
	Prop   string
	Tier   string
	Lib    core.Lib
	Port   core.Lib
	Race   bool
	Full   bool
	Req    *Request
	stats  map[string]int64
	faults map[string]int64
	states map[uint64]bool
	shape  uint64
	digest uint64
	trace  []string
	viol   *Violation
	steps  int64
	Ticks  int64
	Plans  [][]Switch // plans to replay
	Rec    [][]Switch // plans that happened
	Sites  []string
	Body   json.RawMessage
	// LastSteps is the statement count of the last Watch.
	LastSteps int64
	// LastCall is the statement count of the last Call.
	LastCall int64
	clock    *tape.Stream
	blind    bool
	// Tolerant is set while calls are made that may fail in any way.
	Tolerant bool
}

// IsLimit tells whether a panic value is the statement limit.
func IsLimit(e interface{}) bool { _, ok := e.(stepLimit); return ok }

// Watch runs f as the only task and calls w before every statement.
func (r *Run) Watch(w func(task int, step int64, site uint32), f func()) {
	r.steps += simrt.Total()
	simrt.Stop()
	simrt.Reset(simrt.Policy{}, NoLimit, r.onLimit, nil, w)
	simrt.Add("main", nil, nil)
	simrt.Start(0)
	f()
	r.LastSteps = simrt.Total()
	r.steps += r.LastSteps
	simrt.Stop()
	r.single()
}

type stop struct{}

// NewRun makes a run for a request.
func NewRun(q *Request, lib, port core.Lib) *Run {
	r := &Run{Req: q, Prop: q.Prop, Tier: q.Tier, Lib: lib, Port: port, Race: q.Race, Full: q.Full, Plans: q.Plans,
		stats: map[string]int64{}, faults: map[string]int64{}, states: map[uint64]bool{}}
	if q.Tape != nil {
		r.T = tape.Replay(q.Tape)
	} else {
		r.T = tape.New(q.Seed)
	}
	if q.Mode == "run" && !q.Race {
		r.clock = r.S("clock")
		r.blind = r.S("observe").P(60)
	}
	return r
}

// S is a choice stream.
func (r *Run) S(f string, a ...interface{}) *tape.Stream {
	if len(a) > 0 {
		f = fmt.Sprintf(f, a...)
	}
	return r.T.S(f)
}

// Stat adds to a counter.
func (r *Run) Stat(n string, d int64) { r.stats[n] += d }

// MaxStat keeps the largest value of a counter; the driver does not add it up.
func (r *Run) MaxStat(n string, v int64) {
	if v > r.stats["max: "+n] {
		r.stats["max: "+n] = v
	}
}

// Fault counts an injected fault that took effect.
func (r *Run) Fault(n string) { r.faults[n]++ }

// Ev records an event.
func (r *Run) Ev(f string, a ...interface{}) {
	s := f
	if len(a) > 0 {
		s = fmt.Sprintf(f, a...)
	}
	r.digest = tape.HashString(r.digest+1, s)
	if len(r.trace) < 4000 {
		r.trace = append(r.trace, s)
	}
}

// State records a state reached, by hash.
func (r *Run) State(parts ...interface{}) {
	h := fnv.New64a()
	fmt.Fprint(h, parts...)
	if len(r.states) < 4000 {
		r.states[h.Sum64()] = true
	}
}

// Shape mixes into the signature that tells runs apart.
func (r *Run) Shape(s string) { r.shape = tape.HashString(r.shape+7, s) }

// Fail ends the run with a violation.
func (r *Run) Fail(class, f string, a ...interface{}) {
	if r.viol == nil {
		r.viol = &Violation{class, fmt.Sprintf(f, a...)}
		r.Ev("VIOLATION %s: %s", class, r.viol.Detail)
	}
	panic(stop{})
}

// Result assembles the report.
func (r *Run) Result() *Result {
	q := &Result{OK: r.viol == nil, Viol: r.viol, Stats: r.stats, Faults: r.faults, Shape: r.shape, Digest: r.digest, Ticks: r.Ticks, Steps: r.steps, Body: r.Body}
	for s := range r.states {
		q.States = append(q.States, s)
	}
	sort.Slice(q.States, func(i, j int) bool { return q.States[i] < q.States[j] })
	if r.viol != nil || r.Full {
		q.Tape = r.T.Recorded()
		q.Trace = r.trace
		q.Plans = r.Rec
	}
	return q
}

// Exit prints the result and ends the process, whatever other goroutines do.
func (r *Run) Exit() {
	Emit(r.Result())
}

// Emit prints a result and ends the process.
func Emit(q *Result) {
	b, err := json.Marshal(q)
	if err != nil {
		b, _ = json.Marshal(&Result{Err: err.Error()})
	}
	os.Stdout.Write(append(append([]byte("RESULT "), b...), '\n'))
	os.Exit(0)
}

// Main runs f as the only task.
func (r *Run) Main(f func()) {
	runtime.GOMAXPROCS(1)
	simrt.OnGoPanic = r.goPanic
	if r.Req.Mode != "run" {
		// no result may depend on the date
		simrt.Base = time.Date(2001, 2, 3, 4, 5, 6, 7, time.UTC)
	}
	r.single()
	func() {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(stop); ok {
					return
				}
				if r.viol == nil {
					buf := make([]byte, 1<<14)
					buf = buf[:runtime.Stack(buf, false)]
					Emit(&Result{Err: fmt.Sprintf("harness panic: %v\n%s", e, buf)})
				}
			}
		}()
		f()
	}()
	r.steps += simrt.Total()
	simrt.Stop()
}

// goPanic decides about a panic in a goroutine of the library: it would have
// ended the process of the user.
func (r *Run) goPanic(e interface{}) {
	msg := fmt.Sprintf("%v", e)
	if s, ok := e.(stepLimit); ok {
		msg = "statement limit exceeded"
		if int(s.site) < len(r.Sites) {
			msg += " at " + r.Sites[s.site]
		}
	}
	if r.Req.Mode != "run" {
		Emit(&Result{OK: true, GoPanic: msg})
	}
	r.Died(msg)
}

// Died ends the run because the library ended a process. That is a verdict
// unless the call was one that may fail in any way.
func (r *Run) Died(msg string) {
	if r.Tolerant {
		r.Stat("histories ended by a panic in a goroutine of the library", 1)
	} else {
		r.viol = &Violation{"crash", "a goroutine started by the library panics, which ends the process: " + msg}
		r.Ev("VIOLATION crash")
	}
	r.Exit()
}

// Ask runs a request of this run in another process.
func (r *Run) Ask(path string, q *Request, timeout time.Duration) (*Result, error) {
	res, err := Spawn(path, q, timeout)
	if err == nil && res.GoPanic != "" {
		r.Died(res.GoPanic)
	}
	return res, err
}

type stepLimit struct{ site uint32 }

// single puts the calling goroutine under the scheduler as the only task.
func (r *Run) single() {
	simrt.Reset(simrt.Policy{Replay: true, Seed: r.Req.Seed, MaxPre: 1 << 20, Solo: []int64{100, 1000, 10000, 0}[r.Req.Seed>>7&3]}, NoLimit, r.onLimit, func() {
		r.viol = &Violation{"deadlock", "a call blocks forever although nothing else runs: " + where()}
		r.Exit()
	}, nil)
	simrt.Add("main", nil, nil)
	simrt.Start(0)
}

// NoLimit is no step limit.
const NoLimit = int64(1) << 62

func (r *Run) onLimit(site uint32) { panic(stepLimit{site}) }

func where() string {
	buf := make([]byte, 1<<14)
	buf = buf[:runtime.Stack(buf, true)]
	var out []string
	for _, l := range strings.Split(string(buf), "\n") {
		if i := strings.Index(l, "phoreproject/bls"); i >= 0 && !strings.Contains(l, "zzverif/sim") && !strings.Contains(l, "/repo/") {
			if j := strings.IndexByte(l, '('); j > 0 {
				l = l[:j]
			}
			out = append(out, strings.TrimSpace(l))
			if len(out) > 6 {
				break
			}
		}
	}
	return strings.Join(out, " < ")
}

// Res is the outcome of one library call.
type Res struct {
	Outs  []interface{}
	Panic string // "" if it returned
	Limit bool   // the statement limit was exceeded
	Steps int64
}

// Call runs one operation under a statement limit and recovers panics.
func (r *Run) Call(op *core.Op, args []interface{}, limit int64) (res Res) {
	if limit > 0 {
		simrt.SetLimit(limit)
	}
	// time passes between two calls; never during one of another task, which
	// would time out for no reason of its own
	if r.clock != nil && simrt.Alone() && r.clock.P(3) {
		d := []time.Duration{time.Millisecond, time.Second, time.Minute, 25 * time.Hour, 400 * 24 * time.Hour}[r.clock.N(5)]
		r.Fault("clock jump")
		simrt.Advance(int64(d))
	}
	before := simrt.Total()
	defer func() {
		res.Steps = simrt.Total() - before
		r.LastCall = res.Steps
		if limit > 0 {
			simrt.SetLimit(NoLimit)
		}
		if e := recover(); e != nil {
			if _, ok := e.(stop); ok {
				panic(e)
			}
			if s, ok := e.(stepLimit); ok {
				res.Limit = true
				res.Panic = "statement limit exceeded"
				if int(s.site) < len(r.Sites) {
					res.Panic += " at " + r.Sites[s.site]
				}
				return
			}
			res.Panic = fmt.Sprintf("%v", e)
			if res.Panic == "" {
				res.Panic = "panic"
			}
		}
	}()
	res.Outs = op.Call(args)
	return
}

// Focus returns the operations that were seen to touch shared state.
func (r *Run) Focus() []*core.Op {
	var l []*core.Op
	for _, n := range r.Req.Focus {
		if op := r.Lib.Op(n); op != nil {
			l = append(l, op)
		}
	}
	return l
}

// SafeEnc encodes a value; unreadable values give a marker.
func (r *Run) SafeEnc(lib core.Lib, k core.Kind, v interface{}) (b []byte) {
	defer func() {
		if e := recover(); e != nil {
			switch e.(type) {
			case stop, stepLimit:
				panic(e)
			}
			b = []byte("<unreadable>")
		}
	}()
	if r.blind && simrt.Quiet() {
		// looked at without its noticing: reading it through the library
		// could make it compute what it puts off
		v = core.Clone(v)
	}
	return lib.Enc(k, v)
}

// Task is a body for Parallel.
type Task struct {
	Name  string
	Hints []int64
	F     func(id int)
}

// Parallel runs the tasks under the seeded scheduler, or under the recorded
// preemption plan when one is being replayed. It must be called from the
// main task between library calls.
func (r *Run) Parallel(pol simrt.Policy, limit int64, tasks []Task) (pre int, total int64) {
	r.steps += simrt.Total()
	simrt.Stop()
	round := len(r.Rec)
	replay := r.Plans != nil
	var plan []Switch
	if replay {
		pol.Replay = true
		if round < len(r.Plans) {
			plan = r.Plans[round]
		}
	}
	dead := false
	crash := make([]interface{}, len(tasks))
	simrt.Reset(pol, limit, r.onLimit, func() { dead = true }, nil)
	var wg sync.WaitGroup
	for i := range tasks {
		var p []simrt.PlanItem
		for _, s := range plan {
			if s.From == i {
				p = append(p, simrt.PlanItem{Step: s.Step, To: s.To})
			}
		}
		t := simrt.Add(tasks[i].Name, tasks[i].Hints, p)
		wg.Add(1)
		go func(i int, t *simrt.Task) {
			defer wg.Done()
			simrt.Enter(t)
			defer simrt.Exit(t)
			defer func() {
				if e := recover(); e != nil {
					crash[i] = e
				}
			}()
			tasks[i].F(i)
		}(i, t)
	}
	simrt.Start(0)
	for !simrt.Finished() && !isDead(&dead) {
		runtime.Gosched()
	}
	pre, total = simrt.Preemptions(), simrt.Total()
	if pre > 0 {
		r.faults["preemption between two statements"] += int64(pre)
	}
	var rec []Switch
	for i := 0; i < simrt.NLog; i++ {
		l := simrt.Log[i]
		r.digest = tape.Mix(r.digest ^ uint64(l.From)<<50 ^ uint64(l.To)<<40 ^ uint64(l.Step))
		if l.Forced && !replay {
			continue
		}
		if l.Forced {
			continue
		}
		site := ""
		if int(l.Site) < len(r.Sites) {
			site = r.Sites[l.Site]
		}
		rec = append(rec, Switch{l.From, l.Step, l.To, site})
		r.shape = tape.Mix(r.shape ^ uint64(l.Site)<<8 ^ uint64(l.From)<<4 ^ uint64(l.To))
	}
	if rec == nil {
		rec = []Switch{}
	}
	r.Rec = append(r.Rec, rec)
	if isDead(&dead) {
		r.steps += total
		r.viol = &Violation{"deadlock", "the tasks block each other forever: " + where()}
		r.Ev("VIOLATION deadlock")
		r.Exit()
	}
	wg.Wait()
	r.steps += total
	simrt.Stop()
	r.single()
	for _, e := range crash {
		if e != nil {
			panic(e)
		}
	}
	return
}

//go:norace
func isDead(b *bool) bool { return *b }

// Kids starts further worker processes.
type Kids struct {
	Path     string // executable
	Path386  string
	PathRace string
	Timeout  time.Duration
}

// Procs is how this process starts others.
var Procs Kids

// Spawn runs a request in a fresh process of the given executable.
func Spawn(path string, q *Request, timeout time.Duration) (*Result, error) {
	b, _ := json.Marshal(q)
	cmd := exec.Command(path, "worker")
	cmd.Stdin = strings.NewReader(string(b))
	var out, errb strings.Builder
	cmd.Stdout = &out
	cmd.Stderr = &errb
	cmd.Env = Env(path)
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var err error
	select {
	case err = <-done:
	case <-time.After(timeout):
		cmd.Process.Kill()
		<-done
		return nil, fmt.Errorf("timeout after %v", timeout)
	}
	o := out.String()
	i := strings.LastIndex(o, "RESULT ")
	if i >= 0 {
		var res Result
		if e := json.Unmarshal([]byte(strings.TrimSpace(o[i+7:])), &res); e == nil {
			if s := raceReport(errb.String()); s != "" && res.Err == "" {
				res.OK = false
				if res.Viol == nil {
					res.Viol = &Violation{"race", s}
				}
			}
			return &res, nil
		}
	}
	msg := errb.String()
	if len(msg) > 6000 {
		msg = msg[:3000] + "\n...\n" + msg[len(msg)-3000:]
	}
	return nil, &Crash{fmt.Sprintf("%v", err), msg}
}

// Crash is a worker that died without reporting.
type Crash struct{ Status, Stderr string }

func (c *Crash) Error() string { return "worker died: " + c.Status + "\n" + c.Stderr }

// Env is the environment of a worker.
func Env(path string) []string {
	e := []string{"HOME=/root", "PATH=/usr/bin:/bin", "GODEBUG=randautoseed=0", "GOTRACEBACK=single", "GOMAXPROCS=1", "GOGC=400"}
	for _, k := range []string{"SIM_WORKER", "SIM_WORKER386", "SIM_WORKERRACE", "SIM_SITES", "SIM_DATA"} {
		if v := os.Getenv(k); v != "" {
			e = append(e, k+"="+v)
		}
	}
	if strings.HasSuffix(path, "race") {
		e = append(e, "GORACE=exitcode=0 atexit_sleep_ms=0 halt_on_error=0 history_size=4")
	}
	return e
}

// raceReport extracts a data race between two places of the library.
func raceReport(s string) string {
	for {
		i := strings.Index(s, "WARNING: DATA RACE")
		if i < 0 {
			return ""
		}
		s = s[i+18:]
		rep := s
		if j := strings.Index(s, "=================="); j >= 0 {
			rep = s[:j]
		}
		// the two access stacks: the first frame of each outside the runtime
		var tops []string
		own := false
		lines := strings.Split(rep, "\n")
		for k := 0; k < len(lines); k++ {
			l := strings.TrimSpace(lines[k])
			if strings.HasPrefix(l, "Read at") || strings.HasPrefix(l, "Write at") || strings.HasPrefix(l, "Previous read") || strings.HasPrefix(l, "Previous write") ||
				strings.HasPrefix(l, "Previous atomic") || strings.HasPrefix(l, "Atomic") {
				top := ""
				first := true
				for k++; k < len(lines) && strings.TrimSpace(lines[k]) != ""; k++ {
					f := strings.TrimSpace(lines[k])
					if first && (strings.Contains(f, "phoreproject/bls") || strings.Contains(f, "verifsim/")) {
						first = false
						if strings.Contains(f, "zzverif/simrt") || strings.Contains(f, "zzverif/simsync") {
							own = true // the scheduler's own memory
						}
					}
					if strings.Contains(f, "/verifsim/") || strings.HasPrefix(f, "verifsim/") || strings.Contains(f, "zzverif/simrt") || strings.Contains(f, "zzverif/simsync") {
						if top == "" && !strings.Contains(f, "zzverif/sim") {
							top = "harness"
						}
						continue
					}
					if strings.Contains(f, "phoreproject/bls") && strings.HasSuffix(f, ")") && top == "" {
						top = f
					}
				}
				tops = append(tops, top)
			}
		}
		ok := 0
		for _, t := range tops {
			if t != "" && t != "harness" {
				ok++
			}
		}
		if ok >= 1 && len(tops) >= 2 && !own {
			return "data race between " + strings.Join(tops, " and ")
		}
	}
}
