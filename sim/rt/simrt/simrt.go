// Package simrt is the run-time of the deterministic simulator. The
// instrumenter puts a call to Y before every statement of the library; the
// scheduler below decides, from a seed or from a recorded list, at which of
// them the running task is paused and which task continues. Exactly one task
// runs at any moment: it holds the baton.
//
// Every function that touches scheduler state is marked norace and the baton
// is handed over through plain memory, so that under the race detector the
// hand-over itself creates no ordering between the tasks: only the
// synchronisation of the library does.
package simrt

import (
	"runtime"
	"time"
)

const (
	maxOwn   = 64 // tasks of the simulator
	maxTasks = 4096
	maxLog   = 1 << 14
	maxHints = 1 << 14
	inf      = int64(1) << 62
)

// Task is one simulated goroutine.
type Task struct {
	ID    int
	Name  string
	steps int64 // local steps done before the current quota started
	quota int64
	left  int64 // saved remainder of the quota while not running
	state int32 // 0 unused 1 runnable 2 blocked 4 done
	cond  func() bool
	wake  int64 // deadline while it sleeps
	hint  int   // next hint to look at
	nhint int
	hints []int64 // local steps at which this task may be preempted (sorted)
	// replay list: local step -> target
	plan  []PlanItem
	iplan int
	burst int64
	stall bool // not to be chosen while others can run
}

// PlanItem is one preemption: when the task has done Step statements, the
// baton goes to task To.
type PlanItem struct {
	Step int64
	To   int
}

// LogItem is one switch that happened.
type LogItem struct {
	From   int
	Step   int64
	To     int
	Site   uint32
	Forced bool
}

// Left is the number of statements until the next scheduler event.
var Left int64 = inf

// HotOn makes YH call the scheduler.
var HotOn bool

// Enabled is set while a simulation runs.
var Enabled bool

var (
	// tasks holds the tasks of the simulator first, goroutines the library
	// started after maxOwn
	tasks    [maxTasks]Task
	nown     int
	nlib     int
	cur      *Task
	rng      uint64
	Log      [maxLog]LogItem
	NLog     int
	total    int64
	limit    int64 = inf
	limitFn  func(site uint32)
	watchFn  func(task int, step int64, site uint32)
	deadFn   func()
	mode     int
	hotShift uint
	hintProb uint64
	uniform  int64
	maxPre   int
	npre     int
	fairness int64 = 3000000
	lastSite uint32
	hotHits  int64
	preHits  int64
)

// Policy describes how preemptions are chosen.
type Policy struct {
	Seed       uint64
	Uniform    int64 // mean distance of uniformly placed preemptions, 0: none
	HotProb    uint  // preempt at a hot site with probability 1/2^HotProb, 0: never
	SharedProb uint  // the same for statements that touch shared state or synchronise
	Hint       uint64
	Stall      uint64 // percent of the tasks preempted there that then wait until no other can run
	MaxPre     int
	Burst      int64 // after the first preemption, alternate every statement this often
	Replay     bool
	Solo       int64 // mean distance of preemptions once the library has goroutines of its own, 0: none
}

var pol Policy

// solo: the only task of the harness shares the processor with goroutines of
// the library.
//
//go:norace
func solo() bool { return pol.Solo > 0 && nlib > 0 }

//go:norace
func rnd() uint64 {
	rng ^= rng << 13
	rng ^= rng >> 7
	rng ^= rng << 17
	return rng * 0x2545F4914F6CDD1D
}

// Y is called before every statement.
//
//go:norace
func Y(site uint32) {
	Left--
	if Left < 0 {
		slow(site, 0)
	}
}

// YH is called before every statement that changes an argument in place.
//
//go:norace
func YH(site uint32) {
	Left--
	if Left < 0 || HotOn {
		k := 0
		if Left >= 0 {
			k = 1
		}
		slow(site, k)
	}
}

// YS is called before every statement that touches a variable the package
// itself changes after initialisation, or that synchronises.
//
//go:norace
func YS(site uint32) {
	Left--
	shared++
	if Left < 0 || SharedOn {
		k := 0
		if Left >= 0 {
			k = 2
		}
		slow(site, k)
	}
}

// SharedOn makes YS call the scheduler.
var SharedOn bool

var shared int64

// Shared returns how many such statements were executed.
//
//go:norace
func Shared() int64 { return shared }

//go:norace
func (t *Task) local() int64 {
	return t.steps + (t.quota - 1 - Left)
}

// slow is called with the current statement not yet executed.
//
//go:norace
func slow(site uint32, kind int) {
	hot := kind > 0
	t := cur
	if !Enabled || t == nil {
		Left = inf
		return
	}
	lastSite = site
	done := t.quota - 1 - Left // statements begun before this one in this quota
	now := t.steps + done
	if watchFn != nil {
		watchFn(t.ID, now, site)
	}
	total += done
	t.steps = now
	if total > limit {
		fn := limitFn
		limit = inf
		if fn != nil {
			fn(site)
		}
	}
	to := -1
	if solo() {
		if npre < pol.MaxPre && (kind == 0 || kind == 2 && rnd()&3 == 0) {
			if to = pickOther(t, false); to >= 0 {
				npre++
			}
		}
	} else if pol.Replay {
		if t.iplan < len(t.plan) && t.plan[t.iplan].Step <= now {
			if t.plan[t.iplan].Step == now {
				to = t.plan[t.iplan].To
			}
			t.iplan++
		}
	} else if npre < pol.MaxPre && watchFn == nil {
		pre, hinted := false, false
		if t.burst > 0 {
			t.burst--
			pre = true
		}
		if hot {
			hotHits++
			p := pol.HotProb
			if kind == 2 && pol.SharedProb > 0 {
				p = pol.SharedProb
			}
			if p > 0 && rnd()&(1<<p-1) == 0 {
				pre = true
			}
		}
		for t.hint < len(t.hints) && t.hints[t.hint] <= now {
			if t.hints[t.hint] == now && rnd()%100 < pol.Hint {
				pre, hinted = true, true
			}
			t.hint++
		}
		if pol.Uniform > 0 && !hot && !pre {
			pre = true
		}
		if pre {
			t.stall = (kind == 2 || hinted) && pol.Stall > 0 && rnd()%100 < pol.Stall
			if to = pickOther(t, false); to < 0 {
				t.stall = false
			}
		}
	}
	if to < 0 && !pol.Replay && t.quota >= fairness && done >= fairness-1 {
		to = pickOther(t, true)
	}
	setQuota(t, now)
	if to >= 0 && to < maxTasks && to != t.ID && ready(&tasks[to]) {
		if !pol.Replay {
			npre++
			if pol.Burst > 0 && tasks[to].burst == 0 && t.burst == 0 {
				t.burst = pol.Burst
				tasks[to].burst = pol.Burst
				if cur == t {
					setQuota(t, now)
					o := &tasks[to]
					rebase(o)
				}
			}
		}
		switchTo(t, &tasks[to], now, site, false)
	}
}

// rebase recomputes the quota of a task that is not running.
//
//go:norace
func rebase(o *Task) {
	done := o.quota - 1 - o.left
	if o.quota == 0 {
		done = 0
	}
	o.steps += done
	save := Left
	setQuota(o, o.steps)
	o.left = Left
	Left = save
}

// setQuota decides how many statements t runs before the next event; the
// statement about to run is the first of them.
//
//go:norace
func setQuota(t *Task, now int64) {
	q := fairness
	if watchFn != nil {
		q = 1
	} else if solo() {
		q = 1 + int64(rnd()%uint64(2*pol.Solo))
	} else if pol.Replay {
		if t.iplan < len(t.plan) {
			if d := t.plan[t.iplan].Step - now; d < 1 {
				q = 1
			} else {
				q = d
			}
		} else {
			q = 1 << 40
		}
	} else if t.burst > 0 {
		q = 1
	} else {
		if pol.Uniform > 0 {
			// geometric-like: 1 .. 2*mean
			d := 1 + int64(rnd()%uint64(2*pol.Uniform))
			if d < q {
				q = d
			}
		}
		if pol.Hint > 0 && t.hint < len(t.hints) {
			d := t.hints[t.hint] - now
			if d < 1 {
				d = 1
			}
			if d < q {
				q = d
			}
		}
	}
	if limit < inf {
		if r := limit - total + 1; r < q {
			if r < 1 {
				r = 1
			}
			q = r
		}
	}
	t.steps = now
	t.quota = q
	Left = q - 1
}

//go:norace
func ready(t *Task) bool {
	switch t.state {
	case 1:
		return true
	case 2:
		return t.cond == nil || t.cond()
	}
	return false
}

// at is the i-th task in use.
//
//go:norace
func at(i int) *Task {
	if i < nown {
		return &tasks[i]
	}
	return &tasks[maxOwn+i-nown]
}

// index is the inverse of at.
//
//go:norace
func index(id int) int {
	if id < maxOwn {
		return id
	}
	return id - maxOwn + nown
}

//go:norace
func pickOther(t *Task, all bool) int {
	n := 0
	for i := 0; i < nown+nlib; i++ {
		if o := at(i); o != t && (all || !o.stall) && ready(o) {
			n++
		}
	}
	if n == 0 {
		return -1
	}
	k := int(rnd() % uint64(n))
	for i := 0; i < nown+nlib; i++ {
		if o := at(i); o != t && (all || !o.stall) && ready(o) {
			if k == 0 {
				return o.ID
			}
			k--
		}
	}
	return -1
}

// switchTo hands the baton from t (whose local step count is now) to o and
// waits until t has it again.
//
//go:norace
func switchTo(t, o *Task, now int64, site uint32, forced bool) {
	if NLog < maxLog {
		Log[NLog] = LogItem{t.ID, now, o.ID, site, forced}
		NLog++
	}
	t.left = Left
	if o.state == 2 {
		o.state = 1
		o.cond = nil
	}
	Left = o.left
	o.stall = false
	over := t.state == 4 // the slot may be used again from here on
	cur = o
	if over {
		return
	}
	await(t)
}

// nextReady finds the next ready task after id in cyclic order.
//
//go:norace
func nextReady(id int) *Task {
	n := nown + nlib
	x := index(id)
	for k := 1; k <= n; k++ {
		o := at((x + k) % n)
		if o.ID != id && ready(o) {
			return o
		}
	}
	return nil
}

// yieldBlocked hands the baton on while the current task cannot run.
//
//go:norace
func yieldBlocked(t *Task) {
	now := t.local() + 1
	real := 0
	for {
		o := nextReady(t.ID)
		if o != nil {
			switchTo(t, o, now, lastSite, true)
			return
		}
		if t.state != 4 && ready(t) {
			t.state = 1
			t.cond = nil
			return
		}
		alive := false
		for i := 0; i < nown; i++ {
			if tasks[i].state != 4 {
				alive = true
			}
		}
		if !alive {
			// only goroutines of the library are left, if any
			t.left = Left
			cur = nil
			if t.state != 4 {
				await(t)
			}
			return
		}
		if advance() {
			real = 0
			continue
		}
		if real < 100 {
			// something outside the simulation may still act
			real++
			time.Sleep(time.Duration(real) * 200 * time.Microsecond)
			continue
		}
		if deadFn != nil {
			fn := deadFn
			deadFn = nil
			fn()
		}
		return
	}
}

// await waits for the baton.
//
//go:norace
func await(t *Task) {
	idle := 0
	for cur != t {
		runtime.Gosched()
		if idle++; idle > 20000 {
			time.Sleep(100 * time.Microsecond)
		}
	}
}

var (
	clock      int64 // ns since Base
	nextTimer  func() (int64, bool)
	fireTimers func(now int64)
)

//go:norace
func nowNs() int64 { return clock }

// advance moves the clock to the next deadline.
//
//go:norace
func advance() bool {
	w, ok := int64(0), false
	if nextTimer != nil {
		w, ok = nextTimer()
	}
	for i := 0; i < nown+nlib; i++ {
		if o := at(i); o.state == 2 && o.wake > 0 && (!ok || o.wake < w) {
			w, ok = o.wake, true
		}
	}
	if ok {
		Advance(w - clock)
	}
	return ok
}

// Advance moves the clock by hand.
//
//go:norace
func Advance(d int64) {
	if d > 0 {
		clock += d
	}
	if fireTimers != nil {
		fireTimers(clock)
	}
}

//go:norace
func sleep(d int64) {
	if d <= 0 {
		Yield()
		return
	}
	if !managed() {
		Advance(d)
		return
	}
	t := cur
	w := clock + d
	t.wake = w
	WaitUntil(func() bool { return clock >= w })
	t.wake = 0
}

//go:norace
func managed() bool { return Enabled && cur != nil }

// WaitUntil blocks the current task until cond holds.
//
//go:norace
func WaitUntil(cond func() bool) {
	if !Enabled || cur == nil {
		for !cond() {
			runtime.Gosched()
		}
		return
	}
	if cond() {
		return
	}
	t := cur
	t.state = 2
	t.cond = cond
	yieldBlocked(t)
	t.state = 1
}

// Yield lets another task run; used by the harness between operations.
//
//go:norace
func Yield() {
	if !Enabled || cur == nil {
		return
	}
	t := cur
	if o := nextReady(t.ID); o != nil {
		switchTo(t, o, t.local()+1, 0, true)
	}
}

// Reset prepares a simulation.
//
//go:norace
func Reset(p Policy, lim int64, onLimit func(site uint32), onDead func(), watch func(task int, step int64, site uint32)) {
	pol = p
	rng = p.Seed*0x9E3779B97F4A7C15 + 0x1234567
	if rng == 0 {
		rng = 1
	}
	chrng = rng
	nown, NLog, npre, total = 0, 0, 0, 0
	limit, limitFn, deadFn, watchFn = lim, onLimit, onDead, watch
	cur = nil
	HotOn = p.HotProb > 0 && !p.Replay && watch == nil
	SharedOn = (p.HotProb > 0 || p.SharedProb > 0) && !p.Replay && watch == nil || solo()
	hotHits = 0
	for i := 0; i < maxOwn; i++ {
		tasks[i] = Task{}
	}
	// goroutines of the library outlive a simulation
	for nlib > 0 && tasks[maxOwn+nlib-1].state == 4 {
		nlib--
	}
	for i := 0; i < nlib; i++ {
		o := &tasks[maxOwn+i]
		o.steps, o.quota, o.left, o.burst = 0, 0, 0, 0
		o.hint, o.hints, o.plan, o.iplan = 0, nil, nil, 0
		if o.state != 4 {
			save := Left
			setQuota(o, 0)
			o.left = Left
			Left = save
		}
	}
}

// Goroutines the library starts while its packages are initialised are tasks
// like the later ones.
func init() {
	Reset(Policy{Replay: true, Seed: 1}, inf, nil, func() { panic("simrt: deadlock during initialisation") }, nil)
	Add("init", nil, nil)
	Start(0)
}

// Add declares a task before Start.
//
//go:norace
func Add(name string, hints []int64, plan []PlanItem) *Task {
	if nown >= maxOwn {
		panic("simrt: too many tasks")
	}
	t := &tasks[nown]
	t.ID = nown
	nown++
	return initTask(t, name, hints, plan)
}

// addLib declares a goroutine of the library.
//
//go:norace
func addLib() *Task {
	k := 0
	for k < nlib && tasks[maxOwn+k].state != 4 {
		k++
	}
	if maxOwn+k >= maxTasks {
		panic("simrt: too many goroutines")
	}
	if k == nlib {
		nlib++
	}
	t := &tasks[maxOwn+k]
	*t = Task{ID: maxOwn + k}
	initTask(t, "lib", nil, nil)
	if solo() && cur != nil {
		SharedOn = true
		done := cur.quota - 1 - Left
		total += done
		setQuota(cur, cur.steps+done)
	}
	return t
}

//go:norace
func initTask(t *Task, name string, hints []int64, plan []PlanItem) *Task {
	t.Name = name
	t.hints = hints
	t.plan = plan
	t.state = 1
	save := Left
	setQuota(t, 0)
	t.left = Left
	Left = save
	return t
}

// Start gives the baton to the first task and enables the scheduler.
//
//go:norace
func Start(first int) {
	Enabled = true
	Left = tasks[first].left
	cur = &tasks[first]
}

// Enter waits until the task is scheduled for the first time.
//
//go:norace
func Enter(t *Task) { await(t) }

// Exit ends the task and hands the baton on.
//
//go:norace
func Exit(t *Task) {
	t.state = 4
	yieldBlocked(t)
}

// Finished reports whether every task of the simulator is done and no
// goroutine of the library can continue.
//
//go:norace
func Finished() bool {
	for i := 0; i < nown; i++ {
		if tasks[i].state != 4 {
			return false
		}
	}
	return cur == nil
}

// Stop disables the scheduler.
//
//go:norace
func Stop() {
	Enabled = false
	HotOn, SharedOn = false, false
	cur = nil
	Left = inf
}

// Total is the number of statements executed so far.
//
//go:norace
func Total() int64 {
	if cur == nil {
		return total
	}
	return total + (cur.quota - 1 - Left)
}

// SetLimit changes the statement limit, counted from now.
//
//go:norace
func SetLimit(n int64) {
	if !Enabled || cur == nil {
		return
	}
	t := cur
	done := t.quota - 1 - Left
	total += done
	now := t.steps + done
	if n >= inf-total {
		limit = inf
	} else {
		limit = total + n
	}
	setQuota(t, now)
}

// Steps of a task.
//
//go:norace
func TaskSteps(i int) int64 {
	t := &tasks[i]
	if t == cur {
		return t.local() + 1
	}
	if t.quota == 0 {
		return t.steps
	}
	return t.steps + (t.quota - 1 - t.left)
}

// Alone reports whether the simulator has a single task.
//
//go:norace
func Alone() bool { return nown == 1 }

// Quiet reports whether no other task is in the middle of anything.
//
//go:norace
func Quiet() bool {
	if nown != 1 {
		return false
	}
	for i := 0; i < nlib; i++ {
		if st := tasks[maxOwn+i].state; st == 1 || st == 2 {
			return false
		}
	}
	return true
}

// Preemptions returns the number of unforced switches.
//
//go:norace
func Preemptions() int { return npre }

// HotHits returns how often a hot statement was reached.
//
//go:norace
func HotHits() int64 { return hotHits }

// Cur returns the id of the running task, -1 if none.
//
//go:norace
func Cur() int {
	if cur == nil {
		return -1
	}
	return cur.ID
}

// PreGo registers a goroutine the library is about to start.
//
//go:norace
func PreGo() *Task {
	if !Enabled || cur == nil {
		return nil
	}
	return addLib()
}

// GoEnter is the first thing a goroutine of the library does.
//
//go:norace
func GoEnter(t *Task) *Task {
	if t != nil {
		Enter(t)
	}
	return t
}

// OnGoPanic is told about a panic that a goroutine of the library did not
// recover; outside the simulator it ends the process.
var OnGoPanic func(e interface{})

// GoExit is the last thing a goroutine of the library does. It must be
// deferred.
//
//go:norace
func GoExit(t *Task) {
	if t == nil {
		return
	}
	if e := recover(); e != nil {
		if OnGoPanic == nil {
			panic(e)
		}
		OnGoPanic(e)
	}
	Exit(t)
}

// Vars are the package-level variables of the library.
type Var struct {
	Name string
	Ptr  interface{}
}

var Vars []Var

// RegVar registers a package-level variable.
func RegVar(name string, ptr interface{}) { Vars = append(Vars, Var{name, ptr}) }
