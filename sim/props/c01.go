package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/phoreproject/bls/zzverif/simrt"

	"verifsim/core"
	"verifsim/sim"
	"verifsim/tape"
)

type taskOp struct {
	op   *core.Op
	args []*argument
}

type c01setup struct {
	m      *Machine
	tasks  [][]taskOp
	shared []*Obj
	lists  []*core.ListV
	expEnc map[*Obj][]byte
}

type soloOut struct {
	Outs  [][]Out   `json:"outs"`
	Steps []int64   `json:"steps"`
	Hints [][]int64 `json:"hints"`
	Encs  []string  `json:"encs"`
	Total int64     `json:"total"`
}

// setupC01 draws the shared objects and the calls of every task. It is the
// same in the solo and in the concurrent process.
func setupC01(r *sim.Run) *c01setup {
	c := r.S("cfg")
	m := newMachine(r, r.Lib, true)
	m.Fam = c.N(3)
	m.Max = []int{2, 4, 8}[c.N(3)]
	m.Reuse = 92
	m.Off = []int{0, 0, 8}[c.N(3)]
	nt := 2 + c.W(5, 4, 3, 1, 1)
	set := ChooseThemes(c)
	if c.P(35) { // whole API
		for _, t := range themes {
			set[t.name] = true
		}
	}
	m.Themes(set)
	same := c.P(45) // every task runs the same few operations
	budget := 30000 + c.N(130000)
	if r.Race {
		budget /= 3
	}
	st := &c01setup{m: m, expEnc: map[*Obj][]byte{}}
	var menu []*core.Op
	if same {
		for k := 0; k < 1+c.N(2); k++ {
			if op := m.pick(c); op != nil {
				menu = append(menu, op)
			}
		}
	}
	var pool []*core.ListV
	var poolArg []*argument
	per := budget / nt
	share := func(op *core.Op, args []*argument, fresh int, s *tape.Stream) {
		for i := range args {
			if !args[i].lst { // share lists between calls
				continue
			}
			if s.P(fresh) {
				for k, p := range poolArg {
					if p.k == args[i].k && s.P(60) {
						args[i] = poolArg[k]
						break
					}
				}
			}
			m.Lib.Prime(op.Args[i], args[i].lv)
			found := false
			for _, p := range pool {
				if p == args[i].lv {
					found = true
				}
			}
			if !found {
				pool = append(pool, args[i].lv)
				poolArg = append(poolArg, args[i])
			}
		}
		if op.Mut { // in-place: on a private copy
			a := args[0]
			args[0] = &argument{k: a.k, src: a.bytes(), v: m.Lib.Dec(a.k, a.bytes())}
		}
	}
	note := func(t, j int, op *core.Op, args []*argument) {
		var sh []string
		for _, a := range args {
			sh = append(sh, a.show())
		}
		r.Ev("task %d call %d: %s(%s)", t, j, op.Name, strings.Join(sh, ", "))
		r.Shape(op.Name)
	}
	if f := r.Focus(); len(f) > 0 && c.P(60) {
		st.focus(r, c, f, share, note)
	} else if c.P(55) {
		st.duel(r, c, share, note)
	} else {
		r.Ev("%d tasks on %s, same=%v", nt, themeNames(set), same)
		for t := 0; t < nt; t++ {
			var ops []taskOp
			cost := 0
			for j := 0; j < 12 && cost < per; j++ {
				s := r.S("task/%d/op/%02d", t, j)
				op := m.pick(s)
				if op == nil {
					continue
				}
				if len(menu) > 0 {
					op = menu[s.N(len(menu))]
				}
				if cost > 0 && cost+op.Cost > per+per/2 {
					continue
				}
				args := m.args(s, op)
				share(op, args, 50, s)
				ops = append(ops, taskOp{op, args})
				cost += op.Cost
				note(t, j, op, args)
			}
			st.tasks = append(st.tasks, ops)
		}
	}
	used := map[*Obj]bool{}
	for _, ops := range st.tasks {
		for _, o := range ops {
			for _, a := range o.args {
				if a.obj != nil {
					used[a.obj] = true
				}
				for _, x := range a.l {
					if x.obj != nil {
						used[x.obj] = true
					}
				}
			}
		}
	}
	for _, o := range m.Consts {
		used[o] = true
	}
	for o := range used {
		st.shared = append(st.shared, o)
	}
	sort.Slice(st.shared, func(i, j int) bool { return st.shared[i].ID < st.shared[j].ID })
	for _, l := range pool {
		if l.Check != nil {
			st.lists = append(st.lists, l)
		}
	}
	return st
}

// duel sets up a few tasks around one operation, chosen without regard to
// its cost: the operation against itself, on the same operands or on others,
// and against operations that use its operands.
func (st *c01setup) duel(r *sim.Run, c *tape.Stream, share func(*core.Op, []*argument, int, *tape.Stream), note func(int, int, *core.Op, []*argument)) {
	m := st.m
	m.Flat = true
	set := map[string]bool{}
	for _, t := range themes {
		set[t.name] = true
	}
	m.Themes(set)
	op := m.pick(c)
	if op == nil {
		return
	}
	s0 := r.S("duel")
	args := m.args(s0, op)
	share(op, args, 0, s0)
	nt := 2 + c.W(4, 2, 1)
	reps := 1 + 6000/(op.Cost+200)
	if reps > 6 {
		reps = 6
	}
	kind := c.N(4)
	r.Ev("%d tasks around %s", nt, op.Name)
	var theirs []*argument
	for _, a := range args {
		if a.obj != nil {
			theirs = append(theirs, a)
		}
		theirs = append(theirs, a.l...)
	}
	for t := 0; t < nt; t++ {
		var ops []taskOp
		put := func(o *core.Op, a []*argument) {
			note(t, len(ops), o, a)
			ops = append(ops, taskOp{o, a})
		}
		for j := 0; j < reps; j++ {
			s := r.S("duel/%d/%d", t, j)
			k := kind
			if kind == 3 {
				k = s.N(3)
			}
			if t == 0 && j == 0 {
				k = 0
			}
			switch k {
			case 0: // the same call
				put(op, args)
			case 1: // other operands
				a := m.args(s, op)
				share(op, a, 30, s)
				put(op, a)
			case 2: // another operation on the same operands
				o, a := st.neighbour(s, op, theirs)
				if o == nil {
					put(op, args)
					break
				}
				share(o, a, 50, s)
				put(o, a)
			}
		}
		st.tasks = append(st.tasks, ops)
	}
}

// focus sets up tasks around operations that were seen to touch shared state.
func (st *c01setup) focus(r *sim.Run, c *tape.Stream, ops []*core.Op, share func(*core.Op, []*argument, int, *tape.Stream), note func(int, int, *core.Op, []*argument)) {
	m := st.m
	nt := 2 + c.W(5, 4, 2, 1, 1)
	// a few of them, which all tasks use
	var menu []*core.Op
	for i := 1 + c.N(4); i > 0; i-- {
		menu = append(menu, ops[c.N(len(ops))])
	}
	m.Reuse = []int{92, 50, 10}[c.N(3)]
	budget := 20000 + c.N(100000)
	if r.Race {
		budget /= 3
	}
	r.Ev("%d tasks around shared state", nt)
	first := map[*core.Op][]*argument{}
	for t := 0; t < nt; t++ {
		var calls []taskOp
		cost := 0
		for j := 0; j < 12 && (j < 2 || cost < budget/nt); j++ {
			s := r.S("focus/%d/%d", t, j)
			op := menu[s.N(len(menu))]
			var args []*argument
			if a := first[op]; a != nil && s.P(40) {
				args = append([]*argument{}, a...)
			} else {
				args = m.args(s, op)
				first[op] = args
			}
			share(op, args, 40, s)
			note(t, j, op, args)
			calls = append(calls, taskOp{op, args})
			cost += op.Cost
		}
		st.tasks = append(st.tasks, calls)
	}
}

// neighbour finds an operation that takes an operand of the other one.
func (st *c01setup) neighbour(s *tape.Stream, op *core.Op, theirs []*argument) (*core.Op, []*argument) {
	if len(theirs) == 0 {
		return nil, nil
	}
	for try := 0; try < 40; try++ {
		o := st.m.pick(s)
		if o == nil || o.Cost > op.Cost+3000 {
			continue
		}
		var at []int
		x := theirs[s.N(len(theirs))]
		for i, a := range o.Args {
			if a.K == x.k && !a.List && !(o.Mut && i == 0) {
				at = append(at, i)
			}
		}
		if len(at) == 0 {
			continue
		}
		switch o.Name {
		case "bls.NewG1Affine", "bls.NewG2Affine", "bls.NewG1Projective", "bls.NewG2Projective", "bls.FQReprToFQRaw":
			continue
		}
		args := st.m.args(s, o)
		for _, i := range at {
			if i == at[0] || s.P(50) {
				args[i] = x
			}
		}
		return o, args
	}
	return nil, nil
}

// body runs the calls of one task.
func (st *c01setup) body(r *sim.Run, t int, out *[]Out) {
	for _, o := range st.tasks[t] {
		args := o.args
		if o.op.Mut { // fresh private receiver every time
			args = append([]*argument{}, args...)
			a := args[0]
			args[0] = &argument{k: a.k, src: a.src, v: st.m.Lib.Dec(a.k, a.src)}
		}
		for i, a := range args {
			if a.k == core.Rd {
				args = append([]*argument{}, args...)
				args[i] = &argument{k: a.k, src: a.src, v: st.m.Lib.Dec(a.k, a.src)}
			}
		}
		res, _ := perform(r, st.m.Lib, o.op, args, 0)
		*out = append(*out, res)
	}
}

// SoloMain runs the tasks of a C01 run one after the other and watches the
// memory of the library and of the shared operands.
func SoloMain(r *sim.Run) {
	st := setupC01(r)
	var so soloOut
	var roots []interface{}
	for _, v := range simrt.Vars {
		if !strings.HasPrefix(v.Name, "port/") {
			roots = append(roots, v.Ptr)
		}
	}
	for _, o := range st.shared {
		roots = append(roots, o.V)
	}
	rng := tape.New(r.Req.Seed).S("solo")
	for t := range st.tasks {
		var outs []Out
		var hints []int64
		mem := newMemory(roots)
		last := int64(0)
		k := int64(16)
		if mem.total > 1<<15 {
			k = 64
		}
		next := k
		watch := func(id int, step int64, site uint32) {
			if step < next || len(hints) > 4000 {
				return
			}
			if mem.changed() {
				for i := 0; i < 3; i++ {
					hints = append(hints, last+int64(rng.N(int(step-last+k))))
				}
			}
			last = step
			next = step + k
			if step > 400000 {
				next = step + 4*k
			}
		}
		r.Watch(watch, func() { st.body(r, t, &outs) })
		so.Steps = append(so.Steps, r.LastSteps)
		so.Total += r.LastSteps
		sort.Slice(hints, func(i, j int) bool { return hints[i] < hints[j] })
		so.Hints = append(so.Hints, hints)
		so.Outs = append(so.Outs, outs)
	}
	for _, o := range st.shared {
		so.Encs = append(so.Encs, hexEnc(o.K, r.SafeEnc(r.Lib, o.K, o.V)))
	}
	r.Body, _ = json.Marshal(&so)
}

// C01 runs tasks that share operands under a seeded scheduler and compares
// every result with the solo execution; observer tasks read the shared
// objects and the package constants all the time.
func C01(r *sim.Run) {
	q := *r.Req
	q.Mode = "solo"
	q.Plans = nil
	r.Tolerant = true
	res, err := r.Ask(sim.Procs.Path, &q, 120*time.Second)
	r.Tolerant = false
	if err != nil {
		if c, ok := err.(*sim.Crash); ok {
			panic("solo run died: " + c.Stderr)
		}
		panic(err)
	}
	if res.Err != "" {
		panic("solo: " + res.Err)
	}
	var so soloOut
	if err := json.Unmarshal(res.Body, &so); err != nil {
		panic(err)
	}
	st := setupC01(r)
	if len(so.Outs) != len(st.tasks) || len(so.Encs) != len(st.shared) {
		panic("solo run differs in shape")
	}
	rounds := 1
	pc := r.S("policy")
	if !r.Race {
		rounds = 2 + pc.N(3)
		if so.Total > 4000000 {
			rounds = 2
		}
	}
	for i, o := range st.shared {
		o.Enc = nil
		st.expEnc[o] = []byte(so.Encs[i])
	}
	for round := 0; round < rounds; round++ {
		ps := r.S("policy/%d", round)
		pol := simrt.Policy{Seed: ps.U(), MaxPre: 4000}
		kind := ps.W(1, 8, 5, 4, 5)
		means := []int64{3, 20, 100, 600, 4000, 30000, 200000}
		switch kind {
		case 1:
			pol.Uniform = means[ps.N(len(means))]
		case 2:
			pol.Hint = uint64([]int{100, 60, 25, 8}[ps.N(4)])
			if ps.P(50) {
				pol.Uniform = 100000
			}
		case 3:
			pol.HotProb = uint(1 + ps.N(8))
		case 4:
			pol.Hint = uint64([]int{60, 25, 8}[ps.N(3)])
			pol.HotProb = uint(2 + ps.N(8))
			pol.Uniform = means[2+ps.N(5)]
			if ps.P(40) {
				pol.Burst = int64(2 + ps.N(40))
			}
		}
		pol.SharedProb = uint([]int{0, 1, 2, 2, 3, 4, 6}[ps.N(7)])
		pol.Stall = uint64([]int{0, 0, 30, 90}[ps.N(4)])
		if kind == 0 {
			pol.SharedProb = 0
		}
		outs := make([][]Out, len(st.tasks))
		var tasks []sim.Task
		left := new(int)
		*left = len(st.tasks)
		for t := range st.tasks {
			var h []int64
			if pol.Hint > 0 {
				h = so.Hints[t]
			}
			tasks = append(tasks, sim.Task{Name: fmt.Sprintf("caller%d", t), Hints: h, F: func(id int) {
				st.body(r, id, &outs[id])
				dec(left)
			}})
		}
		// observer
		var seen string
		obs := observed(ps, st)
		rd := 0
		tasks = append(tasks, sim.Task{Name: "observer", F: func(id int) {
			for k := 0; k < 60 && get(left) > 0 && seen == ""; k++ {
				for _, o := range obs {
					e := []byte(hexEnc(o.K, r.SafeEnc(r.Lib, o.K, o.V)))
					if !bytes.Equal(e, st.expEnc[o]) {
						seen = fmt.Sprintf("observer saw %s change from %s to %s while only reading calls were running", objName(o), cut(string(st.expEnc[o])), cut(string(e)))
						return
					}
					rd++
				}
				for _, l := range st.lists {
					if s := l.Check(); s != "" {
						seen = "observer: " + s
						return
					}
				}
				simrt.Yield()
			}
		}})
		ran := so.Total*30 + 400000000
		var pre int
		func() {
			defer func() {
				if e := recover(); e != nil {
					if sim.IsLimit(e) {
						r.Fail("hang", "the tasks did not finish within %d statements; alone they need %d", ran, so.Total)
					}
					panic(e)
				}
			}()
			pre, _ = r.Parallel(pol, ran, tasks)
		}()
		r.Stat("concurrent rounds", 1)
		r.Stat("preemptions", int64(pre))
		r.Stat("observer readings", int64(rd))
		r.Stat("policy "+[]string{"sequential", "uniform", "memory hints", "hot statements", "mixed"}[kind], 1)
		for t := range st.tasks {
			for j := range st.tasks[t] {
				name := st.tasks[t][j].op.Name
				a, b := so.Outs[t][j], outs[t][j]
				if a.key() != b.key() {
					r.Fail("result:"+name, "round %d: task %d call %d %s returned %s, alone it returns %s", round, t, j, name, b.brief(), a.brief())
				}
				r.Stat("calls compared", 1)
			}
		}
		if seen != "" {
			r.Fail("observed", "round %d: %s", round, seen)
		}
		for _, o := range st.shared {
			e := []byte(hexEnc(o.K, r.SafeEnc(r.Lib, o.K, o.V)))
			if !bytes.Equal(e, st.expEnc[o]) {
				r.Fail("changed", "round %d: %s changed from %s to %s", round, objName(o), cut(string(st.expEnc[o])), cut(string(e)))
			}
		}
		r.Ev("round %d: %d preemptions, all results as alone", round, pre)
	}
}

func observed(ps *tape.Stream, st *c01setup) []*Obj {
	var obs []*Obj
	n := 2 + ps.N(6)
	var own []*Obj
	for _, o := range st.shared {
		if o.Const == "" {
			own = append(own, o)
		}
	}
	for i := 0; i < n && len(st.shared) > 0; i++ {
		o := st.shared[ps.N(len(st.shared))]
		if len(own) > 0 && ps.P(65) {
			o = own[ps.N(len(own))]
		}
		if o.K != core.Prep {
			obs = append(obs, o)
		}
	}
	return obs
}

//go:norace
func dec(p *int) { *p-- }

//go:norace
func get(p *int) int { return *p }

func objName(o *Obj) string {
	if o.Const != "" {
		return "constant " + o.Const
	}
	return fmt.Sprintf("shared %s#%d", o.K, o.ID)
}

func cut(s string) string {
	if len(s) > 60 {
		return s[:28] + ".." + s[len(s)-28:]
	}
	return s
}
