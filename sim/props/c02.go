package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"time"

	"verifsim/core"
	"verifsim/sim"
	"verifsim/tape"
)

// evalBody is the body of an "eval" request.
type evalBody struct {
	Invs []Inv `json:"invs"`
}

// EvalMain serves an evaluation request in a fresh process.
func EvalMain(r *sim.Run) {
	var b evalBody
	if err := json.Unmarshal(r.Req.Body, &b); err != nil {
		panic(err)
	}
	var outs []Out
	for _, iv := range b.Invs {
		outs = append(outs, Evaluate(r, r.Lib, iv))
	}
	r.Body, _ = json.Marshal(outs)
}

// evalFresh evaluates calls in a process that has done nothing else.
func evalFresh(r *sim.Run, invs []Inv) []Out {
	body, _ := json.Marshal(evalBody{invs})
	res, err := r.Ask(sim.Procs.Path, &sim.Request{Mode: "eval", Prop: r.Prop, Tier: r.Tier, Body: body}, 120*time.Second)
	if err != nil {
		if c, ok := err.(*sim.Crash); ok {
			// a fatal error of the runtime: report it as an outcome
			_ = c
			return nil
		}
		panic(err)
	}
	if res.Err != "" {
		panic(res.Err)
	}
	var outs []Out
	if err := json.Unmarshal(res.Body, &outs); err != nil {
		panic(err)
	}
	r.Stat("calls repeated in fresh processes", int64(len(outs)))
	return outs
}

type c02rec struct {
	step int
	inv  Inv
	out  Out
	txt  string
}

// C02 runs one history of calls over shared, aliased objects and compares
// every result with the same call on equal, fresh operands in a fresh
// process; after every call all other reachable objects and the package
// constants must have kept their values.
func C02(r *sim.Run) {
	r.Tolerant = true // calls on impossible operands are part of the history
	c := r.S("cfg")
	focus := r.Focus()
	if len(focus) > 0 && c.P(20) || len(focus) == 0 && c.P(2) {
		marathon(r, focus)
		return
	}
	m := NewMachine(r, r.Lib)
	m.Fam = c.N(3)
	m.Off = []int{0, 5, 20}[c.N(3)]
	m.Reuse = []int{90, 75, 50}[c.N(3)]
	m.Max = []int{3, 6, 12}[c.N(3)]
	long := c.P(20)
	budget := 60000 + c.N(140000)
	n := 6 + c.N(50)
	set := ChooseThemes(c)
	if long {
		m.Light = true
		n = 200 + c.N(500)
		budget = 250000
	}
	if r.Tier == "thorough" {
		budget *= 2
		n = n * 3 / 2
	}
	if !long && c.P(45) {
		m.Flat = true
		if c.P(50) {
			for _, t := range themes {
				set[t.name] = true
			}
		}
	}
	m.Themes(set)
	related := []int{5, 15, 35}[c.N(3)]
	faults := []int{0, 6, 15}[c.N(3)]
	aimed := len(focus) > 0 && c.P(60)
	if aimed && related < 25 {
		related = 25
	}
	var makers []*core.Op // operations that make an object out of others
	if c.P(30) {
		for _, op := range r.Lib.Ops() {
			if usable(op) && m.makes(op) && !(m.Light && op.Cost > 2500) {
				makers = append(makers, op)
			}
		}
	}
	scripts := 0
	if set["keys1"] || set["keys2"] || set["hash"] {
		scripts = 12
	}
	r.Ev("history of up to %d calls on %s", n, themeNames(set))
	var recs []c02rec
	seen := map[string]string{}
	step := 0
	m.After = func(m *Machine, op *core.Op, args []*argument, inv Inv, out Out) {
		var recv *Obj
		if op.Mut {
			recv = args[0].obj
		}
		// everything else kept its value
		check := func(o *Obj, what string) {
			if o == recv || o == nil || o.Enc == nil {
				return
			}
			if o.K == core.Prep && o.ID%8 != step%8 {
				return
			}
			now := r.SafeEnc(r.Lib, o.K, o.V)
			if !bytes.Equal(now, o.Enc) {
				name := fmt.Sprintf("%s %s#%d", what, o.K, o.ID)
				if o.Const != "" {
					name = "constant " + o.Const
				}
				r.Fail("changed:"+op.Name, "%s changed %s from %s to %s", op.Name, name, short(o.Enc), short(now))
			}
		}
		for _, a := range args {
			if a.obj != nil {
				check(a.obj, "operand")
			}
			for _, x := range a.l {
				if x.obj != nil {
					check(x.obj, "list element")
				}
			}
		}
		for _, o := range m.live() {
			check(o, "bystander")
		}
		if out.Note != "" {
			r.Fail("changed:"+op.Name, "%s: %s", op.Name, out.Note)
		}
		b, _ := json.Marshal(inv)
		k := out.key()
		if old, ok := seen[string(b)]; ok {
			if old != k {
				r.Fail("result:"+op.Name, "%s returned %s, earlier in the same history %s for the same operand values", op.Name, out.brief(), old)
			}
			r.Stat("calls repeated within the history", 1)
			return
		}
		seen[string(b)] = k
		recs = append(recs, c02rec{step, inv, out, op.Name})
		r.State("op", op.Name, len(m.Pool[op.Outs0Kind()]), aliasing(args))
	}
	fault := 0
	var last c02call
	for step = 0; step < n && m.Cost < budget; step++ {
		s := r.S("op/%04d", step)
		if scripts > 0 && s.P(scripts) {
			if k, ok := m.Script(s); ok {
				last = k
				for j := s.N(4); j > 0 && m.Cost < budget; j-- {
					m.related(s, last)
				}
			}
			continue
		}
		if r.S("fault/%04d", step).P(faults) {
			if injectFailure(m, r.S("fault/%04d", step)) {
				fault++
				continue
			}
		}
		if last.op != nil && s.P(related) {
			m.related(s, last)
			continue
		}
		op := m.pick(s)
		if aimed && s.P(40) {
			op = focus[s.N(len(focus))]
		}
		made := len(makers) > 0 && s.P(50)
		if made {
			op = makers[s.N(len(makers))]
			for try := 0; try < 3 && s.N(10000) < op.Cost; try++ {
				op = makers[s.N(len(makers))]
			}
		}
		if op == nil {
			continue
		}
		last = c02call{op: op, args: m.args(s, op)}
		_, last.outs = m.Apply(op, last.args)
		if made {
			m.letGo(s, last)
		}
	}
	// evaluate in fresh processes; of long histories a sample
	keep := recs
	limit := 48
	if r.Tier == "thorough" {
		limit = 120
	}
	if len(keep) > limit {
		e := r.S("sample")
		perm := e.Perm(len(recs))
		pick := map[int]bool{}
		for _, i := range perm[:limit*2/3] {
			pick[i] = true
		}
		for i := len(recs) - limit/3; i < len(recs); i++ {
			pick[i] = true
		}
		keep = nil
		for i := range recs {
			if pick[i] {
				keep = append(keep, recs[i])
			}
		}
	}
	for _, rc := range keep {
		outs := evalFresh(r, []Inv{rc.inv})
		if outs == nil {
			r.Fail("fresh:"+rc.txt, "%s with the operands of step %d ends the process when it is the first call", rc.txt, rc.step)
		}
		if outs[0].key() != rc.out.key() {
			b, _ := json.Marshal(rc.inv)
			r.Ev("call in question: %s", b)
			r.Fail("result:"+rc.txt, "%s at step %d returned %s; the same call on equal operands in a fresh process returns %s", rc.txt, rc.step, rc.out.brief(), outs[0].brief())
		}
	}
	r.Stat("histories", 1)
	_ = tape.Mix
}

// makes tells whether an operation has a result, or a receiver, that could
// hold on to an operand its owner may change.
func (m *Machine) makes(op *core.Op) bool {
	first := 0
	if op.Mut {
		first = 1
	}
	has := op.Mut
	for _, o := range op.Outs {
		has = has || core.IsObject(o.K)
	}
	if !has || len(op.Args) <= first {
		return false
	}
	for _, a := range op.Args[first:] {
		if a.K != core.Rd && a.K != core.Hash && (a.K == core.Msg || a.K == core.Big || len(m.mutators(a.K)) > 0) {
			return true
		}
	}
	return false
}

// letGo changes operands of a call just made, which are the caller's to
// change; results of the call must not notice, even those nobody looked at.
func (m *Machine) letGo(s *tape.Stream, c c02call) {
	var objs []*Obj
	for i, a := range c.args {
		if a.obj != nil && !(c.op.Mut && i == 0) {
			objs = append(objs, a.obj)
		}
		for _, x := range a.l {
			if x.obj != nil {
				objs = append(objs, x.obj)
			}
		}
	}
	if len(objs) == 0 {
		return
	}
	o := objs[s.N(len(objs))]
	if s.P(50) || !m.overwrite(s, o) {
		m.inPlace(s, o)
	}
	checkBystanders(m, c.op.Name)
	m.R.Stat("operands changed right after the call", 1)
}

// c02call is a call just made.
type c02call struct {
	op   *core.Op
	args []*argument
	outs []*Obj
}

// related does what a caller may do next with the objects of a call: change
// one of them in place, give one a new value and repeat the call, or repeat
// the call with one object in several places.
func (m *Machine) related(s *tape.Stream, c c02call) {
	var objs []*Obj
	for _, a := range c.args {
		if a.obj != nil {
			objs = append(objs, a.obj)
		}
		for _, x := range a.l {
			if x.obj != nil {
				objs = append(objs, x.obj)
			}
		}
	}
	mode := s.N(5)
	if mode == 4 || mode == 0 { // the result in place, and the call once more
		for _, o := range c.outs {
			if o != nil {
				m.inPlace(s, o)
				if (mode == 4 || s.P(50)) && !c.op.Mut && m.valid(c) {
					m.again(c)
				}
				return
			}
		}
	}
	if len(objs) == 0 {
		return
	}
	o := objs[s.N(len(objs))]
	switch mode {
	case 0, 1, 4: // an operand in place
		m.inPlace(s, o)
		if c.op.Mut || !m.valid(c) {
			return
		}
	case 2: // another value for an operand
		if !m.overwrite(s, o) {
			m.inPlace(s, o)
		}
		if !m.valid(c) {
			return
		}
	case 3: // the same object in several places
		for i, a := range c.args {
			if a.obj != nil && a.obj != o && a.k == o.K && !(c.op.Mut && i == 0) && !c.op.Args[i].List {
				c.args[i] = objArg(o)
			}
		}
		if !m.valid(c) {
			return
		}
	}
	m.again(c)
}

// again makes a call once more with its objects as they are now.
func (m *Machine) again(c c02call) {
	args := make([]*argument, len(c.args))
	for i, a := range c.args {
		args[i] = a
		if a.lst {
			args[i] = listArg(a.k, a.l)
		}
	}
	m.Apply(c.op, args)
}

// valid tells whether a call may be made again with its objects as they are
// now.
func (m *Machine) valid(c c02call) bool {
	switch c.op.Name {
	case "bls.NewG1Affine", "bls.NewG2Affine", "bls.NewG1Projective", "bls.NewG2Projective", "bls.FQReprToFQRaw":
		return false
	}
	for i, a := range c.args {
		if a.k == core.Rd || a.k == core.Hash {
			return false
		}
		for _, x := range append([]*argument{a}, a.l...) {
			if x.obj == nil {
				continue
			}
			if x.obj.Enc == nil || c.op.Mut && i == 0 && x.obj.Frozen {
				return false
			}
			if x.obj.Const != "" {
				continue
			}
			ok := false
			for _, o := range m.Pool[x.obj.K] {
				if o == x.obj {
					ok = true
				}
			}
			if !ok { // no longer watched: put it back
				m.Pool[x.obj.K] = append(m.Pool[x.obj.K], x.obj)
			}
		}
	}
	return true
}

// inPlace calls an operation that changes o.
func (m *Machine) inPlace(s *tape.Stream, o *Obj) {
	ops := m.mutators(o.K)
	if len(ops) == 0 || o.Frozen || o.Enc == nil {
		return
	}
	op := ops[s.N(len(ops))]
	args := m.args(s, op)
	args[0] = objArg(o)
	m.Apply(op, args)
}

// aliasing describes which operands are one object.
func aliasing(args []*argument) string {
	ids := map[*Obj]int{}
	s := ""
	add := func(o *Obj) {
		if o == nil {
			s += "v"
			return
		}
		if _, ok := ids[o]; !ok {
			ids[o] = len(ids)
		}
		s += fmt.Sprint(ids[o])
		if o.Const != "" {
			s += "c"
		}
	}
	for _, a := range args {
		if a.lst {
			s += "["
			for _, x := range a.l {
				add(x.obj)
			}
			s += "]"
		} else {
			add(a.obj)
		}
	}
	return s
}

// composite operations take several steps, so that a failure can leave one
// half done.
var composite = []string{
	"bls.MillerLoop", "bls.Pairing", "bls.CompareTwoPairings", "bls.FinalExponentiation", "bls.G2AffineToPrepared",
	"g1pubs.Verify", "g2pubs.Verify", "g1pubs.Signature.VerifyAggregate", "g2pubs.Signature.VerifyAggregate",
	"g1pubs.Signature.VerifyAggregateCommon", "g2pubs.Signature.VerifyAggregateCommon", "g1pubs.Signature.VerifyAggregateWithDomain",
	"g1pubs.AggregateSignatures", "g2pubs.AggregateSignatures", "g1pubs.AggregatePublicKeys", "g2pubs.AggregatePublicKeys",
	"g1pubs.Sign", "g2pubs.Sign", "g1pubs.SignWithDomain", "g1pubs.VerifyWithDomain",
}

// injectFailure makes a call that fails: a source of randomness that errors
// or panics halfway, undecodable bytes, or an operand that makes the call
// panic.
func injectFailure(m *Machine, s *tape.Stream) bool {
	r := m.R
	switch s.N(8) {
	case 0, 1: // failing source
		names := []string{"bls.RandFQ", "bls.RandFQ2", "bls.RandFQ6", "bls.RandFQ12", "bls.RandFR", "bls.RandG1", "bls.RandG2", "g1pubs.RandKey", "g2pubs.RandKey"}
		op := m.Lib.Op(names[s.N(len(names))])
		fr := &faultReader{src: newByteSrc(s.Bytes(8)), failAt: s.N(120), mode: 1 + s.N(3)}
		res := r.Call(op, []interface{}{fr}, m.Limit)
		r.Fault("failing random source")
		r.Ev("%s with a source failing at byte %d: panic=%q", op.Name, fr.failAt, res.Panic)
		m.R.Stat("failing calls injected", 1)
		checkBystanders(m, op.Name)
		return true
	case 2: // undecodable bytes
		ds := []string{"bls.DecompressG1", "bls.DecompressG2", "g1pubs.DeserializeSignature", "g2pubs.DeserializePublicKey", "g1pubs.DeserializePublicKey", "g2pubs.DeserializeSignature"}
		op := m.Lib.Op(ds[s.N(len(ds))])
		n := 48
		if op.Args[0].K == core.B96 {
			n = 96
		}
		m.Apply(op, []*argument{m.valArg(op.Args[0].K, s.Bytes(n))})
		r.Fault("undecodable bytes")
		return true
	case 3, 4, 5, 6: // an operand that is nil or was never set
		op := m.pick(s)
		if s.P(50) {
			op = m.Lib.Op(composite[s.N(len(composite))])
		}
		if op == nil || len(op.Args) < 1 || !usable(op) {
			return false
		}
		args := m.args(s, op)
		vs := make([]interface{}, len(args))
		type slot struct{ arg, elem int }
		var slots []slot
		for i, a := range args {
			vs[i] = a.v
			if a.lst {
				for j, x := range a.l {
					if x.obj != nil && x.k != core.Msg && (op.Args[i].Ptr || op.Args[i].K == core.MLI) {
						slots = append(slots, slot{i, j})
					}
				}
				continue
			}
			if op.Mut && i == 0 {
				if a.obj.Enc == nil {
					return false
				}
				vs[0] = m.Lib.Dec(a.k, a.obj.Enc)
				continue
			}
			if core.IsObject(a.k) && a.k != core.Msg && a.obj != nil && op.Args[i].Ptr {
				slots = append(slots, slot{i, -1})
			}
		}
		if len(slots) == 0 {
			return false
		}
		sl := slots[s.N(len(slots))]
		bad, what := nilOf, "nil"
		if s.P(50) {
			bad, what = zeroOf, "zero-value"
		}
		if sl.elem < 0 {
			vs[sl.arg] = bad(vs[sl.arg])
		} else {
			it := args[sl.arg].lv.Items
			it[sl.elem] = bad(it[sl.elem])
		}
		for i, a := range args {
			if a.lst {
				m.Lib.Prime(op.Args[i], a.lv)
			}
		}
		limit := int64(30000000)
		if limit > m.Limit {
			limit = m.Limit
		}
		res := r.Call(op, vs, limit)
		r.Fault(what + " operand")
		r.Ev("%s with a %s operand %d: panic=%q", op.Name, what, sl.arg, res.Panic)
		for i, a := range args {
			if a.lst {
				if n := a.lv.Check(); n != "" {
					r.Fail("changed:"+op.Name, "%s with a %s operand: argument %d: %s", op.Name, what, i, n)
				}
			}
		}
		checkBystanders(m, op.Name)
		return true
	}
	// a secret key out of range: using it panics
	for _, n := range []string{"g1pubs", "g2pubs"} {
		op := m.Lib.Op(n + ".DeserializeSecretKey")
		b := bytes.Repeat([]byte{0xff}, 32)
		res := r.Call(op, []interface{}{m.Lib.Dec(core.B32, b)}, m.Limit)
		if res.Panic == "" && len(res.Outs) == 1 && res.Outs[0] != nil {
			msg := m.Lib.Dec(core.Msg, []byte("x"))
			r2 := r.Call(m.Lib.Op(n+".Sign"), []interface{}{msg, res.Outs[0]}, m.Limit)
			r.Ev("%s.Sign with an out-of-range key: panic=%q", n, r2.Panic)
		}
	}
	r.Fault("out-of-range key used")
	checkBystanders(m, "a failing call")
	return true
}

func checkBystanders(m *Machine, op string) {
	for _, o := range m.live() {
		if o.Enc == nil || o.K == core.Prep {
			continue
		}
		now := m.R.SafeEnc(m.Lib, o.K, o.V)
		if !bytes.Equal(now, o.Enc) {
			name := fmt.Sprintf("%s#%d", o.K, o.ID)
			if o.Const != "" {
				name = "constant " + o.Const
			}
			m.R.Fail("changed:"+op, "around %s, %s changed from %s to %s", op, name, short(o.Enc), short(now))
		}
	}
}
