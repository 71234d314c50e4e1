package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"strings"
	"time"

	"verifsim/core"
	"verifsim/ref"
	"verifsim/sim"
	"verifsim/tape"
)

// objDump is an object in durable form.
type objDump struct {
	ID     int       `json:"id"`
	K      core.Kind `json:"k"`
	Enc    string    `json:"e,omitempty"`
	Src    string    `json:"s,omitempty"`
	Wire   string    `json:"w,omitempty"` // its serialization by the package
	Frozen bool      `json:"f,omitempty"`
}

// stateDump is the durable state of a node.
type stateDump struct {
	Next  int                    `json:"next"`
	Cost  int                    `json:"cost"`
	Objs  []objDump              `json:"objs"`
	Bytes map[core.Kind][]string `json:"bytes,omitempty"`
}

// line is one call of a transcript.
type line struct {
	Step int    `json:"i"`
	Op   string `json:"op"`
	Inv  string `json:"inv"`
	Key  string `json:"key"`
}

type segBody struct {
	From, To int
	State    *stateDump
	Lines    []line
}

var wires = map[core.Kind][3]string{
	core.PK1: {"g1pubs.PublicKey.Serialize", "g1pubs.DeserializePublicKey", "b48"},
	core.SG1: {"g1pubs.Signature.Serialize", "g1pubs.DeserializeSignature", "b96"},
	core.SK1: {"g1pubs.SecretKey.Serialize", "g1pubs.DeserializeSecretKey", "b32"},
	core.PK2: {"g2pubs.PublicKey.Serialize", "g2pubs.DeserializePublicKey", "b96"},
	core.SG2: {"g2pubs.Signature.Serialize", "g2pubs.DeserializeSignature", "b48"},
	core.SK2: {"g2pubs.SecretKey.Serialize", "g2pubs.DeserializeSecretKey", "b32"},
}

// node is one replica of the service, on some build.
type node struct {
	m     *Machine
	n     int
	pair  bool
	lines []line
}

// setup08 draws the configuration of the history; every replica draws the
// same.
func setup08(r *sim.Run, lib core.Lib) (*node, int, int, string) {
	c := r.S("cfg")
	m := NewMachine(r, lib)
	nd := &node{m: m}
	m.Fam = c.N(3)
	m.Off = []int{0, 5, 20}[c.N(3)]
	m.Reuse = []int{85, 65, 40}[c.N(3)]
	m.Max = []int{3, 6, 12}[c.N(3)]
	set := ChooseThemes(c)
	n := 6 + c.N(40)
	budget := 20000 + c.N(40000)
	if c.P(55) { // many cheap calls: operand values
		m.Light = true
		set = map[string]bool{}
		for k := 1 + c.N(3); k > 0; k-- {
			set[[]string{"fq", "fr", "repr", "prim", "tower", "g1", "g2"}[c.N(7)]] = true
		}
		n = 100 + c.N(400)
		budget = 40000
	}
	if r.Tier == "thorough" {
		n = n * 3 / 2
		budget *= 2
	}
	m.Themes(set)
	if f := r.Focus(); len(f) > 0 && c.P(25) { // a long history of what touches shared state
		m.Only(f)
		m.Reuse = 10 + c.N(50)
		n = 300 + c.N(1500)
		budget = 250000
		set = map[string]bool{}
		r.Stat("long histories", 1)
	}
	if set["keys1"] || set["keys2"] || set["hash"] {
		nd.n = 14
	}
	m.After = func(m *Machine, op *core.Op, args []*argument, inv Inv, out Out) {
		b, _ := json.Marshal(inv)
		nd.lines = append(nd.lines, line{len(nd.lines), op.Name, string(b), out.key()})
		r.State("op", op.Name, out.Panic, aliasing(args), extreme(args))
	}
	return nd, n, budget, themeNames(set)
}

// extreme summarises the limb patterns of the operands.
func extreme(args []*argument) string {
	s := ""
	for _, a := range args {
		b := a.bytes()
		if len(b) < 8 || len(b) > 400 {
			continue
		}
		z, f := 0, 0
		for i := 0; i+8 <= len(b); i += 8 {
			switch {
			case bytes.Equal(b[i:i+8], []byte{0, 0, 0, 0, 0, 0, 0, 0}):
				z++
			case bytes.Equal(b[i:i+8], []byte{255, 255, 255, 255, 255, 255, 255, 255}):
				f++
			}
		}
		s += fmt.Sprint(z, f, ";")
	}
	return s
}

// steps performs part of the history.
func (nd *node) steps(from, to, budget int) {
	m := nd.m
	for i := from; i < to; i++ {
		if m.Cost >= budget {
			return
		}
		s := m.R.S("op/%04d", i)
		if nd.n > 0 && s.P(nd.n) {
			m.Script(s)
			continue
		}
		op := m.pick(s)
		if op == nil {
			continue
		}
		m.Apply(op, m.args(s, op))
	}
}

// dump saves what the node knows.
func (nd *node) dump() *stateDump {
	m := nd.m
	d := &stateDump{Next: m.next, Cost: m.Cost, Bytes: map[core.Kind][]string{}}
	for _, k := range core.Objects {
		w := 0
		for _, o := range m.Pool[k] {
			x := objDump{ID: o.ID, K: k, Src: hexStr(o.Src), Frozen: o.Frozen}
			if e := string(o.Enc); e != "" && e != "<nil>" && e != "<unreadable>" {
				x.Enc = hexStr(o.Enc)
			}
			if ops, ok := wires[k]; ok && x.Enc != "" && w < 2 {
				res := m.R.Call(m.Lib.Op(ops[0]), []interface{}{o.V}, m.Limit)
				if res.Panic == "" {
					x.Wire = hexStr(m.Lib.Enc(core.Kind(ops[2]), res.Outs[0]))
					w++
				}
			}
			d.Objs = append(d.Objs, x)
		}
	}
	for k, l := range m.Bytes {
		for _, b := range l {
			d.Bytes[k] = append(d.Bytes[k], hexStr(b))
		}
	}
	return d
}

// restore makes the node continue from a saved state; it returns a complaint
// when an object does not restore.
func (nd *node) restore(d *stateDump) string {
	m := nd.m
	m.next, m.Cost = d.Next, d.Cost
	m.Pool = map[core.Kind][]*Obj{}
	m.Bytes = map[core.Kind][][]byte{}
	for _, x := range d.Objs {
		o := &Obj{ID: x.ID, K: x.K, Src: unhex(x.Src), Frozen: x.Frozen, Enc: unhex(x.Enc)}
		if x.Wire != "" {
			ops := wires[x.K]
			res := m.R.Call(m.Lib.Op(ops[1]), []interface{}{m.Lib.Dec(core.Kind(ops[2]), unhex(x.Wire))}, m.Limit)
			if res.Panic != "" {
				return fmt.Sprintf("%s panics on %s: %s", ops[1], x.Wire, res.Panic)
			}
			if len(res.Outs) == 1 || res.Outs[1] == nil {
				o.V = res.Outs[0]
			} else if inGroup(x.K, o.Enc) {
				return fmt.Sprintf("%s refuses %s, a member of the group serialized by another build", ops[1], x.Wire)
			}
		}
		if o.V == nil {
			b := o.Enc
			if x.Enc == "" || srcKind(x.K) {
				b = o.Src
			}
			o.V = m.Lib.Dec(x.K, b)
		}
		if x.Enc != "" {
			if e := m.R.SafeEnc(m.Lib, x.K, o.V); !bytes.Equal(e, o.Enc) {
				return fmt.Sprintf("%s#%d restores to %s instead of %s", x.K, x.ID, short(e), short(o.Enc))
			}
		}
		m.Pool[x.K] = append(m.Pool[x.K], o)
	}
	for k, l := range d.Bytes {
		for _, b := range l {
			m.Bytes[k] = append(m.Bytes[k], unhex(b))
		}
	}
	return ""
}

// inGroup decides subgroup membership by the independent model, for points
// the simulator made itself.
func inGroup(k core.Kind, enc []byte) bool {
	if k == core.SK1 || k == core.SK2 {
		return true
	}
	g := ref.G1
	if k == core.PK2 || k == core.SG1 {
		g = ref.G2
	}
	p := g.FromEnc(enc)
	return p.Inf || p.Mul(ref.R).Inf
}

// SegmentMain performs part of a history in this process.
func SegmentMain(r *sim.Run) {
	var b segBody
	if err := json.Unmarshal(r.Req.Body, &b); err != nil {
		panic(err)
	}
	nd, _, budget, _ := setup08(r, r.Lib)
	if b.State != nil {
		if s := nd.restore(b.State); s != "" {
			r.Fail("restore", "386: %s", s)
		}
	}
	nd.steps(b.From, b.To, budget)
	r.Body, _ = json.Marshal(&segBody{State: nd.dump(), Lines: nd.lines})
}

// C08 runs one history that stays on the assembly build and the same history
// wandering over the builds, and compares.
func C08(r *sim.Run) {
	sub := func() *sim.Run {
		q := *r.Req
		s := sim.NewRun(&q, r.Lib, r.Port)
		s.Sites = r.Sites
		return s
	}
	r.Tolerant = true // calls on impossible operands are part of the history
	home, n, budget, names := setup08(r, r.Lib)
	t := r.S("trip")
	r.Ev("history of up to %d calls on %s", n, names)
	// where the node moves, and to which build
	type leg struct {
		from, to int
		build    int // 0 assembly, 1 portable, 2 portable on a 32-bit machine
		abort    int // crashes before saving after so many steps and another build repeats (0: no)
	}
	var legs []leg
	at := 0
	k := 1 + t.N(4)
	for i := 0; i < k; i++ {
		to := n
		if i < k-1 {
			to = at + 1 + t.N(n-at)
		}
		b := t.W(5, 5, 2)
		if b == 0 {
			b = 1
		} else if b == 1 {
			b = 2
		} else {
			b = 0
		}
		l := leg{from: at, to: to, build: b}
		if t.P(15) && to-at > 1 {
			l.abort = 1 + t.N(to-at-1)
		}
		legs = append(legs, l)
		at = to
		if at >= n {
			break
		}
	}
	buildName := []string{"assembly", "portable", "portable/32-bit"}
	home.steps(0, n, budget)
	want := home.lines
	r.Stat("calls compared between builds", 0)
	pos := 0
	compare := func(build int, ls []line, start int) {
		for i, l := range ls {
			j := start + i
			if j >= len(want) {
				r.Fail("diverge:"+l.Op, "after moving, the %s build performs call %d (%s) that the assembly build does not", buildName[build], j, l.Op)
			}
			w := want[j]
			if w.Inv != l.Inv {
				r.Fail("diverge:"+l.Op, "call %d is %s on the %s build but %s on the assembly build", j, clip(l.Inv), buildName[build], clip(w.Inv))
			}
			if w.Key != l.Key {
				r.Ev("call in question: %s", w.Inv)
				r.Fail("diverge:"+l.Op, "call %d, %s, gives %s on the %s build but %s on the assembly build", j, l.Op, clip(l.Key), buildName[build], clip(w.Key))
			}
			r.Stat("calls compared between builds", 1)
			r.Stat("calls compared on the "+buildName[build]+" build", 1)
		}
	}
	var state *stateDump
	perform := func(l leg, to int) ([]line, *stateDump) {
		r.Stat("history segments on the "+buildName[l.build]+" build", 1)
		if l.build == 2 {
			body, _ := json.Marshal(&segBody{From: l.from, To: to, State: state})
			q := *r.Req
			q.Mode, q.Race, q.Full, q.Plans, q.Body = "segment", false, false, nil, body
			res, err := r.Ask(sim.Procs.Path386, &q, 140*time.Second)
			if err != nil {
				if c, ok := err.(*sim.Crash); ok && strings.Contains(c.Stderr, "phoreproject/bls") {
					r.Fail("crash386", "the 32-bit build ends the process: %s", clip(c.Stderr))
				}
				panic(err)
			}
			if res.Err != "" {
				panic(res.Err)
			}
			if res.Viol != nil {
				r.Fail("diverge:"+res.Viol.Class, "%s", res.Viol.Detail)
			}
			var b segBody
			if err := json.Unmarshal(res.Body, &b); err != nil {
				panic(err)
			}
			return b.Lines, b.State
		}
		lib := r.Lib
		if l.build == 1 {
			lib = r.Port
		}
		nd, _, _, _ := setup08(sub(), lib)
		if state != nil {
			if s := nd.restore(state); s != "" {
				r.Fail("diverge:restore", "%s build: %s", buildName[l.build], s)
			}
		}
		nd.steps(l.from, to, budget)
		return nd.lines, nd.dump()
	}
	for i, l := range legs {
		if i > 0 {
			r.Fault("fail-over to another build")
		}
		if l.abort > 0 {
			ls, _ := perform(l, l.from+l.abort)
			compare(l.build, ls, pos)
			r.Fault("crash before saving, history repeated on another build")
			l.build = (l.build + 1 + t.N(2)) % 3
		}
		ls, st := perform(l, l.to)
		compare(l.build, ls, pos)
		pos += len(ls)
		r.Ev("calls up to %d on the %s build", pos, buildName[l.build])
		r.Shape(buildName[l.build])
		b, err := json.Marshal(st)
		if err != nil {
			panic(err)
		}
		state = &stateDump{}
		json.Unmarshal(b, state)
		r.Ticks++
	}
	if pos != len(want) {
		r.Fail("diverge:short", "%d calls on the wandering node, %d on the one that stayed", pos, len(want))
	}
	// the durable state agrees in the end
	end := home.dump()
	a, _ := json.Marshal(end)
	b, _ := json.Marshal(state)
	if !bytes.Equal(a, b) {
		for i := range end.Objs {
			if i < len(state.Objs) && end.Objs[i] != state.Objs[i] {
				r.Fail("diverge:state", "%s#%d is %s %s on the assembly build, %s %s on the %s build", end.Objs[i].K, end.Objs[i].ID, clip(end.Objs[i].Enc), clip(end.Objs[i].Wire), clip(state.Objs[i].Enc), clip(state.Objs[i].Wire), buildName[legs[len(legs)-1].build])
			}
		}
		r.Fail("diverge:state", "final states differ: %s / %s", clip(string(a)), clip(string(b)))
	}
	r.Stat("histories", 1)
	_ = tape.Mix
}

func clip(s string) string {
	if len(s) > 400 {
		return s[:200] + " ... " + s[len(s)-200:]
	}
	return s
}
