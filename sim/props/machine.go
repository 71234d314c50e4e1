package props

import (
	"encoding/hex"
	"fmt"
	"math/big"
	"reflect"
	"sort"
	"strings"

	"verifsim/core"
	"verifsim/ref"
	"verifsim/sim"
	"verifsim/tape"
)

// Obj is a value living in a pool.
type Obj struct {
	ID     int
	K      core.Kind
	V      interface{}
	Enc    []byte // canonical encoding of its value
	Src    []byte // what Dec makes it from
	Frozen bool   // never the receiver of an in-place operation
	Const  string // name of the package constant
}

// Val is a value in portable form.
type Val struct {
	K    core.Kind `json:"k"`
	B    string    `json:"b,omitempty"` // hex of the source bytes
	L    []Val     `json:"l,omitempty"`
	List bool      `json:"list,omitempty"`
}

// Inv is one call in portable form.
type Inv struct {
	Op   string `json:"op"`
	Args []Val  `json:"args"`
}

// Out is the outcome of a call in portable form.
type Out struct {
	Panic bool     `json:"panic,omitempty"`
	Outs  []string `json:"outs,omitempty"`
	Recv  string   `json:"recv,omitempty"` // receiver afterwards
	Note  string   `json:"note,omitempty"` // damage to lists or messages
	Msg   string   `json:"msg,omitempty"`  // panic text, informative
}

func (o Out) key() string {
	return fmt.Sprint(o.Panic, o.Outs, o.Recv, o.Note)
}

func (o Out) brief() string {
	if o.Panic {
		return "panic(" + o.Msg + ")"
	}
	var s []string
	for _, x := range o.Outs {
		if len(x) > 40 {
			x = x[:18] + ".." + x[len(x)-18:]
		}
		s = append(s, x)
	}
	if o.Recv != "" {
		x := o.Recv
		if len(x) > 40 {
			x = x[:18] + ".." + x[len(x)-18:]
		}
		s = append(s, "receiver="+x)
	}
	if o.Note != "" {
		s = append(s, o.Note)
	}
	return strings.Join(s, ",")
}

func hexStr(b []byte) string { return hex.EncodeToString(b) }

func unhex(s string) []byte {
	b, err := hex.DecodeString(s)
	if err != nil {
		panic(err)
	}
	return b
}

// srcKind tells whether the encoding of a kind is not what it is made from.
func srcKind(k core.Kind) bool { return k == core.Prep || k == core.Hash || k == core.Rd }

// hexEnc shows an encoding: printable strings as they are.
func hexEnc(k core.Kind, b []byte) string {
	switch k {
	case core.Err, core.Str, core.Bool, core.Int, core.Uint, core.U8, core.U64, core.Other:
		return string(b)
	}
	if s := string(b); s == "<nil>" || s == "<unreadable>" {
		return s
	}
	return hex.EncodeToString(b)
}

// argument is a chosen operand: an object of the pool, a list of them, or a
// plain value.
type argument struct {
	k   core.Kind
	obj *Obj
	l   []*argument
	lst bool
	src []byte
	v   interface{}
	lv  *core.ListV
}

func (a *argument) portable() Val {
	if a.lst {
		v := Val{K: a.k, List: true}
		for _, x := range a.l {
			v.L = append(v.L, x.portable())
		}
		return v
	}
	return Val{K: a.k, B: hexStr(a.bytes())}
}

func (a *argument) bytes() []byte {
	if a.obj != nil {
		if srcKind(a.k) {
			return a.obj.Src
		}
		return a.obj.Enc
	}
	return a.src
}

func (a *argument) show() string {
	if a.lst {
		var s []string
		for _, x := range a.l {
			s = append(s, x.show())
		}
		return "[" + strings.Join(s, " ") + "]"
	}
	if a.obj != nil {
		if a.obj.Const != "" {
			return a.obj.Const
		}
		return fmt.Sprintf("%s#%d", a.k, a.obj.ID)
	}
	return string(a.k) + ":" + short(a.src)
}

// Machine is a history of calls over a pool of objects.
type Machine struct {
	R      *sim.Run
	Lib    core.Lib
	Pool   map[core.Kind][]*Obj
	Bytes  map[core.Kind][][]byte
	Consts []*Obj
	ops    []*core.Op
	cum    []int
	next   int
	Max    int // per kind
	Off    int // percent of points outside the subgroup
	Fam    int
	Reuse  int // percent of operands taken from the pool
	Cost   int
	Limit  int64
	Light  bool // no expensive operations
	Flat   bool // all operations alike, whatever they cost
	Quiet  bool // do not call the library to read values while setting up
	// After is told about every call.
	After func(m *Machine, op *core.Op, args []*argument, inv Inv, out Out)
	// Exec, if set, performs the call instead of the machine's library.
	Exec func(op *core.Op, args []*argument) (Out, []interface{})
}

// themes group operations.
var themes = []struct {
	name string
	in   func(n string) bool
}{
	{"fq", func(n string) bool {
		return hasPrefix(n, "FQ.", "FQ2.", "bls.NewFQ2", "bls.FQReprToFQ", "bls.NewFQRepr")
	}},
	{"tower", func(n string) bool { return hasPrefix(n, "FQ2.", "FQ6.", "FQ12.", "bls.NewFQ") }},
	{"fr", func(n string) bool { return hasPrefix(n, "FR.", "FRRepr.", "bls.FRRepr", "bls.NewFRRepr") }},
	{"repr", func(n string) bool {
		return hasPrefix(n, "FQRepr.", "FRRepr.", "bls.FQRepr", "bls.FRRepr", "bls.New")
	}},
	{"g1", func(n string) bool { return hasPrefix(n, "G1", "bls.NewG1", "bls.ClearH", "bls.GetG1") }},
	{"g2", func(n string) bool {
		return hasPrefix(n, "G2", "bls.NewG2", "bls.G2Aff", "bls.GetG2", "bls.SWEncodeG2", "bls.OptimizedSWU2")
	}},
	{"pair", func(n string) bool {
		return hasPrefix(n, "bls.Pairing", "bls.Miller", "bls.Final", "bls.Compare", "bls.G2AffineTo", "G2Prepared", "G1Affine.Neg", "FQ12.Mul")
	}},
	{"keys1", func(n string) bool { return hasPrefix(n, "g1pubs.") }},
	{"keys2", func(n string) bool { return hasPrefix(n, "g2pubs.") }},
	{"codec", func(n string) bool {
		return strings.Contains(n, "ompress") || strings.Contains(n, "erialize") || strings.Contains(n, "RawBytes") || strings.Contains(n, "Bytes")
	}},
	{"hash", func(n string) bool { return strings.Contains(n, "Hash") || strings.Contains(n, "Derive") }},
	{"rand", func(n string) bool { return strings.Contains(n, "Rand") }},
	{"prim", func(n string) bool {
		return hasPrefix(n, "bls.Multiply", "bls.Mont", "bls.AddNo", "bls.SubNo", "bls.AddWith", "bls.SubWith", "bls.MAC")
	}},
}

// NewMachine makes an empty machine.
func NewMachine(r *sim.Run, lib core.Lib) *Machine { return newMachine(r, lib, false) }

func newMachine(r *sim.Run, lib core.Lib, quiet bool) *Machine {
	m := &Machine{Quiet: quiet, R: r, Lib: lib, Pool: map[core.Kind][]*Obj{}, Bytes: map[core.Kind][][]byte{}, Max: 10, Reuse: 75, Limit: 400000000}
	for _, c := range lib.Consts() {
		o := &Obj{ID: m.next, K: c.K, V: c.V, Const: c.Name, Frozen: true}
		m.next++
		if !quiet {
			o.Enc = append([]byte{}, r.SafeEnc(lib, c.K, c.V)...)
		}
		m.Consts = append(m.Consts, o)
	}
	return m
}

// Themes selects operations by theme.
func (m *Machine) Themes(set map[string]bool) {
	m.ops, m.cum = nil, nil
	tot := 1
	for _, op := range m.Lib.Ops() {
		if m.Light && op.Cost > 2500 {
			continue
		}
		in := false
		for _, t := range themes {
			if set[t.name] && t.in(op.Name) {
				in = true
			}
		}
		if !in || !usable(op) {
			continue
		}
		m.ops = append(m.ops, op)
		if m.Flat {
			tot += 10
			if op.Cost > 2500 {
				tot += 15
			}
		} else {
			tot += 1 + 60000/(op.Cost+400)
		}
		m.cum = append(m.cum, tot)
	}
}

// Only selects operations one by one.
func (m *Machine) Only(ops []*core.Op) {
	m.ops, m.cum = nil, nil
	tot := 1
	for _, op := range ops {
		if op = m.Lib.Op(op.Name); op != nil && usable(op) {
			m.ops = append(m.ops, op)
			tot += 10
			m.cum = append(m.cum, tot)
		}
	}
}

func usable(op *core.Op) bool {
	for _, a := range op.Args {
		if a.K == core.Other || a.K == core.Err {
			return false
		}
	}
	return true
}

// ChooseThemes draws a theme set.
func ChooseThemes(s *tape.Stream) map[string]bool {
	set := map[string]bool{}
	n := 1 + s.N(4)
	for i := 0; i < n; i++ {
		set[themes[s.N(len(themes))].name] = true
	}
	return set
}

func themeNames(set map[string]bool) string {
	var out []string
	for k := range set {
		out = append(out, k)
	}
	sort.Strings(out)
	return strings.Join(out, "+")
}

// pick chooses an operation; nil is the no-op.
func (m *Machine) pick(s *tape.Stream) *core.Op {
	if len(m.ops) == 0 {
		return nil
	}
	v := s.N(m.cum[len(m.cum)-1])
	if v == 0 {
		return nil
	}
	i := sort.SearchInts(m.cum, v+1)
	return m.ops[i]
}

// Add puts an object into the pool.
func (m *Machine) Add(k core.Kind, v interface{}, enc, src []byte) *Obj {
	o := &Obj{ID: m.next, K: k, V: v, Enc: enc, Src: src}
	m.next++
	l := append(m.Pool[k], o)
	if len(l) > m.Max {
		l = append([]*Obj{}, l[1:]...)
	}
	m.Pool[k] = l
	return o
}

func (m *Machine) drop(o *Obj) {
	l := m.Pool[o.K]
	for i, x := range l {
		if x == o {
			m.Pool[o.K] = append(append([]*Obj{}, l[:i]...), l[i+1:]...)
			return
		}
	}
}

// Make creates a fresh object from source bytes.
func (m *Machine) Make(k core.Kind, src []byte) *Obj {
	v := m.Lib.Dec(k, src)
	if m.Quiet && !srcKind(k) {
		return m.Add(k, v, src, src)
	}
	if m.Quiet {
		return m.Add(k, v, nil, src)
	}
	enc := m.R.SafeEnc(m.Lib, k, v)
	return m.Add(k, v, append([]byte{}, enc...), src)
}

// Fresh creates an object with a chosen value.
func (m *Machine) Fresh(s *tape.Stream, k core.Kind) *Obj {
	src := NewVal(s, k, m.Fam, m.Off)
	if (k == core.G1P || k == core.G2P) && src[0] == 0 && s.P(40) {
		// the same point in another projective form
		return m.scaled(s, k, src)
	}
	return m.Make(k, src)
}

func (m *Machine) scaled(s *tape.Stream, k core.Kind, src []byte) *Obj {
	g := ref.G1
	if k == core.G2P {
		g = ref.G2
	}
	p := g.FromEnc(src)
	z := ref.F2{A: new(big.Int).SetInt64(int64(2 + s.N(1000))), B: new(big.Int)}
	if g == ref.G2 && s.P(50) {
		z.B = big.NewInt(int64(s.N(50)))
	}
	z2 := z.Sq()
	co := []ref.F2{p.X.Mul(z2), p.Y.Mul(z2).Mul(z), z}
	var args []interface{}
	for _, c := range co {
		if g == ref.G1 {
			args = append(args, m.Lib.Dec(core.FQ, fill(c.A, 48)))
		} else {
			args = append(args, m.Lib.Dec(core.FQ2, append(fill(c.A, 48), fill(c.B, 48)...)))
		}
	}
	n := "bls.NewG1Projective"
	if g == ref.G2 {
		n = "bls.NewG2Projective"
	}
	v := m.Lib.Op(n).Call(args)[0]
	if m.Quiet {
		return m.Add(k, v, src, src)
	}
	return m.Add(k, v, append([]byte{}, m.R.SafeEnc(m.Lib, k, v)...), src)
}

// operand chooses an object of kind k.
func (m *Machine) operand(s *tape.Stream, k core.Kind, mut bool, prev *Obj) *Obj {
	l := m.Pool[k]
	if mut {
		var ok []*Obj
		for _, o := range l {
			if !o.Frozen {
				ok = append(ok, o)
			}
		}
		if len(ok) > 0 && s.P(m.Reuse) {
			return ok[s.N(len(ok))]
		}
		return m.Fresh(s, k)
	}
	if prev != nil && prev.K == k && s.P(20) {
		return prev
	}
	if s.P(m.Reuse) {
		var c []*Obj
		for _, o := range m.Consts {
			if o.K == k && k != core.FRRepr && k != core.FQRepr || o.K == k && s.P(10) {
				c = append(c, o)
			}
		}
		if len(c) > 0 && (len(l) == 0 || s.P(12)) {
			return c[s.N(len(c))]
		}
		if len(l) > 0 {
			return l[s.N(len(l))]
		}
	}
	return m.Fresh(s, k)
}

// overwrite gives an object of the caller another value in place, as a
// caller does that reuses its variables and buffers.
func (m *Machine) overwrite(s *tape.Stream, o *Obj) bool {
	if o == nil || o.Frozen || o.Const != "" || o.Enc == nil || o.V == nil {
		return false
	}
	var src []byte
	switch o.K {
	case core.Msg:
		b := *(o.V.(*[]byte))
		if len(b) == 0 {
			return false
		}
		src = append([]byte{}, b...)
		if s.P(50) {
			src[s.N(len(src))] ^= byte(1 + s.N(255))
		} else {
			src = s.Bytes(len(src))
		}
		copy(b, src)
	case core.Big:
		src = NewVal(s, o.K, m.Fam, m.Off)
		b := m.Lib.Dec(o.K, src).(*big.Int)
		o.V.(*big.Int).Set(b)
	case core.FQ, core.FQ2, core.FQ6, core.FQ12, core.FR, core.FRRepr, core.FQRepr, core.G1A, core.G2A, core.G1P, core.G2P:
		src = NewVal(s, o.K, m.Fam, m.Off)
		v := reflect.ValueOf(o.V)
		if v.Kind() != reflect.Ptr || hasPtr(v.Type().Elem()) {
			return false
		}
		v.Elem().Set(reflect.ValueOf(m.Lib.Dec(o.K, src)).Elem())
	default:
		return false
	}
	m.R.Ev("the caller overwrites %s#%d with %s", o.K, o.ID, short(src))
	if m.Quiet {
		o.Enc = src
	} else {
		o.Enc = append([]byte{}, m.R.SafeEnc(m.Lib, o.K, o.V)...)
	}
	m.R.Fault("operand overwritten by its owner between calls")
	return true
}

// mutators are the operations that change an object of kind k in place.
func (m *Machine) mutators(k core.Kind) []*core.Op {
	var out []*core.Op
	for _, op := range m.Lib.Ops() {
		if op.Mut && op.Args[0].K == k && usable(op) {
			out = append(out, op)
		}
	}
	return out
}

// args chooses operands within the domain of the operation.
func (m *Machine) args(s *tape.Stream, op *core.Op) []*argument {
	out := make([]*argument, len(op.Args))
	var prev *Obj
	switch op.Name {
	case "bls.NewG1Affine", "bls.NewG2Affine", "bls.NewG1Projective", "bls.NewG2Projective":
		g := ref.G1
		if strings.Contains(op.Name, "G2") {
			g = ref.G2
		}
		p := g.FromEnc(point(s, g, m.Off).Enc)
		if p.Inf {
			p = g.Gen()
		}
		z := ref.Fi(1, 0)
		if len(op.Args) == 3 {
			z = ref.F2{A: fqNum(s), B: new(big.Int)}
			if g == ref.G2 {
				z.B = fqNum(s)
			}
			if z.IsZero() {
				z = ref.Fi(1, 0)
			}
		}
		z2 := z.Sq()
		co := []ref.F2{p.X.Mul(z2), p.Y.Mul(z2).Mul(z), z}
		for i := range op.Args {
			b := fill(co[i].A, 48)
			if g == ref.G2 {
				b = append(b, fill(co[i].B, 48)...)
			}
			o := m.Make(op.Args[i].K, b)
			out[i] = &argument{k: op.Args[i].K, obj: o, v: o.V}
		}
		return out
	case "bls.FQReprToFQRaw":
		o := m.Make(core.FQRepr, fill(fqNum(s), 48))
		return []*argument{{k: core.FQRepr, obj: o, v: o.V}}
	}
	if op.Name == "bls.MontReduce" && s.P(70) {
		hi, lo := montOperands(s)
		for i, v := range []*big.Int{hi, lo} {
			if core.IsObject(op.Args[i].K) {
				o := m.Make(op.Args[i].K, fill(v, 48))
				out[i] = &argument{k: op.Args[i].K, obj: o, v: o.V}
			} else {
				out[i] = m.valArg(op.Args[i].K, fill(v, 48))
			}
		}
		return out
	}
	for i, a := range op.Args {
		ar := &argument{k: a.K}
		out[i] = ar
		if a.List || a.K == core.MLI {
			ar.lst = true
			n := m.listLen(s, op)
			if i > 1 && s.P(85) { // lists mostly of equal length
				n = len(out[i-1].l)
			}
			for j := 0; j < n; j++ {
				if a.K == core.MLI {
					for _, k := range []core.Kind{core.G1A, core.Prep} {
						o := m.operand(s, k, false, nil)
						ar.l = append(ar.l, &argument{k: k, obj: o, v: o.V})
					}
					continue
				}
				ar.l = append(ar.l, m.single(s, op, core.Arg{K: a.K, Ptr: a.Ptr}, i, false, nil))
			}
			lv := &core.ListV{Items: []interface{}{}}
			for _, x := range ar.l {
				lv.Items = append(lv.Items, x.v)
			}
			ar.lv = lv
			ar.v = lv
			continue
		}
		out[i] = m.single(s, op, a, i, op.Mut && i == 0, prev)
		if out[i].obj != nil {
			prev = out[i].obj
		}
	}
	return out
}

func (m *Machine) listLen(s *tape.Stream, op *core.Op) int {
	if op.Cost > 1000 {
		return s.N(4)
	}
	return s.N(6)
}

func (m *Machine) single(s *tape.Stream, op *core.Op, a core.Arg, i int, mut bool, prev *Obj) *argument {
	ar := &argument{k: a.K}
	if core.IsObject(a.K) {
		o := m.operand(s, a.K, mut, prev)
		ar.obj = o
		ar.v = o.V
		return ar
	}
	src := []byte(nil)
	if l := m.Bytes[a.K]; len(l) > 0 && s.P(70) {
		src = l[s.N(len(l))]
	} else {
		src = NewVal(s, a.K, m.Fam, m.Off)
	}
	if strings.HasSuffix(op.Name, ".SetRawBytes") {
		g := ref.G1
		if a.K == core.B192 {
			g = ref.G2
		}
		src = g.Raw(g.FromEnc(point(s, g, m.Off).Enc))
		if s.P(10) {
			src = append([]byte{}, src...)
			src[s.N(len(src))] ^= 1 << uint(s.N(8))
		}
	}
	if op.Name == "bls.SubWithBorrow" && i == 2 {
		src = rawUint(uint64(s.N(2)))
	}
	if strings.HasSuffix(op.Name, ".Bit") {
		n := 256
		if hasPrefix(op.Name, "FQ") {
			n = 384
		}
		src = rawUint(uint64(s.N(n)))
		if s.P(5) {
			src = rawUint(uint64(n + s.N(70)))
		}
	}
	ar.src = append([]byte{}, src...)
	ar.v = m.Lib.Dec(a.K, ar.src)
	return ar
}

// Perform runs one call on this machine's library.
func (m *Machine) Perform(op *core.Op, args []*argument) (Out, []interface{}) {
	if m.Exec != nil {
		return m.Exec(op, args)
	}
	return perform(m.R, m.Lib, op, args, m.Limit)
}

// perform runs one call and encodes its outcome.
func perform(r *sim.Run, lib core.Lib, op *core.Op, args []*argument, limit int64) (Out, []interface{}) {
	vs := make([]interface{}, len(args))
	for i, a := range args {
		vs[i] = a.v
		if a.lst {
			lib.Prime(op.Args[i], a.lv)
		}
	}
	res := r.Call(op, vs, limit)
	var out Out
	if res.Panic != "" {
		out.Panic = true
		out.Msg = res.Panic
	} else {
		for i, v := range res.Outs {
			out.Outs = append(out.Outs, hexEnc(op.Outs[i].K, r.SafeEnc(lib, op.Outs[i].K, v)))
		}
		if op.Mut {
			out.Recv = hexEnc(op.Args[0].K, r.SafeEnc(lib, op.Args[0].K, vs[0]))
		}
	}
	var notes []string
	for i, a := range args {
		if a.lst {
			if s := a.lv.Check(); s != "" {
				notes = append(notes, fmt.Sprintf("argument %d: %s", i, s))
			}
			for _, x := range a.l {
				if s := lib.Guard(x.k, x.v); s != "" {
					notes = append(notes, fmt.Sprintf("argument %d: %s", i, s))
				}
			}
		} else if s := lib.Guard(a.k, a.v); s != "" {
			notes = append(notes, fmt.Sprintf("argument %d: %s", i, s))
		}
	}
	out.Note = strings.Join(notes, "; ")
	return out, res.Outs
}

// Apply runs one call, updates the pool and tells After.
func (m *Machine) Apply(op *core.Op, args []*argument) (Out, []*Obj) {
	inv := Inv{Op: op.Name}
	var show []string
	for _, a := range args {
		inv.Args = append(inv.Args, a.portable())
		show = append(show, a.show())
	}
	out, outs := m.Perform(op, args)
	m.Cost += op.Cost
	m.R.Stat("calls", 1)
	if out.Panic {
		m.R.Stat("calls that panicked and were recovered", 1)
	}
	m.R.Shape(op.Name)
	m.R.Ev("%s(%s) = %s", op.Name, strings.Join(show, ", "), out.brief())
	var objs []*Obj
	if !out.Panic {
		for i, v := range outs {
			k := op.Outs[i].K
			if v == nil || k == core.Other {
				objs = append(objs, nil)
				continue
			}
			e := out.Outs[i]
			if strings.HasPrefix(e, "<") || k == core.Err {
				objs = append(objs, nil)
				continue
			}
			if core.IsObject(k) && k != core.Hash {
				src := []byte(nil)
				if k == core.Prep && len(args) == 1 {
					src = args[0].bytes()
				}
				if k == core.G1A || k == core.G2A || k == core.G1P || k == core.G2P {
					if !onCurve(k, e) {
						objs = append(objs, nil)
						continue
					}
				}
				o := m.Add(k, v, unhex(e), src)
				if strings.HasSuffix(op.Name, ".GetFRElement") {
					o.Frozen = true // documented to be the key's own element
				}
				objs = append(objs, o)
			} else {
				switch k {
				case core.B32, core.B48, core.B96, core.B192, core.W6:
					l := append(m.Bytes[k], unhex(e))
					if len(l) > 6 {
						l = l[1:]
					}
					m.Bytes[k] = l
				}
				objs = append(objs, nil)
			}
		}
	}
	if op.Mut {
		o := args[0].obj
		if out.Panic || strings.HasPrefix(out.Recv, "<") {
			m.drop(o)
			o.Enc = nil
		} else {
			o.Enc = unhex(out.Recv)
			if (o.K == core.G1A || o.K == core.G2A || o.K == core.G1P || o.K == core.G2P) && !onCurve(o.K, out.Recv) {
				m.drop(o)
			}
		}
	}
	if m.After != nil {
		m.After(m, op, args, inv, out)
	}
	return out, objs
}

func onCurve(k core.Kind, e string) bool {
	b := unhex(e)
	g := ref.G1
	if k == core.G2A || k == core.G2P {
		g = ref.G2
	}
	if b[0] == 1 {
		return true
	}
	return g.OnCurve(g.FromEnc(b))
}

// Step performs operation number i of the history.
func (m *Machine) Step(i int) {
	s := m.R.S("op/%04d", i)
	op := m.pick(s)
	if op == nil {
		return
	}
	m.Apply(op, m.args(s, op))
}

// arg helpers for scripted calls.
func objArg(o *Obj) *argument { return &argument{k: o.K, obj: o, v: o.V} }

func (m *Machine) valArg(k core.Kind, src []byte) *argument {
	return &argument{k: k, src: src, v: m.Lib.Dec(k, src)}
}

func listArg(k core.Kind, xs []*argument) *argument {
	lv := &core.ListV{Items: []interface{}{}}
	for _, x := range xs {
		lv.Items = append(lv.Items, x.v)
	}
	return &argument{k: k, lst: true, l: xs, lv: lv, v: lv}
}

// call performs a scripted call and returns its first object.
func (m *Machine) call(name string, args ...*argument) (*Obj, Out) {
	out, objs := m.Apply(m.Lib.Op(name), args)
	if len(objs) > 0 {
		return objs[0], out
	}
	return nil, out
}

// Script runs a short sequence of related calls: signing, aggregating and
// verifying. It returns the last of them.
func (m *Machine) Script(s *tape.Stream) (c02call, bool) {
	p, pk, sk, sg := "g1pubs", core.PK1, core.SK1, core.SG1
	if s.P(50) {
		p, pk, sk, sg = "g2pubs", core.PK2, core.SK2, core.SG2
	}
	n := 1 + s.N(3)
	mode := s.N(4)
	if p == "g2pubs" && mode == 3 {
		mode = 2
	}
	var sks, pks, sgs, msgs []*argument
	dom := m.valArg(core.B8, NewVal(s, core.B8, 0, 0))
	common := m.operand(s, core.Msg, false, nil)
	for i := 0; i < n; i++ {
		k := m.operand(s, sk, false, nil)
		if k.Enc == nil || new(big.Int).SetBytes(k.Enc).Cmp(ref.R) >= 0 {
			continue
		}
		sks = append(sks, objArg(k))
		o, _ := m.call(p+".PrivToPub", objArg(k))
		if o == nil {
			return c02call{}, false
		}
		pks = append(pks, objArg(o))
		var so *Obj
		if mode == 3 {
			b := m.valArg(core.B32, NewVal(s, core.B32, 0, 0))
			msgs = append(msgs, b)
			so, _ = m.call(p+".SignWithDomain", b, objArg(k), dom)
		} else {
			mo := common
			if mode == 0 {
				mo = m.operand(s, core.Msg, false, nil)
			}
			msgs = append(msgs, objArg(mo))
			so, _ = m.call(p+".Sign", objArg(mo), objArg(k))
		}
		if so == nil {
			return c02call{}, false
		}
		sgs = append(sgs, objArg(so))
	}
	if len(sgs) == 0 {
		return c02call{}, false
	}
	agg, _ := m.call(p+".AggregateSignatures", listArg(sg, sgs))
	if agg == nil {
		return c02call{}, false
	}
	last := func(n string, args ...*argument) (c02call, bool) {
		op := m.Lib.Op(n)
		if op == nil {
			return c02call{}, false
		}
		_, outs := m.Apply(op, args)
		return c02call{op, args, outs}, true
	}
	switch mode {
	case 0:
		return last(p+".Signature.VerifyAggregate", objArg(agg), listArg(pk, pks), listArg(core.Msg, msgs))
	case 1:
		return last(p+".Signature.VerifyAggregateCommon", objArg(agg), listArg(pk, pks), msgs[0])
	case 2:
		return last(p+".Verify", msgs[0], pks[0], sgs[0])
	default:
		return last(p+".Signature.VerifyAggregateWithDomain", objArg(agg), listArg(pk, pks), listArg(core.B32, msgs), dom)
	}
}

// live lists every object the history can still reach.
func (m *Machine) live() []*Obj {
	var out []*Obj
	out = append(out, m.Consts...)
	for _, k := range core.Objects {
		out = append(out, m.Pool[k]...)
	}
	return out
}

// Evaluate performs a portable call on fresh operands.
func Evaluate(r *sim.Run, lib core.Lib, inv Inv) Out {
	op := lib.Op(inv.Op)
	args := make([]*argument, len(inv.Args))
	for i, v := range inv.Args {
		args[i] = fromVal(lib, v)
	}
	out, _ := perform(r, lib, op, args, 400000000)
	return out
}

func fromVal(lib core.Lib, v Val) *argument {
	if v.List {
		var xs []*argument
		for _, x := range v.L {
			xs = append(xs, fromVal(lib, x))
		}
		return listArg(v.K, xs)
	}
	b := unhex(v.B)
	return &argument{k: v.K, src: b, v: lib.Dec(v.K, b)}
}
