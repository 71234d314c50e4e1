package props

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/big"
	"os"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/phoreproject/bls/zzverif/simrt"

	"verifsim/core"
	"verifsim/ref"
	"verifsim/sim"
	"verifsim/tape"
)

// randOps are the generators that draw from a caller's source.
var randOps = []string{"bls.RandFQ", "bls.RandFQ2", "bls.RandFQ6", "bls.RandFQ12", "bls.RandFR", "bls.RandG1", "bls.RandG2", "g1pubs.RandKey", "g2pubs.RandKey"}

// event kinds of a simulated source.
const (
	evErr     = iota // fails before delivering the byte
	evErrWith        // fails while delivering the bytes before
	evPanic          // panics
	evStall          // waits until everything else is done
	evForever        // fails from here on, every time
)

var evNames = []string{"source error", "source error with data", "source panic", "source stalled", "source failed for good"}

var srcErrs = []error{errSource, io.EOF, io.ErrUnexpectedEOF, os.ErrDeadlineExceeded, syscall.EINTR, syscall.EAGAIN}

type rdEvent struct {
	pos, kind int
	at        int // at the start of this read, if not 0
	err       error
	fired     bool
	full      bool // the data delivered with the error completed the read
	die       bool // the source delivers nothing after it
}

// simReader is a source of randomness on a simulated device.
type simReader struct {
	r     *sim.Run
	s     *tape.Stream
	src   *byteSrc
	pos   int
	evs   []*rdEvent
	chunk int // largest read, 0: no limit
	zeros int // percent of empty reads
	delay int // percent of delayed reads
	run   int // consecutive empty reads
	most  int // how many of them at most
	dirty bool
	dead  error
	pend  error // failure for the next read
	kind  int   // see typed
	calls int
	fired []*rdEvent
	busy  *int           // running tasks that are not stalled
	cnt   map[string]int // what happened
	ticks int64
}

func (f *simReader) next() *rdEvent {
	for _, e := range f.evs {
		if !e.fired && (e.at == 0 || e.pos >= 0) {
			return e
		}
	}
	return nil
}

func (f *simReader) Read(p []byte) (int, error) {
	f.calls++
	if len(p) == 0 {
		return 0, nil
	}
	if f.dead != nil {
		return 0, f.dead
	}
	for i, e := range f.evs {
		if e.at == f.calls && !e.fired { // now is its time
			e.pos = f.pos
			if e.kind == evErrWith {
				e.pos += len(p)
			}
			copy(f.evs[1:i+1], f.evs[:i])
			f.evs[0] = e
			break
		}
	}
	if f.zeros > 0 && f.run < f.most && f.s.P(f.zeros) {
		f.run++
		f.cnt["empty read"]++
		return 0, nil
	}
	f.run = 0
	if f.delay > 0 && f.s.P(f.delay) {
		ms := int64(1 + f.s.N(1000))
		if f.s.P(20) {
			ms *= 600
		}
		f.ticks += ms
		f.cnt["delayed read"]++
		simrt.Sleep(time.Duration(ms) * time.Millisecond)
	}
	n := len(p)
	if f.chunk > 0 {
		if k := 1 + f.s.N(f.chunk); k < n {
			n = k
			f.cnt["short read"]++
		}
	}
	for {
		e := f.next()
		if e == nil {
			break
		}
		if e.pos < f.pos {
			e.fired = true
			continue
		}
		if e.pos-f.pos >= n && !(e.kind == evErrWith && e.pos-f.pos == n) {
			break
		}
		if e.kind == evErrWith && e.pos > f.pos {
			n = e.pos - f.pos
			e.fired = true
			e.full = n == len(p)
			f.fill(p[:n])
			f.hit(e)
			if e.die {
				f.dead = e.err
			}
			return n, e.err
		}
		if e.pos > f.pos {
			n = e.pos - f.pos
			break
		}
		e.fired = true
		f.hit(e)
		switch e.kind {
		case evErr, evErrWith:
			return 0, e.err
		case evForever:
			f.dead = e.err
			return 0, e.err
		case evPanic:
			panic("simulated source panic")
		case evStall:
			b := f.busy
			if b != nil {
				add(b, -1)
				simrt.WaitUntil(func() bool { return get(b) <= 0 })
				add(b, 1)
			}
			f.ticks += 3600000
			simrt.Sleep(time.Hour)
		}
	}
	f.fill(p[:n])
	if f.dirty && n < len(p) { // a source may use all of p as scratch space
		for i := n; i < len(p); i++ {
			p[i] = byte(f.pos*7 + i)
		}
		f.cnt["rest of the buffer scribbled on"]++
	}
	return n, nil
}

//go:norace
func add(p *int, d int) { *p += d }

func (f *simReader) hit(e *rdEvent) {
	f.fired = append(f.fired, e)
	f.cnt[evNames[e.kind]]++
}

func (f *simReader) fill(p []byte) {
	for i := range p {
		p[i] = f.src.at(f.pos)
		f.pos++
	}
}

type streamSpec struct {
	Seed  uint64 `json:"seed"`
	Head  string `json:"head"` // hex of the leading bytes
	Start int    `json:"start"`
	Op    string `json:"op"`
}

type cleanOut struct {
	Out Out `json:"out"`
	N   int `json:"n"`
}

func specSrc(seed uint64, head []byte) *byteSrc {
	b := &byteSrc{seed: seed, patch: map[int]byte{}}
	for i, x := range head {
		b.patch[i] = x
	}
	return b
}

// RandMain evaluates generators on clean sources, in a fresh process.
func RandMain(r *sim.Run) {
	var specs []streamSpec
	if err := json.Unmarshal(r.Req.Body, &specs); err != nil {
		panic(err)
	}
	var outs []cleanOut
	for _, sp := range specs {
		rd := &simReader{r: r, s: r.S("none"), cnt: map[string]int{}, src: specSrc(sp.Seed, unhex(sp.Head)), pos: sp.Start}
		op := r.Lib.Op(sp.Op)
		o, _ := perform(r, r.Lib, op, []*argument{{k: core.Rd, v: rd}}, 400000000)
		outs = append(outs, cleanOut{o, rd.pos - sp.Start})
	}
	r.Body, _ = json.Marshal(outs)
}

// sourceHead makes the leading bytes of a source: random and special
// contents at the places the generators read them from.
func sourceHead(s *tape.Stream, op string) []byte {
	var b []byte
	n := s.N(4)
	if s.P(12) { // contents that are refused again and again
		var u []byte
		switch op {
		case "bls.RandG1", "bls.RandG2":
			g := ref.G1
			if op == "bls.RandG2" {
				g = ref.G2
			}
			u = append([]byte{byte(s.N(256))}, headFQ(s, g)...)
		case "bls.RandFR", "g1pubs.RandKey", "g2pubs.RandKey":
			u = bytes.Repeat([]byte{0xff}, 32)
		default:
			u = bytes.Repeat([]byte{0xff}, 48)
		}
		most := []int{10, 40, 150}[s.N(3)]
		if op == "bls.RandG1" || op == "bls.RandG2" {
			most = 40
		}
		for k := 2 + s.N(most); k > 0; k-- {
			b = append(b, u...)
		}
	}
	for i := 0; i < n; i++ {
		switch op {
		case "bls.RandG1":
			b = append(b, byte(s.N(256)))
			b = append(b, headFQ(s, ref.G1)...)
		case "bls.RandG2":
			b = append(b, byte(s.N(256)))
			b = append(b, headFQ(s, ref.G2)...)
		case "bls.RandFR", "g1pubs.RandKey", "g2pubs.RandKey":
			switch s.N(5) {
			case 0:
				b = append(b, fill(ref.R, 32)...)
			case 1:
				b = append(b, fill(new(big.Int).Sub(ref.R, big.NewInt(1)), 32)...)
			case 2:
				for k := 0; k < 32; k++ {
					b = append(b, 0xff)
				}
			case 3:
				b = append(b, fill(limbs(s, 4), 32)...)
			default:
				b = append(b, s.Bytes(32)...)
			}
		default:
			b = append(b, headFQ(s, ref.G1)...)
		}
	}
	return b
}

func headFQ(s *tape.Stream, g ref.Group) []byte {
	switch s.N(6) {
	case 0: // the abscissa of a special point
		l := offPts[g]
		p := l[s.N(len(l))]
		if !p.Zero {
			return append([]byte{}, p.Enc[1:1+g.Size()]...)
		}
	case 1:
		b := make([]byte, g.Size())
		for i := range b {
			b[i] = 0xff
		}
		return b
	case 2:
		return append(fill(ref.Q, 48), make([]byte, g.Size()-48)...)
	case 3:
		return append(fill(new(big.Int).Sub(ref.Q, big.NewInt(1)), 48), make([]byte, g.Size()-48)...)
	case 4:
		return make([]byte, g.Size())
	}
	return s.Bytes(g.Size())
}

type genCall struct {
	op    string
	start int
	end   int
	evs   []*rdEvent
	out   Out
	errv  error
	rd    int // which source
	task  int
	steps int64
}

// C03 runs generators on unreliable sources.
func C03(r *sim.Run) {
	c := r.S("cfg")
	if enduring(r, r.S("long")) {
		endure03(r, c)
		return
	}
	conc := c.P(45)
	nt := 1
	if conc {
		nt = 2 + c.N(3)
	}
	heavy := c.P(50) // also points
	level := c.N(4)  // how faulty
	left := new(int)
	*left = nt
	calls := make([][]*genCall, nt)
	type other struct {
		op   *core.Op
		args []*argument
		out  Out
	}
	others := make([][]other, nt)
	readers := make([]*simReader, nt)
	heads := make([][]byte, nt)
	plan := make([][]string, nt)
	m := newMachine(r, r.Lib, true)
	m.Fam = c.N(3)
	var mix [][]taskOp
	for t := 0; t < nt; t++ {
		s := r.S("src/%d", t)
		n := 1 + s.N(5)
		for i := 0; i < n; i++ {
			k := s.W(4, 3, 3, 2, 4, 3, 2, 4, 4)
			if !heavy && (k == 5 || k == 6) {
				k = 4
			}
			plan[t] = append(plan[t], randOps[k])
		}
		heads[t] = sourceHead(s, plan[t][0])
		rd := &simReader{r: r, s: r.S("reads/%d", t), cnt: map[string]int{}, src: specSrc(uint64(s.N(1<<30)), heads[t])}
		if s.P(50) {
			rd.kind = s.N(len(sourceTypes))
		}
		if level > 0 {
			rd.chunk = []int{0, 1, 2, 7, 31, 47, 64}[s.N(7)]
			rd.zeros = []int{0, 0, 10, 40, 90}[s.N(5)]
			rd.most = 40
			if s.P(15) { // very many of them, more than buffered readers accept
				rd.most, rd.zeros = 250, 97
			}
			rd.dirty = s.P(40)
			rd.delay = []int{0, 10, 50}[s.N(3)]
			ne := s.N(1 + level)
			for i := 0; i < ne; i++ {
				e := &rdEvent{pos: s.N(60 + 30*len(plan[t])), kind: s.W(5, 3, 2, 3, 1)}
				if s.P(25) { // exactly between two calls, or one byte before
					e.pos = []int{32, 31, 48, 47, 49, 96, 97, 98, 1, 0, 33, 64, 50}[s.N(13)]
				}
				if s.P(35) { // exactly between two reads
					e.pos, e.at = -1, 1+s.N(4+5*len(plan[t]))
				}
				e.err = srcErrs[s.N(len(srcErrs))]
				if s.P(25) { // the source is at its end
					e.kind, e.err = evForever, io.EOF
					if s.P(50) { // reported with the last bytes
						e.kind, e.die = evErrWith, true
					}
				}
				rd.evs = append(rd.evs, e)
			}
			sort.SliceStable(rd.evs, func(i, j int) bool { return rd.evs[i].pos < rd.evs[j].pos })
		}
		if conc {
			rd.busy = left
		}
		readers[t] = rd
		var mx []taskOp
		if conc {
			for j := 0; j < s.N(3); j++ {
				names := []string{"g1pubs.Sign", "g2pubs.Sign", "g1pubs.PrivToPub", "g2pubs.PrivToPub", "bls.HashG1", "FR.Mul", "FR.Exp", "FQ.Inverse", "g1pubs.DeriveSecretKey", "bls.RandFR", "bls.RandG1"}
				if op := r.Lib.Op(names[s.N(len(names))]); op != nil {
					mx = append(mx, taskOp{op, m.args(s, op)})
				}
			}
		}
		mix = append(mix, mx)
		var es []string
		for _, e := range rd.evs {
			at := fmt.Sprint(e.pos)
			if e.at > 0 {
				at = fmt.Sprintf("read %d", e.at)
			}
			es = append(es, fmt.Sprintf("%s@%s", evNames[e.kind], at))
		}
		r.Ev("task %d: %s; %s source: reads up to %d bytes, %d%% empty, %d%% delayed, faults [%s]", t, strings.Join(plan[t], " "), sourceTypes[rd.kind], rd.chunk, rd.zeros, rd.delay, strings.Join(es, " "))
		r.Shape(strings.Join(plan[t], " "))
	}
	body := func(t int) {
		rd := readers[t]
		for i, name := range plan[t] {
			op := r.Lib.Op(name)
			g := &genCall{op: name, start: rd.pos, task: t}
			nf := len(rd.fired)
			res := r.Call(op, []interface{}{rd.typed()}, 0)
			g.end = rd.pos
			g.evs = append(g.evs, rd.fired[nf:]...)
			g.steps = res.Steps
			if res.Panic != "" {
				g.out.Panic, g.out.Msg = true, res.Panic
			} else {
				for k, v := range res.Outs {
					g.out.Outs = append(g.out.Outs, hexEnc(op.Outs[k].K, r.SafeEnc(r.Lib, op.Outs[k].K, v)))
					if op.Outs[k].K == core.Err && v != nil {
						g.errv, _ = v.(error)
					}
				}
			}
			calls[t] = append(calls[t], g)
			if i < len(mix[t]) {
				o := mix[t][i]
				args := o.args
				for k, a := range args {
					if a.k == core.Rd {
						args = append([]*argument{}, args...)
						args[k] = &argument{k: a.k, src: a.src, v: r.Lib.Dec(a.k, a.src)}
					}
				}
				out, _ := perform(r, r.Lib, o.op, args, 0)
				others[t] = append(others[t], other{o.op, args, out})
			}
		}
		add(left, -1)
	}
	const limit = 400000000
	func() {
		defer func() {
			if e := recover(); e != nil {
				if sim.IsLimit(e) {
					r.Fail("hang", "generation did not finish within %d statements", int64(limit))
				}
				panic(e)
			}
		}()
		if !conc {
			simrt.SetLimit(simrt.Total() + limit)
			body(0)
			simrt.SetLimit(sim.NoLimit)
			return
		}
		pol := simrt.Policy{Seed: c.U(), MaxPre: 4000}
		switch c.N(3) {
		case 1:
			pol.Uniform = []int64{10, 200, 5000, 50000}[c.N(4)]
		case 2:
			pol.HotProb = uint(1 + c.N(8))
			pol.Uniform = 20000
		}
		var tasks []sim.Task
		for t := 0; t < nt; t++ {
			tasks = append(tasks, sim.Task{Name: fmt.Sprintf("generator%d", t), F: body})
		}
		pre, _ := r.Parallel(pol, limit, tasks)
		r.Stat("preemptions", int64(pre))
		r.Stat("concurrent rounds", 1)
	}()
	merge := func() {
		for _, rd := range readers {
			for k := range rd.cnt {
				for ; rd.cnt[k] > 0; rd.cnt[k]-- {
					r.Fault(k)
				}
			}
			r.Ticks += rd.ticks
			rd.ticks = 0
		}
	}
	merge()
	// the same streams, clean, in a fresh process
	var specs []streamSpec
	var flat []*genCall
	for t := range calls {
		for _, g := range calls[t] {
			g.rd = t
			flat = append(flat, g)
			specs = append(specs, streamSpec{readers[t].src.seed, hexStr(heads[t]), g.start, g.op})
		}
		// afterwards the source works again
		rd := readers[t]
		rd.evs, rd.dead, rd.busy = nil, nil, nil
		name := plan[t][len(plan[t])-1]
		g := &genCall{op: name, start: rd.pos, task: t, rd: t}
		op := r.Lib.Op(name)
		res := r.Call(op, []interface{}{rd.typed()}, limit)
		g.end = rd.pos
		if res.Panic != "" {
			g.out.Panic, g.out.Msg = true, res.Panic
		}
		for k, v := range res.Outs {
			g.out.Outs = append(g.out.Outs, hexEnc(op.Outs[k].K, r.SafeEnc(r.Lib, op.Outs[k].K, v)))
		}
		flat = append(flat, g)
		specs = append(specs, streamSpec{rd.src.seed, hexStr(heads[t]), g.start, g.op})
	}
	b, _ := json.Marshal(specs)
	res, err := r.Ask(sim.Procs.Path, &sim.Request{Mode: "rand", Prop: "C03", Tier: r.Tier, Body: b}, 120*time.Second)
	if err != nil {
		if cr, ok := err.(*sim.Crash); ok {
			panic("clean run died: " + cr.Stderr)
		}
		panic(err)
	}
	if res.Err != "" {
		panic(res.Err)
	}
	var clean []cleanOut
	if err := json.Unmarshal(res.Body, &clean); err != nil {
		panic(err)
	}
	subChecks := 0
	for i, g := range flat {
		want := clean[i]
		var es []string
		for _, e := range g.evs {
			es = append(es, fmt.Sprintf("%s@%d", evNames[e.kind], e.pos))
		}
		r.Ev("task %d: %s from byte %d to %d faults [%s] = %s", g.task, g.op, g.start, g.end, strings.Join(es, " "), g.out.brief())
		r.Stat("generator calls", 1)
		if want.Out.Panic || len(want.Out.Outs) != 2 || want.Out.Outs[1] != "<nil>" {
			r.Fail("clean:"+g.op, "%s fails on a source without faults, from byte %d: %s", g.op, g.start, want.Out.brief())
		}
		need := g.start + want.N
		var fail *rdEvent
		panicked := false
		for _, e := range g.evs {
			if e.kind == evStall {
				continue
			}
			if e.pos > need || e.pos == need && e.kind != evErrWith {
				r.Fail("consumed:"+g.op, "%s read past byte %d, although %d bytes from %d on suffice on a source without faults", g.op, e.pos, want.N, g.start)
			}
			if e.full && e.pos >= need { // every byte was there
				continue
			}
			if e.full && fail == nil { // the error may be dropped: the read got all it asked for
				if g.out.key() == want.Out.key() {
					continue
				}
				if len(g.evs) > 1 && e != g.evs[len(g.evs)-1] && len(g.out.Outs) == 2 && g.errv != nil && !errors.Is(g.errv, e.err) {
					continue
				}
			}
			if e.kind == evPanic {
				panicked = true
			}
			if fail == nil {
				fail = e
			}
		}
		// a dead source fails again without a new event
		if fail == nil && g.start == g.end && want.N > 0 && readersDead(readers[g.rd], calls[g.rd], g) != nil {
			fail = readersDead(readers[g.rd], calls[g.rd], g)
		}
		if fail == nil || fail.full && g.out.key() == want.Out.key() {
			if g.out.key() != want.Out.key() {
				r.Fail("value:"+g.op, "%s returned %s, on the same bytes from a source without faults %s", g.op, g.out.brief(), want.Out.brief())
			}
			if g.end != need {
				r.Fail("consumed:"+g.op, "%s consumed %d bytes, on a source without faults %d", g.op, g.end-g.start, want.N)
			}
			checkGenerated(r, g, &subChecks)
			r.Stat("values equal to the value on a clean source", 1)
			continue
		}
		r.Stat("failures reported to the caller", 1)
		if g.out.Panic {
			if !panicked {
				r.Fail("panic:"+g.op, "%s panics (%s) when its source reports %v", g.op, g.out.Msg, fail.err)
			}
			if !strings.Contains(g.out.Msg, "simulated source panic") {
				r.Fail("panic:"+g.op, "%s panics with %q instead of the source's panic", g.op, g.out.Msg)
			}
			continue
		}
		if len(g.out.Outs) != 2 || g.out.Outs[1] == "<nil>" || g.errv == nil {
			r.Fail("swallowed:"+g.op, "%s returned %s although its source failed at byte %d, before the %d bytes it needs", g.op, g.out.brief(), fail.pos, want.N)
		}
		if !panicked {
			ok := errors.Is(g.errv, fail.err)
			if fail.err == io.EOF {
				ok = ok || errors.Is(g.errv, io.ErrUnexpectedEOF)
			}
			if !ok {
				r.Fail("error:"+g.op, "%s returned error %q for a source failing with %q", g.op, g.errv, fail.err)
			}
		}
		if k := r.Lib.Op(g.op).Outs[0]; k.Ptr && g.out.Outs[0] != "<nil>" {
			r.Fail("value:"+g.op, "%s returned a value together with the failure of its source: %s", g.op, g.out.brief())
		}
	}
	for _, o := range m.Consts {
		o.Enc = r.SafeEnc(r.Lib, o.K, o.V)
	}
	for t := range others {
		for _, o := range others[t] {
			inv := Inv{Op: o.op.Name}
			for _, a := range o.args {
				inv.Args = append(inv.Args, a.portable())
			}
			outs := evalFresh(r, []Inv{inv})
			if outs == nil {
				r.Fail("bystander:"+inv.Op, "%s ends the process when it is the first call", inv.Op)
			}
			if outs[0].key() != o.out.key() {
				r.Fail("bystander:"+inv.Op, "%s ran beside failing sources and returned %s instead of %s", inv.Op, o.out.brief(), outs[0].brief())
			}
		}
	}
	r.State(nt, level, heavy)
}

// readersDead finds the event that killed the source before a call.
func readersDead(rd *simReader, calls []*genCall, g *genCall) *rdEvent {
	for _, c := range calls {
		if c == g {
			return nil
		}
		for _, e := range c.evs {
			if e.kind == evForever || e.die {
				return e
			}
		}
	}
	return nil
}

// checkGenerated checks range, curve and subgroup membership.
func checkGenerated(r *sim.Run, g *genCall, n *int) {
	e := g.out.Outs[0]
	switch g.op {
	case "bls.RandG1", "bls.RandG2":
		gr := ref.G1
		if g.op == "bls.RandG2" {
			gr = ref.G2
		}
		p := gr.FromEnc(unhex(e))
		if p.Inf {
			r.Fail("invalid:"+g.op, "%s returned the identity", g.op)
		}
		if !gr.OnCurve(p) {
			r.Fail("invalid:"+g.op, "%s returned a point off the curve", g.op)
		}
		if !p.InSubgroup() {
			r.Fail("invalid:"+g.op, "%s returned a point outside the prime-order subgroup", g.op)
		}
		r.Stat("generated points checked", 1)
	case "bls.RandFR", "g1pubs.RandKey", "g2pubs.RandKey":
		if new(big.Int).SetBytes(unhex(e)).Cmp(ref.R) >= 0 {
			r.Fail("invalid:"+g.op, "%s returned a scalar out of range", g.op)
		}
	default:
		b := unhex(e)
		for i := 0; i+48 <= len(b); i += 48 {
			if new(big.Int).SetBytes(b[i:i+48]).Cmp(ref.Q) >= 0 {
				r.Fail("invalid:"+g.op, "%s returned a coefficient out of range", g.op)
			}
		}
	}
	*n++
}
