package props

import (
	"fmt"
	"math/big"
	"runtime"
	"strings"

	"github.com/phoreproject/bls/zzverif/simrt"

	"verifsim/core"
	"verifsim/ref"
	"verifsim/sim"
	"verifsim/tape"
)

// Work allowed to one call, in executed statements: a constant and a part
// for every received element. The honest calls of the same build serve as
// the yardstick when they are dearer than the constants assume.
const workBase = 16000000

type c07 struct {
	r    *sim.Run
	s1   *Scheme
	s2   *Scheme
	m    *Machine
	port bool
	unit int64 // statements of an honest verification
	keys map[int][]*member
	one  map[int]interface{}
	fam  int
	off  int
	hon  map[int]*honestSet
	max  map[string]int64
	fr   int
}

// honestSet is the traffic that must keep working.
type honestSet struct {
	msg  []byte
	sk   interface{}
	pk   []byte
	sig  []byte
	sig2 []byte
	pk2  []byte
	agg  []byte
}

func (x *c07) limit(items int) int64 {
	u := int64(workBase)
	if x.port {
		u *= 8 // the portable primitives are themselves counted
	}
	if 4*x.unit > u {
		u = 4 * x.unit
	}
	return u + int64(items)*(u/2)
}

// wire makes the bytes of a point some peer might send.
func (x *c07) wire(s *tape.Stream, g ref.Group) ([]byte, string) {
	switch s.W(6, 3, 3, 2, 2, 2, 3, 2, 2, 2) {
	case 1:
		return g.Compress(ref.Zero), "identity"
	case 2: // identity with something else set
		b := g.Compress(ref.Zero)
		if s.P(50) {
			b[0] |= 0x20
		} else {
			b[s.N(len(b))] ^= 1 << uint(s.N(8))
		}
		return b, "malformed identity"
	case 3:
		return s.Bytes(g.Size()), "noise"
	case 4:
		b := s.Bytes(g.Size())
		b[0] = b[0]&0x1f | 0x80 | byte(s.N(2))<<5
		return b, "flagged noise"
	case 5: // on the curve, outside the subgroup
		p := offPts[g][s.N(len(offPts[g]))]
		return g.Compress(g.FromEnc(p.Enc)), "outside the subgroup: " + p.N
	case 6:
		b := g.Compress(g.FromEnc(point(s, g, 0).Enc))
		b[s.N(len(b))] ^= 1 << uint(s.N(8))
		return b, "bit flipped"
	case 7: // coordinate at or above the modulus
		n := new(big.Int).Add(ref.Q, big.NewInt(int64(s.N(4))))
		if s.P(30) {
			n = limbs(s, 6)
		}
		b := make([]byte, g.Size())
		n.And(n, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 381), big.NewInt(1)))
		i := 0
		if g.Size() == 96 {
			i = 48 * s.N(2)
		}
		copy(b[i:], fill(n, 48))
		b[0] = b[0]&0x1f | 0x80 | byte(s.N(2))<<5
		return b, "coordinate out of range"
	case 8:
		b := make([]byte, g.Size())
		for i := range b {
			b[i] = []byte{0, 0xff}[s.N(2)]
		}
		b[0] = byte(s.N(8)) << 5
		return b, "constant bytes"
	case 9: // negated or doubled known point
		p := g.FromEnc(point(s, g, 0).Enc)
		if s.P(50) {
			p = p.Neg()
		}
		return g.Compress(p), "negated point"
	}
	return g.Compress(g.FromEnc(point(s, g, 0).Enc)), "member"
}

// hmsg is a message a peer might send.
func (x *c07) hmsg(s *tape.Stream) []byte {
	if s.P(25) {
		return nil
	}
	if s.P(6) {
		b := make([]byte, 20000+s.N(60000))
		tape.Fill(b, s.U())
		return b
	}
	return message(s, x.fam)
}

// call runs one operation under its work limit.
func (x *c07) call(sc *Scheme, items int, f func() bool) bool {
	sc.Limit = x.limit(items)
	return f()
}

func (x *c07) note(sc *Scheme, n string) {
	if sc.Steps > x.max[n] {
		x.max[n] = sc.Steps
	}
}

// honest sets up what honest peers ask.
func (x *c07) setup(which int, sc *Scheme, c *tape.Stream) {
	h := &honestSet{msg: message(c, x.fam)}
	v := frNum(c)
	if v.Sign() == 0 {
		v.SetInt64(3)
	}
	h.sk = sc.Key(fill(v, 32))
	pk := sc.Pub(h.sk)
	h.pk = sc.PubBytes(pk)
	sg := sc.Sign(h.msg, h.sk)
	h.sig = sc.SigBytes(sg)
	x.hon[which] = h
	w := frNum(c)
	if w.Sign() == 0 {
		w.SetInt64(7)
	}
	k2 := sc.Key(fill(w, 32))
	h.pk2 = sc.PubBytes(sc.Pub(k2))
	s2 := sc.Sign(h.msg, k2)
	h.sig2 = sc.SigBytes(s2)
	h.agg = sc.SigBytes(sc.AggSigs([]interface{}{sg, s2}))
	x.unit = 0
	if !sc.Verify(h.msg, pk, sg) {
		x.r.Fail("service", "%s rejects an honest signature before any hostile input", sc)
	}
	x.unit = sc.Steps
	x.note(sc, "honest Verify")
}

// serve makes an honest request and expects the right answer.
func (x *c07) serve(which int, sc *Scheme, s *tape.Stream, after string) {
	r := x.r
	h := x.hon[which]
	fail := func(f string, a ...interface{}) {
		r.Fail("service", "after hostile input (%s): %s: %s", after, sc, fmt.Sprintf(f, a...))
	}
	sc.Limit = x.limit(8)
	r.Stat("honest requests served", 1)
	switch s.N(4) {
	case 0:
		if got := sc.SigBytes(sc.Sign(h.msg, h.sk)); string(got) != string(h.sig) {
			fail("Sign gives %x instead of %x", got, h.sig)
		}
	case 1:
		pk, ok := sc.DecPub(h.pk)
		sg, ok2 := sc.DecSig(h.sig)
		if !ok || !ok2 {
			fail("an honest encoding is refused")
		}
		if !sc.Verify(h.msg, pk, sg) {
			fail("an honest signature is rejected")
		}
	case 2:
		pk, ok := sc.DecPub(h.pk)
		sg, ok2 := sc.DecSig(h.sig2)
		if !ok || !ok2 {
			fail("an honest encoding is refused")
		}
		if sc.Verify(h.msg, pk, sg) != (string(h.sig) == string(h.sig2)) {
			fail("another key's signature is accepted")
		}
	case 3:
		p1, ok := sc.DecPub(h.pk)
		p2, ok2 := sc.DecPub(h.pk2)
		sg, ok3 := sc.DecSig(h.agg)
		if !ok || !ok2 || !ok3 {
			fail("an honest encoding is refused")
		}
		if !sc.VerifyCommon(sg, []interface{}{p1, p2}, h.msg) {
			fail("an honest aggregate is rejected")
		}
	}
}

// received is a hostile request after decoding.
type received struct {
	kind string
	sig  interface{}
	pks  []interface{}
	msgs [][]byte
	dom  []byte
	run  func() bool
	n    int
	show string
}

// hostile receives one frame and decides what the node will do with it.
func (x *c07) hostile(s *tape.Stream, sc *Scheme) *received {
	r := x.r
	q := &received{}
	decSig := func(b []byte, note string) interface{} {
		sc.Limit = x.limit(1)
		v, ok := sc.DecSig(b)
		x.note(sc, "decode")
		r.Stat("encodings received", 1)
		r.State("sig", note, ok)
		if !ok {
			return nil
		}
		return v
	}
	decPub := func(b []byte, note string) interface{} {
		sc.Limit = x.limit(1)
		v, ok := sc.DecPub(b)
		x.note(sc, "decode")
		r.Stat("encodings received", 1)
		r.State("pub", note, ok)
		if !ok {
			return nil
		}
		return v
	}
	anySig := func() interface{} {
		for try := 0; try < 3; try++ {
			b, n := x.wire(s, sc.SGr)
			if v := decSig(b, n); v != nil {
				r.Fault("received signature: " + trim(n))
				return v
			}
			r.Fault("refused signature: " + trim(n))
		}
		return decSig(sc.SGr.Compress(ref.Zero), "identity")
	}
	anyPub := func() interface{} {
		for try := 0; try < 3; try++ {
			b, n := x.wire(s, sc.PG)
			if v := decPub(b, n); v != nil {
				r.Fault("received key: " + trim(n))
				return v
			}
			r.Fault("refused key: " + trim(n))
		}
		return decPub(sc.PG.Compress(ref.Zero), "identity")
	}
	q.sig = anySig()
	np := []int{1, 0, 2, 3, 4, 6}[s.W(4, 2, 3, 2, 2, 1)]
	for i := 0; i < np; i++ {
		if i > 0 && s.P(40) {
			p := q.pks[s.N(i)]
			if s.P(50) { // cancels an earlier one
				e := sc.PubPoint(p)
				if v := decPub(sc.PG.Compress(e.Neg()), "cancelling"); v != nil {
					q.pks = append(q.pks, v)
					r.Fault("cancelling keys")
					continue
				}
			}
			q.pks = append(q.pks, p)
			r.Fault("repeated key")
			continue
		}
		q.pks = append(q.pks, anyPub())
	}
	nm := np
	if s.P(30) {
		nm = s.N(6)
	}
	for i := 0; i < nm; i++ {
		if i > 0 && s.P(25) {
			q.msgs = append(q.msgs, q.msgs[s.N(i)])
			r.Fault("repeated message")
			continue
		}
		q.msgs = append(q.msgs, x.hmsg(s))
		if len(q.msgs[i]) == 0 {
			r.Fault("empty message")
		}
	}
	if np != nm {
		r.Fault("lists of different lengths")
	}
	if np == 0 {
		r.Fault("empty list")
	}
	m0 := []byte(nil)
	if nm > 0 {
		m0 = q.msgs[0]
	}
	q.dom = NewVal(s, core.B8, 0, 0)
	pad := func(b []byte) []byte {
		o := make([]byte, 32)
		copy(o, b)
		return o
	}
	kinds := 8
	if sc.Has("SignWithDomain") {
		kinds = 11
	}
	items := np + nm
	switch s.N(kinds) {
	case 0:
		q.kind = "VerifyAggregate"
		q.run = func() bool { return sc.VerifyAgg(q.sig, q.pks, q.msgs) }
	case 1:
		q.kind = "VerifyAggregateCommon"
		q.run = func() bool { return sc.VerifyCommon(q.sig, q.pks, m0) }
	case 2:
		if np == 0 {
			q.pks = []interface{}{anyPub()}
		}
		q.kind = "Verify"
		q.run = func() bool { return sc.Verify(m0, q.pks[0], q.sig) }
	case 3:
		q.kind = "AggregatePublicKeys, re-encoded and verified against"
		q.run = func() bool {
			a := sc.AggPubs(q.pks)
			sc.PubBytes(a)
			return sc.Verify(m0, a, q.sig)
		}
	case 4:
		sgs := []interface{}{q.sig}
		for i := 0; i < np; i++ {
			sgs = append(sgs, anySig())
		}
		if s.P(20) {
			sgs = nil
		}
		q.kind = "AggregateSignatures, re-encoded and verified"
		q.run = func() bool {
			a := sc.AggSigs(sgs)
			sc.SigBytes(a)
			return sc.VerifyAgg(a, q.pks, q.msgs)
		}
	case 5:
		if np == 0 {
			q.pks = []interface{}{anyPub()}
		}
		o := anyPub()
		q.kind = "PublicKey comparison, Aggregate and re-encoding"
		q.run = func() bool {
			sc.Do("PublicKey.Equals", o, q.pks[0])
			sc.Do("PublicKey.Aggregate", o, q.pks[len(q.pks)-1])
			sc.PubBytes(o)
			sc.Do("PublicKey.String", o)
			c := sc.one("PublicKey.Copy", o)
			return sc.Verify(m0, c, q.sig)
		}
	case 6:
		o := anySig()
		q.kind = "Signature Aggregate and re-encoding"
		q.run = func() bool {
			sc.Do("Signature.Aggregate", o, q.sig)
			sc.SigBytes(o)
			sc.Do("Signature.Aggregate", o, o)
			c := sc.one("Signature.Copy", o)
			sc.SigBytes(c)
			return sc.VerifyCommon(c, q.pks, m0)
		}
	case 7:
		q.kind = "NewAggregateSignature and NewAggregatePubkey"
		q.run = func() bool {
			a := sc.one("NewAggregateSignature")
			p := sc.one("NewAggregatePubkey")
			if s.P(50) && np > 0 {
				sc.Do("PublicKey.Aggregate", p, q.pks[0])
				sc.Do("Signature.Aggregate", a, q.sig)
			}
			return sc.Verify(m0, p, a)
		}
	case 8:
		if np == 0 {
			q.pks = []interface{}{anyPub()}
		}
		q.kind = "VerifyWithDomain"
		q.run = func() bool { return sc.VerifyD(pad(m0), q.dom, q.pks[0], q.sig) }
	case 9:
		q.kind = "VerifyAggregateCommonWithDomain"
		q.run = func() bool { return sc.VerifyCommonD(q.sig, q.pks, pad(m0), q.dom) }
	case 10:
		var ms [][]byte
		for _, m := range q.msgs {
			ms = append(ms, pad(m))
		}
		q.kind = "VerifyAggregateWithDomain"
		q.run = func() bool { return sc.VerifyAggD(q.sig, q.pks, ms, q.dom) }
	}
	q.n = items + 2
	q.show = fmt.Sprintf("%s: %s with %d keys, %d messages", sc, q.kind, len(q.pks), len(q.msgs))
	return q
}

func trim(n string) string {
	if i := strings.IndexByte(n, ':'); i > 0 {
		return n[:i]
	}
	return n
}

// scale sends the same request in two sizes; the work must not grow faster
// than the size.
func (x *c07) scale(s *tape.Stream, sc *Scheme) {
	r := x.r
	kind := s.N(10)
	sig, _ := sc.DecSig(sc.SGr.Compress(sc.SGr.FromEnc(point(s, sc.SGr, 0).Enc)))
	pk, _ := sc.DecPub(sc.PG.Compress(sc.PG.FromEnc(point(s, sc.PG, 0).Enc)))
	pk2, _ := sc.DecPub(sc.PG.Compress(sc.PG.FromEnc(point(s, sc.PG, 0).Enc)))
	if sig == nil || pk == nil || pk2 == nil {
		r.Fail("service", "%s refuses the encoding of a group member", sc)
	}
	order := s.N(4)
	seed := s.U()
	n0 := []int{40, 60, 90}[s.N(3)]
	var name string
	mlen := []int{8, 8, 1000}[s.N(3)]
	var bytes int64 // allocated by the call
	var m0 runtime.MemStats
	run := func(n int) int64 {
		defer func() {
			var m1 runtime.MemStats
			runtime.ReadMemStats(&m1)
			bytes = int64(m1.TotalAlloc - m0.TotalAlloc)
		}()
		if kind >= 7 { // one long message
			msg := make([]byte, 300*n)
			tape.Fill(msg, seed)
			sc.Limit = x.limit(n)
			runtime.ReadMemStats(&m0)
			switch kind {
			case 7:
				name = "Verify of a long message"
				sc.Verify(msg, pk, sig)
			case 8:
				name = "VerifyAggregate of two long messages"
				sc.VerifyAgg(sig, []interface{}{pk, pk2}, [][]byte{msg, msg[1:]})
			case 9:
				name = "VerifyAggregateCommon of a long message"
				sc.VerifyCommon(sig, []interface{}{pk, pk2}, msg)
			}
			return sc.Steps
		}
		var pks, sgs []interface{}
		var ms [][]byte
		for i := 0; i < n; i++ {
			if i%3 == 1 {
				pks = append(pks, pk2)
			} else {
				pks = append(pks, pk)
			}
			sgs = append(sgs, sig)
			b := make([]byte, mlen) // distinct messages in a chosen order
			j := i
			switch order {
			case 1:
				j = n - i
			case 2:
				j = int(tape.Mix(seed+uint64(i)) >> 34)
			case 3: // organ pipe
				if i%2 == 0 {
					j = n + i
				} else {
					j = n - i
				}
			}
			for k := 0; k < 8; k++ {
				b[k] = byte(j >> (8 * uint(7-k)))
			}
			ms = append(ms, b)
		}
		sc.Limit = x.limit(n)
		runtime.ReadMemStats(&m0)
		switch kind {
		case 0:
			name = "VerifyAggregate with fewer keys than messages"
			sc.VerifyAgg(sig, pks[:1], ms)
		case 1:
			name = "VerifyAggregate with fewer messages than keys"
			sc.VerifyAgg(sig, pks, ms[:1])
		case 2:
			name = "VerifyAggregate with a repeated message among many"
			ms[n-1] = append([]byte{}, ms[n/2]...)
			sc.VerifyAgg(sig, pks, ms)
		case 3:
			name = "VerifyAggregate with one message repeated"
			for i := range ms {
				ms[i] = append([]byte{}, ms[0]...)
			}
			sc.VerifyAgg(sig, pks, ms)
		case 4:
			name = "VerifyAggregateCommon of many keys"
			sc.VerifyCommon(sig, pks, ms[0])
		case 5:
			name = "AggregatePublicKeys"
			sc.AggPubs(pks)
		case 6:
			name = "AggregateSignatures"
			sc.AggSigs(sgs)
		}
		return sc.Steps
	}
	a := run(n0)
	am := bytes
	b := run(8 * n0)
	r.Fault("oversized request")
	r.Ev("%s %s: %d statements for %d elements, %d for %d", sc, name, a, n0, b, 8*n0)
	r.Shape(name)
	r.Stat("requests compared in two sizes", 1)
	if b > 24*a+200000 {
		r.Fail("work:"+sc.P+" "+name, "%s: %s takes %d statements for %d elements but %d for %d", sc, name, a, n0, b, 8*n0)
	}
	r.MaxStat("most bytes allocated in one oversized request", bytes)
	if bytes > 24*am+300000 {
		r.Fail("memory:"+sc.P+" "+name, "%s: %s allocates about %d KB for size %d but %d KB for %d", sc, name, am>>10, n0, bytes>>10, 8*n0)
	}
}

var c07ops = []string{"G1", "G2", "bls.Compress", "bls.Decompress", "bls.Pairing", "bls.MillerLoop", "bls.CompareTwo", "bls.G2AffineTo", "bls.GetG", "bls.Hash",
	"bls.FQReprFrom", "bls.FRReprFrom", "bls.FRReprToFR", "bls.FQReprToFQ",
	"g1pubs.PublicKey", "g1pubs.Signature", "g1pubs.Verify", "g1pubs.Agg", "g1pubs.New", "g1pubs.Des",
	"g2pubs.PublicKey", "g2pubs.Signature", "g2pubs.Verify", "g2pubs.Agg", "g2pubs.New", "g2pubs.Des"}

// low sets up the machine that works on received points directly.
func (x *c07) low(c *tape.Stream) {
	r := x.r
	m := newMachine(r, r.Lib, true)
	m.Fam = x.fam
	m.Off = x.off
	m.Max = 8
	m.Reuse = 80
	m.ops, m.cum = nil, nil
	tot := 1
	for _, op := range r.Lib.Ops() {
		ok := usable(op) && hasPrefix(op.Name, c07ops...) && !strings.HasSuffix(op.Name, "DeserializeSecretKey")
		for _, a := range op.Args {
			if a.K == core.SK1 || a.K == core.SK2 || a.K == core.Rd {
				ok = false
			}
		}
		if !ok {
			continue
		}
		m.ops = append(m.ops, op)
		tot += 1 + 60000/(op.Cost+2000)
		m.cum = append(m.cum, tot)
	}
	m.After = func(m *Machine, op *core.Op, args []*argument, inv Inv, out Out) {
		n := 0
		for _, a := range args {
			n += 1 + len(a.l)
		}
		if r.LastCall > x.max["low-level call"] {
			x.max["low-level call"] = r.LastCall
		}
		if out.Panic {
			r.Fail("panic:"+op.Name, "%s panics on received operands: %s", op.Name, out.Msg)
		}
		r.State("low", op.Name, out.brief() == "<nil>")
	}
	x.m = m
}

// lowFrame decodes points the permissive way and works on them.
func (x *c07) lowFrame(s *tape.Stream) {
	r, m := x.r, x.m
	m.Limit = x.limit(6)
	for k := 1 + s.N(3); k > 0; k-- {
		g := ref.Group(1 + s.N(2))
		b, n := x.wire(s, g)
		names := []string{"bls.DecompressG1Unchecked", "bls.DecompressG1"}
		kind := core.B48
		if g == ref.G2 {
			names = []string{"bls.DecompressG2Unchecked", "bls.DecompressG2"}
			kind = core.B96
		}
		m.call(names[s.W(3, 1)], m.valArg(kind, b))
		r.Fault("received point: " + trim(n))
	}
	for k := 1 + s.N(5); k > 0; k-- {
		op := m.pick(s)
		if op == nil {
			continue
		}
		m.Apply(op, m.args(s, op))
	}
}

// C07 lets a node receive hostile frames between honest ones.
func C07(r *sim.Run) {
	c := r.S("cfg")
	lib := r.Lib
	x := &c07{r: r, hon: map[int]*honestSet{}, max: map[string]int64{}, fam: c.N(3)}
	x.off = []int{0, 20, 50}[c.N(3)]
	frames := 4 + c.N(10)
	if c.P(8) {
		lib = r.Port
		x.port = true
		frames = 2 + c.N(3)
	}
	if r.Tier == "thorough" {
		frames *= 2
	}
	only := c.N(4) // 1, 2: one scheme; else both
	conc := c.P(20) && !r.Race
	early := c.P(40) // hostile input before anything else
	scs := map[int]*Scheme{}
	var which []int
	for w := 1; w <= 2; w++ {
		if only == 1 && w == 2 || only == 2 && w == 1 {
			continue
		}
		scs[w] = NewScheme(r, lib, w)
		scs[w].Limit = x.limit(8)
		which = append(which, w)
	}
	r.Ev("%s: %d frames, hostile input first=%v, concurrent handlers=%v", lib.Build(), frames, early, conc)
	if lib == r.Lib && enduring(r, r.S("long")) {
		w := which[c.N(len(which))]
		x.endure(c, w, scs[w])
		return
	}
	x.low(r.S("low"))
	ready := map[int]bool{}
	setup := func() {
		for _, w := range which {
			if !ready[w] {
				x.setup(w, scs[w], c)
				ready[w] = true
			}
		}
	}
	if !early {
		setup()
	}
	for i := 0; i < frames; i++ {
		s := r.S("frame/%03d", i)
		w := which[s.N(len(which))]
		sc := scs[w]
		after := ""
		r.Ticks++
		switch k := s.W(10, 2, 5); {
		case k == 1:
			x.scale(s, sc)
			after = "oversized requests"
		case k == 2 && lib == r.Lib:
			x.lowFrame(s)
			after = "calls on received points"
		case conc && ready[w] && i%2 == 1:
			// several hostile handlers and an honest one at once
			var tasks []sim.Task
			var show []string
			for t := 0; t < 2; t++ {
				q := x.hostile(s, sc)
				if q == nil {
					continue
				}
				show = append(show, q.show)
				tasks = append(tasks, sim.Task{Name: fmt.Sprintf("hostile%d", t), F: func(id int) { q.run() }})
			}
			sc.Limit = 0
			h := x.hon[w]
			var ok bool
			tasks = append(tasks, sim.Task{Name: "honest", F: func(id int) {
				pk, _ := sc.DecPub(h.pk)
				sg, _ := sc.DecSig(h.sig)
				ok = sc.Verify(h.msg, pk, sg)
			}})
			pre, _ := r.Parallel(simrt.Policy{Seed: s.U(), MaxPre: 2000, Uniform: []int64{200, 4000, 40000}[s.N(3)]}, 3*x.limit(16), tasks)
			r.Stat("preemptions", int64(pre))
			r.Ev("at once: %s; honest verification: %v", strings.Join(show, " | "), ok)
			if !ok {
				r.Fail("service", "%s rejects an honest signature while handling %s", sc, strings.Join(show, " | "))
			}
			after = "concurrent hostile requests"
		default:
			q := x.hostile(s, sc)
			sc.Limit = x.limit(q.n)
			v := q.run()
			x.note(sc, q.kind)
			r.Ev("%s = %v in %d statements", q.show, v, sc.Steps)
			r.Shape(q.kind + fmt.Sprint(len(q.pks), len(q.msgs), v))
			r.State(q.kind, len(q.pks), len(q.msgs), v)
			r.Stat("hostile requests handled", 1)
			after = q.kind
		}
		if s.P(60) {
			setup()
			w := which[s.N(len(which))]
			x.serve(w, scs[w], s, after)
		}
	}
	setup()
	for _, w := range which {
		for k := 0; k < 2; k++ {
			x.serve(w, scs[w], c, "the end")
		}
	}
	for k, v := range x.max {
		r.MaxStat("most statements in one "+k, v)
	}
}
