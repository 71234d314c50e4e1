package props

import (
	"bytes"
	"fmt"
	"math/big"

	"verifsim/core"
	"verifsim/ref"
	"verifsim/sim"
	"verifsim/tape"
)

// c05item is an aggregate a node holds, with what was put into it.
type c05item struct {
	vec []int
	sg  interface{}
	pk  interface{}
}

type c05msg struct {
	vec  []int
	hand bool // a single contribution in answer to a request
	id   int
}

type c05node struct {
	id    int
	sc    *Scheme
	items []*c05item
	have  []bool
	one   []*c05item // contributions as received
	disk  [][3]interface{}
	down  int
}

type c05 struct {
	r     *sim.Run
	k     int
	msg   []byte
	sks   []*big.Int
	sigP  []ref.P
	pubP  []ref.P
	sigB  [][]byte
	pubB  [][]byte
	real  bool
	nodes []*c05node
	memo  map[string][2]ref.P
	net   *Net
}

// sum is the expected aggregate of a vector of multiplicities.
func (x *c05) sum(v []int) (ref.P, ref.P) {
	key := fmt.Sprint(v)
	if m, ok := x.memo[key]; ok {
		return m[0], m[1]
	}
	a, b := ref.Zero, ref.Zero
	for i, n := range v {
		if n != 0 {
			a = a.Add(x.sigP[i].Mul(big.NewInt(int64(n))))
			b = b.Add(x.pubP[i].Mul(big.NewInt(int64(n))))
		}
	}
	x.memo[key] = [2]ref.P{a, b}
	return a, b
}

func (x *c05) check(n *c05node, it *c05item, what string) {
	s, p := x.sum(it.vec)
	sc := n.sc
	if e, w := x.r.SafeEnc(sc.L, sc.SG, it.sg), sc.SGr.Enc(s); !bytes.Equal(e, w) {
		x.r.Fail("sum:Signature", "node %d (%s): %s holding contributions %v is %s instead of %s", n.id, sc, what, it.vec, short(e), short(w))
	}
	if e, w := x.r.SafeEnc(sc.L, sc.PK, it.pk), sc.PG.Enc(p); !bytes.Equal(e, w) {
		x.r.Fail("sum:PublicKey", "node %d (%s): %s holding keys %v is %s instead of %s", n.id, sc, what, it.vec, short(e), short(w))
	}
	x.r.Stat("aggregates compared with the model", 2)
}

// bytesOf serializes an item and checks the bytes.
func (x *c05) bytesOf(n *c05node, it *c05item) ([]byte, []byte) {
	s, p := x.sum(it.vec)
	sb, pb := n.sc.SigBytes(it.sg), n.sc.PubBytes(it.pk)
	if w := n.sc.SGr.Compress(s); !bytes.Equal(sb, w) {
		x.r.Fail("bytes:Signature", "node %d (%s): the aggregate of %v serializes to %x instead of %x", n.id, n.sc, it.vec, sb, w)
	}
	if w := n.sc.PG.Compress(p); !bytes.Equal(pb, w) {
		x.r.Fail("bytes:PublicKey", "node %d (%s): the aggregate key of %v serializes to %x instead of %x", n.id, n.sc, it.vec, pb, w)
	}
	return sb, pb
}

// restore decodes the bytes of an aggregate.
func (x *c05) restore(n *c05node, v []int, sb, pb []byte) *c05item {
	sg, ok := n.sc.DecSig(sb)
	if !ok {
		x.r.Fail("refused:Signature", "node %d (%s): the serialized aggregate of %v, %x, is refused", n.id, n.sc, v, sb)
	}
	pk, ok := n.sc.DecPub(pb)
	if !ok {
		x.r.Fail("refused:PublicKey", "node %d (%s): the serialized aggregate key of %v, %x, is refused", n.id, n.sc, v, pb)
	}
	it := &c05item{append([]int{}, v...), sg, pk}
	x.check(n, it, "a restored aggregate")
	return it
}

func addVec(a, b []int) []int {
	out := make([]int, len(a))
	for i := range a {
		out[i] = a[i] + b[i]
	}
	return out
}

// listLens are lengths at which block-wise work goes wrong.
var listLens = []int{7, 8, 9, 15, 16, 17, 18, 31, 32, 33, 34, 48, 63, 64, 65, 66, 100, 127, 128, 129}

// hugeLens are lengths at which counters of a byte, and tables, overflow.
var hugeLens = []int{130, 200, 254, 255, 256, 257, 258, 300, 320, 511, 512, 513, 600, 1023, 1024, 1025, 1100}

func (x *c05) big(v []int) bool {
	for _, n := range v {
		if n > 30 || n < -30 {
			return true
		}
	}
	return false
}

// combine makes one aggregate out of several.
func (x *c05) combine(s *tape.Stream, n *c05node, in []*c05item) *c05item {
	sc := n.sc
	vec := make([]int, x.k)
	for _, i := range in {
		vec = addVec(vec, i.vec)
	}
	out := &c05item{vec: vec}
	how := ""
	snap := map[*c05item][2][]byte{}
	for _, i := range in {
		if _, ok := snap[i]; !ok {
			snap[i] = [2][]byte{x.r.SafeEnc(sc.L, sc.SG, i.sg), x.r.SafeEnc(sc.L, sc.PK, i.pk)}
		}
	}
	switch s.N(3) {
	case 0: // all at once
		how = "AggregateSignatures"
		var a, b []interface{}
		for _, i := range in {
			a, b = append(a, i.sg), append(b, i.pk)
		}
		out.sg, out.pk = sc.AggSigs(a), sc.AggPubs(b)
	case 1: // into a blank aggregate
		how = "Aggregate into a blank one"
		out.sg, out.pk = sc.one("NewAggregateSignature"), sc.one("NewAggregatePubkey")
		for _, i := range in {
			sc.Do("Signature.Aggregate", out.sg, i.sg)
			sc.Do("PublicKey.Aggregate", out.pk, i.pk)
		}
	default: // into a copy of the first
		how = "Aggregate into a copy"
		if len(in) == 0 {
			out.sg, out.pk = sc.one("NewAggregateSignature"), sc.one("NewAggregatePubkey")
			break
		}
		out.sg, out.pk = sc.one("Signature.Copy", in[0].sg), sc.one("PublicKey.Copy", in[0].pk)
		for _, i := range in[1:] {
			sc.Do("Signature.Aggregate", out.sg, i.sg)
			sc.Do("PublicKey.Aggregate", out.pk, i.pk)
		}
	}
	x.check(n, out, how)
	done := map[*c05item]bool{}
	for _, i := range in {
		if done[i] {
			continue
		}
		done[i] = true
		if !bytes.Equal(snap[i][0], x.r.SafeEnc(sc.L, sc.SG, i.sg)) || !bytes.Equal(snap[i][1], x.r.SafeEnc(sc.L, sc.PK, i.pk)) {
			x.r.Fail("changed:contribution", "node %d (%s): aggregating changed a contribution %v", n.id, sc, i.vec)
		}
		x.check(n, i, "a contribution after aggregation")
	}
	x.r.Shape(how + fmt.Sprint(len(in)))
	return out
}

// accumulate adds to an aggregate in place.
func (x *c05) accumulate(n *c05node, it, add *c05item) {
	sc := n.sc
	it.vec = addVec(it.vec, add.vec) // also when it is add
	sc.Do("Signature.Aggregate", it.sg, add.sg)
	sc.Do("PublicKey.Aggregate", it.pk, add.pk)
	x.check(n, it, "an aggregate")
	if it != add {
		x.check(n, add, "a contribution after aggregation")
	}
	x.r.Shape("acc")
}

func (x *c05) keep(s *tape.Stream, n *c05node, it *c05item) {
	if x.big(it.vec) {
		return
	}
	if len(n.items) >= 8 {
		n.items[s.N(len(n.items))] = it
		return
	}
	n.items = append(n.items, it)
}

func vecKey(v []int) string { return fmt.Sprint(v) }

// C05 gossips contributions and partial aggregates.
func C05(r *sim.Run) {
	c := r.S("cfg")
	if enduring(r, r.S("long")) {
		endure05(r, c)
		return
	}
	x := &c05{r: r, k: 2 + c.N(5), real: c.P(60), memo: map[string][2]ref.P{}}
	which := 1 + c.N(2)
	nn := 2 + c.N(3)
	level := []int{0, 10, 30, 50}[c.N(4)]
	x.net = newNet(r, r.S("net"), level)
	for i := 0; i < nn; i++ {
		lib := r.Lib
		if c.P(15) {
			lib = r.Port
		}
		x.nodes = append(x.nodes, &c05node{id: i, sc: NewScheme(r, lib, which), have: make([]bool, x.k), one: make([]*c05item, x.k)})
	}
	sc := x.nodes[0].sc
	// the contributions
	x.msg = message(c, 1)
	if len(x.msg) > 300 {
		x.msg = x.msg[:300]
	}
	for i := 0; i < x.k; i++ {
		var sg, pk ref.P
		if x.real {
			v := frNum(c)
			if i > 0 {
				j := c.N(i)
				switch c.N(8) {
				case 0:
					v = new(big.Int).Set(x.sks[j])
				case 1:
					v = new(big.Int).Sub(ref.R, x.sks[j])
				case 2:
					v = new(big.Int).Mod(new(big.Int).Lsh(x.sks[j], 1), ref.R)
				case 3: // cancels everything before
					v = new(big.Int)
					for _, y := range x.sks {
						v.Sub(v, y)
					}
					v.Mod(v, ref.R)
				}
			}
			v.Mod(v, ref.R)
			x.sks = append(x.sks, v)
			n := x.nodes[c.N(nn)]
			sk := n.sc.Key(fill(v, 32))
			pk, sg = n.sc.PubPoint(n.sc.Pub(sk)), n.sc.SigPoint(n.sc.Sign(x.msg, sk))
		} else {
			sg = sc.SGr.FromEnc(point(c, sc.SGr, 0).Enc)
			pk = sc.PG.FromEnc(point(c, sc.PG, 0).Enc)
			if i > 0 {
				j := c.N(i)
				switch c.N(6) {
				case 0:
					sg, pk = x.sigP[j], x.pubP[j]
				case 1:
					sg, pk = x.sigP[j].Neg(), x.pubP[j].Neg()
				case 2:
					sg, pk = x.sigP[j].Add(x.sigP[j]), x.pubP[j]
				}
			}
		}
		x.sigP, x.pubP = append(x.sigP, sg), append(x.pubP, pk)
		x.sigB, x.pubB = append(x.sigB, sc.SGr.Compress(sg)), append(x.pubB, sc.PG.Compress(pk))
	}
	r.Ev("%d contributions (real=%v) to %s on %d nodes, fault level %d", x.k, x.real, sc.P, nn, level)
	unit := func(i, m int) []int {
		v := make([]int, x.k)
		v[i] = m
		return v
	}
	// every contribution starts at one node
	for i := 0; i < x.k; i++ {
		n := x.nodes[c.N(nn)]
		n.one[i] = x.restore(n, unit(i, 1), x.sigB[i], x.pubB[i])
		n.have[i] = true
		n.items = append(n.items, n.one[i])
	}
	receive := func(n *c05node, f *frame) {
		m := f.body.(c05msg)
		it := x.restore(n, m.vec, f.b[0], f.b[1])
		if m.hand || vecKey(m.vec) == vecKey(unit(m.id, 1)) {
			n.have[m.id], n.one[m.id] = true, it
		}
		x.keep(r.S("keep/%d", n.id), n, it)
		r.Ev("t=%d node %d receives %v from %d", x.net.now, n.id, m.vec, f.from)
	}
	steps := 20 + c.N(60)
	if r.Tier == "thorough" {
		steps *= 2
	}
	for i := 0; i < steps; i++ {
		s := r.S("step/%03d", i)
		for _, f := range x.net.Tick() {
			n := x.nodes[f.to]
			if n.down > 0 {
				r.Fault("frame to a crashed node")
				continue
			}
			receive(n, f)
		}
		n := x.nodes[s.N(nn)]
		if n.down > 0 {
			n.down--
			if n.down == 0 {
				n.items, n.one, n.have = nil, make([]*c05item, x.k), make([]bool, x.k)
				for _, d := range n.disk {
					v := d[0].([]int)
					it := x.restore(n, v, d[1].([]byte), d[2].([]byte))
					n.items = append(n.items, it)
					for k := 0; k < x.k; k++ {
						if vecKey(v) == vecKey(unit(k, 1)) {
							n.one[k], n.have[k] = it, true
						}
					}
				}
				r.Ev("t=%d node %d restarts with %d aggregates", x.net.now, n.id, len(n.items))
			}
			continue
		}
		switch s.W(8, 7, 8, 3, 3, 2, 2, 2) {
		case 0: // combine some
			if len(n.items) == 0 {
				continue
			}
			var in []*c05item
			k := s.N(5)
			if s.P(12) { // a long list
				k = listLens[s.N(len(listLens))] - 1
				if s.P(25) {
					k = hugeLens[s.N(len(hugeLens))] - 1
				}
				r.Stat("long lists aggregated", 1)
			}
			for ; k >= 0; k-- {
				in = append(in, n.items[s.N(len(n.items))])
			}
			it := x.combine(s, n, in)
			r.Ev("t=%d node %d combines %d aggregates to %v", x.net.now, n.id, len(in), it.vec)
			x.keep(s, n, it)
		case 1: // in place; contributions as received stay as they are
			if len(n.items) == 0 {
				continue
			}
			it, ad := n.items[s.N(len(n.items))], n.items[s.N(len(n.items))]
			own := false
			for _, o := range n.one {
				own = own || o == it
			}
			if own || x.big(addVec(it.vec, ad.vec)) {
				continue
			}
			x.accumulate(n, it, ad)
			r.Ev("t=%d node %d adds in place: %v", x.net.now, n.id, it.vec)
		case 2: // gossip
			if len(n.items) == 0 {
				continue
			}
			it := n.items[s.N(len(n.items))]
			sb, pb := x.bytesOf(n, it)
			to := s.N(nn)
			if to == n.id {
				to = (to + 1) % nn
			}
			x.net.Send(n.id, to, c05msg{vec: append([]int{}, it.vec...)}, sb, pb)
		case 3: // write to disk
			n.disk = nil
			for _, it := range n.items {
				sb, pb := x.bytesOf(n, it)
				n.disk = append(n.disk, [3]interface{}{append([]int{}, it.vec...), sb, pb})
			}
			r.Ev("t=%d node %d saves %d aggregates", x.net.now, n.id, len(n.disk))
		case 4:
			n.down = 1 + s.N(3)
			r.Fault("crash and restart")
			r.Ev("t=%d node %d crashes", x.net.now, n.id)
		case 5:
			x.net.Split(nn)
		case 6:
			x.net.Heal()
		case 7: // the inverse of an aggregate, or the identity
			if len(n.items) == 0 {
				continue
			}
			if s.P(30) {
				it := x.combine(s, n, nil)
				x.keep(s, n, it)
				r.Ev("t=%d node %d makes a blank aggregate", x.net.now, n.id)
				continue
			}
			o := n.items[s.N(len(n.items))]
			v := make([]int, x.k)
			for k := range v {
				v[k] = -o.vec[k]
			}
			a, b := x.sum(v)
			it := &c05item{v, n.sc.MakeSig(a), n.sc.MakePub(b)}
			x.check(n, it, "an inverse")
			if s.P(60) {
				z := x.combine(s, n, []*c05item{o, it})
				if s.P(50) {
					x.keep(s, n, z)
				}
				r.Ev("t=%d node %d cancels %v", x.net.now, n.id, o.vec)
			}
			x.keep(s, n, it)
		}
		r.State(len(n.items), n.down > 0, level)
	}
	// faults stop: every node gets every contribution
	x.net.quiet = true
	x.net.Heal()
	for _, n := range x.nodes {
		if n.down > 0 {
			n.down = 0
			n.items, n.one, n.have = nil, make([]*c05item, x.k), make([]bool, x.k)
			for _, d := range n.disk {
				n.items = append(n.items, x.restore(n, d[0].([]int), d[1].([]byte), d[2].([]byte)))
			}
		}
	}
	for _, f := range x.net.q {
		receive(x.nodes[f.to], f)
	}
	x.net.q = nil
	for i := 0; i < x.k; i++ {
		for _, n := range x.nodes {
			if !n.have[i] { // its originator retransmits
				x.net.Send((n.id+1)%nn, n.id, c05msg{vec: unit(i, 1), hand: true, id: i}, x.sigB[i], x.pubB[i])
			}
		}
	}
	for t := 0; t < 3; t++ {
		for _, f := range x.net.Tick() {
			receive(x.nodes[f.to], f)
		}
	}
	target := make([]int, x.k)
	e := r.S("target")
	for i := range target {
		target[i] = []int{1, 1, 1, 2, 3, 0}[e.N(6)]
	}
	var first *c05item
	var firstNode *c05node
	var refS, refP []byte
	for _, n := range x.nodes {
		for i := range n.have {
			if !n.have[i] {
				r.Fail("liveness", "node %d does not hold contribution %d although faults have stopped", n.id, i)
			}
		}
		s := r.S("final/%d", n.id)
		left := append([]int{}, target...)
		var parts []*c05item
		for _, k := range s.Perm(len(n.items)) {
			it := n.items[k]
			fits := true
			for i := range left {
				if it.vec[i] > left[i] || it.vec[i] < 0 {
					fits = false
				}
			}
			if fits && s.P(70) {
				parts = append(parts, it)
				for i := range left {
					left[i] -= it.vec[i]
				}
			}
		}
		for i := range left {
			for ; left[i] > 0; left[i]-- {
				parts = append(parts, n.one[i])
			}
		}
		var in []*c05item
		for _, k := range s.Perm(len(parts)) {
			in = append(in, parts[k])
		}
		for len(in) > 2 && s.P(60) { // group some first
			k := 1 + s.N(len(in)-1)
			g := x.combine(s, n, in[:k])
			in = append([]*c05item{g}, in[k:]...)
		}
		it := x.combine(s, n, in)
		sb, pb := x.bytesOf(n, it)
		r.Ev("node %d aggregates %v from %d parts", n.id, target, len(parts))
		if first == nil {
			first, firstNode, refS, refP = it, n, sb, pb
		} else {
			if !bytes.Equal(sb, refS) || !bytes.Equal(pb, refP) {
				r.Fail("diverged", "node %d and node %d hold different bytes for the aggregate %v", firstNode.id, n.id, target)
			}
		}
		// equality on this node against the other's bytes
		sg2, _ := n.sc.DecSig(refS)
		pk2, _ := n.sc.DecPub(refP)
		if !n.sc.yes("PublicKey.Equals", it.pk, pk2) || !n.sc.yes("PublicKey.Equals", pk2, it.pk) {
			r.Fail("equal:PublicKey", "node %d (%s): equal aggregate keys of %v do not compare equal", n.id, n.sc, target)
		}
		eqn := "G1Projective.Equal"
		if n.sc.SGr == ref.G2 {
			eqn = "G2Projective.Equals"
		}
		eq := r.Call(n.sc.L.Op(eqn), []interface{}{n.sc.one("Signature.GetPoint", it.sg), n.sc.one("Signature.GetPoint", sg2)}, 100000000)
		if eq.Panic != "" || string(n.sc.L.Enc(core.Bool, eq.Outs[0])) != "true" {
			r.Fail("equal:Signature", "node %d (%s): equal aggregates of %v do not compare equal", n.id, n.sc, target)
		}
		// a different aggregate must not compare equal
		more := x.combine(s, n, []*c05item{it, n.one[s.N(x.k)]})
		ms, mp := x.sum(more.vec)
		ts, tp := x.sum(target)
		type other struct {
			what   string
			sg, pk interface{}
			a, b   ref.P
		}
		os := []other{{fmt.Sprint(more.vec), more.sg, more.pk, ms, mp}}
		if s.P(50) { // the inverse, or something unrelated, in affine form
			os = append(os, other{"its inverse", n.sc.MakeSig(ts.Neg()), n.sc.MakePub(tp.Neg()), ts.Neg(), tp.Neg()})
		} else {
			os = append(os, other{"nothing", n.sc.one("NewAggregateSignature"), n.sc.one("NewAggregatePubkey"), ref.Zero, ref.Zero})
		}
		for _, o := range os {
			for _, pk := range []interface{}{it.pk, pk2} {
				if e := tp.Eq(o.b); n.sc.yes("PublicKey.Equals", pk, o.pk) != e || n.sc.yes("PublicKey.Equals", o.pk, pk) != e {
					r.Fail("equal:PublicKey", "node %d (%s): comparing the aggregate keys of %v and %s does not give %v", n.id, n.sc, target, o.what, e)
				}
			}
			for _, sg := range []interface{}{it.sg, sg2} {
				u, v := n.sc.one("Signature.GetPoint", sg), n.sc.one("Signature.GetPoint", o.sg)
				if s.P(50) {
					u, v = v, u
				}
				eq := r.Call(n.sc.L.Op(eqn), []interface{}{u, v}, 100000000)
				if e := ts.Eq(o.a); eq.Panic != "" || string(n.sc.L.Enc(core.Bool, eq.Outs[0])) != fmt.Sprint(e) {
					r.Fail("equal:Signature", "node %d (%s): comparing the aggregates of %v and %s does not give %v", n.id, n.sc, target, o.what, e)
				}
			}
		}
		r.Stat("final aggregates compared", 1)
		if x.real && (n.id == 0 || s.P(30)) {
			var pks []interface{}
			for i, m := range target {
				for ; m > 0; m-- {
					pks = append(pks, n.one[i].pk)
				}
			}
			if !n.sc.VerifyCommon(it.sg, pks, x.msg) {
				r.Fail("verify", "node %d (%s): the aggregate %v of honest signatures does not verify", n.id, n.sc, target)
			}
			if n.id == 0 && !n.sc.Verify(x.msg, it.pk, it.sg) {
				r.Fail("verify", "node %d (%s): the aggregate %v does not verify against the aggregate key", n.id, n.sc, target)
			}
			r.Stat("aggregates verified", 1)
		}
	}
}
