package props

import (
	"bytes"
	"fmt"
	"math/big"

	"verifsim/core"
	"verifsim/ref"
	"verifsim/sim"
	"verifsim/tape"
)

// Long histories of one kind of work with ever new values. What a process
// remembers of earlier values (tables that fill up, entries that are replaced,
// counters that wrap) shows only after very many of them.

// enduring decides whether a run is of this kind: now and then, and more
// often where operations are seen to touch shared state.
func enduring(r *sim.Run, c *tape.Stream) bool {
	p := 1
	if len(r.Focus()) > 0 {
		p = 22
	}
	return !r.Race && c.P(p)
}

// length draws how many values a run uses; a value costs some microseconds.
func length(r *sim.Run, c *tape.Stream, cost int) int {
	most := 8000000
	if len(r.Focus()) == 0 {
		most = 1500000
	}
	sizes := []int{40, 70, 140, 270, 530, 1050, 2100, 4200}
	for len(sizes) > 2 && sizes[len(sizes)-1]*cost > most {
		sizes = sizes[:len(sizes)-1]
	}
	return sizes[len(sizes)-1-c.N(len(sizes))/2] - c.N(8)
}

// endure04 decodes and encodes very many values of one or two formats.
func endure04(r *sim.Run, c *tape.Stream) {
	sc := NewScheme(r, r.Lib, 1+c.N(2))
	w := newWalk(r.S("walk"), 0)
	s := r.S("endure")
	type format struct {
		name string
		g    ref.Group // 0: a secret key
		dec  func(b []byte) (interface{}, bool)
		enc  func(v interface{}) []byte
	}
	raw := func(dn, en string, k core.Kind) (func(b []byte) (interface{}, bool), func(v interface{}) []byte) {
		call := func(n string, a interface{}) []interface{} {
			res := r.Call(r.Lib.Op(n), []interface{}{a}, 1000000000)
			if res.Panic != "" {
				r.Fail("panic:"+n, "%s panics: %s", n, res.Panic)
			}
			return res.Outs
		}
		return func(b []byte) (interface{}, bool) {
				o := call(dn, r.Lib.Dec(k, b))
				if o[0] == nil || o[1] != nil {
					return nil, false
				}
				return o[0], true
			}, func(v interface{}) []byte {
				return r.Lib.Enc(k, call(en, v)[0])
			}
	}
	d1, e1 := raw("bls.DecompressG1", "bls.CompressG1", core.B48)
	d2, e2 := raw("bls.DecompressG2", "bls.CompressG2", core.B96)
	all := []format{
		{sc.P + ".PublicKey", sc.PG, sc.DecPub, sc.PubBytes},
		{sc.P + ".Signature", sc.SGr, sc.DecSig, sc.SigBytes},
		{"G1", ref.G1, d1, e1}, {"G2", ref.G2, d2, e2},
		{sc.P + ".SecretKey", 0, func(b []byte) (interface{}, bool) { return sc.Key(b), true }, sc.KeyBytes},
	}
	var fs []format
	for i := 1 + c.N(2); i > 0; i-- {
		fs = append(fs, all[c.N(len(all))])
	}
	n := length(r, c, 3000)
	bad := []int{0, 20, 60}[c.N(3)]
	type rec struct {
		f  format
		b  []byte
		ok bool
		v  interface{}
	}
	var recs []rec
	r.Ev("%d different %s and %d more formats, %d%% outside the subgroup", n, fs[0].name, len(fs)-1, bad)
	r.Shape(fmt.Sprint("endure", fs[0].name, n, bad))
	try := func(k *rec, when string) {
		v, ok := k.f.dec(k.b)
		r.Stat("encodings decoded in long histories", 1)
		if ok != k.ok {
			if k.ok {
				r.Fail("refused:"+k.f.name, "%s refuses the valid encoding %x %s", k.f.name, k.b, when)
			}
			r.Fail("accepted:"+k.f.name, "%s accepts %x %s, no point of the subgroup", k.f.name, k.b, when)
		}
		if !ok {
			return
		}
		if k.v == nil {
			k.v = v
		}
		for _, x := range []interface{}{v, k.v} {
			if got := k.f.enc(x); !bytes.Equal(got, k.b) {
				r.Fail("restored:"+k.f.name, "%s restored from %x serializes to %x %s", k.f.name, k.b, got, when)
			}
		}
	}
	for i := 0; i < n; i++ {
		f := fs[i%len(fs)]
		k := rec{f: f, ok: true}
		if f.g == 0 {
			k.b = fill(new(big.Int).Add(big.NewInt(1), new(big.Int).Mod(new(big.Int).SetBytes(s.Bytes(32)), new(big.Int).Sub(ref.R, big.NewInt(1)))), 32)
		} else {
			p := w.point(f.g)
			if s.P(bad) {
				p = p.Add(f.g.FromEnc(point(s, f.g, 100).Enc))
				k.ok = p.Inf || p.InSubgroup()
			}
			if s.P(50) {
				p = p.Neg()
			}
			k.b = f.g.Compress(p)
		}
		try(&k, fmt.Sprintf("after %d others", i))
		if len(recs) < 40 || s.P(10) {
			recs = append(recs, k)
		}
		if s.P(4) {
			try(&recs[s.N(len(recs))], fmt.Sprintf("again, after %d others", i))
		}
		if s.P(3) { // easy to mistake for one decoded before
			o := k
			if s.P(50) {
				o = recs[s.N(len(recs))]
			}
			b := lookalike(s, o.b, true)
			if b == nil {
				continue
			}
			l := rec{f: o.f, b: b, ok: true}
			if l.f.g == 0 {
				v := new(big.Int).SetBytes(b)
				if v.Sign() == 0 || v.Cmp(ref.R) >= 0 {
					continue
				}
			} else {
				p, err := l.f.g.DecompressUnchecked(b)
				l.ok = err == nil && (p.Inf || p.InSubgroup())
			}
			r.Fault("damage that keeps a checksum, a sum or a set of bytes")
			try(&l, fmt.Sprintf("like an earlier one, after %d others", i))
		}
	}
	for i := range recs {
		if i < 8 || i > len(recs)-8 || s.P(20) {
			try(&recs[i], fmt.Sprintf("again, after %d others", n))
		}
	}
	r.Stat("long histories", 1)
}

// endure05 adds up very many different contributions.
func endure05(r *sim.Run, c *tape.Stream) {
	sc := NewScheme(r, r.Lib, 1+c.N(2))
	w := newWalk(r.S("walk"), 0)
	s := r.S("endure")
	n := length(r, c, 2500)
	r.Ev("%d different contributions to %s", n, sc)
	r.Shape(fmt.Sprint("endure", sc.P, n))
	type item struct {
		sg, pk interface{}
		a, b   ref.P
	}
	check := func(it item, what string) {
		if e, x := r.SafeEnc(sc.L, sc.SG, it.sg), sc.SGr.Enc(it.a); !bytes.Equal(e, x) {
			r.Fail("sum:Signature", "%s: %s is %s instead of %s", sc, what, short(e), short(x))
		}
		if e, x := r.SafeEnc(sc.L, sc.PK, it.pk), sc.PG.Enc(it.b); !bytes.Equal(e, x) {
			r.Fail("sum:PublicKey", "%s: %s is %s instead of %s", sc, what, short(e), short(x))
		}
		r.Stat("aggregates compared with the model", 2)
	}
	sum := item{sc.one("NewAggregateSignature"), sc.one("NewAggregatePubkey"), ref.Zero, ref.Zero}
	var kept []item
	for i := 0; i < n; i++ {
		a, b := w.point(sc.SGr), w.point(sc.PG)
		it := item{sc.MakeSig(a), sc.MakePub(b), a, b}
		sc.Do("Signature.Aggregate", sum.sg, it.sg)
		sc.Do("PublicKey.Aggregate", sum.pk, it.pk)
		sum.a, sum.b = sum.a.Add(a), sum.b.Add(b)
		if i < 10 || s.P(10) {
			kept = append(kept, it)
		}
		if s.P(8) || i == n-1 {
			check(sum, fmt.Sprintf("the sum of %d contributions", i+1))
		}
		if s.P(25) { // some earlier ones together, as a list
			var sg, pk []interface{}
			l := item{a: ref.Zero, b: ref.Zero}
			for j := 1 + s.N(6); j > 0; j-- {
				k := kept[s.N(len(kept))]
				sg, pk = append(sg, k.sg), append(pk, k.pk)
				l.a, l.b = l.a.Add(k.a), l.b.Add(k.b)
			}
			l.sg, l.pk = sc.AggSigs(sg), sc.AggPubs(pk)
			check(l, fmt.Sprintf("a list of %d, after %d contributions,", len(sg), i+1))
			if s.P(30) {
				sb, pb := sc.SigBytes(l.sg), sc.PubBytes(l.pk)
				if !bytes.Equal(sb, sc.SGr.Compress(l.a)) || !bytes.Equal(pb, sc.PG.Compress(l.b)) {
					r.Fail("bytes:"+sc.P, "%s: a list of %d, after %d contributions, serializes to %x and %x", sc, len(sg), i+1, sb, pb)
				}
				if g, ok := sc.DecSig(sb); !ok || !bytes.Equal(r.SafeEnc(sc.L, sc.SG, g), sc.SGr.Enc(l.a)) {
					r.Fail("refused:"+sc.P, "%s: the aggregate serialized to %x is not restored", sc, sb)
				}
				if g, ok := sc.DecPub(pb); !ok || !bytes.Equal(r.SafeEnc(sc.L, sc.PK, g), sc.PG.Enc(l.b)) {
					r.Fail("refused:"+sc.P, "%s: the aggregate key serialized to %x is not restored", sc, pb)
				}
			}
		}
	}
	for _, k := range kept {
		check(k, "a contribution after aggregation")
	}
	r.Stat("long histories", 1)
}

// endure06 decides very many claims.
func (x *c06) endure(c *tape.Stream, v *verifier) {
	r := x.r
	w := newWalk(r.S("walk"), 0)
	s := r.S("endure")
	wrong := []int{5, 30, 60}[c.N(3)]
	kinds := []int{cSingle, cCommon, cMulti}
	if x.sc.Has("SignWithDomain") {
		kinds = append(kinds, cSingleD, cCommonD, cMultiD)
	}
	kind := kinds[c.N(len(kinds))]
	cost := 7500
	if kind%3 == cMulti {
		cost = 16000
	}
	n := length(r, c, cost)
	keys := c.N(2)
	r.Ev("%d claims of %s, %d%% of them false", n, claimNames[kind], wrong)
	r.Shape(fmt.Sprint("endure", x.sc.P, kind, n, wrong))
	var old []*claim
	decide := func(q *claim, when string) {
		ok, how := v.verify(q)
		want, why := x.truth(q)
		r.Stat("claims decided", 1)
		r.State("endure", q.kind, q.note, how)
		if want && !ok {
			r.Fail("rejected:"+claimNames[q.kind], "%s %s %s although the signature is exactly right: %s", v.sc, how, when, q.show())
		}
		if !want && ok {
			r.Fail("accepted:"+claimNames[q.kind], "%s accepts %s although: %s: %s", v.sc, when, why, q.show())
		}
	}
	for i := 0; i < n; i++ {
		m := w.value(core.Msg)
		var dom []byte
		if kind >= cSingleD {
			b := make([]byte, 32)
			copy(b, s.Bytes(1+s.N(32)))
			b[31], b[30] = byte(i), byte(i>>8)
			m = b
			dom = x.doms[s.N(len(x.doms))]
		}
		k := s.N(len(x.m))
		if keys == 1 && s.P(50) { // a new signer
			d := big.NewInt(int64(1000 + i))
			nm := &member{x: d, sk: x.sc.Key(fill(d, 32))}
			nm.pk = x.sc.Pub(nm.sk)
			nm.pkb = x.sc.PubBytes(nm.pk)
			x.m = append(x.m, nm)
			x.know(nm.pkb, d)
			k = len(x.m) - 1
		}
		sg := x.sign(k, m, dom)
		q := &claim{n: i, kind: kind, dom: dom, msgs: [][]byte{m}, pks: [][]byte{x.m[k].pkb}, sig: sg.b, note: "honest"}
		if kind%3 != cSingle && s.P(40) {
			j := s.N(len(x.m))
			m2 := m
			if kind%3 == cMulti {
				m2 = append([]byte{}, m...)
				m2[0] ^= 0x55
				q.msgs = append(q.msgs, m2)
			}
			q.pks = append(q.pks, x.m[j].pkb)
			q.sig = x.sc.SigBytes(x.sc.AggSigs([]interface{}{sg.v, x.sign(j, m2, dom).v}))
		}
		if s.P(wrong) && len(old) > 0 {
			o := old[s.N(len(old))]
			f := *q
			switch s.N(5) {
			case 4:
				if kind == cMulti && len(q.msgs) > 1 {
					ab := append(append([]byte{}, q.msgs[0]...), q.msgs[1]...)
					k := s.N(len(ab) + 1)
					f.msgs, f.note = append([][]byte{ab[:k:k], ab[k:]}, q.msgs[2:]...), "messages divided otherwise"
					break
				}
				fallthrough
			case 0:
				f.sig, f.note = o.sig, "signature of an earlier claim"
			case 1:
				f.msgs, f.note = append([][]byte{o.msgs[0]}, q.msgs[1:]...), "an earlier message"
			case 2:
				f.pks, f.note = append([][]byte{x.m[s.N(len(x.m))].pkb}, q.pks[1:]...), "another signer"
			case 3:
				b := append([]byte{}, q.msgs[0]...)
				if l := lookalike(s, b, kind >= cSingleD); l != nil && s.P(60) {
					b = l
				} else {
					b[s.N(len(b))] ^= 1 << uint(s.N(8))
				}
				f.msgs, f.note = append([][]byte{b}, q.msgs[1:]...), "message altered"
			}
			if s.P(50) {
				decide(q, fmt.Sprintf("after %d others", i))
			}
			decide(&f, fmt.Sprintf("after %d others", i))
			if s.P(20) {
				old = append(old, &f)
			}
		} else {
			decide(q, fmt.Sprintf("after %d others", i))
		}
		if len(old) < 12 || s.P(12) {
			old = append(old, q)
		}
		if s.P(5) {
			decide(old[s.N(len(old))], fmt.Sprintf("again, after %d others", i))
		}
	}
	for i, q := range old {
		if i < 8 || i > len(old)-8 {
			decide(q, fmt.Sprintf("again, after %d others", n))
		}
	}
	r.Stat("long histories", 1)
}

// endure07 floods a node with hostile requests.
func (x *c07) endure(c *tape.Stream, which int, sc *Scheme) {
	r := x.r
	w := newWalk(r.S("walk"), 0)
	s := r.S("endure")
	x.setup(which, sc, c)
	n := length(r, c, 5000)
	kind := c.N(4)
	r.Ev("%s receives %d hostile frames", sc, n)
	r.Shape(fmt.Sprint("endure", sc.P, kind, n))
	torsion := map[ref.Group]ref.P{}
	for _, g := range []ref.Group{ref.G1, ref.G2} {
		torsion[g] = g.FromEnc(point(s, g, 100).Enc)
	}
	bytesOf := func(g ref.Group) []byte {
		p := w.point(g)
		switch {
		case kind == 1 || kind == 3 && s.P(30):
			p = p.Add(torsion[g])
		case kind == 2 || kind == 3 && s.P(30):
			b := s.Bytes(g.Size())
			b[0] = b[0]&0x3f | 0x80
			return b
		}
		return g.Compress(p)
	}
	for i := 0; i < n; i++ {
		sc.Limit = x.limit(2)
		pk, ok := sc.DecPub(bytesOf(sc.PG))
		sg, ok2 := sc.DecSig(bytesOf(sc.SGr))
		if ok && ok2 && s.P(12) {
			sc.Limit = x.limit(4)
			if sc.Verify(w.value(core.Msg), pk, sg) {
				r.Fail("accepted", "%s accepts a made-up signature", sc)
			}
			sc.VerifyCommon(sg, []interface{}{pk, pk}, w.value(core.Msg))
		}
		if ok && s.P(10) {
			sc.PubBytes(pk)
			sc.Do("PublicKey.String", pk)
		}
		r.Stat("hostile requests handled", 1)
		if s.P(2) {
			x.serve(which, sc, s, fmt.Sprintf("%d hostile frames", i+1))
		}
	}
	for k := 0; k < 3; k++ {
		x.serve(which, sc, s, fmt.Sprintf("%d hostile frames", n))
	}
	r.Stat("long histories", 1)
}

// endure03 draws very many times, with sources that repeat earlier contents
// now and then.
func endure03(r *sim.Run, c *tape.Stream) {
	s := r.S("endure")
	names := []string{"bls.RandFQ", "bls.RandFQ2", "bls.RandFQ6", "bls.RandFQ12", "bls.RandFR", "bls.RandG1", "bls.RandG2", "g1pubs.RandKey", "g2pubs.RandKey"}
	op := r.Lib.Op(names[c.N(len(names))])
	if op == nil {
		return
	}
	n := length(r, c, 200+op.Cost)
	shared := c.P(30) // one long source
	r.Ev("%d draws by %s", n, op.Name)
	r.Shape(fmt.Sprint("endure", op.Name, n, shared))
	type rec struct {
		seed uint64
		key  string
		n    int
	}
	draw := func(seed uint64, rd *simReader) rec {
		if rd == nil {
			rd = &simReader{r: r, s: s, cnt: map[string]int{}, src: specSrc(seed, nil)}
			rd.chunk = []int{0, 0, 1, 20, 100}[s.N(5)]
			rd.zeros, rd.most = []int{0, 0, 30}[s.N(3)], 5
			rd.kind = s.N(len(sourceTypes))
		}
		from := rd.pos
		out, _ := perform(r, r.Lib, op, []*argument{{k: core.Rd, v: rd.typed()}}, 400000000)
		r.Stat("draws in long histories", 1)
		return rec{seed, out.key(), rd.pos - from}
	}
	again := func(k rec, i int) {
		if got := draw(k.seed, nil); got.key != k.key || got.n != k.n {
			r.Fail("value:"+op.Name, "%s on the same bytes gave %s (%d bytes used) and after %d more draws gives %s (%d)", op.Name, cutb(k.key), k.n, i, cutb(got.key), got.n)
		}
	}
	var recs []rec
	var long *simReader
	if shared {
		long = &simReader{r: r, s: s, cnt: map[string]int{}, src: specSrc(s.U(), nil)}
	}
	last := ""
	for i := 0; i < n; i++ {
		if shared && i%8 != 7 {
			k := draw(0, long)
			if k.key == last {
				r.Fail("value:"+op.Name, "%s gives %s twice from a random source", op.Name, cutb(k.key))
			}
			last = k.key
			continue
		}
		k := draw(s.U(), nil)
		if len(recs) < 10 || s.P(10) {
			recs = append(recs, k)
		}
		if s.P(5) {
			again(recs[s.N(len(recs))], i)
		}
		if s.P(3) { // a failing one in between
			fr := &faultReader{src: newByteSrc(s.Bytes(8)), failAt: s.N(60), mode: 1 + s.N(3)}
			r.Call(op, []interface{}{fr}, 400000000)
			r.Fault("failing random source")
		}
	}
	for i, k := range recs {
		if i < 12 || i > len(recs)-6 {
			again(k, n)
		}
	}
	r.Stat("long histories", 1)
}
