package props

import (
	"bytes"
	"fmt"
	"math/big"

	"verifsim/core"
	"verifsim/ref"
	"verifsim/sim"
	"verifsim/tape"
)

// record formats kept by the nodes.
const (
	fSK1 = iota
	fPK1
	fSG1
	fSK2
	fPK2
	fSG2
	fG1
	fG2
	fFR
	fRaw1
	fRaw2
	nFormats
)

var fmtNames = []string{"g1pubs secret key", "g1pubs public key", "g1pubs signature", "g2pubs secret key", "g2pubs public key", "g2pubs signature", "compressed G1 point", "compressed G2 point", "scalar", "raw G1 point", "raw G2 point"}
var fmtSize = []int{32, 48, 96, 32, 96, 48, 48, 96, 32, 96, 192}

func fmtGroup(f int) ref.Group {
	switch f {
	case fPK1, fSG2, fG1, fRaw1:
		return ref.G1
	case fSG1, fPK2, fG2, fRaw2:
		return ref.G2
	}
	return 0
}

// truth is what the simulator knows about an original record.
type truth struct {
	f     int
	bytes []byte
	sk    []byte // the key behind it
	msg   []byte // the signed message
	pk    []byte // for signatures
	sig   []byte // for keys: their signature of msg
	n     int
}

type c04node struct {
	id   int
	lib  core.Lib
	sc   [3]*Scheme
	disk *Disk
	fm   []int // format of each slot
	full []bool
}

type c04 struct {
	r     *sim.Run
	s     *tape.Stream
	nodes []*c04node
	orig  map[string]*truth // by format and bytes
	order []*truth
	heavy int // remaining expensive comparisons
	cache map[string]refDec
}

type refDec struct {
	p   ref.P
	err error
	un  ref.P
	ue  error
}

func key(f int, b []byte) string { return string(rune('a'+f)) + string(b) }

func (x *c04) ref(g ref.Group, b []byte) refDec {
	k := fmt.Sprint(g) + string(b)
	if d, ok := x.cache[k]; ok {
		return d
	}
	var d refDec
	d.un, d.ue = g.DecompressUnchecked(b)
	d.p, d.err = d.un, d.ue
	if d.ue == nil && !d.un.InSubgroup() {
		d.err = ref.ErrSubgroup
	}
	x.cache[k] = d
	return d
}

func (x *c04) learn(t *truth) {
	if x.orig[key(t.f, t.bytes)] == nil {
		t.n = len(x.order)
		x.orig[key(t.f, t.bytes)] = t
		x.order = append(x.order, t)
	}
}

// C04 keeps encodings on faulty disks and links and checks every decoding.
func C04(r *sim.Run) {
	c := r.S("cfg")
	if enduring(r, r.S("long")) {
		endure04(r, c)
		return
	}
	x := &c04{r: r, s: c, orig: map[string]*truth{}, cache: map[string]refDec{}}
	x.heavy = 3 + c.N(6)
	if r.Tier == "thorough" {
		x.heavy *= 3
	}
	level := []int{0, 3, 10, 25}[c.N(4)]
	nn := 1 + c.N(3)
	slots := 3 + c.N(8)
	for i := 0; i < nn; i++ {
		n := &c04node{id: i, lib: r.Lib, fm: make([]int, slots), full: make([]bool, slots)}
		if c.P(25) {
			n.lib = r.Port
		}
		n.sc[1], n.sc[2] = NewScheme(r, n.lib, 1), NewScheme(r, n.lib, 2)
		n.disk = newDisk(r, r.S("disk/%d", i), slots, 192, level)
		for k := range n.fm {
			n.fm[k] = c.N(nFormats)
		}
		x.nodes = append(x.nodes, n)
	}
	steps := 12 + c.N(40)
	if r.Tier == "thorough" {
		steps *= 2
	}
	r.Ev("%d nodes with %d slots, fault level %d", nn, slots, level)
	for i := 0; i < steps; i++ {
		s := r.S("step/%03d", i)
		n := x.nodes[s.N(len(x.nodes))]
		slot := s.N(slots)
		r.Ticks++
		switch s.W(10, 2, 3, 8, 4, 8, 14) {
		case 0: // make and store
			n.fm[slot] = s.N(nFormats)
			t := x.create(s, n, n.fm[slot])
			if t == nil {
				continue
			}
			err := n.disk.Write(slot, t.bytes)
			if err != nil && s.P(50) {
				err = n.disk.Write(slot, t.bytes)
			}
			n.full[slot] = true
			r.Ev("node %d stores %s #%d in slot %d: %v", n.id, fmtNames[t.f], t.n, slot, err)
			if s.P(40) {
				n.disk.Sync()
			}
		case 1:
			n.disk.Sync()
			r.Ev("node %d syncs", n.id)
		case 2:
			n.disk.Crash()
			r.Ev("node %d crashes and restarts", n.id)
			for k := range n.fm {
				if n.full[k] {
					x.load(s, n, k)
				}
			}
		case 3:
			if n.full[slot] {
				x.load(s, n, slot)
			}
		case 4:
			if n.full[slot] {
				n.disk.Rot(slot, fmtSize[n.fm[slot]])
				r.Ev("node %d: slot %d (%s) is damaged on the medium", n.id, slot, fmtNames[n.fm[slot]])
				x.load(s, n, slot)
			}
		case 5: // send to another node, which decodes and stores
			if len(x.order) == 0 {
				continue
			}
			t := x.order[s.N(len(x.order))]
			b := t.bytes
			f := t.f
			if s.P(40) {
				o := x.order[s.N(len(x.order))]
				b = damage(r, s, b, o.bytes)
			}
			if s.P(8) { // taken for another format of the same size
				for k := 0; k < 4; k++ {
					if g := s.N(nFormats); fmtSize[g] == len(b) && g < fRaw1 {
						f = g
						r.Fault("record of another format")
						break
					}
				}
			}
			x.decode(s, n, f, b, "received")
		case 6:
			f := s.N(fRaw1)
			x.decode(s, n, f, x.forge(s, f), "forged")
		}
	}
	r.State(level, nn)
}

// create makes a fresh value on a node and records the truth about it.
func (x *c04) create(s *tape.Stream, n *c04node, f int) *truth {
	r := x.r
	if g := fmtGroup(f); f == fG1 || f == fG2 || f == fRaw1 || f == fRaw2 {
		p := point(s, g, 0)
		k, op := core.G1A, "bls.CompressG1"
		ek := core.B48
		if g == ref.G2 {
			k, op, ek = core.G2A, "bls.CompressG2", core.B96
		}
		v := n.lib.Dec(k, p.Enc)
		want := g.Compress(g.FromEnc(p.Enc))
		if f == fRaw1 || f == fRaw2 {
			op = "G1Affine.SerializeBytes"
			ek = core.B96
			if g == ref.G2 {
				op, ek = "G2Affine.SerializeBytes", core.B192
			}
			want = g.Raw(g.FromEnc(p.Enc))
		}
		res := r.Call(n.lib.Op(op), []interface{}{v}, 100000000)
		if res.Panic != "" {
			r.Fail("panic:"+op, "%s panics on %s: %s", op, p.N, res.Panic)
		}
		b := n.lib.Enc(ek, res.Outs[0])
		if !bytes.Equal(b, want) {
			r.Fail("encode:"+op, "%s/%s encodes point %s as %s, not %s", n.lib.Build(), op, short(p.Enc), short(b), short(want))
		}
		t := &truth{f: f, bytes: b}
		x.learn(t)
		return t
	}
	if f == fFR {
		b := fill(frNum(s), 32)
		fr := n.lib.Dec(core.FR, b)
		res := r.Call(n.lib.Op("FR.Bytes"), []interface{}{fr}, 100000000)
		if res.Panic != "" || !bytes.Equal(n.lib.Enc(core.B32, res.Outs[0]), b) {
			r.Fail("encode:FR.Bytes", "FR.Bytes of %s gives %s %s", short(b), res.Panic, short(n.lib.Enc(core.B32, res.Outs[0])))
		}
		t := &truth{f: f, bytes: b}
		x.learn(t)
		return t
	}
	sc := n.sc[1]
	base := fSK1
	if f >= fSK2 {
		sc = n.sc[2]
		base = fSK2
	}
	skb := fill(frNum(s), 32)
	if new(big.Int).SetBytes(skb).Sign() == 0 {
		skb[31] = 1
	}
	msg := message(s, 1)
	if len(msg) > 200 {
		msg = msg[:200]
	}
	sk := sc.Key(skb)
	pk := sc.Pub(sk)
	sg := sc.Sign(msg, sk)
	pb, sb, kb := sc.PubBytes(pk), sc.SigBytes(sg), sc.KeyBytes(sk)
	if !bytes.Equal(kb, skb) {
		r.Fail("encode:"+sc.P+".SecretKey.Serialize", "secret key %s serializes to %s", short(skb), short(kb))
	}
	if w := sc.PG.Compress(sc.PubPoint(pk)); !bytes.Equal(pb, w) {
		r.Fail("encode:"+sc.P+".PublicKey.Serialize", "public key serializes to %s, its point is %s", short(pb), short(w))
	}
	if w := sc.SGr.Compress(sc.SigPoint(sg)); !bytes.Equal(sb, w) {
		r.Fail("encode:"+sc.P+".Signature.Serialize", "signature serializes to %s, its point is %s", short(sb), short(w))
	}
	ts := []*truth{
		{f: base, bytes: skb, sk: skb, msg: msg, pk: pb, sig: sb},
		{f: base + 1, bytes: pb, sk: skb, msg: msg, pk: pb, sig: sb},
		{f: base + 2, bytes: sb, sk: skb, msg: msg, pk: pb, sig: sb},
	}
	for _, t := range ts {
		x.learn(t)
	}
	return ts[f-base]
}

// load reads a slot and decodes it.
func (x *c04) load(s *tape.Stream, n *c04node, slot int) {
	f := n.fm[slot]
	b, err := n.disk.Read(slot, fmtSize[f])
	if err != nil { // retry once
		b, err = n.disk.Read(slot, fmtSize[f])
		if err != nil {
			x.r.Ev("node %d cannot read slot %d", n.id, slot)
			return
		}
	}
	x.decode(s, n, f, b, fmt.Sprintf("loaded from slot %d", slot))
}

// forge makes hostile bytes of a format.
func (x *c04) forge(s *tape.Stream, f int) []byte {
	g := fmtGroup(f)
	if g == 0 {
		switch s.N(5) {
		case 0:
			return fill(new(big.Int).Add(ref.R, big.NewInt(int64(s.N(7)-3))), 32)
		case 1:
			return fill(limbs(s, 4), 32)
		case 2: // the same key plus the modulus
			if len(x.order) > 0 {
				t := x.order[s.N(len(x.order))]
				if len(t.bytes) == 32 {
					v := new(big.Int).Add(new(big.Int).SetBytes(t.bytes), ref.R)
					if v.BitLen() <= 256 {
						return fill(v, 32)
					}
				}
			}
			return fill(new(big.Int).Add(ref.R, frNum(s)).Mod(new(big.Int).Add(ref.R, frNum(s)), new(big.Int).Lsh(big.NewInt(1), 256)), 32)
		case 3:
			return fill(frNum(s), 32)
		}
		return s.Bytes(32)
	}
	p := point(s, g, 50)
	b := g.Compress(g.FromEnc(p.Enc))
	x.r.Fault("forged encoding")
	two381 := new(big.Int).Lsh(big.NewInt(1), 381)
	switch s.N(9) {
	case 0: // as it is: possibly outside the subgroup
		return b
	case 1:
		b[0] ^= byte(1+s.N(7)) << 5
		return b
	case 2: // infinity with something else
		b = make([]byte, g.Size())
		b[0] = []byte{0xc0, 0xe0, 0x40, 0xc1, 0xd0, 0x60, 0x80, 0xa0}[s.N(8)]
		if s.P(60) {
			b[s.N(len(b))] |= 1 << uint(s.N(8))
		}
		return b
	case 3: // a coordinate plus the modulus
		fl := b[0] & 0xe0
		b[0] &= 0x1f
		for i := 0; i < len(b); i += 48 {
			if len(b) == 96 && s.P(40) {
				continue
			}
			v := new(big.Int).Add(new(big.Int).SetBytes(b[i:i+48]), ref.Q)
			if i == 0 && v.Cmp(two381) >= 0 {
				continue
			}
			if v.BitLen() > 384 {
				continue
			}
			copy(b[i:], fill(v, 48))
		}
		b[0] = b[0]&0x1f | fl
		return b
	case 4: // any abscissa
		for i := 0; i < len(b); i += 48 {
			copy(b[i:], fill(fqNum(s), 48))
		}
		b[0] = b[0]&0x1f | 0x80 | byte(s.N(2))<<5
		return b
	case 5: // abscissa around the modulus
		for i := 0; i < len(b); i += 48 {
			if i > 0 && s.P(50) {
				continue
			}
			copy(b[i:], fill(new(big.Int).Add(ref.Q, big.NewInt(int64(s.N(9)-4))), 48))
		}
		b[0] = b[0]&0x1f | 0x80 | byte(s.N(2))<<5
		return b
	case 6: // halves exchanged or repeated
		if len(b) == 96 {
			fl := b[0] & 0xe0
			b[0] &= 0x1f
			b = append(append([]byte{}, b[48:]...), b[:48]...)
			b[0] = b[0]&0x1f | fl
			return b
		}
		b[0] ^= 0x20
		return b
	case 7:
		b = s.Bytes(g.Size())
		b[0] = b[0]&0x1f | 0x80 | byte(s.N(2))<<5
		return b
	}
	return damage(x.r, s, b, g.Compress(g.FromEnc(point(s, g, 50).Enc)))
}

// decode restores bytes on a node and checks the outcome.
func (x *c04) decode(s *tape.Stream, n *c04node, f int, b []byte, how string) {
	r := x.r
	r.Stat("decodings checked", 1)
	t := x.orig[key(f, b)]
	tn := "no original"
	if t != nil {
		tn = fmt.Sprintf("original #%d", t.n)
	}
	r.Shape(fmt.Sprintf("%d%v%d", f, t != nil, b[0]>>5))
	verdict := ""
	switch f {
	case fSK1, fSK2:
		verdict = x.decodeKey(s, n, f, b, t)
	case fFR:
		verdict = x.decodeScalar(n, b)
	case fRaw1, fRaw2:
		if t == nil {
			return
		}
		verdict = x.decodeRaw(s, n, f, b)
	case fG1, fG2:
		verdict = x.decodePoint(s, n, f, b)
	default:
		verdict = x.decodeObj(s, n, f, b, t)
	}
	r.Ev("node %d (%s): %s %s %s (%s): %s", n.id, n.lib.Build(), fmtNames[f], how, short(b), tn, verdict)
	r.State(f, how == "forged", t != nil, verdict)
}

func (x *c04) decodeKey(s *tape.Stream, n *c04node, f int, b []byte, t *truth) string {
	r := x.r
	sc := n.sc[1]
	if f == fSK2 {
		sc = n.sc[2]
	}
	op := n.lib.Op(sc.P + ".DeserializeSecretKey")
	v := new(big.Int).SetBytes(b)
	if v.Cmp(ref.R) >= 0 {
		// whatever it gives must not act as a key
		res := r.Call(op, []interface{}{n.lib.Dec(core.B32, b)}, 400000000)
		if res.Panic != "" || res.Outs[0] == nil {
			return "refused"
		}
		r.Tolerant = true
		defer func() { r.Tolerant = false }()
		sg := r.Call(n.lib.Op(sc.P+".Sign"), []interface{}{sc.Msg([]byte("m")), res.Outs[0]}, 400000000)
		if sg.Panic == "" && sg.Outs[0] != nil && string(r.SafeEnc(n.lib, sc.SG, sg.Outs[0])) != "<unreadable>" {
			r.Fail("key:"+sc.P, "%s: secret key bytes %x are not below the group order, but the key restored from them signs", sc, b)
		}
		pk := r.Call(n.lib.Op(sc.P+".PrivToPub"), []interface{}{res.Outs[0]}, 400000000)
		if pk.Panic == "" && pk.Outs[0] != nil && string(r.SafeEnc(n.lib, sc.PK, pk.Outs[0])) != "<unreadable>" {
			r.Fail("key:"+sc.P, "%s: secret key bytes %x are not below the group order, but the key restored from them has a public key", sc, b)
		}
		return "not a key"
	}
	sk := sc.Key(b)
	if sk == nil {
		r.Fail("refused:"+sc.P, "%s: secret key %x is refused", sc, b)
	}
	if k := sc.KeyBytes(sk); !bytes.Equal(k, b) {
		r.Fail("bytes:"+sc.P+".SecretKey", "%s: secret key restored from %x serializes to %x", sc, b, k)
	}
	if e := n.lib.Enc(sc.SK, sk); !bytes.Equal(e, b) {
		r.Fail("value:"+sc.P+".SecretKey", "%s: secret key restored from %x has value %x", sc, b, e)
	}
	if t != nil {
		if pb := sc.PubBytes(sc.Pub(sk)); !bytes.Equal(pb, t.pk) {
			r.Fail("behaviour:"+sc.P+".SecretKey", "%s: the restored secret key %x has public key %x, the original had %x", sc, b, pb, t.pk)
		}
		if sb := sc.SigBytes(sc.Sign(t.msg, sk)); !bytes.Equal(sb, t.sig) {
			r.Fail("behaviour:"+sc.P+".SecretKey", "%s: the restored secret key signs differently from the original", sc)
		}
		return "restored, behaves as the original"
	}
	if s.P(30) {
		pb := sc.PubBytes(sc.Pub(sk))
		if w := sc.PG.Compress(sc.PG.Gen().Mul(v)); !bytes.Equal(pb, w) {
			r.Fail("behaviour:"+sc.P+".SecretKey", "%s: secret key %x has public key %x instead of %x", sc, b, pb, w)
		}
	}
	return "restored"
}

func (x *c04) decodeScalar(n *c04node, b []byte) string {
	r := x.r
	lib := n.lib
	call := func(name string, args ...interface{}) []interface{} {
		res := r.Call(lib.Op(name), args, 100000000)
		if res.Panic != "" {
			r.Fail("panic:"+name, "%s panics on %x: %s", name, b, res.Panic)
		}
		return res.Outs
	}
	rp := call("bls.FRReprFromBytes", lib.Dec(core.B32, b))[0]
	if rp == nil || !bytes.Equal(lib.Enc(core.FRRepr, rp), b) {
		r.Fail("bytes:FRRepr", "FRReprFromBytes(%x).Bytes() = %x", b, r.SafeEnc(lib, core.FRRepr, rp))
	}
	fr := call("bls.FRReprToFR", rp)[0]
	if new(big.Int).SetBytes(b).Cmp(ref.R) >= 0 {
		if fr != nil {
			r.Fail("accepted:FR", "%s: scalar %x at or above the group order gives an element", lib.Build(), b)
		}
		return "refused"
	}
	if fr == nil {
		r.Fail("refused:FR", "%s: scalar %x is refused", lib.Build(), b)
	}
	if e := r.SafeEnc(lib, core.FR, fr); !bytes.Equal(e, b) {
		r.Fail("bytes:FR", "%s: scalar %x restores to %x", lib.Build(), b, e)
	}
	back := call("FR.ToRepr", fr)[0]
	back2 := call("FR.Bytes", fr)[0]
	if e := lib.Enc(core.B32, back2); !bytes.Equal(e, b) {
		r.Fail("bytes:FR", "%s: scalar %x has bytes %x", lib.Build(), b, e)
	}
	if e := r.SafeEnc(lib, core.FRRepr, back); !bytes.Equal(e, b) {
		r.Fail("bytes:FR", "%s: scalar %x converts back to %x", lib.Build(), b, e)
	}
	// changed in place and stored again
	call("FR.AddAssign", fr, lib.Dec(core.FR, fill(big.NewInt(1), 32)))
	sum := new(big.Int).Add(new(big.Int).SetBytes(b), big.NewInt(1))
	w := fill(sum.Mod(sum, ref.R), 32)
	if e := lib.Enc(core.B32, call("FR.Bytes", fr)[0]); !bytes.Equal(e, w) {
		r.Fail("bytes:FR", "%s: scalar %x plus one has bytes %x", lib.Build(), b, e)
	}
	return "restored"
}

func (x *c04) decodeRaw(s *tape.Stream, n *c04node, f int, b []byte) string {
	r := x.r
	lib := n.lib
	k, bk, nm := core.G1A, core.B96, "G1Affine"
	g := ref.G1
	if f == fRaw2 {
		k, bk, nm, g = core.G2A, core.B192, "G2Affine", ref.G2
	}
	v := lib.Dec(k, point(s, g, 0).Enc) // an element that held something else
	res := r.Call(lib.Op(nm+".SetRawBytes"), []interface{}{v, lib.Dec(bk, b)}, 100000000)
	if res.Panic != "" {
		r.Fail("panic:"+nm+".SetRawBytes", "%s.SetRawBytes panics on its own encoding: %s", nm, res.Panic)
	}
	for _, o := range res.Outs {
		if o != nil {
			r.Fail("refused:"+nm+".SetRawBytes", "%s.SetRawBytes refuses its own encoding %x: %s", nm, b, lib.Enc(core.Err, o))
		}
	}
	back := r.Call(lib.Op(nm+".SerializeBytes"), []interface{}{v}, 100000000)
	if back.Panic != "" || !bytes.Equal(lib.Enc(bk, back.Outs[0]), b) {
		r.Fail("bytes:"+nm+".SetRawBytes", "%s: %s restored from %x serializes differently", lib.Build(), nm, b)
	}
	// the canonical encoding distinguishes the identity from (0, 1)
	var want []byte
	for _, p := range pts[g] {
		if bytes.Equal(g.Raw(g.FromEnc(p.Enc)), b) {
			want = p.Enc
		}
	}
	if e := r.SafeEnc(lib, k, v); want != nil && !bytes.Equal(e, want) {
		r.Fail("value:"+nm+".SetRawBytes", "%s: %s restored from its raw bytes is %s instead of %s", lib.Build(), nm, short(e), short(want))
	}
	if want != nil {
		orig := lib.Dec(k, want)
		for _, pr := range [][2]interface{}{{v, orig}, {orig, v}} {
			eq := r.Call(lib.Op(nm+".Equals"), []interface{}{pr[0], pr[1]}, 100000000)
			if eq.Panic != "" || string(lib.Enc(core.Bool, eq.Outs[0])) != "true" {
				r.Fail("equal:"+nm+".SetRawBytes", "%s: %s restored from its raw bytes does not equal the original", lib.Build(), nm)
			}
		}
		x.mulCheck(s, n, g, v, want)
	}
	return "restored"
}

// mulCheck uses a restored affine point in further operations.
func (x *c04) mulCheck(s *tape.Stream, n *c04node, g ref.Group, v interface{}, enc []byte) {
	if !s.P(25) {
		return
	}
	r := x.r
	lib := n.lib
	nm, pk := "G1Affine", core.G1P
	if g == ref.G2 {
		nm, pk = "G2Affine", core.G2P
	}
	e := new(big.Int).SetInt64(int64(s.N(50)))
	op := lib.Op(nm + ".Mul")
	size := 32
	if op.Args[1].K == core.FQRepr {
		size = 48
	}
	res := r.Call(op, []interface{}{v, lib.Dec(op.Args[1].K, fill(e, size))}, 400000000)
	if res.Panic != "" {
		r.Fail("behaviour:"+nm, "%s.Mul of a restored point panics: %s", nm, res.Panic)
	}
	want := g.Enc(g.FromEnc(enc).Mul(e))
	if got := r.SafeEnc(lib, pk, res.Outs[0]); !bytes.Equal(got, want) {
		r.Fail("behaviour:"+nm, "%s: %d times the restored point %s is %s instead of %s", lib.Build(), e, short(enc), short(got), short(want))
	}
}

func (x *c04) decodePoint(s *tape.Stream, n *c04node, f int, b []byte) string {
	r := x.r
	lib := n.lib
	g, k, bk, nm := ref.G1, core.G1A, core.B48, "G1"
	if f == fG2 {
		g, k, bk, nm = ref.G2, core.G2A, core.B96, "G2"
	}
	rd := x.ref(g, b)
	verdict := ""
	for _, checked := range []bool{true, false} {
		name := "bls.Decompress" + nm
		want, werr := rd.p, rd.err
		if !checked {
			name += "Unchecked"
			want, werr = rd.un, rd.ue
		}
		res := r.Call(lib.Op(name), []interface{}{lib.Dec(bk, b)}, 400000000)
		if res.Panic != "" {
			r.Fail("panic:"+name, "%s/%s panics on %x: %s", lib.Build(), name, b, res.Panic)
		}
		acc := res.Outs[1] == nil && res.Outs[0] != nil
		if acc && werr != nil {
			r.Fail("accepted:"+name, "%s/%s accepts %x (%v)", lib.Build(), name, b, werr)
		}
		if !acc && werr == nil {
			r.Fail("refused:"+name, "%s/%s refuses %x, a valid encoding", lib.Build(), name, b)
		}
		if !acc {
			if res.Outs[1] == nil {
				r.Fail("refused:"+name, "%s/%s returns neither a point nor an error for %x", lib.Build(), name, b)
			}
			if checked {
				verdict = "refused: " + werr.Error()
			}
			continue
		}
		if checked {
			verdict = "accepted"
		}
		v := res.Outs[0]
		if e, w := r.SafeEnc(lib, k, v), g.Enc(want); !bytes.Equal(e, w) {
			r.Fail("value:"+name, "%s/%s decodes %x to %s instead of %s", lib.Build(), name, b, short(e), short(w))
		}
		cr := r.Call(lib.Op("bls.Compress"+nm), []interface{}{v}, 100000000)
		if cr.Panic != "" || !bytes.Equal(lib.Enc(bk, cr.Outs[0]), b) {
			r.Fail("bytes:"+name, "%s/%s: the point decoded from %x is encoded differently", lib.Build(), name, b)
		}
		x.mulCheck(s, n, g, v, g.Enc(want))
		if s.P(30) { // changed in place and stored again
			neg := r.Call(lib.Op(nm+"Affine.NegAssign"), []interface{}{v}, 100000000)
			cr := r.Call(lib.Op("bls.Compress"+nm), []interface{}{v}, 100000000)
			if w := g.Compress(want.Neg()); neg.Panic != "" || cr.Panic != "" || !bytes.Equal(lib.Enc(bk, cr.Outs[0]), w) {
				r.Fail("bytes:"+name, "%s: the point decoded from %x and negated is not encoded as %x", lib.Build(), b, w)
			}
			raw, rk, size := r.Call(lib.Op(nm+"Affine.SerializeBytes"), []interface{}{v}, 100000000), core.B96, 96
			if g == ref.G2 {
				rk, size = core.B192, 192
			}
			if w := g.Raw(want.Neg()); raw.Panic != "" || len(w) != size || !bytes.Equal(lib.Enc(rk, raw.Outs[0]), w) {
				r.Fail("bytes:"+nm+"Affine.SerializeBytes", "%s: the point decoded from %x and negated has raw bytes %s instead of %s", lib.Build(), b, short(lib.Enc(rk, raw.Outs[0])), short(w))
			}
		}
	}
	return verdict
}

func (x *c04) decodeObj(s *tape.Stream, n *c04node, f int, b []byte, t *truth) string {
	r := x.r
	sc := n.sc[1]
	if f >= fSK2 {
		sc = n.sc[2]
	}
	pub := f == fPK1 || f == fPK2
	g := fmtGroup(f)
	rd := x.ref(g, b)
	var v interface{}
	var ok bool
	name, k := sc.P+".DeserializeSignature", sc.SG
	if pub {
		name, k = sc.P+".DeserializePublicKey", sc.PK
		v, ok = sc.DecPub(b)
	} else {
		v, ok = sc.DecSig(b)
	}
	if ok && rd.err != nil {
		r.Fail("accepted:"+name, "%s/%s accepts %x (%v)", n.lib.Build(), name, b, rd.err)
	}
	if !ok && rd.err == nil {
		r.Fail("refused:"+name, "%s/%s refuses %x, a valid encoding", n.lib.Build(), name, b)
	}
	if !ok {
		return "refused: " + rd.err.Error()
	}
	if e, w := r.SafeEnc(n.lib, k, v), g.Enc(rd.p); !bytes.Equal(e, w) {
		r.Fail("value:"+name, "%s/%s decodes %x to %s instead of %s", n.lib.Build(), name, b, short(e), short(w))
	}
	ser := func(v interface{}) []byte {
		if pub {
			return sc.PubBytes(v)
		}
		return sc.SigBytes(v)
	}
	if e := ser(v); !bytes.Equal(e, b) {
		r.Fail("bytes:"+name, "%s: the value decoded from %x serializes to %x", sc, b, e)
	}
	// copies and sums of a restored value
	nm := "Signature"
	if pub {
		nm = "PublicKey"
	}
	cp := sc.one(nm+".Copy", v)
	if cp == nil {
		r.Fail("behaviour:"+name, "%s: no copy of the value decoded from %x", sc, b)
	}
	q := point(s, g, 0)
	if s.P(25) {
		q = &Point{Enc: g.Enc(rd.p)}
	}
	other := n.lib.Dec(k, q.Enc)
	sc.Do(nm+".Aggregate", cp, other)
	w := g.Enc(rd.p.Add(g.FromEnc(q.Enc)))
	if e := r.SafeEnc(n.lib, k, cp); !bytes.Equal(e, w) {
		r.Fail("behaviour:"+name, "%s: the value decoded from %x plus %s gives %s instead of %s", sc, b, short(q.Enc), short(e), short(w))
	}
	if e := r.SafeEnc(n.lib, k, v); !bytes.Equal(e, g.Enc(rd.p)) {
		r.Fail("behaviour:"+name, "%s: adding to a copy changed the value decoded from %x", sc, b)
	}
	if pub {
		if !sc.yes("PublicKey.Equals", v, sc.MakePub(rd.p)) {
			r.Fail("equal:"+name, "%s: the public key decoded from %x does not equal itself", sc, b)
		}
		if !rd.p.Inf && sc.yes("PublicKey.Equals", v, sc.MakePub(rd.p.Neg())) {
			r.Fail("equal:"+name, "%s: the public key decoded from %x equals its inverse", sc, b)
		}
	}
	if s.P(40) {
		x.live(s, sc, f, v, rd.p)
	}
	if t == nil {
		return "accepted"
	}
	if s.P(50) { // a fresh copy of what was stored
		if pub {
			v, ok = sc.DecPub(b)
		} else {
			v, ok = sc.DecSig(b)
		}
		if !ok {
			r.Fail("refused:"+name, "%s/%s refuses %x, which it accepted before", n.lib.Build(), name, b)
		}
	} else if e := r.SafeEnc(n.lib, k, v); !bytes.Equal(e, g.Enc(rd.p)) {
		return "restored and changed since"
	}
	if x.heavy > 0 {
		x.heavy--
		m := append([]byte{}, t.msg...)
		var good bool
		if pub {
			sg, ok := sc.DecSig(t.sig)
			good = ok && sc.Verify(m, v, sg)
		} else {
			pk, ok := sc.DecPub(t.pk)
			good = ok && sc.Verify(m, pk, v)
		}
		r.Stat("restored values used in a verification", 1)
		if !good {
			r.Fail("behaviour:"+name, "%s: a restored honest %s no longer verifies", sc, fmtNames[f])
		}
		return "restored, verifies"
	}
	return "restored"
}

// live changes a restored value in place and stores it again, as a node does
// that restarts from a partial aggregate.
func (x *c04) live(s *tape.Stream, sc *Scheme, f int, v interface{}, p ref.P) {
	r := x.r
	g := fmtGroup(f)
	pub := f == fPK1 || f == fPK2
	nm, k := "Signature", sc.SG
	ser, dec := sc.SigBytes, sc.DecSig
	if pub {
		nm, k = "PublicKey", sc.PK
		ser, dec = sc.PubBytes, sc.DecPub
	}
	for i := 1 + s.N(3); i > 0; i-- {
		how := ""
		switch s.N(4) {
		case 0: // itself
			how = "adding it to itself"
			sc.Do(nm+".Aggregate", v, v)
			p = p.Add(p)
		case 1: // by way of its bytes
			how = "adding its restored copy"
			o, ok := dec(ser(v))
			if !ok {
				r.Fail("refused:"+sc.P+"."+nm, "%s: a value refuses to be restored from its own bytes", sc)
			}
			sc.Do(nm+".Aggregate", v, o)
			p = p.Add(p)
		default:
			q := point(s, g, 0)
			if s.P(25) { // it cancels
				q = &Point{Enc: g.Enc(p.Neg())}
			}
			how = "adding " + short(q.Enc)
			sc.Do(nm+".Aggregate", v, sc.L.Dec(k, q.Enc))
			p = p.Add(g.FromEnc(q.Enc))
		}
		r.Stat("restored values changed in place and stored again", 1)
		b := ser(v)
		if w := g.Compress(p); !bytes.Equal(b, w) {
			r.Fail("bytes:"+sc.P+"."+nm, "%s: after %s, a restored %s serializes to %x instead of %x", sc, how, nm, b, w)
		}
		o, ok := dec(b)
		if !ok {
			r.Fail("refused:"+sc.P+"."+nm, "%s: %s %x is refused", sc, nm, b)
		}
		if e, w := r.SafeEnc(sc.L, k, o), g.Enc(p); !bytes.Equal(e, w) {
			r.Fail("value:"+sc.P+"."+nm, "%s: %s restored from %x is %s instead of %s", sc, nm, b, short(e), short(w))
		}
		if pub && !(sc.yes("PublicKey.Equals", v, o) && sc.yes("PublicKey.Equals", o, v)) {
			r.Fail("equal:"+sc.P+"."+nm, "%s: a public key restored from the bytes of a live one does not equal it", sc)
		}
		if s.P(30) {
			v = o
		}
	}
}
