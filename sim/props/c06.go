package props

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math/big"
	"sort"
	"strings"

	"github.com/phoreproject/bls/zzverif/simrt"

	"verifsim/ref"
	"verifsim/sim"
	"verifsim/tape"
)

// kinds of statements a verifier is asked about.
const (
	cSingle = iota
	cCommon
	cMulti
	cSingleD
	cCommonD
	cMultiD
)

var claimNames = []string{"Verify", "VerifyAggregateCommon", "VerifyAggregate", "VerifyWithDomain", "VerifyAggregateCommonWithDomain", "VerifyAggregateWithDomain"}

// claim is a statement: these keys signed these messages, here is the proof.
type claim struct {
	n     int
	kind  int
	pks   [][]byte
	msgs  [][]byte
	dom   []byte
	sig   []byte
	note  string
	plain bool // honest and unaltered by its sender
}

func (q *claim) show() string {
	var ms []string
	for _, m := range q.msgs {
		ms = append(ms, short(m))
	}
	d := ""
	if q.kind >= cSingleD {
		d = " domain " + hex.EncodeToString(q.dom)
	}
	return fmt.Sprintf("claim %d: %s of %d keys on [%s]%s (%s)", q.n, claimNames[q.kind], len(q.pks), strings.Join(ms, " "), d, q.note)
}

type member struct {
	x    *big.Int
	sk   interface{}
	pk   interface{}
	pkb  []byte
	evil bool
}

type verifier struct {
	id   int
	sc   *Scheme
	reg  map[string]interface{} // decoded keys it knows, reused for ever
	done map[int]bool           // honest claims accepted
}

type c06 struct {
	r    *sim.Run
	sc   *Scheme // the signers' library
	kg   *Scheme // the simulator's own use: hashes
	m    []*member
	dlog map[string]*big.Int
	h    map[string]ref.P  // message (and domain) to its hash point
	hrev map[string]string // and back
	mul  map[string]ref.P
	sigs map[string]*sigRec
	one  interface{}
	fam  int
	doms [][]byte
	msgs [][]byte
	d32  [][]byte
	cnt  int
}

type sigRec struct {
	v interface{}
	b []byte
}

func hkey(m, d []byte) string {
	if d == nil {
		return "m" + string(m)
	}
	return "d" + string(d) + string(m)
}

// hash is the point the library hashes a message to: the signature of the
// secret key 1.
func (x *c06) hash(m, d []byte) ref.P {
	k := hkey(m, d)
	if p, ok := x.h[k]; ok {
		return p
	}
	var sg interface{}
	if d == nil {
		sg = x.kg.Sign(m, x.one)
	} else {
		sg = x.kg.SignD(m, d, x.one)
	}
	p := x.kg.SigPoint(sg)
	x.h[k] = p
	e := string(x.kg.SGr.Enc(p))
	if o, ok := x.hrev[e]; ok && o != k {
		x.r.Fail("collision:"+x.kg.P, "a signature on %s is also one on %s (%s)", showKey(o), showKey(k), x.kg.P)
	}
	x.hrev[e] = k
	return p
}

func showKey(k string) string {
	if k[0] == 'm' {
		return fmt.Sprintf("message %x", cutb(k[1:]))
	}
	return fmt.Sprintf("message %x in domain %x", cutb(k[9:]), k[1:9])
}

func cutb(s string) string {
	if len(s) > 200 {
		return s[:100] + "..." + s[len(s)-100:]
	}
	return s
}

func (x *c06) times(v *big.Int, m, d []byte) ref.P {
	k := v.String() + "/" + hkey(m, d)
	if p, ok := x.mul[k]; ok {
		return p
	}
	p := x.hash(m, d).Mul(v)
	x.mul[k] = p
	return p
}

// truth decides a claim from what was signed, by whom.
func (x *c06) truth(q *claim) (bool, string) {
	if q.kind == cMulti || q.kind == cMultiD {
		if len(q.pks) != len(q.msgs) {
			return false, "lists of different lengths"
		}
	}
	if q.kind == cMulti {
		seen := map[string]bool{}
		for _, m := range q.msgs {
			if seen[string(m)] {
				return false, "a message occurs twice"
			}
			seen[string(m)] = true
		}
	}
	sums := map[string]*big.Int{}
	ms := map[string][]byte{}
	for i, pk := range q.pks {
		m := q.msgs[0:1]
		if q.kind == cMulti || q.kind == cMultiD {
			m = q.msgs[i : i+1]
		}
		v, ok := x.dlog[string(pk)]
		if !ok {
			return false, "a key nobody holds"
		}
		k := hkey(m[0], q.dom)
		if sums[k] == nil {
			sums[k] = new(big.Int)
			ms[k] = m[0]
		}
		sums[k].Add(sums[k], v)
	}
	var ks []string
	for k := range sums {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	t := ref.Zero
	for _, k := range ks {
		sums[k].Mod(sums[k], ref.R)
		t = t.Add(x.times(sums[k], ms[k], q.dom))
	}
	if bytes.Equal(x.sc.SGr.Compress(t), q.sig) {
		return true, "the exact sum"
	}
	return false, "not the sum of the signatures"
}

// sign is the library's signature of a member.
func (x *c06) sign(i int, m, d []byte) *sigRec {
	k := fmt.Sprintf("%d/%s", i, hkey(m, d))
	if s, ok := x.sigs[k]; ok {
		return s
	}
	var v interface{}
	if d == nil {
		v = x.sc.Sign(m, x.m[i].sk)
	} else {
		v = x.sc.SignD(m, d, x.m[i].sk)
	}
	s := &sigRec{v, x.sc.SigBytes(v)}
	x.sigs[k] = s
	return s
}

func (x *c06) message(s *tape.Stream, kind int) []byte {
	if kind >= cSingleD {
		if len(x.d32) > 0 && s.P(60) {
			return x.d32[s.N(len(x.d32))]
		}
		m := make([]byte, 32)
		switch s.W(2, 2, 2, 1, 1) {
		case 3:
			m, _ = twin(s, true)
		case 4:
			if len(x.d32) > 0 {
				if o := lookalike(s, x.d32[s.N(len(x.d32))], true); o != nil {
					m = o
				}
			}
		case 0:
			m[s.N(32)] = byte(1 + s.N(255))
		case 1:
			copy(m, s.Bytes(32))
		case 2:
			if len(x.d32) > 0 {
				copy(m, x.d32[s.N(len(x.d32))])
			}
			m[s.N(32)] ^= 1 << uint(s.N(8))
		}
		x.d32 = append(x.d32, m)
		return m
	}
	if len(x.msgs) > 0 && s.P(55) {
		return x.msgs[s.N(len(x.msgs))]
	}
	m := message(s, x.fam)
	if len(x.msgs) > 0 && s.P(15) {
		if o := lookalike(s, x.msgs[s.N(len(x.msgs))], false); o != nil {
			m = o
		}
	}
	x.msgs = append(x.msgs, m)
	return m
}

// honest makes a claim that holds.
func (x *c06) honest(s *tape.Stream) *claim {
	kinds := 3
	if x.sc.Has("SignWithDomain") {
		kinds = 6
	}
	q := &claim{n: x.cnt, kind: s.N(kinds), plain: true, note: "honest"}
	x.cnt++
	if q.kind >= cSingleD {
		q.dom = x.doms[s.N(len(x.doms))]
	}
	n := 1
	if q.kind != cSingle && q.kind != cSingleD {
		n = 1 + s.W(3, 4, 4, 2, 1)
		if s.P(4) {
			n = 5 + s.N(29)
			if q.kind%3 == cCommon && s.P(50) {
				n = listLens[s.N(len(listLens))]
				if s.P(20) {
					n = hugeLens[s.N(len(hugeLens))]
				}
			} else if q.kind%3 != cCommon && s.P(10) {
				n = listLens[s.N(len(listLens))]
			}
		}
	}
	var sgs []interface{}
	common := x.message(s, q.kind)
	for i := 0; i < n; i++ {
		k := s.N(len(x.m))
		if n <= len(x.m) && q.kind%3 == cCommon && s.P(80) { // distinct signers
			k = i
		}
		m := common
		if q.kind == cMulti {
			if i > 0 {
				m = x.message(s, q.kind)
				if s.P(15) { // easy to mistake for another of this claim
					if o := lookalike(s, q.msgs[s.N(len(q.msgs))], false); o != nil {
						m = o
					}
				}
				for try := 0; try < 8 && has(q.msgs, m); try++ {
					m = append(append([]byte{}, m...), byte(i))
				}
				if has(q.msgs, m) {
					break
				}
			}
			q.msgs = append(q.msgs, m)
		} else if q.kind == cMultiD {
			if i > 0 {
				m = x.message(s, q.kind)
			}
			q.msgs = append(q.msgs, m)
		}
		q.pks = append(q.pks, x.m[k].pkb)
		sgs = append(sgs, x.sign(k, m, q.dom).v)
	}
	if q.kind != cMulti && q.kind != cMultiD {
		q.msgs = [][]byte{common}
	}
	if len(sgs) == 1 && s.P(50) {
		q.sig = x.sc.SigBytes(sgs[0])
	} else {
		var o []interface{}
		for _, i := range s.Perm(len(sgs)) {
			o = append(o, sgs[i])
		}
		q.sig = x.sc.SigBytes(x.sc.AggSigs(o))
	}
	return q
}

func has(ms [][]byte, m []byte) bool {
	for _, x := range ms {
		if bytes.Equal(x, m) {
			return true
		}
	}
	return false
}

func clone(bs [][]byte) [][]byte {
	var out [][]byte
	for _, b := range bs {
		out = append(out, append([]byte{}, b...))
	}
	return out
}

// twist alters a claim the way a malicious participant would.
func (x *c06) twist(s *tape.Stream, q *claim) {
	r := x.r
	q.plain = false
	q.pks, q.msgs = clone(q.pks), clone(q.msgs)
	q.dom = append([]byte(nil), q.dom...)
	if len(q.dom) == 0 {
		q.dom = nil
	}
	sigOf := func(b []byte) ref.P {
		p, err := x.sc.SGr.DecompressUnchecked(b)
		if err != nil {
			return ref.Zero
		}
		return p
	}
	note := ""
	switch s.N(20) {
	case 19: // the end of a message moved to the next
		if q.kind != cMulti || len(q.msgs) < 2 {
			return
		}
		i := s.N(len(q.msgs) - 1)
		a, b := q.msgs[i], q.msgs[i+1]
		if s.P(50) { // all lengths as they were
			ab := append(append([]byte{}, b...), a...)
			q.msgs[i], q.msgs[i+1] = ab[:len(a):len(a)], ab[len(a):]
		} else {
			ab := append(append([]byte{}, a...), b...)
			k := s.N(len(ab) + 1)
			q.msgs[i], q.msgs[i+1] = ab[:k:k], ab[k:]
		}
		note = "messages divided otherwise"
	case 17, 18: // a message twice, by another signer, the sum being right
		if q.kind%3 != cMulti || len(q.msgs) == 0 || len(q.msgs) != len(q.pks) {
			return
		}
		i := s.N(len(q.msgs))
		for j := range q.msgs { // often the first or last in order
			if k := bytes.Compare(q.msgs[j], q.msgs[i]); s.P(60) && k < 0 || s.P(20) && k > 0 {
				i = j
			}
		}
		k := s.N(len(x.m))
		m := append([]byte{}, q.msgs[i]...)
		at := s.N(len(q.msgs) + 1)
		q.msgs = append(q.msgs[:at:at], append([][]byte{m}, q.msgs[at:]...)...)
		q.pks = append(q.pks[:at:at], append([][]byte{x.m[k].pkb}, q.pks[at:]...)...)
		q.sig = x.sc.SGr.Compress(sigOf(q.sig).Add(x.times(x.dlog[string(x.m[k].pkb)], m, q.dom)))
		note = "a message signed by two"
	case 0: // another message
		i := s.N(len(q.msgs) + 0)
		if len(q.msgs) == 0 {
			return
		}
		q.msgs[i] = x.alter(s, q.kind, q.msgs[i])
		note = "message altered"
	case 1:
		if q.dom == nil {
			return
		}
		if o := lookalike(s, q.dom, true); o != nil && s.P(40) {
			q.dom = o
		} else {
			q.dom[s.N(8)] ^= 1 << uint(s.N(8))
		}
		note = "domain altered"
	case 2: // replayed with a message of another round
		if len(q.msgs) == 0 {
			return
		}
		q.msgs[s.N(len(q.msgs))] = append([]byte{}, x.message(s, q.kind)...)
		note = "replayed to another message"
	case 3:
		if len(q.pks) == 0 {
			return
		}
		q.pks[s.N(len(q.pks))] = x.m[s.N(len(x.m))].pkb
		note = "another key named"
	case 4:
		if q.kind%3 == cSingle {
			return
		}
		i := s.N(len(q.pks))
		q.pks = append(q.pks[:i:i], q.pks[i+1:]...)
		note = "a key left out"
		if q.kind%3 == cMulti && s.P(50) {
			q.msgs = append(q.msgs[:i:i], q.msgs[i+1:]...)
			note = "a signer left out"
		}
	case 5:
		if q.kind%3 == cSingle {
			return
		}
		q.pks = append(q.pks, x.m[s.N(len(x.m))].pkb)
		note = "a key added"
		if q.kind%3 == cMulti && s.P(50) {
			q.msgs = append(q.msgs, append([]byte{}, x.message(s, q.kind)...))
			note = "a signer added"
		}
	case 6: // list of messages longer
		if q.kind%3 != cMulti {
			return
		}
		q.msgs = append(q.msgs, append([]byte{}, x.message(s, q.kind)...))
		note = "a message added"
	case 7: // a signer listed twice, counted once or twice
		if q.kind%3 == cSingle {
			return
		}
		i := s.N(len(q.pks))
		q.pks = append(q.pks, q.pks[i])
		note = "a signer listed twice"
		var m []byte
		if q.kind%3 == cMulti {
			m = q.msgs[i%len(q.msgs)]
			q.msgs = append(q.msgs, append([]byte{}, m...))
		} else {
			m = q.msgs[0]
		}
		if v := x.dlog[string(q.pks[i])]; v != nil && s.P(60) {
			q.sig = x.sc.SGr.Compress(sigOf(q.sig).Add(x.times(v, m, q.dom)))
			note += " and counted twice"
		}
	case 8: // messages exchanged
		if len(q.msgs) < 2 {
			return
		}
		i, j := s.N(len(q.msgs)), s.N(len(q.msgs))
		q.msgs[i], q.msgs[j] = q.msgs[j], q.msgs[i]
		note = "messages exchanged"
		if s.P(30) && i < len(q.pks) && j < len(q.pks) {
			q.pks[i], q.pks[j] = q.pks[j], q.pks[i]
			note = "pairs exchanged"
		}
	case 9: // rogue key: cancels the others
		if q.kind%3 != cCommon {
			return
		}
		sum := new(big.Int)
		for _, p := range q.pks {
			if v := x.dlog[string(p)]; v != nil {
				sum.Add(sum, v)
			}
		}
		k := big.NewInt(int64(s.N(5)))
		v := new(big.Int).Sub(k, sum)
		v.Mod(v, ref.R)
		p := x.sc.PG.Compress(x.sc.PG.Gen().Mul(v))
		x.know(p, v)
		q.pks = append(q.pks, p)
		q.sig = x.sc.SGr.Compress(x.times(k, q.msgs[0], q.dom))
		note = "rogue key"
	case 10: // the inverse signature, or inverse keys
		if s.P(50) {
			q.sig = x.sc.SGr.Compress(sigOf(q.sig).Neg())
			note = "signature negated"
			break
		}
		for i, p := range q.pks {
			d, err := x.sc.PG.DecompressUnchecked(p)
			if err != nil {
				return
			}
			n := x.sc.PG.Compress(d.Neg())
			if v := x.dlog[string(p)]; v != nil {
				x.know(n, new(big.Int).Mod(new(big.Int).Neg(v), ref.R))
			}
			q.pks[i] = n
		}
		note = "keys negated"
		if s.P(50) {
			q.sig = x.sc.SGr.Compress(sigOf(q.sig).Neg())
			note = "keys and signature negated"
		}
	case 11: // identity
		switch s.N(3) {
		case 0:
			q.sig = x.sc.SGr.Compress(ref.Zero)
			note = "identity signature"
		case 1:
			if q.kind%3 == cSingle {
				q.pks = [][]byte{x.sc.PG.Compress(ref.Zero)}
			} else {
				q.pks[s.N(len(q.pks))] = x.sc.PG.Compress(ref.Zero)
			}
			note = "identity key"
		case 2:
			q.sig = x.sc.SGr.Compress(ref.Zero)
			for i := range q.pks {
				q.pks[i] = x.sc.PG.Compress(ref.Zero)
			}
			note = "identity key and signature"
		}
	case 12: // part of the aggregate replaced
		p := sigOf(q.sig).Add(x.sc.SGr.FromEnc(subPts[x.sc.SGr][s.N(len(subPts[x.sc.SGr]))].Enc))
		q.sig = x.sc.SGr.Compress(p)
		note = "something added to the signature"
	case 13: // the other kind of statement
		k := q.kind
		q.kind = []int{0, 1, 2, 3, 4, 5}[k/3*3+s.N(3)]
		if s.P(30) && k >= cSingleD && len(q.msgs) > 0 {
			q.kind -= 3
			q.kind = (q.kind + 6) % 6
			if q.kind < cSingleD {
				q.dom = nil
			}
		}
		if q.kind%3 == cSingle {
			q.pks = q.pks[:1]
		}
		if q.kind%3 != cMulti {
			q.msgs = q.msgs[:1]
		}
		note = "presented as " + claimNames[q.kind]
	case 14: // bytes of the other scheme
		o := x.m[s.N(len(x.m))]
		q.sig = append([]byte{}, o.pkb...)
		if len(q.sig) != x.sc.SGr.Size() {
			b := make([]byte, x.sc.SGr.Size())
			copy(b, q.sig)
			q.sig = b
		}
		note = "key bytes as signature"
	case 15: // empty lists
		if q.kind%3 == cSingle {
			return
		}
		q.pks = nil
		if q.kind%3 == cMulti {
			q.msgs = nil
		}
		if s.P(50) {
			q.sig = x.sc.SGr.Compress(ref.Zero)
		}
		note = "empty lists"
	case 16: // moved between domained and undomained
		if q.kind >= cSingleD {
			q.kind -= 3
			q.dom = nil
			note = "domain dropped"
		} else {
			ok := x.sc.Has("SignWithDomain")
			for _, m := range q.msgs {
				ok = ok && len(m) == 32
			}
			if !ok {
				return
			}
			q.kind += 3
			q.dom = append([]byte{}, x.doms[s.N(len(x.doms))]...)
			note = "domain added"
		}
	}
	q.note = note
	r.Fault("malicious claim: " + note)
}

// alter makes a message that is easy to mistake for the original.
func (x *c06) alter(s *tape.Stream, kind int, m []byte) []byte {
	b := append([]byte{}, m...)
	if s.P(50) {
		if s.P(10) {
			if a, o := twin(s, kind >= cSingleD); bytes.Equal(a, m) {
				return o
			}
		}
		if o := lookalike(s, m, kind >= cSingleD); o != nil {
			return o
		}
	}
	if kind >= cSingleD {
		b[s.N(32)] ^= 1 << uint(s.N(8))
		return b
	}
	switch s.N(8) {
	case 0:
		return append(b, 0)
	case 1:
		return append([]byte{0}, b...)
	case 2:
		if len(b) > 0 {
			return b[:len(b)-1]
		}
	case 3:
		return append(b, b...)
	case 4:
		if len(b) > 1 {
			i, j := s.N(len(b)), s.N(len(b))
			b[i], b[j] = b[j], b[i]
			return b
		}
	case 5:
		if len(b) > 0 {
			return b[1:]
		}
	}
	if len(b) == 0 {
		return []byte{byte(s.N(256))}
	}
	b[s.N(len(b))] ^= 1 << uint(s.N(8))
	return b
}

func (x *c06) know(pk []byte, v *big.Int) { x.dlog[string(pk)] = v }

// verify lets a verifier decide; it returns the verdict and how.
func (v *verifier) verify(q *claim) (bool, string) {
	sc := v.sc
	sg, ok := sc.DecSig(q.sig)
	if !ok {
		return false, "signature refused"
	}
	var pks []interface{}
	for _, b := range q.pks {
		pk := v.reg[string(b)]
		if pk == nil {
			pk, ok = sc.DecPub(b)
			if !ok {
				return false, "key refused"
			}
			v.reg[string(b)] = pk
		}
		pks = append(pks, pk)
	}
	switch q.kind {
	case cSingle:
		ok = sc.Verify(q.msgs[0], pks[0], sg)
	case cCommon:
		ok = sc.VerifyCommon(sg, pks, q.msgs[0])
	case cMulti:
		ok = sc.VerifyAgg(sg, pks, q.msgs)
	case cSingleD:
		ok = sc.VerifyD(q.msgs[0], q.dom, pks[0], sg)
	case cCommonD:
		ok = sc.VerifyCommonD(sg, pks, q.msgs[0], q.dom)
	case cMultiD:
		ok = sc.VerifyAggD(sg, pks, q.msgs, q.dom)
	}
	if ok {
		return true, "accepted"
	}
	return false, "rejected"
}

// C06 puts verifiers on a faulty network with malicious participants.
func C06(r *sim.Run) {
	c := r.S("cfg")
	which := 1 + c.N(2)
	x := &c06{r: r, dlog: map[string]*big.Int{}, h: map[string]ref.P{}, hrev: map[string]string{}, mul: map[string]ref.P{}, sigs: map[string]*sigRec{}, fam: c.N(3)}
	x.sc = NewScheme(r, r.Lib, which)
	x.kg = x.sc
	one := make([]byte, 32)
	one[31] = 1
	x.one = x.kg.Key(one)
	x.know(x.sc.PG.Compress(ref.Zero), new(big.Int))
	nm := 2 + c.N(5)
	for i := 0; i < nm; i++ {
		v := frNum(c)
		if v.Sign() == 0 {
			v.SetInt64(5)
		}
		if i > 0 && c.P(15) {
			j := x.m[c.N(i)].x
			switch c.N(3) {
			case 0:
				v = new(big.Int).Sub(ref.R, j)
			case 1:
				v = new(big.Int).Set(j)
			case 2:
				v = new(big.Int).Mod(new(big.Int).Add(j, big.NewInt(1)), ref.R)
			}
		}
		v.Mod(v, ref.R)
		k := &member{x: v, sk: x.sc.Key(fill(v, 32))}
		k.pk = x.sc.Pub(k.sk)
		k.pkb = x.sc.PubBytes(k.pk)
		x.m = append(x.m, k)
		x.know(k.pkb, v)
	}
	d0 := NewVal(c, "b8", 0, 0)
	x.doms = [][]byte{d0}
	for i := 0; i < 2; i++ {
		d := append([]byte{}, d0...)
		d[c.N(8)] ^= 1 << uint(c.N(8))
		x.doms = append(x.doms, d)
	}
	level := []int{0, 10, 30, 60}[c.N(4)]
	net := newNet(r, r.S("net"), level)
	net.damage = true
	nv := 1 + c.N(2)
	var vs []*verifier
	for i := 0; i < nv; i++ {
		lib := r.Lib
		if c.P(7) {
			lib = r.Port
		}
		v := &verifier{id: nm + i, sc: NewScheme(r, lib, which), reg: map[string]interface{}{}, done: map[int]bool{}}
		vs = append(vs, v)
	}
	if enduring(r, r.S("long")) {
		x.endure(c, vs[0])
		return
	}
	conc := c.P(25)
	n := 8 + c.N(18)
	if r.Tier == "thorough" {
		n = n * 3 / 2
	}
	evil := []int{10, 50, 80}[c.N(3)]
	r.Ev("%s: %d signers, %d verifiers, fault level %d, %d%% malicious claims, concurrent handlers=%v", x.sc.P, nm, nv, level, evil, conc)
	var sent []*claim
	type done struct {
		q   *claim
		ok  bool
		how string
	}
	parts := func(q *claim) [][]byte {
		p := [][]byte{q.sig}
		p = append(p, q.msgs...)
		p = append(p, q.pks...)
		if q.dom != nil {
			p = append(p, q.dom)
		}
		return p
	}
	arrive := func(f *frame) *claim {
		o := f.body.(*claim)
		q := *o
		q.sig = f.b[0]
		q.msgs = append([][]byte{}, f.b[1:1+len(o.msgs)]...)
		q.pks = append([][]byte{}, f.b[1+len(o.msgs):1+len(o.msgs)+len(o.pks)]...)
		if o.dom != nil {
			q.dom = f.b[len(f.b)-1]
		}
		if f.bad {
			q.note += ", damaged in transit"
		}
		return &q
	}
	judge := func(v *verifier, d done) {
		want, why := x.truth(d.q)
		r.Ev("t=%d verifier %d: %s: %s; truth: %s", net.now, v.id, d.q.show(), d.how, why)
		r.Shape(claimNames[d.q.kind] + d.q.note + d.how)
		r.State(d.q.kind, d.q.note, d.how, len(d.q.pks))
		r.Stat("claims decided", 1)
		if d.ok {
			r.Stat("claims accepted", 1)
		}
		if want && !d.ok {
			r.Fail("rejected:"+claimNames[d.q.kind], "verifier %d (%s) %s although the signature is exactly right: %s", v.id, v.sc, d.how, d.q.show())
		}
		if !want && d.ok {
			r.Fail("accepted:"+claimNames[d.q.kind], "verifier %d (%s) accepts although: %s: %s", v.id, v.sc, why, d.q.show())
		}
		if d.ok && d.q.plain {
			v.done[d.q.n] = true
		}
	}
	handle := func(fs []*frame, s *tape.Stream) {
		if !conc || len(fs) < 2 || r.Race {
			for _, f := range fs {
				v := vs[f.to-nm]
				q := arrive(f)
				ok, how := v.verify(q)
				judge(v, done{q, ok, how})
			}
			return
		}
		// the handlers of several frames run at once
		if len(fs) > 5 {
			fs = fs[:5]
		}
		res := make([]done, len(fs))
		var tasks []sim.Task
		for i, f := range fs {
			q := arrive(f)
			v := vs[f.to-nm]
			// decode the keys first: the registry is the node's, not the library's
			for _, b := range q.pks {
				if v.reg[string(b)] == nil {
					if pk, ok := v.sc.DecPub(b); ok {
						v.reg[string(b)] = pk
					}
				}
			}
			tasks = append(tasks, sim.Task{Name: fmt.Sprintf("handler%d", i), F: func(id int) {
				sc := *v.sc
				sc.Limit = 0
				w := &verifier{id: v.id, sc: &sc, reg: v.reg}
				ok, how := w.verify(q)
				res[id] = done{q, ok, how}
			}})
		}
		pol := simrt.Policy{Seed: s.U(), MaxPre: 2000, Uniform: []int64{100, 2000, 30000}[s.N(3)], HotProb: uint(s.N(4))}
		pre, _ := r.Parallel(pol, 60000000000, tasks)
		r.Stat("preemptions", int64(pre))
		for i, f := range fs {
			judge(vs[f.to-nm], res[i])
		}
	}
	for i := 0; i < n; i++ {
		s := r.S("claim/%03d", i)
		q := x.honest(s)
		from := s.N(nm)
		if s.P(evil) {
			if s.P(30) { // seen before it is altered
				h := *q
				sent = append(sent, &h)
				for _, v := range vs {
					net.Send(from, v.id, &h, parts(&h)...)
				}
			}
			x.twist(s, q)
			if s.P(25) && len(q.pks) > 0 && len(q.msgs) > 0 {
				x.twist(s, q)
			}
		} else {
			sent = append(sent, q)
		}
		for _, v := range vs {
			net.Send(from, v.id, q, parts(q)...)
		}
		switch s.W(20, 1, 2, 1) {
		case 1:
			net.Split(nm + nv)
		case 2:
			net.Heal()
		case 3: // a verifier restarts: it decodes its registry anew
			v := vs[s.N(nv)]
			v.reg = map[string]interface{}{}
			r.Fault("crash and restart")
			r.Ev("t=%d verifier %d restarts", net.now, v.id)
		}
		for k := s.N(3); k >= 0; k-- {
			handle(net.Tick(), s)
		}
	}
	// faults stop
	net.quiet, net.level = true, 0
	net.Heal()
	for len(net.q) > 0 {
		handle(net.Tick(), c)
	}
	for _, v := range vs {
		for _, q := range sent {
			if !v.done[q.n] {
				net.Send(0, v.id, q, parts(q)...)
			}
		}
	}
	for k := 0; k < 3 && len(net.q) > 0; k++ {
		fs := net.Tick()
		for len(fs) > 5 && conc {
			handle(fs[:5], c)
			fs = fs[5:]
		}
		handle(fs, c)
	}
	for _, v := range vs {
		for _, q := range sent {
			if !v.done[q.n] {
				r.Fail("liveness", "verifier %d did not accept honest %s after faults stopped", v.id, q.show())
			}
		}
	}
	r.Stat("honest claims accepted by every verifier in the end", int64(len(sent)))
}
