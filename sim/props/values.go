// Package props holds the simulated workloads, their faults and the checks
// of each property.
package props

import (
	"encoding/hex"
	"encoding/json"
	"math/big"
	"math/bits"
	"strings"

	"verifsim/core"
	"verifsim/data"
	"verifsim/ref"
	"verifsim/tape"
)

// Point is a curve point with what is known about it.
type Point struct {
	G    ref.Group
	N    string
	K    *big.Int // discrete logarithm if known
	Enc  []byte
	Sub  bool // in the prime-order subgroup
	Zero bool
}

var (
	pts    = map[ref.Group][]*Point{} // all
	subPts = map[ref.Group][]*Point{} // in the subgroup
	offPts = map[ref.Group][]*Point{}
)

func init() {
	var raw []struct {
		G int
		N string
		K string
		E string
	}
	if err := json.Unmarshal(data.Points, &raw); err != nil {
		panic(err)
	}
	for _, x := range raw {
		b, err := hex.DecodeString(x.E)
		if err != nil {
			panic(err)
		}
		p := &Point{G: ref.Group(x.G), N: x.N, Enc: b, Zero: b[0] == 1}
		if x.K != "" {
			p.K, _ = new(big.Int).SetString(x.K, 16)
		}
		p.Sub = x.N == "sub" || x.N == "cleared"
		pts[p.G] = append(pts[p.G], p)
		if p.Sub {
			subPts[p.G] = append(subPts[p.G], p)
		} else {
			offPts[p.G] = append(offPts[p.G], p)
		}
	}
}

var (
	mont384 = new(big.Int).ModInverse(new(big.Int).Lsh(big.NewInt(1), 384), ref.Q)
	mont256 = new(big.Int).ModInverse(new(big.Int).Lsh(big.NewInt(1), 256), ref.R)
)

func fill(x *big.Int, n int) []byte {
	b := make([]byte, n)
	x.FillBytes(b)
	return b
}

// montOperands chooses the two halves of a number to be reduced so that
// carries end exactly at a word boundary, which random words never do.
func montOperands(s *tape.Stream) (hi, lo *big.Int) {
	var q [6]uint64
	m := new(big.Int).Set(ref.Q)
	for i := range q {
		q[i] = new(big.Int).And(m, new(big.Int).SetUint64(^uint64(0))).Uint64()
		m.Rsh(m, 64)
	}
	inv := uint64(1)
	for i := 0; i < 6; i++ {
		inv *= 2 - q[0]*inv
	}
	inv = -inv
	var reg [12]uint64
	lo = limbs(s, 6)
	if s.P(50) {
		lo = new(big.Int).SetBytes(s.Bytes(48))
	}
	m.Set(lo)
	for i := 0; i < 6; i++ {
		reg[i] = new(big.Int).And(m, new(big.Int).SetUint64(^uint64(0))).Uint64()
		m.Rsh(m, 64)
	}
	hi = new(big.Int)
	over := uint64(0)
	for i := 0; i < 6; i++ {
		k := reg[i] * inv
		carry := uint64(0)
		for j := 0; j < 6; j++ {
			h, l := bits.Mul64(q[j], k)
			var c uint64
			l, c = bits.Add64(l, reg[i+j], 0)
			h += c
			l, c = bits.Add64(l, carry, 0)
			h += c
			reg[i+j], carry = l, h
		}
		var w uint64
		switch s.N(6) {
		case 0: // all ones, then the carry
			w = ^uint64(0) - carry
		case 1:
			w = ^uint64(0) - carry - over
		case 2: // exactly zero
			w = -carry - over
		case 3:
			w = -carry + uint64(s.N(3))
		case 4:
			w = ^uint64(0)
		default:
			w = s.U()
		}
		hi.Or(hi, new(big.Int).Lsh(new(big.Int).SetUint64(w), uint(64*i)))
		var c1, c2 uint64
		reg[i+6], c1 = bits.Add64(w, carry, 0)
		reg[i+6], c2 = bits.Add64(reg[i+6], over, 0)
		over = c1 + c2
	}
	return hi, lo
}

// limbs builds a number from limb patterns.
func limbs(s *tape.Stream, n int) *big.Int {
	b := make([]byte, 0, n*8)
	for i := 0; i < n; i++ {
		var v uint64
		switch s.N(7) {
		case 0:
			v = 0
		case 1:
			v = ^uint64(0)
		case 2:
			v = 1
		case 3:
			v = 1 << 63
		case 4:
			v = ^uint64(0) - uint64(s.N(4))
		case 5:
			v = 1 << uint(s.N(64))
		case 6:
			v = s.U()
		}
		for k := 7; k >= 0; k-- {
			b = append(b, byte(v>>(8*uint(k))))
		}
	}
	return new(big.Int).SetBytes(b)
}

// number chooses an integer in [0, m): small and boundary values, values
// whose Montgomery form has extreme limbs, and uniform ones.
func number(s *tape.Stream, m, mont *big.Int, nl int) *big.Int {
	x := new(big.Int)
	switch s.W(3, 3, 3, 2, 4, 3, 6) {
	case 0:
		return x.SetInt64(int64(s.N(4)))
	case 1:
		return x.SetInt64(int64(s.N(1000)))
	case 2: // close to the modulus
		return x.Sub(m, big.NewInt(int64(1+s.N(4))))
	case 3: // around powers of two
		x.Lsh(big.NewInt(1), uint(s.N(nl*64)))
		x.Add(x, big.NewInt(int64(s.N(3)-1)))
		return x.Mod(x, m)
	case 4: // Montgomery form has extreme limbs
		x.Mul(limbs(s, nl), mont)
		return x.Mod(x, m)
	case 5: // the value has extreme limbs
		return x.Mod(limbs(s, nl), m)
	}
	x.SetBytes(s.Bytes(nl * 8))
	return x.Mod(x, m)
}

func fqNum(s *tape.Stream) *big.Int { return number(s, ref.Q, mont384, 6) }
func frNum(s *tape.Stream) *big.Int { return number(s, ref.R, mont256, 4) }

// rare2 are elements at which a map from the extension field to the curve
// divides by zero: t*t+4+4u+1 = 0, and 1+(1+u)*t*t = 0 with some variants.
var rare2 = func() (out [][]byte) {
	u := ref.Fi(1, 1)
	one := ref.Fi(1, 0)
	for _, x := range []ref.F2{
		ref.G2.B().Add(one).Neg(), ref.G2.B().Neg(), ref.G2.B(), one.Neg(),
		u.Inv().Neg(), u.Inv(), u.Neg(), u, ref.Fi(1, 1).Neg().Add(one), ref.Fi(3, 0).Neg(),
	} {
		if t, ok := ref.SqrtF2(x); ok {
			for _, v := range []ref.F2{t, t.Neg()} {
				out = append(out, append(fill(v.A, 48), fill(v.B, 48)...))
			}
		}
	}
	return
}()

func fqBytes(s *tape.Stream, n int) []byte {
	var out []byte
	for i := 0; i < n; i++ {
		if n > 1 && s.P(25) {
			out = append(out, make([]byte, 48)...)
			continue
		}
		out = append(out, fill(fqNum(s), 48)...)
	}
	return out
}

// point chooses a curve point.
func point(s *tape.Stream, g ref.Group, off int) *Point {
	if s.P(off) {
		return offPts[g][s.N(len(offPts[g]))]
	}
	if s.P(6) {
		return subPts[g][0]
	}
	return subPts[g][s.N(len(subPts[g]))]
}

var msgLens = []int{0, 1, 3, 8, 31, 32, 33, 40, 47, 48, 55, 56, 57, 63, 64, 65, 96, 119, 120, 127, 128, 129, 200, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4096, 4097, 5000, 8192, 10000}

var words = []string{"", "a", "abc", "test", "message", "vote:yes", "vote:no", "round 1", "\x00", "\x00\x00", "BLS_SIG", "BLS12381G1_XMD"}

// message chooses a byte string. Families share prefixes, suffixes or
// lengths, so that distinct messages are easy to confuse. An empty message
// may be nil.
func message(s *tape.Stream, fam int) []byte {
	b := someMessage(s, fam)
	if len(b) == 0 && s.P(50) {
		return nil
	}
	return b
}

func someMessage(s *tape.Stream, fam int) []byte {
	switch s.W(4, 5, 4, 4, 3, 2, 2, 2) {
	case 7: // easy to mistake for another one
		if s.P(40) {
			b, _ := twin(s, false)
			return b
		}
		b := make([]byte, 40)
		tape.Fill(b, uint64(fam)+4)
		if s.P(60) {
			if o := lookalike(s, b, false); o != nil {
				return o
			}
		}
		return b
	case 0:
		return []byte(words[s.N(len(words))])
	case 1: // same prefix, small difference at the end
		n := msgLens[s.N(len(msgLens))]
		b := make([]byte, n)
		tape.Fill(b, uint64(fam)+1)
		if n > 0 {
			b[n-1] = byte(s.N(4))
		}
		return b
	case 2: // same suffix, difference at the start
		n := msgLens[s.N(len(msgLens))]
		b := make([]byte, n)
		tape.Fill(b, uint64(fam)+2)
		if n > 0 {
			b[0] = byte(s.N(4))
		}
		return b
	case 3: // zero bytes
		n := msgLens[s.N(len(msgLens))]
		b := make([]byte, n)
		if n > 0 && s.P(50) {
			b[s.N(n)] = byte(1 + s.N(255))
		}
		return b
	case 4: // a difference in the middle
		n := msgLens[s.N(len(msgLens))]
		b := make([]byte, n)
		tape.Fill(b, uint64(fam)+3)
		if n > 0 {
			b[s.N(n)] ^= byte(1 << uint(s.N(8)))
		}
		return b
	case 5:
		return s.Bytes(s.N(70))
	}
	if s.P(4) { // long, with one bit set far behind
		n := []int{16383, 16384, 16385, 32768, 65535, 65536, 65537, 70000}[s.N(8)]
		b := make([]byte, n)
		b[n-1-s.N(3)] = byte(s.N(3))
		return b
	}
	return s.Bytes(s.N(300))
}

// rawUint encodes a number for the small integer kinds.
func rawUint(v uint64) []byte {
	b := make([]byte, 8)
	for k := 0; k < 8; k++ {
		b[k] = byte(v >> (8 * uint(7-k)))
	}
	return b
}

// word chooses a 64-bit pattern.
func word(s *tape.Stream) uint64 {
	switch s.N(6) {
	case 0:
		return uint64(s.N(3))
	case 1:
		return ^uint64(0) - uint64(s.N(3))
	case 2:
		return 1 << uint(s.N(64))
	case 3:
		return 1<<63 + uint64(s.N(3)) - 1
	case 4:
		return 1<<32 + uint64(s.N(3)) - 1
	}
	return s.U()
}

// NewVal makes the source bytes of a fresh value of kind k.
func NewVal(s *tape.Stream, k core.Kind, fam, off int) []byte {
	switch k {
	case core.FQ:
		return fqBytes(s, 1)
	case core.FQ2:
		if len(rare2) > 0 && s.P(3) {
			return rare2[s.N(len(rare2))]
		}
		return fqBytes(s, 2)
	case core.FQ6:
		return fqBytes(s, 6)
	case core.FQ12:
		if s.P(10) { // one
			b := make([]byte, 12*48)
			b[47] = 1
			return b
		}
		return fqBytes(s, 12)
	case core.FR:
		return fill(frNum(s), 32)
	case core.SK1, core.SK2:
		if s.P(4) {
			return make([]byte, 32)
		}
		x := frNum(s)
		if x.Sign() == 0 {
			x.SetInt64(1)
		}
		return fill(x, 32)
	case core.FRRepr, core.B32:
		switch s.N(4) {
		case 0:
			return fill(frNum(s), 32)
		case 1:
			return fill(limbs(s, 4), 32)
		case 2:
			return fill(new(big.Int).Add(ref.R, big.NewInt(int64(s.N(5)-2))), 32)
		}
		return s.Bytes(32)
	case core.FQRepr:
		switch s.N(4) {
		case 0:
			return fill(fqNum(s), 48)
		case 1:
			return fill(limbs(s, 6), 48)
		case 2:
			return fill(new(big.Int).Add(ref.Q, big.NewInt(int64(s.N(5)-2))), 48)
		}
		return s.Bytes(48)
	case core.W6:
		switch s.N(3) {
		case 0:
			return fill(fqNum(s), 48)
		case 1:
			return fill(limbs(s, 6), 48)
		}
		return s.Bytes(48)
	case core.G1A, core.G1P, core.PK1, core.SG2:
		return point(s, ref.G1, off).Enc
	case core.G2A, core.G2P, core.Prep, core.PK2, core.SG1:
		return point(s, ref.G2, off).Enc
	case core.Msg, core.Hash:
		return message(s, fam)
	case core.Rd:
		return s.Bytes(8)
	case core.Big:
		var x *big.Int
		switch s.N(3) {
		case 0:
			x = fqNum(s)
		case 1:
			x = frNum(s)
		default:
			x = limbs(s, 1+s.N(7))
		}
		return append([]byte{'+'}, x.Bytes()...)
	case core.U64:
		return rawUint(word(s))
	case core.Uint:
		return rawUint(uint64([]int{0, 1, 2, 31, 32, 33, 63, 64, 65, 127, 128, 129, 191, 192, 193, 255, 256, 257, 319, 320, 321, 383, 384, 385}[s.N(24)]))
	case core.U8:
		if s.P(10) {
			return rawUint(uint64(s.N(256)))
		}
		return rawUint(uint64(s.N(16)))
	case core.Int:
		return rawUint(uint64(s.N(16)))
	case core.Bool:
		return []byte{byte(s.N(2))}
	case core.Str:
		return []byte(words[s.N(len(words))])
	case core.B8:
		if s.P(50) {
			return rawUint(uint64(s.N(4)))
		}
		return s.Bytes(8)
	case core.B48:
		return encodedPoint(s, ref.G1, off)
	case core.B96:
		return encodedPoint(s, ref.G2, off)
	case core.B192:
		return ref.G2.Raw(ref.G2.FromEnc(point(s, ref.G2, off).Enc))
	}
	panic("no values of kind " + string(k))
}

// encodedPoint makes a compressed point, sometimes damaged.
func encodedPoint(s *tape.Stream, g ref.Group, off int) []byte {
	b := g.Compress(g.FromEnc(point(s, g, off).Enc))
	switch s.W(12, 2, 2, 2) {
	case 1:
		b[s.N(len(b))] ^= 1 << uint(s.N(8))
	case 2:
		b[0] ^= byte(1+s.N(7)) << 5
	case 3:
		b = s.Bytes(g.Size())
		b[0] |= 0x80
	}
	return b
}

func short(b []byte) string {
	s := hex.EncodeToString(b)
	if len(s) > 40 {
		s = s[:18] + ".." + s[len(s)-18:]
	}
	return s
}

func hasPrefix(s string, ps ...string) bool {
	for _, p := range ps {
		if strings.HasPrefix(s, p) {
			return true
		}
	}
	return false
}
