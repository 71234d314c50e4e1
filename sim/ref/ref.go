// Package ref is an independent, slow model of the two curve groups and of
// their encodings, on math/big. Nothing here is derived from the library.
package ref

import (
	"errors"
	"math/big"
)

func hexInt(s string) *big.Int {
	x, ok := new(big.Int).SetString(s, 16)
	if !ok {
		panic(s)
	}
	return x
}

var (
	// Q is the base field modulus and R the group order of BLS12-381.
	Q = hexInt("1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab")
	R = hexInt("73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001")

	zero = big.NewInt(0)
	one  = big.NewInt(1)
	sqE  = new(big.Int).Rsh(new(big.Int).Add(Q, one), 2) // (q+1)/4
	half = new(big.Int).Rsh(new(big.Int).Sub(Q, one), 1) // (q-1)/2
)

// F2 is an element a + b*u of the quadratic extension, u*u = -1. The base
// field is the part with B = 0.
type F2 struct{ A, B *big.Int }

func f2(a, b *big.Int) F2 { return F2{a, b} }

// Fi makes a field element from small integers.
func Fi(a, b int64) F2 { return norm(big.NewInt(a), big.NewInt(b)) }

func norm(a, b *big.Int) F2 { return F2{new(big.Int).Mod(a, Q), new(big.Int).Mod(b, Q)} }

func (x F2) IsZero() bool { return x.A.Sign() == 0 && x.B.Sign() == 0 }
func (x F2) Eq(y F2) bool { return x.A.Cmp(y.A) == 0 && x.B.Cmp(y.B) == 0 }
func (x F2) Add(y F2) F2 {
	a := new(big.Int).Add(x.A, y.A)
	if a.Cmp(Q) >= 0 {
		a.Sub(a, Q)
	}
	b := new(big.Int).Add(x.B, y.B)
	if b.Cmp(Q) >= 0 {
		b.Sub(b, Q)
	}
	return F2{a, b}
}
func (x F2) Neg() F2 {
	a, b := new(big.Int), new(big.Int)
	if x.A.Sign() != 0 {
		a.Sub(Q, x.A)
	}
	if x.B.Sign() != 0 {
		b.Sub(Q, x.B)
	}
	return F2{a, b}
}
func (x F2) Sub(y F2) F2 { return x.Add(y.Neg()) }
func (x F2) Mul(y F2) F2 {
	if x.B.Sign() == 0 && y.B.Sign() == 0 {
		a := new(big.Int).Mul(x.A, y.A)
		return F2{a.Mod(a, Q), zero}
	}
	aa := new(big.Int).Mul(x.A, y.A)
	bb := new(big.Int).Mul(x.B, y.B)
	s := new(big.Int).Add(x.A, x.B)
	t := new(big.Int).Add(y.A, y.B)
	s.Mul(s, t)
	s.Sub(s, aa)
	s.Sub(s, bb)
	aa.Sub(aa, bb)
	return F2{aa.Mod(aa, Q), s.Mod(s, Q)}
}
func (x F2) Sq() F2 { return x.Mul(x) }
func (x F2) Inv() F2 {
	n := new(big.Int).Mul(x.A, x.A)
	n.Add(n, new(big.Int).Mul(x.B, x.B))
	n.Mod(n, Q)
	n.ModInverse(n, Q)
	return norm(new(big.Int).Mul(x.A, n), new(big.Int).Neg(new(big.Int).Mul(x.B, n)))
}

// Exp raises to a non-negative power.
func (x F2) Exp(e *big.Int) F2 {
	r := Fi(1, 0)
	for i := e.BitLen() - 1; i >= 0; i-- {
		r = r.Sq()
		if e.Bit(i) == 1 {
			r = r.Mul(x)
		}
	}
	return r
}

func sqrtFq(a *big.Int) (*big.Int, bool) {
	r := new(big.Int).Exp(a, sqE, Q)
	t := new(big.Int).Mul(r, r)
	t.Mod(t, Q)
	return r, t.Cmp(a) == 0
}

// SqrtFq is the square root in the base field.
func SqrtFq(a F2) (F2, bool) {
	r, ok := sqrtFq(a.A)
	return F2{r, zero}, ok
}

// SqrtF2 is the square root in the quadratic extension (complex method).
func SqrtF2(x F2) (F2, bool) {
	if x.B.Sign() == 0 {
		if r, ok := sqrtFq(x.A); ok {
			return F2{r, zero}, true
		}
		n := new(big.Int).Sub(Q, x.A)
		n.Mod(n, Q)
		r, ok := sqrtFq(n)
		return F2{zero, r}, ok
	}
	n := new(big.Int).Mul(x.A, x.A)
	n.Add(n, new(big.Int).Mul(x.B, x.B))
	n.Mod(n, Q)
	s, ok := sqrtFq(n)
	if !ok {
		return F2{}, false
	}
	i2 := new(big.Int).ModInverse(big.NewInt(2), Q)
	for k := 0; k < 2; k++ {
		t := new(big.Int).Add(x.A, s)
		if k == 1 {
			t.Sub(x.A, s)
		}
		t.Mul(t, i2)
		t.Mod(t, Q)
		a, ok := sqrtFq(t)
		if ok && a.Sign() != 0 {
			b := new(big.Int).Mul(x.B, i2)
			b.Mul(b, new(big.Int).ModInverse(a, Q))
			b.Mod(b, Q)
			r := F2{a, b}
			if r.Sq().Eq(x) {
				return r, true
			}
		}
	}
	return F2{}, false
}

// Group selects the curve.
type Group int

const (
	G1 Group = 1
	G2 Group = 2
)

// B is the curve coefficient.
func (g Group) B() F2 {
	if g == G1 {
		return Fi(4, 0)
	}
	return Fi(4, 4)
}

// P is a point; Inf is the identity.
type P struct {
	X, Y F2
	Inf  bool
}

// Zero is the identity.
var Zero = P{Fi(0, 0), Fi(1, 0), true}

// Gen is the generator.
func (g Group) Gen() P {
	if g == G1 {
		return P{X: f2(hexInt("17f1d3a73197d7942695638c4fa9ac0fc3688c4f9774b905a14e3a3f171bac586c55e83ff97a1aeffb3af00adb22c6bb"), zero),
			Y: f2(hexInt("08b3f481e3aaa0f1a09e30ed741d8ae4fcf5e095d5d00af600db18cb2c04b3edd03cc744a2888ae40caa232946c5e7e1"), zero)}
	}
	return P{
		X: f2(hexInt("024aa2b2f08f0a91260805272dc51051c6e47ad4fa403b02b4510b647ae3d1770bac0326a805bbefd48056c8c121bdb8"), hexInt("13e02b6052719f607dacd3a088274f65596bd0d09920b61ab5da61bbdc7f5049334cf11213945d57e5ac7d055d042b7e")),
		Y: f2(hexInt("0ce5d527727d6e118cc9cdc6da2e351aadfd9baa8cbdd3a76d429a695160d12c923ac9cc3baca289e193548608b82801"), hexInt("0606c4a02ea734cc32acd2b02bc28b99cb3e287e85a763af267492ab572e99ab3f370d275cec1da1aaa9075ff05f79be")),
	}
}

// OnCurve checks the curve equation.
func (g Group) OnCurve(p P) bool {
	return p.Inf || p.Y.Sq().Eq(p.X.Sq().Mul(p.X).Add(g.B()))
}

// Eq compares points.
func (p P) Eq(q P) bool {
	if p.Inf || q.Inf {
		return p.Inf == q.Inf
	}
	return p.X.Eq(q.X) && p.Y.Eq(q.Y)
}

// Neg negates.
func (p P) Neg() P {
	if p.Inf {
		return p
	}
	return P{p.X, p.Y.Neg(), false}
}

// Add adds two affine points.
func (p P) Add(q P) P {
	if p.Inf {
		return q
	}
	if q.Inf {
		return p
	}
	var l F2
	if p.X.Eq(q.X) {
		if !p.Y.Eq(q.Y) || p.Y.IsZero() {
			return Zero
		}
		l = p.X.Sq().Mul(Fi(3, 0)).Mul(p.Y.Add(p.Y).Inv())
	} else {
		l = q.Y.Sub(p.Y).Mul(q.X.Sub(p.X).Inv())
	}
	x := l.Sq().Sub(p.X).Sub(q.X)
	return P{x, l.Mul(p.X.Sub(x)).Sub(p.Y), false}
}

type jac struct{ x, y, z F2 }

func (p jac) dbl() jac {
	if p.z.IsZero() || p.y.IsZero() {
		return jac{Fi(1, 0), Fi(1, 0), Fi(0, 0)}
	}
	a := p.x.Sq()
	b := p.y.Sq()
	c := b.Sq()
	d := p.x.Add(b).Sq().Sub(a).Sub(c)
	d = d.Add(d)
	e := a.Add(a).Add(a)
	f := e.Sq()
	x := f.Sub(d).Sub(d)
	c8 := c.Add(c)
	c8 = c8.Add(c8)
	c8 = c8.Add(c8)
	z := p.y.Mul(p.z)
	return jac{x, e.Mul(d.Sub(x)).Sub(c8), z.Add(z)}
}

func (p jac) addA(q P) jac {
	if q.Inf {
		return p
	}
	if p.z.IsZero() {
		return jac{q.X, q.Y, Fi(1, 0)}
	}
	zz := p.z.Sq()
	u := q.X.Mul(zz)
	s := q.Y.Mul(zz).Mul(p.z)
	h := u.Sub(p.x)
	r := s.Sub(p.y)
	if h.IsZero() {
		if r.IsZero() {
			return p.dbl()
		}
		return jac{Fi(1, 0), Fi(1, 0), Fi(0, 0)}
	}
	hh := h.Sq()
	hhh := hh.Mul(h)
	v := p.x.Mul(hh)
	x := r.Sq().Sub(hhh).Sub(v).Sub(v)
	return jac{x, r.Mul(v.Sub(x)).Sub(p.y.Mul(hhh)), p.z.Mul(h)}
}

// Mul multiplies by a scalar (any sign).
func (p P) Mul(k *big.Int) P {
	if p.Inf || k.Sign() == 0 {
		return Zero
	}
	if k.Sign() < 0 {
		return p.Neg().Mul(new(big.Int).Neg(k))
	}
	r := jac{Fi(1, 0), Fi(1, 0), Fi(0, 0)}
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = r.dbl()
		if k.Bit(i) == 1 {
			r = r.addA(p)
		}
	}
	if r.z.IsZero() {
		return Zero
	}
	zi := r.z.Inv()
	z2 := zi.Sq()
	return P{r.x.Mul(z2), r.y.Mul(z2).Mul(zi), false}
}

// InSubgroup checks the order.
func (p P) InSubgroup() bool { return p.Mul(R).Inf }

func larger(y F2) bool {
	// lexicographically larger of y and -y: compare the u part first
	n := y.Neg()
	if c := y.B.Cmp(n.B); c != 0 {
		return c > 0
	}
	return y.A.Cmp(n.A) > 0
}

func put48(b []byte, x *big.Int) { x.FillBytes(b[:48]) }

// Size of a compressed point.
func (g Group) Size() int { return 48 * int(g) }

// Compress encodes a point.
func (g Group) Compress(p P) []byte {
	out := make([]byte, g.Size())
	if p.Inf {
		out[0] = 0xc0
		return out
	}
	if g == G1 {
		put48(out, p.X.A)
	} else {
		put48(out, p.X.B)
		put48(out[48:], p.X.A)
	}
	out[0] |= 0x80
	if larger(p.Y) {
		out[0] |= 0x20
	}
	return out
}

// Decoding errors.
var (
	ErrMode     = errors.New("not compressed")
	ErrInfinity = errors.New("bad infinity")
	ErrRange    = errors.New("coordinate out of range")
	ErrCurve    = errors.New("not on the curve")
	ErrSubgroup = errors.New("not in the subgroup")
)

// DecompressUnchecked decodes a point on the curve.
func (g Group) DecompressUnchecked(b []byte) (P, error) {
	if b[0]&0x80 == 0 {
		return P{}, ErrMode
	}
	if b[0]&0x40 != 0 {
		if b[0] != 0xc0 {
			return P{}, ErrInfinity
		}
		for _, x := range b[1:] {
			if x != 0 {
				return P{}, ErrInfinity
			}
		}
		return Zero, nil
	}
	c := append([]byte{}, b...)
	c[0] &= 0x1f
	var x F2
	if g == G1 {
		x = F2{new(big.Int).SetBytes(c), zero}
	} else {
		x = F2{new(big.Int).SetBytes(c[48:]), new(big.Int).SetBytes(c[:48])}
	}
	if x.A.Cmp(Q) >= 0 || x.B.Cmp(Q) >= 0 {
		return P{}, ErrRange
	}
	p, ok := g.FromX(x, b[0]&0x20 != 0)
	if !ok {
		return P{}, ErrCurve
	}
	return p, nil
}

// FromX finds the point with the given x and the larger or smaller y.
func (g Group) FromX(x F2, big bool) (P, bool) {
	v := x.Sq().Mul(x).Add(g.B())
	var y F2
	var ok bool
	if g == G1 {
		y, ok = SqrtFq(v)
	} else {
		y, ok = SqrtF2(v)
	}
	if !ok {
		return P{}, false
	}
	if larger(y) != big {
		y = y.Neg()
	}
	return P{x, y, false}, true
}

// Decompress decodes a point of the prime-order subgroup.
func (g Group) Decompress(b []byte) (P, error) {
	p, err := g.DecompressUnchecked(b)
	if err != nil {
		return p, err
	}
	if !p.InSubgroup() {
		return P{}, ErrSubgroup
	}
	return p, nil
}

// Raw is the uncompressed form (identity as (0, 1)).
func (g Group) Raw(p P) []byte {
	if p.Inf {
		p = Zero
	}
	out := make([]byte, 2*g.Size())
	if g == G1 {
		put48(out, p.X.A)
		put48(out[48:], p.Y.A)
		return out
	}
	put48(out, p.X.A)
	put48(out[48:], p.X.B)
	put48(out[96:], p.Y.A)
	put48(out[144:], p.Y.B)
	return out
}

// Enc is the harness's encoding of a point: 1 for the identity, otherwise 0
// and the raw form.
func (g Group) Enc(p P) []byte {
	if p.Inf {
		return []byte{1}
	}
	return append([]byte{0}, g.Raw(p)...)
}

// FromEnc reads Enc.
func (g Group) FromEnc(b []byte) P {
	if b[0] == 1 {
		return Zero
	}
	b = b[1:]
	n := func(i int) *big.Int { return new(big.Int).SetBytes(b[48*i : 48*i+48]) }
	if g == G1 {
		return P{F2{n(0), zero}, F2{n(1), zero}, false}
	}
	return P{F2{n(0), n(1)}, F2{n(2), n(3)}, false}
}
