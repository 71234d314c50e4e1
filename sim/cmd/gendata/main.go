// gendata computes data/points.json from the independent model: curve points
// with known discrete logarithms, points outside the subgroup (including
// small-order ones) and points with special coordinates.
package main

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"os"

	"verifsim/ref"
)

type pt struct {
	G int    `json:"g"`
	N string `json:"n"` // class
	K string `json:"k,omitempty"`
	E string `json:"e"`
}

var out []pt

func add(g ref.Group, n string, k *big.Int, p ref.P) {
	if !g.OnCurve(p) {
		panic("not on curve: " + n)
	}
	x := pt{G: int(g), N: n, E: hex.EncodeToString(g.Enc(p))}
	if k != nil {
		x.K = k.Text(16)
	}
	out = append(out, x)
}

func cubeRoot(x ref.F2) (ref.F2, bool) {
	// q^2-1 = 3^s * t
	n := new(big.Int).Sub(new(big.Int).Mul(ref.Q, ref.Q), big.NewInt(1))
	three := big.NewInt(3)
	c := x.Exp(new(big.Int).Div(n, three))
	if !c.Eq(ref.Fi(1, 0)) {
		return x, false
	}
	t := new(big.Int).Set(n)
	s := 0
	for new(big.Int).Mod(t, three).Sign() == 0 {
		t.Div(t, three)
		s++
	}
	// a non-cube
	var z ref.F2
	for i := int64(1); ; i++ {
		z = ref.Fi(i, 1)
		if !z.Exp(new(big.Int).Div(n, three)).Eq(ref.Fi(1, 0)) {
			break
		}
	}
	g := z.Exp(t) // generates the 3-Sylow subgroup
	// y = x^e with 3e = 1 mod t, then fix x^(3e-1) in the Sylow subgroup
	e := new(big.Int).ModInverse(three, t)
	y := x.Exp(e)
	d := y.Mul(y).Mul(y).Mul(x.Inv()) // in the Sylow subgroup, a cube
	// find k: g^(3k) = d by trying all (3^s small)
	tot := new(big.Int).Exp(three, big.NewInt(int64(s-1)), nil)
	g3 := g.Mul(g).Mul(g)
	acc := ref.Fi(1, 0)
	for k := int64(0); k < tot.Int64(); k++ {
		if acc.Eq(d) {
			r := y.Mul(g.Exp(big.NewInt(k)).Inv())
			return r, true
		}
		acc = acc.Mul(g3)
	}
	panic("cube root")
}

func hexI(s string) *big.Int { x, _ := new(big.Int).SetString(s, 16); return x }

func main() {
	h1 := hexI("396c8c005555e1568c00aaab0000aaab")
	h2 := hexI("5d543a95414e7f1091d50792876a202cd91de4547085abaa68a205b2e5a7ddfa628f1cb4d9e82ef21537e293a6691ae1616ec6e786f0c70cf1c38e31c7238e5")
	var ks []*big.Int
	ki := func(x int64) { ks = append(ks, big.NewInt(x)) }
	for i := int64(0); i <= 10; i++ {
		ki(i)
	}
	for i := int64(1); i <= 6; i++ {
		ks = append(ks, new(big.Int).Sub(ref.R, big.NewInt(i)))
	}
	half := new(big.Int).Rsh(ref.R, 1)
	ks = append(ks, half, new(big.Int).Add(half, big.NewInt(1)))
	for _, b := range []uint{8, 16, 31, 32, 63, 64, 65, 127, 128, 192, 254} {
		p := new(big.Int).Lsh(big.NewInt(1), b)
		ks = append(ks, p, new(big.Int).Sub(p, big.NewInt(1)))
	}
	x := big.NewInt(0x1234567)
	for i := 0; i < 24; i++ {
		x = new(big.Int).Exp(new(big.Int).Add(x, big.NewInt(int64(i+3))), big.NewInt(65537), ref.R)
		ks = append(ks, x)
	}
	for _, g := range []ref.Group{ref.G1, ref.G2} {
		for _, k := range ks {
			add(g, "sub", k, g.Gen().Mul(k))
		}
		h := h1
		primes := []int64{3, 11, 10177, 859267, 52437899}
		if g == ref.G2 {
			h = h2
			primes = []int64{13, 23, 2713, 11953, 262069}
		}
		// points with small x
		n := 0
		for i := int64(0); n < 8; i++ {
			x := ref.Fi(i, 0)
			if g == ref.G2 && i%3 == 1 {
				x = ref.Fi(0, i)
			} else if g == ref.G2 && i%3 == 2 {
				x = ref.Fi(i, i)
			}
			if p, ok := g.FromX(x, i%2 == 0); ok {
				n++
				add(g, "smallx", nil, p)
				add(g, "smallx", nil, p.Neg())
				add(g, "cleared", nil, p.Mul(h))
				add(g, "torsion", nil, p.Mul(ref.R))
				add(g, "sub+tors", nil, p.Mul(ref.R).Add(g.Gen().Mul(big.NewInt(n2(n)))))
			}
		}
		// large x
		n = 0
		for i := int64(1); n < 4; i++ {
			x := ref.Fi(-i, 0)
			if g == ref.G2 {
				x = ref.Fi(-i, -1)
			}
			if p, ok := g.FromX(x, i%2 == 0); ok {
				n++
				add(g, "largex", nil, p)
			}
		}
		// small orders
		full := new(big.Int).Mul(h, ref.R)
		for _, pr := range primes {
			e := new(big.Int).Set(full)
			P := big.NewInt(pr)
			for new(big.Int).Mod(e, P).Sign() == 0 {
				e.Div(e, P)
			}
			for i := int64(1); ; i++ {
				xx := ref.Fi(i*7+1, 0)
				if g == ref.G2 {
					xx = ref.Fi(i*7+1, i)
				}
				p, ok := g.FromX(xx, false)
				if !ok {
					continue
				}
				p = p.Mul(e)
				if p.Inf {
					continue
				}
				for q := p.Mul(P); !q.Inf; q = p.Mul(P) {
					p = q
				}
				if !p.Mul(full).Inf {
					panic("order")
				}
				add(g, fmt.Sprintf("order%d", pr), nil, p)
				add(g, fmt.Sprintf("gen+order%d", pr), nil, p.Add(g.Gen()))
				break
			}
		}
		if g == ref.G2 {
			nz := map[string]int{}
			for i := int64(1); nz["a"] < 6 || nz["b"] < 6; i++ {
				for _, w := range []string{"a", "b"} {
					if nz[w] >= 6 {
						continue
					}
					v := i
					if i%2 == 0 {
						v = -i
					}
					y := ref.Fi(v, 0)
					if w == "b" {
						y = ref.Fi(0, v)
					}
					c := y.Sq().Sub(g.B())
					if r, ok := cubeRoot(c); ok {
						nz[w]++
						add(g, "specialy", nil, ref.P{X: r, Y: y})
						add(g, "specialy", nil, ref.P{X: r, Y: y}.Neg())
					}
				}
			}
		}
	}
	b, _ := json.Marshal(out)
	s := "[\n"
	var items []json.RawMessage
	json.Unmarshal(b, &items)
	for i, it := range items {
		if i > 0 {
			s += ",\n"
		}
		s += string(it)
	}
	s += "\n]\n"
	os.Stdout.WriteString(s)
}

func n2(n int) int64 { return int64(n*n + 2) }
