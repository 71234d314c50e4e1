package props

import (
	"fmt"
	"math/big"

	"verifsim/core"
	"verifsim/ref"
	"verifsim/sim"
	"verifsim/tape"
)

// walk produces many different values of every kind: point number i of a
// group is P + i*G.
type walk struct {
	s    *tape.Stream
	at   map[ref.Group]ref.P
	fam  int
	kind int
	base []byte
	n    int
}

func newWalk(s *tape.Stream, fam int) *walk {
	w := &walk{s: s, at: map[ref.Group]ref.P{}, fam: fam, kind: s.N(4)}
	w.base = s.Bytes([]int{8, 32, 40, 64, 130, 300}[s.N(6)])
	for _, g := range []ref.Group{ref.G1, ref.G2} {
		w.at[g] = g.Gen().Mul(big.NewInt(int64(2 + s.N(1<<20))))
	}
	return w
}

func (w *walk) point(g ref.Group) ref.P {
	w.at[g] = w.at[g].Add(g.Gen())
	return w.at[g]
}

func (w *walk) value(k core.Kind) []byte {
	w.n++
	switch k {
	case core.G1A, core.G1P, core.PK1, core.SG2:
		return ref.G1.Enc(w.point(ref.G1))
	case core.G2A, core.G2P, core.PK2, core.SG1, core.Prep:
		return ref.G2.Enc(w.point(ref.G2))
	case core.B48:
		return ref.G1.Compress(w.point(ref.G1))
	case core.B96:
		return ref.G2.Compress(w.point(ref.G2))
	case core.B192:
		return ref.G2.Raw(w.point(ref.G2))
	case core.Msg, core.Hash:
		b := append([]byte{}, w.base...)
		switch w.kind {
		case 0: // counted at the end
			b[len(b)-1], b[len(b)-2] = byte(w.n), byte(w.n>>8)
		case 1: // at the start
			b[0], b[1] = byte(w.n), byte(w.n>>8)
		case 2: // by length
			b = append(b, make([]byte, w.n%512)...)
			b[0] = byte(w.n / 512)
		default:
			b = w.s.Bytes(4 + len(b)/8)
		}
		return b
	case core.B32:
		b := w.s.Bytes(32)
		b[0] &= 0x3f
		return b
	case core.FR, core.SK1, core.SK2, core.FRRepr:
		return fill(new(big.Int).Mod(new(big.Int).SetBytes(w.s.Bytes(32)), ref.R), 32)
	case core.FQ, core.FQ2, core.FQ6, core.FQ12:
		n := map[core.Kind]int{core.FQ: 1, core.FQ2: 2, core.FQ6: 6, core.FQ12: 12}[k]
		var b []byte
		for ; n > 0; n-- {
			b = append(b, fill(new(big.Int).Mod(new(big.Int).SetBytes(w.s.Bytes(48)), ref.Q), 48)...)
		}
		return b
	case core.FQRepr:
		return fill(new(big.Int).Mod(new(big.Int).SetBytes(w.s.Bytes(48)), ref.Q), 48)
	}
	return NewVal(w.s, k, w.fam, 0)
}

// call makes a call with values that did not occur before.
func (w *walk) call(op *core.Op) Inv {
	inv := Inv{Op: op.Name}
	one := func(k core.Kind) Val { return Val{K: k, B: hexStr(w.value(k))} }
	n := 1 + w.s.N(3)
	for _, a := range op.Args {
		switch {
		case a.K == core.MLI:
			v := Val{K: a.K, List: true}
			for i := 0; i < n; i++ {
				v.L = append(v.L, one(core.G1A), one(core.Prep))
			}
			inv.Args = append(inv.Args, v)
		case a.List:
			v := Val{K: a.K, List: true}
			for i := 0; i < n; i++ {
				v.L = append(v.L, one(a.K))
			}
			inv.Args = append(inv.Args, v)
		default:
			inv.Args = append(inv.Args, one(a.K))
		}
	}
	return inv
}

// honest turns a verification of unrelated values into one of a valid claim.
func (w *walk) honest(r *sim.Run, inv *Inv) {
	pkg, pk, sg, sk, g := "g1pubs", core.PK1, core.SG1, core.SK1, ref.G1
	if inv.Op == "g2pubs.Verify" {
		pkg, pk, sg, sk, g = "g2pubs", core.PK2, core.SG2, core.SK2, ref.G2
	} else if inv.Op != "g1pubs.Verify" {
		return
	}
	k := new(big.Int).SetInt64(int64(2 + w.s.N(1<<30)))
	sign := Inv{Op: pkg + ".Sign", Args: []Val{{K: core.Msg}, {K: sk, B: hexStr(fill(k, 32))}}}
	for i, a := range inv.Args {
		switch a.K {
		case core.Msg:
			sign.Args[0].B = a.B
		case pk:
			inv.Args[i].B = hexStr(g.Enc(g.Gen().Mul(k)))
		}
	}
	out := Evaluate(r, r.Lib, sign)
	if out.Panic || len(out.Outs) != 1 {
		return
	}
	for i, a := range inv.Args {
		if a.K == sg {
			inv.Args[i].B = out.Outs[0]
		}
	}
}

// marathon calls one or two operations with very many different values and
// then makes some of the calls again.
func marathon(r *sim.Run, focus []*core.Op) {
	c := r.S("marathon")
	names := []string{"bls.HashG1", "bls.HashG2", "bls.HashG2WithDomain", "g1pubs.Sign", "g2pubs.Sign", "g1pubs.Verify", "g2pubs.Verify", "bls.DecompressG1", "bls.DecompressG2",
		"bls.CompressG1", "bls.CompressG2", "g1pubs.PrivToPub", "g2pubs.PrivToPub", "g1pubs.DeriveSecretKey", "bls.HashSecretKey", "g1pubs.DeserializeSignature", "g2pubs.DeserializePublicKey", "bls.G2AffineToPrepared", "G1Projective.ToAffine", "G2Projective.ToAffine"}
	if len(focus) > 0 {
		names = nil
		for _, op := range focus {
			names = append(names, op.Name)
		}
	}
	var ops []*core.Op
	cost := 0
	for i := 1 + c.N(2); i > 0; i-- {
		op := r.Lib.Op(names[c.N(len(names))])
		if op == nil || !usable(op) {
			continue
		}
		skip := false
		for _, a := range op.Args {
			if a.K == core.Rd || a.K == core.Hash {
				skip = true
			}
		}
		if !skip {
			ops = append(ops, op)
			cost += op.Cost
		}
	}
	if len(ops) == 0 {
		return
	}
	sizes := []int{20, 40, 70, 140, 270, 530, 1050, 2100, 4200}
	for len(sizes) > 1 && sizes[len(sizes)-1]*(cost+20) > 400000 {
		sizes = sizes[:len(sizes)-1]
	}
	n := sizes[len(sizes)-1-c.N(len(sizes))/2]
	w := newWalk(r.S("walk"), c.N(3))
	valid := c.P(50)
	keep := map[int]bool{0: true, 1: true, 2: true, n - 1: true, n - 2: true}
	for i := 0; i < 12; i++ {
		keep[c.N(n)] = true
	}
	type rec struct {
		i   int
		inv Inv
		out Out
	}
	var recs []rec
	r.Ev("%d different calls of %s and %d more", n, ops[0].Name, len(ops)-1)
	r.Shape(fmt.Sprint(ops[0].Name, n))
	for i := 0; i < n; i++ {
		op := ops[i%len(ops)]
		inv := w.call(op)
		if valid {
			w.honest(r, &inv)
		}
		out := Evaluate(r, r.Lib, inv)
		r.Stat("calls", 1)
		if out.Note != "" {
			r.Fail("changed:"+op.Name, "%s: %s", op.Name, out.Note)
		}
		if keep[i] {
			recs = append(recs, rec{i, inv, out})
		}
		if c.P(3) && len(recs) > 0 { // one of the earlier ones in between
			k := recs[c.N(len(recs))]
			if again := Evaluate(r, r.Lib, k.inv); again.key() != k.out.key() {
				r.Fail("result:"+k.inv.Op, "%s, call %d, returned %s; after %d calls with other operands it returns %s for equal ones", k.inv.Op, k.i, k.out.brief(), i, again.brief())
			}
		}
	}
	for x, k := range recs {
		if again := Evaluate(r, r.Lib, k.inv); again.key() != k.out.key() {
			r.Fail("result:"+k.inv.Op, "%s, call %d, returned %s; after %d calls with other operands it returns %s for equal ones", k.inv.Op, k.i, k.out.brief(), n, again.brief())
		}
		r.Stat("calls repeated within the history", 1)
		if x%3 == 0 || k.i >= n-2 {
			outs := evalFresh(r, []Inv{k.inv})
			if outs == nil {
				r.Fail("fresh:"+k.inv.Op, "%s with the operands of call %d ends the process when it is the first call", k.inv.Op, k.i)
			}
			if outs[0].key() != k.out.key() {
				r.Fail("result:"+k.inv.Op, "%s, call %d, returned %s; the same call on equal operands in a fresh process returns %s", k.inv.Op, k.i, k.out.brief(), outs[0].brief())
			}
		}
	}
	r.Stat("histories", 1)
	r.Stat("marathons", 1)
}
