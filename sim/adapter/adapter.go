// Package adapter gives the simulator uniform access to one build of the
// library through its exported interface only. The build tool makes a second
// copy of this package for the portable build.
package adapter

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"hash"
	"io"
	"math/big"
	"reflect"
	"sort"
	"strings"

	"github.com/phoreproject/bls"
	"github.com/phoreproject/bls/g1pubs"
	"github.com/phoreproject/bls/g2pubs"

	"verifsim/core"
)

// BuildName names the build.
const BuildName = "native"

type lib struct {
	ops  []*core.Op
	by   map[string]*core.Op
	cons []core.Const
}

// New returns the adapter.
func New() core.Lib {
	l := &lib{by: map[string]*core.Op{}}
	l.build()
	return l
}

var kinds = map[reflect.Type]core.Kind{
	reflect.TypeOf(bls.FQ{}):           core.FQ,
	reflect.TypeOf(bls.FQ2{}):          core.FQ2,
	reflect.TypeOf(bls.FQ6{}):          core.FQ6,
	reflect.TypeOf(bls.FQ12{}):         core.FQ12,
	reflect.TypeOf(bls.FR{}):           core.FR,
	reflect.TypeOf(bls.FRRepr{}):       core.FRRepr,
	reflect.TypeOf(bls.FQRepr{}):       core.FQRepr,
	reflect.TypeOf(bls.G1Affine{}):     core.G1A,
	reflect.TypeOf(bls.G1Projective{}): core.G1P,
	reflect.TypeOf(bls.G2Affine{}):     core.G2A,
	reflect.TypeOf(bls.G2Projective{}): core.G2P,
	reflect.TypeOf(bls.G2Prepared{}):   core.Prep,
	reflect.TypeOf(g1pubs.SecretKey{}): core.SK1,
	reflect.TypeOf(g1pubs.PublicKey{}): core.PK1,
	reflect.TypeOf(g1pubs.Signature{}): core.SG1,
	reflect.TypeOf(g2pubs.SecretKey{}): core.SK2,
	reflect.TypeOf(g2pubs.PublicKey{}): core.PK2,
	reflect.TypeOf(g2pubs.Signature{}): core.SG2,
	reflect.TypeOf([]byte{}):           core.Msg,
	reflect.TypeOf([8]byte{}):          core.B8,
	reflect.TypeOf([32]byte{}):         core.B32,
	reflect.TypeOf([48]byte{}):         core.B48,
	reflect.TypeOf([96]byte{}):         core.B96,
	reflect.TypeOf([192]byte{}):        core.B192,
	reflect.TypeOf([6]uint64{}):        core.W6,
	reflect.TypeOf(big.Int{}):          core.Big,
	reflect.TypeOf(uint64(0)):          core.U64,
	reflect.TypeOf(uint(0)):            core.Uint,
	reflect.TypeOf(uint8(0)):           core.U8,
	reflect.TypeOf(true):               core.Bool,
	reflect.TypeOf(0):                  core.Int,
	reflect.TypeOf(""):                 core.Str,
	reflect.TypeOf(bls.LegendreZero):   core.Other,
}

var (
	tErr    = reflect.TypeOf((*error)(nil)).Elem()
	tReader = reflect.TypeOf((*io.Reader)(nil)).Elem()
	tHash   = reflect.TypeOf((*hash.Hash)(nil)).Elem()
	tMLI    = reflect.TypeOf([]bls.MillerLoopItem{})
)

func argOf(t reflect.Type) (core.Arg, bool) {
	switch t {
	case tErr:
		return core.Arg{K: core.Err}, true
	case tReader:
		return core.Arg{K: core.Rd}, true
	case tHash:
		return core.Arg{K: core.Hash}, true
	case tMLI:
		return core.Arg{K: core.MLI}, true
	}
	if k, ok := kinds[t]; ok {
		return core.Arg{K: k, Ptr: k == core.Msg}, true
	}
	if t.Kind() == reflect.Ptr {
		if k, ok := kinds[t.Elem()]; ok {
			return core.Arg{K: k, Ptr: true}, true
		}
	}
	if t.Kind() == reflect.Slice {
		a, ok := argOf(t.Elem())
		if ok && !a.List {
			a.List = true
			return a, true
		}
	}
	return core.Arg{}, false
}

var mutators = map[string]bool{"Rsh": true, "Lsh": true, "Div2": true, "Mul2": true, "SetRawBytes": true, "Aggregate": true,
	"FRRepr.AddNoCarry": true, "FRRepr.SubNoBorrow": true, "FQRepr.AddNoCarry": true, "FQRepr.SubNoBorrow": true}

var costs = []struct {
	sub string
	us  int
}{
	{"VerifyAggregate", 60000}, {"g1pubs.Signature.", 60}, {"g2pubs.Signature.", 60}, {"DeserializeSecretKey", 10}, {"g1pubs.Verify", 25000}, {"g2pubs.Verify", 18000}, {"CompareTwoPairings", 16000}, {"bls.Pairing", 12000},
	{"FinalExponentiation", 6000}, {"MillerLoop", 6000}, {"bls.RandG2", 12000}, {"bls.HashG2", 5000}, {"bls.SWEncodeG2", 2500}, {"bls.OptimizedSWU2", 2500}, {"g1pubs.Sign", 8000},
	{"g2pubs.Sign", 3000}, {"bls.HashG1", 1200}, {"bls.RandG1", 2000}, {"DecompressG2", 4500}, {"DeserializeSig", 4500}, {"Deserialize", 3000}, {"DecompressG1", 2000},
	{"G2Affine.ScaleByCofactor", 7000}, {"G2Affine.Mul", 4500}, {"G2Projective.Mul", 4500}, {"G2Affine.IsIn", 4500},
	{"G1Affine.Mul", 1500}, {"G1Projective.Mul", 1500}, {"G1Affine.IsIn", 1500}, {"G1Affine.Scale", 800}, {"bls.ClearH", 800},
	{"PrivToPub", 3000}, {"G2AffineToPrepared", 1500}, {"GetG2Point", 900}, {"GetG1Point", 300}, {"FQ12.Exp", 5000}, {"FQ6.Exp", 2500}, {"FQ2.Exp", 600}, {"FQ2.Sqrt", 900}, {"FQ2.Legendre", 400},
	{"Sqrt", 200}, {"Legendre", 200}, {"Exp", 200}, {"FQ12", 60}, {"Aggregate", 60},
}

func cost(n string) int {
	for _, c := range costs {
		if strings.Contains(n, c.sub) {
			return c.us
		}
	}
	return 10
}

func (l *lib) add(name string, fn reflect.Value, method bool) {
	t := fn.Type()
	if t.IsVariadic() {
		return
	}
	op := &core.Op{Name: name, Cost: cost(name)}
	for i := 0; i < t.NumIn(); i++ {
		a, ok := argOf(t.In(i))
		if !ok {
			return
		}
		op.Args = append(op.Args, a)
	}
	for i := 0; i < t.NumOut(); i++ {
		a, ok := argOf(t.Out(i))
		if !ok {
			a = core.Arg{K: core.Other}
		}
		op.Outs = append(op.Outs, a)
	}
	short := name[strings.LastIndexByte(name, '.')+1:]
	op.Mut = method && (strings.HasSuffix(short, "Assign") || mutators[short] || mutators[name])
	args := op.Args
	// FR.MulAssign has a value receiver but changes the element it refers to.
	op.Call = func(in []interface{}) []interface{} {
		vs := make([]reflect.Value, len(in))
		for i, a := range in {
			vs[i] = toValue(t.In(i), args[i], a)
		}
		outs := fn.Call(vs)
		res := make([]interface{}, len(outs))
		for i, o := range outs {
			res[i] = fromValue(o)
		}
		return res
	}
	l.ops = append(l.ops, op)
	l.by[name] = op
}

// toValue converts a pool reference to the parameter type.
func toValue(t reflect.Type, a core.Arg, v interface{}) reflect.Value {
	if a.List {
		lv := v.(*core.ListV)
		if lv.Native == nil {
			makeList(t, a, lv)
		}
		return lv.Native.(reflect.Value)
	}
	switch a.K {
	case core.Rd:
		return reflect.ValueOf(v)
	case core.Hash:
		return reflect.ValueOf(v)
	case core.MLI:
		lv := v.(*core.ListV)
		if lv.Native == nil {
			makeMLI(lv)
		}
		return lv.Native.(reflect.Value)
	}
	rv := reflect.ValueOf(v)
	if rv.Kind() == reflect.Ptr && t.Kind() != reflect.Ptr {
		return rv.Elem()
	}
	return rv
}

const spare = 2

// makeList builds the slice for a list operand, with guard elements in its
// spare capacity.
func makeList(t reflect.Type, a core.Arg, lv *core.ListV) {
	ea := a
	ea.List = false
	n := len(lv.Items)
	var want []interface{}
	full := reflect.MakeSlice(t, n+spare, n+spare)
	ident := func(i int) interface{} {
		e := full.Index(i)
		switch e.Kind() {
		case reflect.Ptr:
			return e.Pointer()
		case reflect.Slice:
			return [2]uintptr{e.Pointer(), uintptr(e.Len())}
		}
		return e.Interface()
	}
	for i, it := range lv.Items {
		full.Index(i).Set(toValue(t.Elem(), ea, it))
	}
	for i := 0; i < n+spare; i++ {
		want = append(want, ident(i))
	}
	lv.Native = full.Slice(0, n)
	if lv.Items == nil {
		lv.Native = reflect.Zero(t)
	}
	lv.Check = func() string {
		for i := range want {
			if ident(i) != want[i] {
				if i >= n {
					return "memory behind the caller's list was overwritten"
				}
				return fmt.Sprintf("element %d of the caller's list was replaced", i)
			}
		}
		return ""
	}
}

func makeMLI(lv *core.ListV) {
	n := len(lv.Items) / 2
	full := make([]bls.MillerLoopItem, n+spare)
	for i := 0; i < n; i++ {
		full[i] = bls.MillerLoopItem{P: lv.Items[2*i].(*bls.G1Affine), Q: lv.Items[2*i+1].(*bls.G2Prepared)}
	}
	want := append([]bls.MillerLoopItem{}, full...)
	lv.Native = reflect.ValueOf(full[:n])
	lv.Check = func() string {
		for i := range want {
			if full[i] != want[i] {
				return fmt.Sprintf("element %d of the caller's list was replaced", i)
			}
		}
		return ""
	}
}

// Prime makes the library-side form of a list.
func (l *lib) Prime(a core.Arg, lv *core.ListV) {
	if lv.Native != nil {
		return
	}
	if a.K == core.MLI {
		makeMLI(lv)
		return
	}
	for t, k := range kinds {
		if k != a.K {
			continue
		}
		if a.Ptr && a.K != core.Msg {
			t = reflect.PtrTo(t)
		}
		makeList(reflect.SliceOf(t), a, lv)
		return
	}
}

const guardLen = 32

// Guard reports damage behind a byte string.
func (l *lib) Guard(k core.Kind, v interface{}) string {
	if k != core.Msg || v == nil {
		return ""
	}
	b := *(v.(*[]byte))
	if cap(b) < len(b)+guardLen {
		return ""
	}
	for _, x := range b[len(b) : len(b)+guardLen] {
		if x != 0xa5 {
			return "memory behind the caller's message was overwritten"
		}
	}
	return ""
}

// fromValue converts a result to a pool reference: a pointer to the object.
func fromValue(o reflect.Value) interface{} {
	switch o.Kind() {
	case reflect.Ptr:
		if o.IsNil() {
			return nil
		}
		return o.Interface()
	case reflect.Interface:
		if o.IsNil() {
			return nil
		}
		return o.Interface()
	}
	if _, ok := kinds[o.Type()]; ok {
		p := reflect.New(o.Type())
		p.Elem().Set(o)
		return p.Interface()
	}
	return o.Interface()
}

func (l *lib) build() {
	seen := map[reflect.Type]bool{}
	type tn struct {
		t reflect.Type
		n string
	}
	var ts []tn
	for t, k := range kinds {
		if core.IsObject(k) && t.PkgPath() != "" && t.PkgPath() != "math/big" && !seen[t] {
			seen[t] = true
			n := t.Name()
			if strings.HasSuffix(t.PkgPath(), "g1pubs") {
				n = "g1pubs." + n
			} else if strings.HasSuffix(t.PkgPath(), "g2pubs") {
				n = "g2pubs." + n
			}
			ts = append(ts, tn{t, n})
		}
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].n < ts[j].n })
	for _, x := range ts {
		pt := reflect.PtrTo(x.t)
		for i := 0; i < pt.NumMethod(); i++ {
			m := pt.Method(i)
			l.add(x.n+"."+m.Name, m.Func, true)
		}
	}
	fns := map[string]interface{}{
		"bls.NewFQ2": bls.NewFQ2, "bls.NewFQ6": bls.NewFQ6, "bls.NewFQ12": bls.NewFQ12,
		"bls.FQReprToFQ": bls.FQReprToFQ, "bls.FQReprToFQRaw": bls.FQReprToFQRaw, "bls.FRReprToFR": bls.FRReprToFR,
		"bls.NewFQRepr": bls.NewFQRepr, "bls.NewFRRepr": bls.NewFRRepr,
		"bls.FQReprFromBytes": bls.FQReprFromBytes, "bls.FRReprFromBytes": bls.FRReprFromBytes,
		"bls.FQReprFromBigInt": bls.FQReprFromBigInt, "bls.FRReprFromBigInt": bls.FRReprFromBigInt,
		"bls.HashFQ": bls.HashFQ, "bls.HashFQ2": bls.HashFQ2, "bls.HashFR": bls.HashFR,
		"bls.HashSecretKey": bls.HashSecretKey, "bls.HashG1": bls.HashG1, "bls.HashG2": bls.HashG2, "bls.HashG2WithDomain": bls.HashG2WithDomain,
		"bls.ClearH": bls.ClearH,
		"bls.RandFQ": bls.RandFQ, "bls.RandFQ2": bls.RandFQ2, "bls.RandFQ6": bls.RandFQ6, "bls.RandFQ12": bls.RandFQ12, "bls.RandFR": bls.RandFR,
		"bls.RandG1": bls.RandG1, "bls.RandG2": bls.RandG2,
		"bls.NewG1Affine": bls.NewG1Affine, "bls.NewG2Affine": bls.NewG2Affine,
		"bls.NewG1Projective": bls.NewG1Projective, "bls.NewG2Projective": bls.NewG2Projective,
		"bls.GetG1PointFromX": bls.GetG1PointFromX, "bls.GetG2PointFromX": bls.GetG2PointFromX,
		"bls.CompressG1": bls.CompressG1, "bls.CompressG2": bls.CompressG2,
		"bls.DecompressG1": bls.DecompressG1, "bls.DecompressG2": bls.DecompressG2,
		"bls.DecompressG1Unchecked": bls.DecompressG1Unchecked, "bls.DecompressG2Unchecked": bls.DecompressG2Unchecked,
		"bls.G2AffineToPrepared": bls.G2AffineToPrepared, "bls.MillerLoop": bls.MillerLoop, "bls.FinalExponentiation": bls.FinalExponentiation,
		"bls.Pairing": bls.Pairing, "bls.CompareTwoPairings": bls.CompareTwoPairings,
		"bls.MultiplyFQRepr": bls.MultiplyFQRepr, "bls.MontReduce": bls.MontReduce, "bls.AddNoCarry": bls.AddNoCarry, "bls.SubNoBorrow": bls.SubNoBorrow,
		"bls.AddWithCarry": bls.AddWithCarry, "bls.SubWithBorrow": bls.SubWithBorrow, "bls.MACWithCarry": bls.MACWithCarry,
		"g1pubs.NewSignatureFromG2": g1pubs.NewSignatureFromG2, "g1pubs.NewPublicKeyFromG1": g1pubs.NewPublicKeyFromG1,
		"g1pubs.DeserializeSignature": g1pubs.DeserializeSignature, "g1pubs.DeserializePublicKey": g1pubs.DeserializePublicKey,
		"g1pubs.DeserializeSecretKey": g1pubs.DeserializeSecretKey, "g1pubs.DeriveSecretKey": g1pubs.DeriveSecretKey, "g1pubs.KeyFromFQRepr": g1pubs.KeyFromFQRepr,
		"g1pubs.Sign": g1pubs.Sign, "g1pubs.SignWithDomain": g1pubs.SignWithDomain, "g1pubs.PrivToPub": g1pubs.PrivToPub, "g1pubs.RandKey": g1pubs.RandKey,
		"g1pubs.Verify": g1pubs.Verify, "g1pubs.VerifyWithDomain": g1pubs.VerifyWithDomain,
		"g1pubs.AggregateSignatures": g1pubs.AggregateSignatures, "g1pubs.AggregatePublicKeys": g1pubs.AggregatePublicKeys,
		"g1pubs.NewAggregateSignature": g1pubs.NewAggregateSignature, "g1pubs.NewAggregatePubkey": g1pubs.NewAggregatePubkey,
		"g2pubs.NewSignatureFromG1": g2pubs.NewSignatureFromG1, "g2pubs.NewPublicKeyFromG2": g2pubs.NewPublicKeyFromG2,
		"g2pubs.DeserializeSignature": g2pubs.DeserializeSignature, "g2pubs.DeserializePublicKey": g2pubs.DeserializePublicKey,
		"g2pubs.DeserializeSecretKey": g2pubs.DeserializeSecretKey, "g2pubs.DeriveSecretKey": g2pubs.DeriveSecretKey, "g2pubs.KeyFromFQRepr": g2pubs.KeyFromFQRepr,
		"g2pubs.Sign": g2pubs.Sign, "g2pubs.PrivToPub": g2pubs.PrivToPub, "g2pubs.RandKey": g2pubs.RandKey, "g2pubs.Verify": g2pubs.Verify,
		"g2pubs.AggregateSignatures": g2pubs.AggregateSignatures, "g2pubs.AggregatePublicKeys": g2pubs.AggregatePublicKeys,
		"g2pubs.NewAggregateSignature": g2pubs.NewAggregateSignature, "g2pubs.NewAggregatePubkey": g2pubs.NewAggregatePubkey,
	}
	fns["bls.SWEncodeG2"], fns["bls.OptimizedSWU2MapHelper"] = bls.SWEncodeG2, bls.OptimizedSWU2MapHelper
	text := func(x *big.Int, b uint8) (string, uint) {
		base := []int{10, 16, 2, 8, 36, 62, 3, 32}[b&7]
		t := x.Text(base)
		switch b >> 3 & 7 {
		case 5:
			t += "?" // not a number
		case 6:
			t = ""
		case 7:
			t = t[:1] + "-" + t[1:]
		}
		return t, uint(base)
	}
	fns["bls.FQReprFromString"] = func(x *big.Int, b uint8) (bls.FQRepr, error) { return bls.FQReprFromString(text(x, b)) }
	fns["bls.FRReprFromString"] = func(x *big.Int, b uint8) (*bls.FRRepr, error) { return bls.FRReprFromString(text(x, b)) }
	fns["bls.NewBitIterator"] = func(w *bls.FQRepr, n uint8) string {
		if w == nil {
			return ""
		}
		words := w[:n%7]
		it, other := bls.NewBitIterator(words), bls.NewBitIterator(words)
		var out []byte
		for i := 0; i < 400; i++ {
			if n&8 != 0 && i%3 == 1 {
				other.Next()
			}
			bit, done := it.Next()
			if done {
				out = append(out, '.')
				break
			}
			if bit {
				out = append(out, '1')
			} else {
				out = append(out, '0')
			}
		}
		return string(out)
	}
	var names []string
	for n := range fns {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		l.add(n, reflect.ValueOf(fns[n]), false)
	}
	c := func(n string, k core.Kind, v interface{}) { l.cons = append(l.cons, core.Const{Name: n, K: k, V: v}) }
	c("FQZero", core.FQ, &bls.FQZero)
	c("FQOne", core.FQ, &bls.FQOne)
	c("QFieldModulus", core.FQRepr, &bls.QFieldModulus)
	c("FQR2", core.FQRepr, &bls.FQR2)
	c("BCoeff", core.FQ, &bls.BCoeff)
	c("FQ2Zero", core.FQ2, &bls.FQ2Zero)
	c("FQ2One", core.FQ2, &bls.FQ2One)
	c("BCoeffFQ2", core.FQ2, &bls.BCoeffFQ2)
	c("FQ6Zero", core.FQ6, bls.FQ6Zero)
	c("FQ6One", core.FQ6, bls.FQ6One)
	c("FQ12Zero", core.FQ12, bls.FQ12Zero)
	c("FQ12One", core.FQ12, bls.FQ12One)
	c("RFieldModulus", core.FRRepr, bls.RFieldModulus)
	c("FRR", core.FRRepr, bls.FRR)
	c("FRR2", core.FRRepr, bls.FRR2)
	c("G1AffineZero", core.G1A, bls.G1AffineZero)
	c("G1AffineOne", core.G1A, bls.G1AffineOne)
	c("G1ProjectiveZero", core.G1P, bls.G1ProjectiveZero)
	c("G1ProjectiveOne", core.G1P, bls.G1ProjectiveOne)
	c("G2AffineZero", core.G2A, bls.G2AffineZero)
	c("G2AffineOne", core.G2A, bls.G2AffineOne)
	c("G2ProjectiveZero", core.G2P, bls.G2ProjectiveZero)
	c("G2ProjectiveOne", core.G2P, bls.G2ProjectiveOne)
}

func (l *lib) Build() string        { return BuildName }
func (l *lib) Ops() []*core.Op      { return l.ops }
func (l *lib) Op(n string) *core.Op { return l.by[n] }
func (l *lib) Consts() []core.Const { return l.cons }

// hexes extracts the field elements of a printed value.
func hexes(s string) []byte {
	var out []byte
	for {
		i := strings.Index(s, "0x")
		if i < 0 {
			return out
		}
		s = s[i+2:]
		j := 0
		for j < len(s) && strings.IndexByte("0123456789abcdef", s[j]) >= 0 {
			j++
		}
		b, err := hex.DecodeString(s[:j])
		if err != nil {
			panic("unreadable printed value: " + s[:j])
		}
		out = append(out, b...)
		s = s[j:]
	}
}

func frBytes(f *bls.FR) []byte { b := f.Bytes(); return b[:] }

// Enc gives the canonical encoding of the value of an object.
func (l *lib) Enc(k core.Kind, v interface{}) []byte {
	if v == nil {
		return []byte("<nil>")
	}
	switch k {
	case core.FQ:
		r := v.(*bls.FQ).ToRepr()
		b := r.Bytes()
		return b[:]
	case core.FQ2:
		return hexes(v.(*bls.FQ2).String())
	case core.FQ6:
		return hexes(v.(*bls.FQ6).String())
	case core.FQ12:
		return hexes(v.(*bls.FQ12).String())
	case core.FR:
		return frBytes(v.(*bls.FR))
	case core.FRRepr:
		b := v.(*bls.FRRepr).Bytes()
		return b[:]
	case core.FQRepr:
		b := v.(*bls.FQRepr).Bytes()
		return b[:]
	case core.G1A:
		return encG1(v.(*bls.G1Affine))
	case core.G1P:
		return encG1(v.(*bls.G1Projective).ToAffine())
	case core.G2A:
		return encG2(v.(*bls.G2Affine))
	case core.G2P:
		return encG2(v.(*bls.G2Projective).ToAffine())
	case core.Prep:
		return encPrep(v.(*bls.G2Prepared))
	case core.SK1:
		return frBytes(v.(*g1pubs.SecretKey).GetFRElement())
	case core.SK2:
		return frBytes(v.(*g2pubs.SecretKey).GetFRElement())
	case core.PK1:
		return encG1(v.(*g1pubs.PublicKey).GetPoint().ToAffine())
	case core.PK2:
		return encG2(v.(*g2pubs.PublicKey).GetPoint().ToAffine())
	case core.SG1:
		return encG2(v.(*g1pubs.Signature).GetPoint().ToAffine())
	case core.SG2:
		return encG1(v.(*g2pubs.Signature).GetPoint().ToAffine())
	case core.Msg:
		return append([]byte{}, *(v.(*[]byte))...)
	case core.Hash:
		return v.(hash.Hash).Sum(nil)
	case core.Big:
		b := v.(*big.Int)
		if b.Sign() < 0 {
			return append([]byte{'-'}, b.Bytes()...)
		}
		return append([]byte{'+'}, b.Bytes()...)
	case core.Err:
		return []byte("error: " + v.(error).Error())
	case core.B8, core.B32, core.B48, core.B96, core.B192:
		rv := reflect.ValueOf(v).Elem()
		out := make([]byte, rv.Len())
		reflect.Copy(reflect.ValueOf(out), rv)
		return out
	case core.W6:
		a := v.(*[6]uint64)
		out := make([]byte, 48)
		for i := range a {
			binary.BigEndian.PutUint64(out[i*8:], a[5-i])
		}
		return out
	}
	rv := reflect.ValueOf(v)
	if rv.Kind() == reflect.Ptr {
		rv = rv.Elem()
	}
	return []byte(fmt.Sprintf("%v", rv.Interface()))
}

func encG1(a *bls.G1Affine) []byte {
	if a.IsZero() {
		return []byte{1}
	}
	b := a.SerializeBytes()
	return append([]byte{0}, b[:]...)
}

func encG2(a *bls.G2Affine) []byte {
	if a.IsZero() {
		return []byte{1}
	}
	b := a.SerializeBytes()
	return append([]byte{0}, b[:]...)
}

// encPrep identifies a prepared point by its effect.
func encPrep(p *bls.G2Prepared) []byte {
	if p.IsZero() {
		return []byte{1}
	}
	f := bls.MillerLoop([]bls.MillerLoopItem{{P: bls.G1AffineOne, Q: p}})
	return hexes(f.String())
}

func fq(b []byte) bls.FQ {
	var x [48]byte
	copy(x[:], b)
	return bls.FQReprToFQ(bls.FQReprFromBytes(x))
}

func fq2(b []byte) bls.FQ2 { return bls.NewFQ2(fq(b[:48]), fq(b[48:96])) }
func fq6(b []byte) *bls.FQ6 {
	return bls.NewFQ6(fq2(b), fq2(b[96:]), fq2(b[192:]))
}

func decG1(b []byte) *bls.G1Affine {
	if b[0] == 1 {
		return bls.G1AffineZero.Copy()
	}
	return bls.NewG1Affine(fq(b[1:49]), fq(b[49:97]))
}

func decG2(b []byte) *bls.G2Affine {
	if b[0] == 1 {
		return bls.G2AffineZero.Copy()
	}
	return bls.NewG2Affine(fq2(b[1:97]), fq2(b[97:193]))
}

func frd(b []byte) *bls.FR {
	var x [32]byte
	copy(x[:], b)
	return bls.FRReprToFR(bls.FRReprFromBytes(x))
}

// Dec makes a fresh object from its canonical encoding.
func (l *lib) Dec(k core.Kind, b []byte) interface{} {
	switch k {
	case core.FQ:
		f := fq(b)
		return &f
	case core.FQ2:
		f := fq2(b)
		return &f
	case core.FQ6:
		return fq6(b)
	case core.FQ12:
		return bls.NewFQ12(fq6(b), fq6(b[288:]))
	case core.FR:
		return frd(b)
	case core.FRRepr:
		var x [32]byte
		copy(x[:], b)
		return bls.FRReprFromBytes(x)
	case core.FQRepr:
		var x [48]byte
		copy(x[:], b)
		r := bls.FQReprFromBytes(x)
		return &r
	case core.G1A:
		return decG1(b)
	case core.G1P:
		return decG1(b).ToProjective()
	case core.G2A:
		return decG2(b)
	case core.G2P:
		return decG2(b).ToProjective()
	case core.Prep:
		return bls.G2AffineToPrepared(decG2(b))
	case core.SK1, core.SK2:
		var x [32]byte
		copy(x[:], b)
		if k == core.SK1 {
			return g1pubs.DeserializeSecretKey(x)
		}
		return g2pubs.DeserializeSecretKey(x)
	case core.PK1:
		return g1pubs.NewPublicKeyFromG1(decG1(b))
	case core.PK2:
		return g2pubs.NewPublicKeyFromG2(decG2(b))
	case core.SG1:
		return g1pubs.NewSignatureFromG2(decG2(b))
	case core.SG2:
		return g2pubs.NewSignatureFromG1(decG1(b))
	case core.Msg:
		if b == nil { // a message that is not even allocated
			return new([]byte)
		}
		m := make([]byte, len(b)+guardLen)
		copy(m, b)
		for i := len(b); i < len(m); i++ {
			m[i] = 0xa5
		}
		m = m[:len(b)]
		return &m
	case core.Big:
		x := new(big.Int).SetBytes(b[1:])
		if b[0] == '-' {
			x.Neg(x)
		}
		return x
	case core.B8:
		var x [8]byte
		copy(x[:], b)
		return &x
	case core.B32:
		var x [32]byte
		copy(x[:], b)
		return &x
	case core.B48:
		var x [48]byte
		copy(x[:], b)
		return &x
	case core.B96:
		var x [96]byte
		copy(x[:], b)
		return &x
	case core.B192:
		var x [192]byte
		copy(x[:], b)
		return &x
	case core.W6:
		var x [6]uint64
		var t [48]byte
		copy(t[:], b)
		for i := range x {
			x[5-i] = binary.BigEndian.Uint64(t[i*8:])
		}
		return &x
	case core.U64, core.Uint, core.U8, core.Int:
		var t [8]byte
		copy(t[:], b)
		u := binary.BigEndian.Uint64(t[:])
		switch k {
		case core.U64:
			return &u
		case core.Uint:
			x := uint(u)
			return &x
		case core.U8:
			x := uint8(u)
			return &x
		}
		x := int(u)
		return &x
	case core.Bool:
		x := len(b) > 0 && b[0] != 0
		return &x
	case core.Str:
		s := string(b)
		return &s
	case core.Hash:
		h := sha256.New()
		h.Write(b)
		return h
	case core.Rd:
		return &stream{seed: append([]byte{}, b...)}
	}
	panic(errors.New("cannot make a " + string(k)))
}

// stream is an endless deterministic byte stream.
type stream struct {
	seed []byte
	ctr  uint64
	buf  bytes.Buffer
}

func (s *stream) Read(p []byte) (int, error) {
	for s.buf.Len() < len(p) {
		var c [8]byte
		binary.BigEndian.PutUint64(c[:], s.ctr)
		s.ctr++
		d := sha256.Sum256(append(append([]byte{}, s.seed...), c[:]...))
		s.buf.Write(d[:])
	}
	return s.buf.Read(p)
}
