package props

import (
	"fmt"

	"verifsim/core"
	"verifsim/ref"
	"verifsim/sim"
)

// Scheme drives one of the two signature packages of one build.
type Scheme struct {
	R     *sim.Run
	L     core.Lib
	P     string // package
	SK    core.Kind
	PK    core.Kind
	SG    core.Kind
	PG    ref.Group // group of public keys
	SGr   ref.Group // group of signatures
	PB    core.Kind // encoded public key
	SB    core.Kind // encoded signature
	Limit int64
	// Panic is told about calls that panic; nil: a violation.
	Panic func(op, msg string)
	Steps int64 // statements of the last call
}

// NewScheme is scheme 1 (keys in G1) or 2 (keys in G2).
func NewScheme(r *sim.Run, l core.Lib, n int) *Scheme {
	limit := int64(1000000000)
	if l != r.Lib {
		limit = 8000000000
	}
	if n == 1 {
		return &Scheme{R: r, L: l, P: "g1pubs", SK: core.SK1, PK: core.PK1, SG: core.SG1, PG: ref.G1, SGr: ref.G2, PB: core.B48, SB: core.B96, Limit: limit}
	}
	return &Scheme{R: r, L: l, P: "g2pubs", SK: core.SK2, PK: core.PK2, SG: core.SG2, PG: ref.G2, SGr: ref.G1, PB: core.B96, SB: core.B48, Limit: limit}
}

// Has tells whether the package offers an operation.
func (c *Scheme) Has(n string) bool { return c.L.Op(c.P+"."+n) != nil }

// Do calls an operation.
func (c *Scheme) Do(n string, args ...interface{}) sim.Res {
	op := c.L.Op(c.P + "." + n)
	if op == nil {
		panic("no operation " + c.P + "." + n)
	}
	for i, a := range args {
		if l, ok := a.(*core.ListV); ok {
			c.L.Prime(op.Args[i], l)
		}
	}
	res := c.R.Call(op, args, c.Limit)
	c.Steps = res.Steps
	if res.Panic != "" {
		if c.Panic != nil {
			c.Panic(c.P+"."+n, res.Panic)
		} else {
			c.R.Fail("panic:"+c.P+"."+n, "%s.%s panics: %s", c.P, n, res.Panic)
		}
	}
	return res
}

func (c *Scheme) one(n string, args ...interface{}) interface{} {
	res := c.Do(n, args...)
	if res.Panic != "" || len(res.Outs) == 0 {
		return nil
	}
	return res.Outs[0]
}

func (c *Scheme) yes(n string, args ...interface{}) bool {
	v := c.one(n, args...)
	if v == nil {
		return false
	}
	return string(c.L.Enc(core.Bool, v)) == "true"
}

// dec decodes and tells whether the bytes were refused.
func (c *Scheme) dec(n string, k core.Kind, b []byte) (interface{}, bool) {
	res := c.Do(n, c.L.Dec(k, b))
	if res.Panic != "" {
		return nil, false
	}
	if len(res.Outs) > 1 && res.Outs[1] != nil {
		return nil, false
	}
	if res.Outs[0] == nil {
		return nil, false
	}
	return res.Outs[0], true
}

func (c *Scheme) Msg(b []byte) interface{} { return c.L.Dec(core.Msg, b) }
func (c *Scheme) Key(b []byte) interface{} {
	return c.one("DeserializeSecretKey", c.L.Dec(core.B32, b))
}
func (c *Scheme) Pub(sk interface{}) interface{} { return c.one("PrivToPub", sk) }
func (c *Scheme) Sign(m []byte, sk interface{}) interface{} {
	return c.one("Sign", c.Msg(m), sk)
}
func (c *Scheme) SignD(m, d []byte, sk interface{}) interface{} {
	return c.one("SignWithDomain", c.L.Dec(core.B32, m), sk, c.L.Dec(core.B8, d))
}
func (c *Scheme) PubBytes(pk interface{}) []byte { return c.bytes("PublicKey.Serialize", c.PB, pk) }
func (c *Scheme) SigBytes(s interface{}) []byte  { return c.bytes("Signature.Serialize", c.SB, s) }
func (c *Scheme) KeyBytes(s interface{}) []byte  { return c.bytes("SecretKey.Serialize", core.B32, s) }
func (c *Scheme) bytes(n string, k core.Kind, v interface{}) []byte {
	o := c.one(n, v)
	if o == nil {
		return nil
	}
	return c.L.Enc(k, o)
}
func (c *Scheme) DecPub(b []byte) (interface{}, bool) { return c.dec("DeserializePublicKey", c.PB, b) }
func (c *Scheme) DecSig(b []byte) (interface{}, bool) { return c.dec("DeserializeSignature", c.SB, b) }

func list(vs []interface{}) *core.ListV {
	return &core.ListV{Items: append([]interface{}{}, vs...)}
}

func (c *Scheme) AggSigs(vs []interface{}) interface{} { return c.one("AggregateSignatures", list(vs)) }
func (c *Scheme) AggPubs(vs []interface{}) interface{} { return c.one("AggregatePublicKeys", list(vs)) }
func (c *Scheme) Verify(m []byte, pk, sg interface{}) bool {
	return c.yes("Verify", c.Msg(m), pk, sg)
}
func (c *Scheme) VerifyD(m, d []byte, pk, sg interface{}) bool {
	return c.yes("VerifyWithDomain", c.L.Dec(core.B32, m), pk, sg, c.L.Dec(core.B8, d))
}
func (c *Scheme) VerifyAgg(sg interface{}, pks []interface{}, ms [][]byte) bool {
	var ml []interface{}
	for _, m := range ms {
		ml = append(ml, c.Msg(m))
	}
	return c.yes("Signature.VerifyAggregate", sg, list(pks), list(ml))
}
func (c *Scheme) VerifyCommon(sg interface{}, pks []interface{}, m []byte) bool {
	return c.yes("Signature.VerifyAggregateCommon", sg, list(pks), c.Msg(m))
}
func (c *Scheme) VerifyCommonD(sg interface{}, pks []interface{}, m, d []byte) bool {
	return c.yes("Signature.VerifyAggregateCommonWithDomain", sg, list(pks), c.L.Dec(core.B32, m), c.L.Dec(core.B8, d))
}
func (c *Scheme) VerifyAggD(sg interface{}, pks []interface{}, ms [][]byte, d []byte) bool {
	var ml []interface{}
	for _, m := range ms {
		ml = append(ml, c.L.Dec(core.B32, m))
	}
	return c.yes("Signature.VerifyAggregateWithDomain", sg, list(pks), list(ml), c.L.Dec(core.B8, d))
}

// SigPoint and PubPoint read a value for the reference model.
func (c *Scheme) SigPoint(s interface{}) ref.P { return c.SGr.FromEnc(c.L.Enc(c.SG, s)) }
func (c *Scheme) PubPoint(p interface{}) ref.P { return c.PG.FromEnc(c.L.Enc(c.PK, p)) }

// MakeSig and MakePub build a signature or key around a point.
func (c *Scheme) MakeSig(p ref.P) interface{} { return c.L.Dec(c.SG, c.SGr.Enc(p)) }
func (c *Scheme) MakePub(p ref.P) interface{} { return c.L.Dec(c.PK, c.PG.Enc(p)) }

func (c *Scheme) String() string { return fmt.Sprintf("%s/%s", c.L.Build(), c.P) }
