From 38b7e6c11b450b69c096fa789e2ed345ec807243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:34 +0000
Subject: [PATCH 01/12] fix: skip identity points in MillerLoop instead of
 panicking

A pair with the identity on either side left a zero pairingItem in the
list, and the loop then dereferenced its nil point. Verifying an identity
signature or key, or an empty aggregate, crashed the process.
---
 pairing.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pairing.go b/pairing.go
index 606e250..9c3e419 100644
--- a/pairing.go
+++ b/pairing.go
@@ -14,14 +14,14 @@ type pairingItem struct {
 
 // MillerLoop runs the miller loop algorithm.
 func MillerLoop(items []MillerLoopItem) *FQ12 {
-	pairs := make([]pairingItem, len(items))
-	for i, item := range items {
+	pairs := make([]pairingItem, 0, len(items))
+	for _, item := range items {
 		if !item.P.IsZero() && !item.Q.IsZero() {
-			pairs[i] = pairingItem{
+			pairs = append(pairs, pairingItem{
 				p:      item.P.Copy(),
 				q:      item.Q.coeffs,
 				qIndex: 0,
-			}
+			})
 		}
 	}
 
-- 
2.43.0


From 7abe7ebd2b2e38404e2da30701341ca5e0f5f714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:34 +0000
Subject: [PATCH 02/12] fix: do not treat one empty message as a duplicate in
 VerifyAggregate

The duplicate check started from a nil "last message", which compares
equal to an empty message, so an honest aggregate with one empty message
was rejected.
---
 g1pubs/bls.go | 6 ++----
 g2pubs/bls.go | 6 ++----
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/g1pubs/bls.go b/g1pubs/bls.go
index 259adec..5232186 100644
--- a/g1pubs/bls.go
+++ b/g1pubs/bls.go
@@ -262,14 +262,12 @@ func (s *Signature) VerifyAggregate(pubKeys []*PublicKey, msgs [][]byte) bool {
 	}
 
 	msgsSorted := sortByteArrays(msgsCopy)
-	lastMsg := []byte(nil)
 
 	// check for duplicates
-	for _, m := range msgsSorted {
-		if bytes.Equal(m, lastMsg) {
+	for i := 1; i < len(msgsSorted); i++ {
+		if bytes.Equal(msgsSorted[i], msgsSorted[i-1]) {
 			return false
 		}
-		lastMsg = m
 	}
 
 	lhs := bls.Pairing(bls.G1ProjectiveOne, s.s)
diff --git a/g2pubs/bls.go b/g2pubs/bls.go
index 16d32eb..0931c30 100644
--- a/g2pubs/bls.go
+++ b/g2pubs/bls.go
@@ -250,14 +250,12 @@ func (s *Signature) VerifyAggregate(pubKeys []*PublicKey, msgs [][]byte) bool {
 	}
 
 	msgsSorted := sortByteArrays(msgsCopy)
-	lastMsg := []byte(nil)
 
 	// check for duplicates
-	for _, m := range msgsSorted {
-		if bytes.Equal(m, lastMsg) {
+	for i := 1; i < len(msgsSorted); i++ {
+		if bytes.Equal(msgsSorted[i], msgsSorted[i-1]) {
 			return false
 		}
-		lastMsg = m
 	}
 
 	lhs := bls.Pairing(s.s, bls.G2ProjectiveOne)
-- 
2.43.0


From f35c2d7f182f6bf4513cfc757af65fb9bc00fa16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:34 +0000
Subject: [PATCH 03/12] fix: do not convert the caller's FRRepr in place in
 FRReprToFR

FRReprToFR multiplied the representation it was given into Montgomery
form, so converting one value twice (or building a key from it) gave two
different elements, and FR.Sqrt corrupted the package constant for one.
---
 fr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fr.go b/fr.go
index a6123f0..deb145d 100644
--- a/fr.go
+++ b/fr.go
@@ -40,7 +40,7 @@ var FRR2, _ = FRReprFromString("329490647479426544212979752063071073927857568219
 // FRReprToFR gets a pointer to a FR given a pointer
 // to an FRRepr
 func FRReprToFR(o *FRRepr) *FR {
-	r := &FR{n: o}
+	r := &FR{n: o.Copy()}
 	if r.IsValid() {
 		r.MulAssign(&FR{FRR2})
 		return r
-- 
2.43.0


From 104a3b70c0a8fa89447de1deb0a812fccfea449b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:35 +0000
Subject: [PATCH 04/12] fix: return a copy of the identity from
 G2Projective.ToAffine

It handed out the package constant itself, so changing the result in
place changed the identity for the whole process. G1Projective.ToAffine
already copies.
---
 g2.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/g2.go b/g2.go
index 636fa98..5c4fbfe 100644
--- a/g2.go
+++ b/g2.go
@@ -364,7 +364,7 @@ func (g G2Projective) Equals(other *G2Projective) bool {
 // ToAffine converts a G2Projective point to affine form.
 func (g G2Projective) ToAffine() *G2Affine {
 	if g.IsZero() {
-		return G2AffineZero
+		return G2AffineZero.Copy()
 	} else if g.z.Equals(FQ2One) {
 		return NewG2Affine(g.x, g.y)
 	}
-- 
2.43.0


From 4cca5803e22ede3d5f5f9f3e684d864681c07300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:35 +0000
Subject: [PATCH 05/12] fix: compare coordinates in G2Affine.Equals

Any two finite points compared equal.
---
 g2.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/g2.go b/g2.go
index 5c4fbfe..9c6394b 100644
--- a/g2.go
+++ b/g2.go
@@ -139,7 +139,7 @@ func (g G2Affine) ScaleByCofactor() *G2Projective {
 
 // Equals checks if two affine points are equal.
 func (g G2Affine) Equals(other *G2Affine) bool {
-	return (g.infinity == other.infinity) || (g.x.Equals(other.x) && g.y.Equals(other.y))
+	return (g.infinity == other.infinity && g.infinity == true) || (g.x.Equals(other.x) && g.y.Equals(other.y))
 }
 
 // GetG2PointFromX attempts to reconstruct an affine point given
-- 
2.43.0


From af1d1c2b51fa46c319b42864daac2c195ad1a275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:35 +0000
Subject: [PATCH 06/12] fix: make FQ6.MulAssign correct when an element
 multiplies itself

It overwrote f.c2 and f.c1 before it had finished reading other, so
f.MulAssign(f), and with it FQ6.Exp, gave a wrong result.
---
 fq6.go | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/fq6.go b/fq6.go
index 1d948a3..b6c65ee 100644
--- a/fq6.go
+++ b/fq6.go
@@ -272,23 +272,25 @@ func (f *FQ6) MulAssign(other *FQ6) {
 
 	tmp = f.c0.Copy()
 	tmp.AddAssign(f.c2)
-	f.c2 = other.c0.Copy()
-	f.c2.AddAssign(other.c2)
-	f.c2.MulAssign(tmp)
-	f.c2.SubAssign(aa)
-	f.c2.AddAssign(bb)
-	f.c2.SubAssign(cc)
+	t3 := other.c0.Copy()
+	t3.AddAssign(other.c2)
+	t3.MulAssign(tmp)
+	t3.SubAssign(aa)
+	t3.AddAssign(bb)
+	t3.SubAssign(cc)
 	tmp = f.c0.Copy()
 	tmp.AddAssign(f.c1)
-	f.c1 = other.c0.Copy()
-	f.c1.AddAssign(other.c1)
-	f.c1.MulAssign(tmp)
-	f.c1.SubAssign(aa)
-	f.c1.SubAssign(bb)
+	t2 := other.c0.Copy()
+	t2.AddAssign(other.c1)
+	t2.MulAssign(tmp)
+	t2.SubAssign(aa)
+	t2.SubAssign(bb)
 	cc.MultiplyByNonresidueAssign()
-	f.c1.AddAssign(cc)
+	t2.AddAssign(cc)
 
 	f.c0 = t1
+	f.c1 = t2
+	f.c2 = t3
 }
 
 // InverseAssign finds the inverse of the FQ6 element.
-- 
2.43.0


From 21be0c274164c57d7fefb4209f8e4e2983bc6648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:36 +0000
Subject: [PATCH 07/12] fix: read the sign byte fully and reject the identity
 in RandG1 and RandG2

A source that returns (0, nil) from Read, which io.Reader allows, made the
sign byte zero and changed the point; and the identity test looked at the
point before the cofactor was cleared, so small-order points came back as
the identity.
---
 g1.go | 4 ++--
 g2.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/g1.go b/g1.go
index 13b1371..2f4b16d 100644
--- a/g1.go
+++ b/g1.go
@@ -588,7 +588,7 @@ func (g G1Projective) MulFR(b *FRRepr) *G1Projective {
 func RandG1(r io.Reader) (*G1Projective, error) {
 	for {
 		b := make([]byte, 1)
-		_, err := r.Read(b)
+		_, err := io.ReadFull(r, b)
 		if err != nil {
 			return nil, err
 		}
@@ -605,7 +605,7 @@ func RandG1(r io.Reader) (*G1Projective, error) {
 			continue
 		}
 		p1 := p.ScaleByCofactor()
-		if !p.IsZero() {
+		if !p1.IsZero() {
 			return p1, nil
 		}
 	}
diff --git a/g2.go b/g2.go
index 9c6394b..9c974bf 100644
--- a/g2.go
+++ b/g2.go
@@ -804,7 +804,7 @@ func G2AffineToPrepared(q *G2Affine) *G2Prepared {
 func RandG2(r io.Reader) (*G2Projective, error) {
 	for {
 		b := make([]byte, 1)
-		_, err := r.Read(b)
+		_, err := io.ReadFull(r, b)
 		if err != nil {
 			return nil, err
 		}
@@ -821,7 +821,7 @@ func RandG2(r io.Reader) (*G2Projective, error) {
 			continue
 		}
 		p1 := p.ScaleByCofactor()
-		if !p.IsZero() {
+		if !p1.IsZero() {
 			return p1, nil
 		}
 	}
-- 
2.43.0


From 11f219b0857af807de1583f4216f509104ed9dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:56 +0000
Subject: [PATCH 08/12] fix: convert the coordinates to Montgomery form in
 G1Affine.SetRawBytes

SerializeBytes writes plain integers; SetRawBytes stored them as if they
were Montgomery form already, so a restored point was a different (off
curve) one. G2Affine.SetRawBytes already converts.
---
 g1.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/g1.go b/g1.go
index 2f4b16d..bffc34c 100644
--- a/g1.go
+++ b/g1.go
@@ -172,12 +172,8 @@ func (g *G1Affine) SetRawBytes(uncompressed [96]byte) {
 	var yBytes [48]byte
 	copy(xBytes[:], uncompressed[0:48])
 	copy(yBytes[:], uncompressed[48:96])
-	g.x = FQ{
-		n: FQReprFromBytes(xBytes),
-	}
-	g.y = FQ{
-		n: FQReprFromBytes(yBytes),
-	}
+	g.x = FQReprToFQ(FQReprFromBytes(xBytes))
+	g.y = FQReprToFQ(FQReprFromBytes(yBytes))
 }
 
 // DecompressG1 decompresses the big int into an affine point and checks
-- 
2.43.0


From 70a3ba4fd82df6489b0f1dab138260d03b4966c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:56 +0000
Subject: [PATCH 09/12] fix: restore the infinity flag in SetRawBytes

The identity, written by SerializeBytes as (0, 1), came back as a finite
off-curve point, and a receiver that held the identity stayed the identity
whatever was loaded into it.
---
 g1.go | 2 ++
 g2.go | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/g1.go b/g1.go
index bffc34c..4ed52b2 100644
--- a/g1.go
+++ b/g1.go
@@ -174,6 +174,8 @@ func (g *G1Affine) SetRawBytes(uncompressed [96]byte) {
 	copy(yBytes[:], uncompressed[48:96])
 	g.x = FQReprToFQ(FQReprFromBytes(xBytes))
 	g.y = FQReprToFQ(FQReprFromBytes(yBytes))
+	// The identity serializes as (0, 1), which is not on the curve.
+	g.infinity = g.x.IsZero() && g.y.Equals(FQOne)
 }
 
 // DecompressG1 decompresses the big int into an affine point and checks
diff --git a/g2.go b/g2.go
index 9c974bf..5245dc8 100644
--- a/g2.go
+++ b/g2.go
@@ -211,6 +211,8 @@ func (g *G2Affine) SetRawBytes(uncompressed [192]byte) error {
 		c0: yc0FQ,
 		c1: yc1FQ,
 	}
+	// The identity serializes as (0, 1), which is not on the curve.
+	g.infinity = g.x.IsZero() && g.y.Equals(FQ2One)
 	return nil
 }
 
-- 
2.43.0


From e8d4052eca730228160d360e3fab2dac9933f84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:57 +0000
Subject: [PATCH 10/12] fix: refuse coordinates at or above the modulus when
 decompressing

FQReprToFQ turns such a value into zero, so the unchecked decoders
returned the point at x = 0 for many different byte strings.
---
 g1.go | 3 +++
 g2.go | 5 ++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/g1.go b/g1.go
index 4ed52b2..9ed868a 100644
--- a/g1.go
+++ b/g1.go
@@ -219,6 +219,9 @@ func DecompressG1Unchecked(b [48]byte) (*G1Affine, error) {
 	copyBytes[0] &= 0x1f
 
 	x := FQReprFromBytes(copyBytes)
+	if x.Cmp(QFieldModulus) >= 0 {
+		return nil, errors.New("x-coordinate is not less than the field modulus")
+	}
 	xFQ := FQReprToFQ(x)
 
 	return GetG1PointFromX(xFQ, greatest)
diff --git a/g2.go b/g2.go
index 5245dc8..649aa91 100644
--- a/g2.go
+++ b/g2.go
@@ -257,8 +257,11 @@ func DecompressG2Unchecked(c [96]byte) (*G2Affine, error) {
 	copy(xC0Bytes[:], c[48:])
 
 	xC0 := FQReprFromBytes(xC0Bytes)
-	xC0FQ := FQReprToFQ(xC0)
 	xC1 := FQReprFromBytes(xC1Bytes)
+	if xC0.Cmp(QFieldModulus) >= 0 || xC1.Cmp(QFieldModulus) >= 0 {
+		return nil, errors.New("x-coordinate is not less than the field modulus")
+	}
+	xC0FQ := FQReprToFQ(xC0)
 	xC1FQ := FQReprToFQ(xC1)
 
 	x := NewFQ2(xC0FQ, xC1FQ)
-- 
2.43.0


From efbcf7c142344ea6f8c1cce280a4c60f6cee9433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:08 +0000
Subject: [PATCH 11/12] fix: copy the coefficients in NewFQ12

The element kept the caller's pointers, so operating on it in place
changed the values it was built from (and FQ12Zero shared FQ6Zero).
---
 fq12.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fq12.go b/fq12.go
index 7a5028d..f4b9da0 100644
--- a/fq12.go
+++ b/fq12.go
@@ -14,8 +14,8 @@ type FQ12 struct {
 // NewFQ12 creates a new FQ12 element from two FQ6 elements.
 func NewFQ12(c0 *FQ6, c1 *FQ6) *FQ12 {
 	return &FQ12{
-		c0: c0,
-		c1: c1,
+		c0: c0.Copy(),
+		c1: c1.Copy(),
 	}
 }
 
-- 
2.43.0


From 9bb68429b297abdcdfd91a6a7a59354677f77219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:13 +0000
Subject: [PATCH 12/12] fix: reject small-order points in pairing checks
 instead of panicking

The Miller loop of a small-order G2 point outside the subgroup (possible
through DecompressG2Unchecked) can be zero; its final exponentiation is nil.
---
 g1pubs/bls.go | 18 ++++++++++++++++--
 g2pubs/bls.go |  9 ++++++++-
 pairing.go    |  6 +++---
 3 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/g1pubs/bls.go b/g1pubs/bls.go
index 5232186..de9d535 100644
--- a/g1pubs/bls.go
+++ b/g1pubs/bls.go
@@ -271,10 +271,17 @@ func (s *Signature) VerifyAggregate(pubKeys []*PublicKey, msgs [][]byte) bool {
 	}
 
 	lhs := bls.Pairing(bls.G1ProjectiveOne, s.s)
+	if lhs == nil {
+		return false
+	}
 	rhs := bls.FQ12One.Copy()
 	for i := range pubKeys {
 		h := bls.HashG2(msgs[i])
-		rhs.MulAssign(bls.Pairing(pubKeys[i].p, h.ToProjective()))
+		e := bls.Pairing(pubKeys[i].p, h.ToProjective())
+		if e == nil {
+			return false
+		}
+		rhs.MulAssign(e)
 	}
 	return lhs.Equals(rhs)
 }
@@ -300,10 +307,17 @@ func (s *Signature) VerifyAggregateWithDomain(pubKeys []*PublicKey, msgs [][32]b
 		return false
 	}
 	lhs := bls.Pairing(bls.G1ProjectiveOne, s.s)
+	if lhs == nil {
+		return false
+	}
 	rhs := bls.FQ12One.Copy()
 	for i := range pubKeys {
 		h := bls.HashG2WithDomain(msgs[i], domain)
-		rhs.MulAssign(bls.Pairing(pubKeys[i].p, h.ToAffine().ToProjective()))
+		e := bls.Pairing(pubKeys[i].p, h.ToAffine().ToProjective())
+		if e == nil {
+			return false
+		}
+		rhs.MulAssign(e)
 	}
 	return lhs.Equals(rhs)
 }
diff --git a/g2pubs/bls.go b/g2pubs/bls.go
index 0931c30..2bc1537 100644
--- a/g2pubs/bls.go
+++ b/g2pubs/bls.go
@@ -259,10 +259,17 @@ func (s *Signature) VerifyAggregate(pubKeys []*PublicKey, msgs [][]byte) bool {
 	}
 
 	lhs := bls.Pairing(s.s, bls.G2ProjectiveOne)
+	if lhs == nil {
+		return false
+	}
 	rhs := bls.FQ12One.Copy()
 	for i := range pubKeys {
 		h := bls.HashG1(msgs[i])
-		rhs.MulAssign(bls.Pairing(h.ToProjective(), pubKeys[i].p))
+		e := bls.Pairing(h.ToProjective(), pubKeys[i].p)
+		if e == nil {
+			return false
+		}
+		rhs.MulAssign(e)
 	}
 	return lhs.Equals(rhs)
 }
diff --git a/pairing.go b/pairing.go
index 9c3e419..1fe6478 100644
--- a/pairing.go
+++ b/pairing.go
@@ -140,8 +140,8 @@ func Pairing(p *G1Projective, q *G2Projective) *FQ12 {
 func CompareTwoPairings(P1 *G1Projective, Q1 *G2Projective, P2 *G1Projective, Q2 *G2Projective) bool {
 	negP2 := P2.Copy()
 	negP2.NegAssign()
-	return FinalExponentiation(
+	r := FinalExponentiation(
 		MillerLoop(
-			[]MillerLoopItem{{P1.ToAffine(), G2AffineToPrepared(Q1.ToAffine())}, {negP2.ToAffine(), G2AffineToPrepared(Q2.ToAffine())}})).Equals(FQ12One)
-
+			[]MillerLoopItem{{P1.ToAffine(), G2AffineToPrepared(Q1.ToAffine())}, {negP2.ToAffine(), G2AffineToPrepared(Q2.ToAffine())}}))
+	return r != nil && r.Equals(FQ12One)
 }
-- 
2.43.0

