From 2a51eec6bcc84b1da213cdc9312b3da84fed4ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:37 +0000
Subject: [PATCH 01/19] fix: num.ModInverse returned a wrong inverse for
 unsigned types

The extended Euclidean coefficients are negative every other step, so for
unsigned T they wrapped around 2^w before the reduction modulo m.
---
 math/num/num.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/math/num/num.go b/math/num/num.go
index cf32f58..947c8e1 100644
--- a/math/num/num.go
+++ b/math/num/num.go
@@ -226,12 +226,16 @@ func ModInverse[T Integer](x, m T) T {
 		x += m
 	}
 
+	// The signs of u, v alternate, so only the absolute values are computed.
+	// This way, unsigned types don't wrap around.
 	a, b := x, m
 	u, v := T(1), T(0)
+	isNeg := false
 	for b != 0 {
 		q := a / b
 		a, b = b, a-q*b
-		u, v = v, u-q*v
+		u, v = v, u+q*v
+		isNeg = !isNeg
 	}
 
 	if a != 1 {
@@ -239,8 +243,8 @@ func ModInverse[T Integer](x, m T) T {
 	}
 
 	u %= m
-	if u < 0 {
-		u += m
+	if isNeg && u != 0 {
+		u = m - u
 	}
 	return u
 }
-- 
2.43.0


From 5cf47bd097ebe82a6859b8bc5b9f1c5ccd6b7147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:37 +0000
Subject: [PATCH 02/19] fix: num.ModExp overflowed for large moduli and
 returned 1 modulo 1

The products of residues wrapped around the type when m^2 did not fit in it,
x^0 mod 1 returned 1, and y = MinT returned 1.
---
 math/num/num.go | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/math/num/num.go b/math/num/num.go
index 947c8e1..e63eb5f 100644
--- a/math/num/num.go
+++ b/math/num/num.go
@@ -260,12 +260,10 @@ func ModExp[T Integer](x, y, m T) T {
 		panic("modulus not positive")
 	}
 
-	switch {
-	case y < 0:
+	exp := uint64(y)
+	if y < 0 {
 		x = ModInverse(x, m)
-		y = -y
-	case y == 0:
-		return 1
+		exp = -exp
 	}
 
 	x %= m
@@ -273,17 +271,18 @@ func ModExp[T Integer](x, y, m T) T {
 		x += m
 	}
 
-	res := T(1)
-	for y > 0 {
-		if y&1 == 1 {
-			res = (res * x) % m
+	// Multiply in 128 bits, so that the intermediate values don't overflow.
+	mod, base := uint64(m), uint64(x)
+	res := 1 % mod
+	for exp > 0 {
+		if exp&1 == 1 {
+			hi, lo := bits.Mul64(res, base)
+			res = bits.Rem64(hi, lo, mod)
 		}
-		x = (x * x) % m
-		y >>= 1
+		hi, lo := bits.Mul64(base, base)
+		base = bits.Rem64(hi, lo, mod)
+		exp >>= 1
 	}
 
-	if res < 0 {
-		res += m
-	}
-	return res
+	return T(res)
 }
-- 
2.43.0


From c0e4a87f917299ac8da4256bc195c1d2bec5f522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:40 +0000
Subject: [PATCH 03/19] fix: public encryption added to the previous contents
 of the mask

---
 tfhe/glwe_enc_public.go | 4 ++++
 tfhe/lwe_enc_public.go  | 1 +
 2 files changed, 5 insertions(+)

diff --git a/tfhe/glwe_enc_public.go b/tfhe/glwe_enc_public.go
index 6ba876a..47c7f09 100644
--- a/tfhe/glwe_enc_public.go
+++ b/tfhe/glwe_enc_public.go
@@ -34,6 +34,10 @@ func (e *PublicEncryptor[T]) EncryptGLWEBody(ct GLWECiphertext[T]) {
 	}
 	e.FwdFFTGLWESecretKeyTo(e.buf.auxFourierKey, e.buf.auxKey)
 
+	for j := 1; j < e.Params.glweRank+1; j++ {
+		ct.Value[j].Clear()
+	}
+
 	e.PolyEvaluator.ShortFFTPolyMulAddPolyTo(ct.Value[0], e.PublicKey.GLWEKey.Value[0].Value[0], e.buf.auxFourierKey.Value[0])
 	for j := 1; j < e.Params.glweRank+1; j++ {
 		e.PolyEvaluator.ShortFFTPolyMulAddPolyTo(ct.Value[j], e.PublicKey.GLWEKey.Value[0].Value[j], e.buf.auxFourierKey.Value[0])
diff --git a/tfhe/lwe_enc_public.go b/tfhe/lwe_enc_public.go
index 8e61e1f..4d091b7 100644
--- a/tfhe/lwe_enc_public.go
+++ b/tfhe/lwe_enc_public.go
@@ -45,6 +45,7 @@ func (e *PublicEncryptor[T]) EncryptLWEBody(ct LWECiphertext[T]) {
 	ctGLWE := make([]poly.Poly[T], e.Params.glweRank)
 	for i := 0; i < e.Params.glweRank; i++ {
 		ctGLWE[i] = poly.Poly[T]{Coeffs: ct.Value[1+i*e.Params.polyRank : 1+(i+1)*e.Params.polyRank]}
+		ctGLWE[i].Clear()
 	}
 
 	for i := 0; i < e.Params.glweRank; i++ {
-- 
2.43.0


From 21fb3aa4b5ab4e0eaa0dbdb97bd83a6714d695a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:26 +0000
Subject: [PATCH 04/19] fix: CMuxTo returned ct0 when ctOut overlapped ct1

---
 tfhe/product.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tfhe/product.go b/tfhe/product.go
index 9c74e78..7fd9990 100644
--- a/tfhe/product.go
+++ b/tfhe/product.go
@@ -315,7 +315,7 @@ func (e *Evaluator[T]) CMux(ctFFTGGSW FFTGGSWCiphertext[T], ct0, ct1 GLWECiphert
 // CMuxTo computes the mux gate between ctFFTGGSW, ct0 and ct1: so ctOut = ct0 + ctFFTGGSW * (ct1 - ct0) and writes it to ctOut.
 // CMux essentially acts as an if clause; if ctFFTGGSW = 0, ct0 is returned, and if ctFFTGGSW = 1, ct1 is returned.
 func (e *Evaluator[T]) CMuxTo(ctOut GLWECiphertext[T], ctFFTGGSW FFTGGSWCiphertext[T], ct0, ct1 GLWECiphertext[T]) {
-	ctOut.CopyFrom(ct0)
 	e.SubGLWETo(e.buf.ctCMux, ct1, ct0)
+	ctOut.CopyFrom(ct0)
 	e.ExternalProdAddGLWETo(ctOut, ctFFTGGSW, e.buf.ctCMux)
 }
-- 
2.43.0


From eb5ea32cf9f37cb584ce0b1d19c25b1f387763eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:02 +0000
Subject: [PATCH 05/19] fix: extended blind rotation placed the table off by up
 to the extend factor

---
 tfhe/bootstrap.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tfhe/bootstrap.go b/tfhe/bootstrap.go
index 16975b2..6686ec9 100644
--- a/tfhe/bootstrap.go
+++ b/tfhe/bootstrap.go
@@ -70,10 +70,10 @@ func (e *Evaluator[T]) blindRotateExtendedTo(ctOut GLWECiphertext[T], ct LWECiph
 	b2NMono, b2NIdx := b2N/e.Params.lutExtendFactor, b2N%e.Params.lutExtendFactor
 
 	for i, ii := 0, e.Params.lutExtendFactor-b2NIdx; i < b2NIdx; i, ii = i+1, ii+1 {
-		e.PolyEvaluator.MonomialMulPolyTo(e.buf.ctAcc[ii].Value[0], lut.Value[i], b2NMono+1)
+		e.PolyEvaluator.MonomialMulPolyTo(e.buf.ctAcc[i].Value[0], lut.Value[ii], b2NMono+1)
 	}
 	for i, ii := b2NIdx, 0; i < e.Params.lutExtendFactor; i, ii = i+1, ii+1 {
-		e.PolyEvaluator.MonomialMulPolyTo(e.buf.ctAcc[ii].Value[0], lut.Value[i], b2NMono)
+		e.PolyEvaluator.MonomialMulPolyTo(e.buf.ctAcc[i].Value[0], lut.Value[ii], b2NMono)
 	}
 
 	for i := 0; i < e.Params.lutExtendFactor; i++ {
-- 
2.43.0


From 3408935eb6191291a63df707f38ed800e4433c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:39 +0000
Subject: [PATCH 06/19] fix: extended blind rotation applied a single key block
 twice

---
 tfhe/bootstrap.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tfhe/bootstrap.go b/tfhe/bootstrap.go
index 6686ec9..c9217fb 100644
--- a/tfhe/bootstrap.go
+++ b/tfhe/bootstrap.go
@@ -147,6 +147,11 @@ func (e *Evaluator[T]) blindRotateExtendedTo(ctOut GLWECiphertext[T], ct LWECiph
 		}
 	}
 
+	if e.Params.blockCount == 1 {
+		ctOut.CopyFrom(e.buf.ctAcc[0])
+		return
+	}
+
 	for i := 1; i < e.Params.blockCount-1; i++ {
 		for j := 0; j < e.Params.lutExtendFactor; j++ {
 			for k := 0; k < e.Params.glweRank+1; k++ {
-- 
2.43.0


From 1c5d273b97dc2c0c61695a84fa497a29cb1f48ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:19 +0000
Subject: [PATCH 07/19] fix: LWESecretKey.ReadFrom counts the bytes of the
 value

---
 tfhe/lwe_marshal.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tfhe/lwe_marshal.go b/tfhe/lwe_marshal.go
index f1dc101..ffe96a3 100644
--- a/tfhe/lwe_marshal.go
+++ b/tfhe/lwe_marshal.go
@@ -209,6 +209,7 @@ func (sk *LWESecretKey[T]) ReadFrom(r io.Reader) (n int64, err error) {
 	if nRead, err = sk.valueReadFrom(r); err != nil {
 		return n + nRead, err
 	}
+	n += nRead
 
 	return
 }
-- 
2.43.0


From d0e24d2b969887be4e016d5ccbe3b8de01004a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:19 +0000
Subject: [PATCH 08/19] fix: failed header transfers of Fourier ciphertexts
 report all bytes transferred

---
 mktfhe/fft_glwe_marshal.go |  8 ++++----
 tfhe/fft_glwe_marshal.go   | 24 ++++++++++++------------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/mktfhe/fft_glwe_marshal.go b/mktfhe/fft_glwe_marshal.go
index a819001..16011a6 100644
--- a/mktfhe/fft_glwe_marshal.go
+++ b/mktfhe/fft_glwe_marshal.go
@@ -55,14 +55,14 @@ func (ct FFTGLWECiphertext[T]) headerWriteTo(w io.Writer) (n int64, err error) {
 	glweRank := len(ct.Value) - 1
 	binary.BigEndian.PutUint64(buf[:], uint64(glweRank))
 	if nWrite, err = w.Write(buf[:]); err != nil {
-		return int64(nWrite), err
+		return n + int64(nWrite), err
 	}
 	n += int64(nWrite)
 
 	polyRank := ct.Value[0].Rank()
 	binary.BigEndian.PutUint64(buf[:], uint64(polyRank))
 	if nWrite, err = w.Write(buf[:]); err != nil {
-		return int64(nWrite), err
+		return n + int64(nWrite), err
 	}
 	n += int64(nWrite)
 
@@ -119,13 +119,13 @@ func (ct *FFTGLWECiphertext[T]) headerReadFrom(r io.Reader) (n int64, err error)
 	var buf [8]byte
 
 	if nRead, err = io.ReadFull(r, buf[:]); err != nil {
-		return int64(nRead), err
+		return n + int64(nRead), err
 	}
 	n += int64(nRead)
 	glweRank := int(binary.BigEndian.Uint64(buf[:]))
 
 	if nRead, err = io.ReadFull(r, buf[:]); err != nil {
-		return int64(nRead), err
+		return n + int64(nRead), err
 	}
 	n += int64(nRead)
 	polyRank := int(binary.BigEndian.Uint64(buf[:]))
diff --git a/tfhe/fft_glwe_marshal.go b/tfhe/fft_glwe_marshal.go
index 9523a50..be62323 100644
--- a/tfhe/fft_glwe_marshal.go
+++ b/tfhe/fft_glwe_marshal.go
@@ -53,14 +53,14 @@ func (sk FFTGLWESecretKey[T]) headerWriteTo(w io.Writer) (n int64, err error) {
 	glweRank := len(sk.Value)
 	binary.BigEndian.PutUint64(buf[:], uint64(glweRank))
 	if nWrite, err = w.Write(buf[:]); err != nil {
-		return int64(nWrite), err
+		return n + int64(nWrite), err
 	}
 	n += int64(nWrite)
 
 	polyRank := sk.Value[0].Rank()
 	binary.BigEndian.PutUint64(buf[:], uint64(polyRank))
 	if nWrite, err = w.Write(buf[:]); err != nil {
-		return int64(nWrite), err
+		return n + int64(nWrite), err
 	}
 	n += int64(nWrite)
 
@@ -117,13 +117,13 @@ func (sk *FFTGLWESecretKey[T]) headerReadFrom(r io.Reader) (n int64, err error)
 	var buf [8]byte
 
 	if nRead, err = io.ReadFull(r, buf[:]); err != nil {
-		return int64(nRead), err
+		return n + int64(nRead), err
 	}
 	n += int64(nRead)
 	glweRank := int(binary.BigEndian.Uint64(buf[:]))
 
 	if nRead, err = io.ReadFull(r, buf[:]); err != nil {
-		return int64(nRead), err
+		return n + int64(nRead), err
 	}
 	n += int64(nRead)
 	polyRank := int(binary.BigEndian.Uint64(buf[:]))
@@ -197,14 +197,14 @@ func (ct FFTGLWECiphertext[T]) headerWriteTo(w io.Writer) (n int64, err error) {
 	glweRank := len(ct.Value) - 1
 	binary.BigEndian.PutUint64(buf[:], uint64(glweRank))
 	if nWrite, err = w.Write(buf[:]); err != nil {
-		return int64(nWrite), err
+		return n + int64(nWrite), err
 	}
 	n += int64(nWrite)
 
 	polyRank := ct.Value[0].Rank()
 	binary.BigEndian.PutUint64(buf[:], uint64(polyRank))
 	if nWrite, err = w.Write(buf[:]); err != nil {
-		return int64(nWrite), err
+		return n + int64(nWrite), err
 	}
 	n += int64(nWrite)
 
@@ -261,13 +261,13 @@ func (ct *FFTGLWECiphertext[T]) headerReadFrom(r io.Reader) (n int64, err error)
 	var buf [8]byte
 
 	if nRead, err = io.ReadFull(r, buf[:]); err != nil {
-		return int64(nRead), err
+		return n + int64(nRead), err
 	}
 	n += int64(nRead)
 	glweRank := int(binary.BigEndian.Uint64(buf[:]))
 
 	if nRead, err = io.ReadFull(r, buf[:]); err != nil {
-		return int64(nRead), err
+		return n + int64(nRead), err
 	}
 	n += int64(nRead)
 	polyRank := int(binary.BigEndian.Uint64(buf[:]))
@@ -342,28 +342,28 @@ func (ct FFTGLevCiphertext[T]) headerWriteTo(w io.Writer) (n int64, err error) {
 	base := ct.GadgetParams.base
 	binary.BigEndian.PutUint64(buf[:], uint64(base))
 	if nWrite, err = w.Write(buf[:]); err != nil {
-		return int64(nWrite), err
+		return n + int64(nWrite), err
 	}
 	n += int64(nWrite)
 
 	level := len(ct.Value)
 	binary.BigEndian.PutUint64(buf[:], uint64(level))
 	if nWrite, err = w.Write(buf[:]); err != nil {
-		return int64(nWrite), err
+		return n + int64(nWrite), err
 	}
 	n += int64(nWrite)
 
 	glweRank := len(ct.Value[0].Value) - 1
 	binary.BigEndian.PutUint64(buf[:], uint64(glweRank))
 	if nWrite, err = w.Write(buf[:]); err != nil {
-		return int64(nWrite), err
+		return n + int64(nWrite), err
 	}
 	n += int64(nWrite)
 
 	polyRank := ct.Value[0].Value[0].Rank()
 	binary.BigEndian.PutUint64(buf[:], uint64(polyRank))
 	if nWrite, err = w.Write(buf[:]); err != nil {
-		return int64(nWrite), err
+		return n + int64(nWrite), err
 	}
 	n += int64(nWrite)
 
-- 
2.43.0


From 7123426d863861bfbc58bf126676f9a33946309e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:42 +0000
Subject: [PATCH 09/19] fix: num.DivRound was inexact beyond double precision

---
 math/num/num.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/math/num/num.go b/math/num/num.go
index e63eb5f..66249bc 100644
--- a/math/num/num.go
+++ b/math/num/num.go
@@ -124,9 +124,22 @@ func Log2[T Integer](x T) int {
 	return int(bits.Len64(uint64(x))) - 1
 }
 
-// DivRound returns round(x/y).
+// DivRound returns round(x/y), where halves are rounded away from zero.
+// Panics if y = 0.
 func DivRound[T Integer](x, y T) T {
-	return T(math.Round(float64(x) / float64(y)))
+	q, r := x/y, x%y
+	if r < 0 {
+		r = -r
+	}
+
+	// Round away from zero if |r| >= |y| - |r|.
+	if (y > 0 && r >= y-r) || (y < 0 && y+r >= -r) {
+		if (x < 0) == (y < 0) {
+			return q + 1
+		}
+		return q - 1
+	}
+	return q
 }
 
 // DivRoundBits is a bit-optimzed version of RoundRatio: it returns round(x/2^bits).
-- 
2.43.0


From e30418b8de6cacc40a9b5ee99b2fdbd02576272d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:59 +0000
Subject: [PATCH 10/19] fix: size the mktfhe Decryptor by party count

NewDecryptor allocated its per-party slices by the number of keys given, so a
sparse map of keys or a later AddSecretKey went out of range.
---
 mktfhe/decryptor.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mktfhe/decryptor.go b/mktfhe/decryptor.go
index 4d04a9b..db232b8 100644
--- a/mktfhe/decryptor.go
+++ b/mktfhe/decryptor.go
@@ -53,8 +53,8 @@ type decryptorBuffer[T tfhe.TorusInt] struct {
 // NewDecryptor creates a new [Decryptor].
 // Only indices between 0 and params.PartyCount is valid for sk.
 func NewDecryptor[T tfhe.TorusInt](params Parameters[T], sk map[int]tfhe.SecretKey[T]) *Decryptor[T] {
-	subEncs := make([]*tfhe.Encryptor[T], len(sk))
-	subKeys := make([]tfhe.SecretKey[T], len(sk))
+	subEncs := make([]*tfhe.Encryptor[T], params.partyCount)
+	subKeys := make([]tfhe.SecretKey[T], params.partyCount)
 	partyBitMap := make([]bool, params.PartyCount())
 	for i := range sk {
 		subEncs[i] = tfhe.NewEncryptorWithKey(params.subParams, sk[i])
-- 
2.43.0


From 4a5b3141d1d8b03540ac48abede026b51a2e9691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:59 +0000
Subject: [PATCH 11/19] fix: give a copied mktfhe Decryptor its own buffers

SafeCopy shared the scratch buffers with the original.
---
 mktfhe/decryptor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mktfhe/decryptor.go b/mktfhe/decryptor.go
index db232b8..72357d0 100644
--- a/mktfhe/decryptor.go
+++ b/mktfhe/decryptor.go
@@ -114,7 +114,7 @@ func (d *Decryptor[T]) SafeCopy() *Decryptor[T] {
 
 		SecretKeys: vec.Copy(d.SecretKeys),
 
-		buf: d.buf,
+		buf: newDecryptorBuffer(d.Params),
 	}
 }
 
-- 
2.43.0


From fa30ae4b4dd5a6b08029ca1970c77e8151c4770c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:59 +0000
Subject: [PATCH 12/19] fix: reduce decrypted uni-encryptions modulo the base

A zero coefficient with negative noise decrypted to the base instead of zero.
---
 mktfhe/fft_glwe_enc.go | 2 +-
 mktfhe/glwe_enc.go     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mktfhe/fft_glwe_enc.go b/mktfhe/fft_glwe_enc.go
index 298dc37..20fb5ad 100644
--- a/mktfhe/fft_glwe_enc.go
+++ b/mktfhe/fft_glwe_enc.go
@@ -87,6 +87,6 @@ func (e *Encryptor[T]) FFTUniDecryptPolyTo(pOut poly.Poly[T], ct FFTUniEncryptio
 	pOut.CopyFrom(e.buf.ctSubGLWE.Value[0])
 	e.SubEncryptor.PolyEvaluator.ShortFFTPolyMulSubPolyTo(pOut, e.buf.ctSubGLWE.Value[1], e.buf.auxFourierKey.Value[0])
 	for i := 0; i < e.Params.PolyRank(); i++ {
-		pOut.Coeffs[i] = num.DivRoundBits(pOut.Coeffs[i], ct.GadgetParams.LogFirstBaseQ())
+		pOut.Coeffs[i] = num.DivRoundBits(pOut.Coeffs[i], ct.GadgetParams.LogFirstBaseQ()) % ct.GadgetParams.Base()
 	}
 }
diff --git a/mktfhe/glwe_enc.go b/mktfhe/glwe_enc.go
index 6186f5a..a91cc17 100644
--- a/mktfhe/glwe_enc.go
+++ b/mktfhe/glwe_enc.go
@@ -83,6 +83,6 @@ func (e *Encryptor[T]) UniDecryptPolyTo(pOut poly.Poly[T], ct UniEncryption[T])
 	pOut.CopyFrom(ct.Value[0].Value[0].Value[0])
 	e.SubEncryptor.PolyEvaluator.ShortFFTPolyMulSubPolyTo(pOut, ct.Value[0].Value[0].Value[1], e.buf.auxFourierKey.Value[0])
 	for i := 0; i < e.Params.PolyRank(); i++ {
-		pOut.Coeffs[i] = num.DivRoundBits(pOut.Coeffs[i], ct.GadgetParams.LogFirstBaseQ())
+		pOut.Coeffs[i] = num.DivRoundBits(pOut.Coeffs[i], ct.GadgetParams.LogFirstBaseQ()) % ct.GadgetParams.Base()
 	}
 }
-- 
2.43.0


From 48c8b89c669474d92dfc33f1df510d38d276f54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:07 +0000
Subject: [PATCH 13/19] fix: subtract the whole product in mktfhe
 ExternalProdSubGLWETo

Part of the external product was added to the output instead of subtracted.
---
 mktfhe/product.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mktfhe/product.go b/mktfhe/product.go
index 7b43079..d10e4f0 100644
--- a/mktfhe/product.go
+++ b/mktfhe/product.go
@@ -252,10 +252,10 @@ func (e *Evaluator[T]) ExternalProdSubGLWETo(idx int, ctFFTGLev tfhe.FFTGLevCiph
 
 	e.HybridProdSubGLWETo(idx, e.EvalKey[idx].RelinKey, e.buf.ctRelin, ctGLWEOut)
 
-	eIdx.PolyEvaluator.AddPolyTo(ctGLWEOut.Value[0], ctGLWEOut.Value[0], e.buf.ctRelinT[0].Value[0])
+	eIdx.PolyEvaluator.SubPolyTo(ctGLWEOut.Value[0], ctGLWEOut.Value[0], e.buf.ctRelinT[0].Value[0])
 	for i, ok := range e.PartyBitMap {
 		if ok {
-			eIdx.PolyEvaluator.AddPolyTo(ctGLWEOut.Value[i+1], ctGLWEOut.Value[i+1], e.buf.ctRelinT[i+1].Value[0])
+			eIdx.PolyEvaluator.SubPolyTo(ctGLWEOut.Value[i+1], ctGLWEOut.Value[i+1], e.buf.ctRelinT[i+1].Value[0])
 		}
 	}
 }
-- 
2.43.0


From 96645bc3caffbd38c79c31d48b55deb253f2f6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:45 +0000
Subject: [PATCH 14/19] fix: copy the gadget parameters of uni-encryptions

---
 mktfhe/fft_glwe.go | 1 +
 mktfhe/glwe.go     | 1 +
 2 files changed, 2 insertions(+)

diff --git a/mktfhe/fft_glwe.go b/mktfhe/fft_glwe.go
index ffe7f6f..0493999 100644
--- a/mktfhe/fft_glwe.go
+++ b/mktfhe/fft_glwe.go
@@ -110,6 +110,7 @@ func (ct *FFTUniEncryption[T]) CopyFrom(ctIn FFTUniEncryption[T]) {
 	for i := range ct.Value {
 		ct.Value[i].CopyFrom(ctIn.Value[i])
 	}
+	ct.GadgetParams = ctIn.GadgetParams
 }
 
 // Clear clears the ciphertext.
diff --git a/mktfhe/glwe.go b/mktfhe/glwe.go
index 6c76fb0..5c53564 100644
--- a/mktfhe/glwe.go
+++ b/mktfhe/glwe.go
@@ -137,6 +137,7 @@ func (ct *UniEncryption[T]) CopyFrom(ctIn UniEncryption[T]) {
 	for i := range ct.Value {
 		ct.Value[i].CopyFrom(ctIn.Value[i])
 	}
+	ct.GadgetParams = ctIn.GadgetParams
 }
 
 // Clear clears the ciphertext.
-- 
2.43.0


From a0ce5d5aef6bdbee06e20f20482c803b4f8ebd3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:52 +0000
Subject: [PATCH 15/19] fix: centre the mktfhe XOR and XNOR gates between their
 cases

---
 mktfhe/binary_evaluator.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mktfhe/binary_evaluator.go b/mktfhe/binary_evaluator.go
index c313063..f62aee7 100644
--- a/mktfhe/binary_evaluator.go
+++ b/mktfhe/binary_evaluator.go
@@ -224,7 +224,7 @@ func (e *BinaryEvaluator[T]) XORTo(ctOut, ct0, ct1 LWECiphertext[T]) {
 	for i := 0; i < e.Params.DefaultLWEDimension()+1; i++ {
 		ctOut.Value[i] = 2 * (ct0.Value[i] + ct1.Value[i])
 	}
-	ctOut.Value[0] += 1 << (e.Params.LogQ() - 3)
+	ctOut.Value[0] += 1 << (e.Params.LogQ() - 2)
 
 	e.Evaluator.BootstrapLUTTo(ctOut, ctOut, e.signLUT)
 }
@@ -243,7 +243,7 @@ func (e *BinaryEvaluator[T]) XORParallelTo(ctOut, ct0, ct1 LWECiphertext[T]) {
 	for i := 0; i < e.Params.DefaultLWEDimension()+1; i++ {
 		ctOut.Value[i] = 2 * (ct0.Value[i] + ct1.Value[i])
 	}
-	ctOut.Value[0] += 1 << (e.Params.LogQ() - 3)
+	ctOut.Value[0] += 1 << (e.Params.LogQ() - 2)
 
 	e.Evaluator.BootstrapLUTParallelTo(ctOut, ctOut, e.signLUT)
 }
@@ -262,7 +262,7 @@ func (e *BinaryEvaluator[T]) XNORTo(ctOut, ct0, ct1 LWECiphertext[T]) {
 	for i := 0; i < e.Params.DefaultLWEDimension()+1; i++ {
 		ctOut.Value[i] = 2 * (-ct0.Value[i] - ct1.Value[i])
 	}
-	ctOut.Value[0] -= 1 << (e.Params.LogQ() - 3)
+	ctOut.Value[0] -= 1 << (e.Params.LogQ() - 2)
 
 	e.Evaluator.BootstrapLUTTo(ctOut, ctOut, e.signLUT)
 }
@@ -281,7 +281,7 @@ func (e *BinaryEvaluator[T]) XNORParallelTo(ctOut, ct0, ct1 LWECiphertext[T]) {
 	for i := 0; i < e.Params.DefaultLWEDimension()+1; i++ {
 		ctOut.Value[i] = 2 * (-ct0.Value[i] - ct1.Value[i])
 	}
-	ctOut.Value[0] -= 1 << (e.Params.LogQ() - 3)
+	ctOut.Value[0] -= 1 << (e.Params.LogQ() - 2)
 
 	e.Evaluator.BootstrapLUTParallelTo(ctOut, ctOut, e.signLUT)
 }
-- 
2.43.0


From db3c2b400f38c6b7abdf4306ad99b54b58e6275c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:39 +0000
Subject: [PATCH 16/19] fix: let BFV Tensor and Relinearize use their arguments

---
 xtfhe/bfv_evaluator.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xtfhe/bfv_evaluator.go b/xtfhe/bfv_evaluator.go
index 24a8050..ee298ca 100644
--- a/xtfhe/bfv_evaluator.go
+++ b/xtfhe/bfv_evaluator.go
@@ -106,7 +106,7 @@ func (e *BFVEvaluator[T]) TensorTo(ctOut, ct0, ct1 tfhe.GLWECiphertext[T]) {
 	tensorRank := e.Params.GLWERank() * (e.Params.GLWERank() + 3) / 2
 	for i := 0; i < tensorRank+1; i++ {
 		e.PolyEvaluator.FloatMulFFTPolyTo(e.buf.ctFFTTensor.Value[i], e.buf.ctFFTTensor.Value[i], 1/float64(e.Params.Scale()))
-		e.PolyEvaluator.InvFFTToUnsafe(e.buf.ctTensor.Value[i], e.buf.ctFFTTensor.Value[i])
+		e.PolyEvaluator.InvFFTToUnsafe(ctOut.Value[i], e.buf.ctFFTTensor.Value[i])
 	}
 }
 
@@ -123,10 +123,10 @@ func (e *BFVEvaluator[T]) Relinearize(ct tfhe.GLWECiphertext[T]) tfhe.GLWECipher
 func (e *BFVEvaluator[T]) RelinearizeTo(ctOut, ct tfhe.GLWECiphertext[T]) {
 	tensorRank := e.Params.GLWERank() * (e.Params.GLWERank() + 3) / 2
 	for i := 0; i < e.Params.GLWERank()+1; i++ {
-		ctOut.Value[i].CopyFrom(e.buf.ctTensor.Value[i])
+		ctOut.Value[i].CopyFrom(ct.Value[i])
 	}
 	for i, ii := e.Params.GLWERank()+1, 0; i < tensorRank+1; i, ii = i+1, ii+1 {
-		e.Evaluator.GadgetProdAddGLWETo(ctOut, e.EvalKey.RelinKey.Value[ii], e.buf.ctTensor.Value[i])
+		e.Evaluator.GadgetProdAddGLWETo(ctOut, e.EvalKey.RelinKey.Value[ii], ct.Value[i])
 	}
 }
 
-- 
2.43.0


From b1080c2f897cf33e883508a9feb0341be5f83b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:55 +0000
Subject: [PATCH 17/19] fix: align ManyLUT tables with the rotation step

---
 xtfhe/manylut_bootstrap.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/xtfhe/manylut_bootstrap.go b/xtfhe/manylut_bootstrap.go
index d5114bc..b09f8cb 100644
--- a/xtfhe/manylut_bootstrap.go
+++ b/xtfhe/manylut_bootstrap.go
@@ -86,9 +86,11 @@ func (e *ManyLUTEvaluator[T]) GenLUTCustomFullTo(lutOut tfhe.LookUpTable[T], f [
 
 	y := make([]T, e.Params.lutCount)
 
+	// Rotations are multiples of LUTCount, so the table is built from blocks of LUTCount.
+	blockCount := e.Params.baseParams.LUTSize() / e.Params.lutCount
 	for x := 0; x < int(messageModulus); x++ {
-		start := num.DivRound(x*e.Params.baseParams.LUTSize(), int(messageModulus))
-		end := num.DivRound((x+1)*e.Params.baseParams.LUTSize(), int(messageModulus))
+		start := num.DivRound(x*blockCount, int(messageModulus)) * e.Params.lutCount
+		end := num.DivRound((x+1)*blockCount, int(messageModulus)) * e.Params.lutCount
 		for i := range f {
 			y[i] = f[i](x)
 		}
@@ -99,7 +101,7 @@ func (e *ManyLUTEvaluator[T]) GenLUTCustomFullTo(lutOut tfhe.LookUpTable[T], f [
 		}
 	}
 
-	offset := num.DivRound(e.Params.baseParams.LUTSize(), int(2*messageModulus))
+	offset := num.DivRound(blockCount, int(2*messageModulus)) * e.Params.lutCount
 	vec.RotateInPlace(lutOut.Value[0].Coeffs, -offset)
 	for i := e.Params.baseParams.LUTSize() - offset; i < e.Params.baseParams.LUTSize(); i++ {
 		lutOut.Value[0].Coeffs[i] = -lutOut.Value[0].Coeffs[i]
-- 
2.43.0


From a886d05934545caf7b9c863a638901074522f31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:04 +0000
Subject: [PATCH 18/19] fix: centre and normalise the CDT sampler

The tails were cut around the center but the density was evaluated around its
fractional part, so any center of magnitude one or more gave garbage; and the
table was not normalised, so small deviations put their mass in the wrong place.
---
 xtfhe/sanitization_sampler.go | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/xtfhe/sanitization_sampler.go b/xtfhe/sanitization_sampler.go
index f8943c2..2b87503 100644
--- a/xtfhe/sanitization_sampler.go
+++ b/xtfhe/sanitization_sampler.go
@@ -34,16 +34,27 @@ func NewCDTSampler[T num.Integer](center float64, stdDev float64) *CDTSampler[T]
 	cFloor := math.Floor(center)
 	cFrac := center - cFloor
 
-	tailLo := int64(math.Floor(center - GaussianTailCut*stdDev))
-	tailHi := int64(math.Ceil(center + GaussianTailCut*stdDev))
+	tailLo := int64(math.Floor(cFrac - GaussianTailCut*stdDev))
+	tailHi := int64(math.Ceil(cFrac + GaussianTailCut*stdDev))
 	tableSize := tailHi - tailLo + 1
 
+	// Weights are relative to the most likely value, so that they never vanish altogether.
+	peak := math.Round(cFrac) - cFrac
+	weight := func(x int64) float64 {
+		xf := float64(x) - cFrac
+		return math.Exp((peak*peak - xf*xf) / (2 * stdDev * stdDev))
+	}
+
+	weightSum := 0.0
+	for x := tailLo; x <= tailHi; x++ {
+		weightSum += weight(x)
+	}
+
 	table := make([]uint64, tableSize)
 	cdf := 0.0
 	for i, x := 0, tailLo; x <= tailHi; i, x = i+1, x+1 {
-		xf := float64(x)
-		cdf += math.Exp(-(xf-cFrac)*(xf-cFrac)/(2*stdDev*stdDev)) / (math.Sqrt(2*math.Pi) * stdDev)
-		if cdf >= 1 {
+		cdf += weight(x) / weightSum
+		if cdf >= 1 || x == tailHi {
 			table[i] = math.MaxUint64
 		} else {
 			table[i] = uint64(cdf * math.MaxUint64)
-- 
2.43.0


From 66b002dd4b33b99a37ee111c670ab83bfff1faa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:53 +0000
Subject: [PATCH 19/19] fix: FHEW mod switch always rounded up to odd, biasing
 the phase by the key's sum

---
 xtfhe/fhew_bootstrap.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xtfhe/fhew_bootstrap.go b/xtfhe/fhew_bootstrap.go
index c32294c..71b2f40 100644
--- a/xtfhe/fhew_bootstrap.go
+++ b/xtfhe/fhew_bootstrap.go
@@ -38,9 +38,10 @@ func (e *FHEWEvaluator[T]) BootstrapLUTTo(ctOut tfhe.LWECiphertext[T], ct tfhe.L
 	}
 }
 
-// ModSwitch switches the modulus of x from Q to 2 * LUTSize.
+// ModSwitch switches the modulus of x from Q to 2 * LUTSize,
+// rounding to the nearest odd integer.
 func (e *FHEWEvaluator[T]) ModSwitch(x T) int {
-	return e.Evaluator.ModSwitch(x) | 1
+	return 2*int(x>>(e.Params.baseParams.LogQ()-e.Params.baseParams.LogPolyRank())) + 1
 }
 
 // BlindRotate returns the blind rotation of LWE ciphertext with respect to LUT.
-- 
2.43.0

