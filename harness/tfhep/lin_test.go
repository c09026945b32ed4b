package tfhep

import (
	"math"
	"testing"

	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/tfhe"
	"pgregory.net/rapid"

	"verifharness/tf"
	"verifharness/vh"
)

// keys is a set of arbitrary (not only binary) keys, under which linear relations
// of phases must hold exactly.
type keys[T tfhe.TorusInt] struct {
	l tfhe.LWESecretKey[T]
	g tfhe.GLWESecretKey[T]
}

func (v *env[T]) wideKeys() keys[T] {
	k := keys[T]{l: tfhe.LWESecretKey[T]{Value: make([]T, v.p.DefaultLWEDimension())}}
	tf.Dirty(v.pr, k.l.Value)
	for i := 0; i < v.K; i++ {
		k.g.Value = append(k.g.Value, tf.DirtyPoly[T](v.pr, v.N))
	}
	return k
}

// rawLWE is an arbitrary ciphertext.
func (v *env[T]) rawLWE() tfhe.LWECiphertext[T] {
	return tfhe.LWECiphertext[T]{Value: v.vec(v.p.DefaultLWEDimension() + 1)}
}

func (v *env[T]) rawGLWE() tfhe.GLWECiphertext[T] {
	c := tfhe.GLWECiphertext[T]{}
	for i := 0; i <= v.K; i++ {
		c.Value = append(c.Value, v.poly(v.N))
	}
	return c
}

func linLWE[T tfhe.TorusInt](v *env[T]) {
	t, e := v.t, v.eval
	k := v.wideKeys()
	ph := func(c tfhe.LWECiphertext[T]) T { return tf.Phase(c, k.l) }
	a, b := v.rawLWE(), v.rawLWE()
	pt := tfhe.LWEPlaintext[T]{Value: v.val()}
	c := v.val()
	pa, pb := ph(a), ph(b)
	a0, b0 := a.Copy(), b.Copy()
	// out is a fresh, used or aliased output.
	how := v.pr.N(3)
	out := v.lwe()
	ret := how == 2
	if how == 1 {
		out = a
	}
	if v.pr.N(8) == 0 {
		b, b0, pb = a, a0, pa
	}
	p0 := ph(out)
	op := rapid.SampledFrom([]string{"Add", "AddPlain", "Sub", "SubPlain", "Neg", "ScalarMul", "ScalarMulAdd", "ScalarMulSub"}).Draw(t, "lweOp")
	var want T
	pick := func(r func() tfhe.LWECiphertext[T], to func(tfhe.LWECiphertext[T])) {
		if ret {
			out = r()
		} else {
			to(out)
		}
	}
	switch op {
	case "Add":
		want = pa + pb
		pick(func() tfhe.LWECiphertext[T] { return e.AddLWE(a, b) }, func(o tfhe.LWECiphertext[T]) { e.AddLWETo(o, a, b) })
	case "AddPlain":
		want = pa + pt.Value
		pick(func() tfhe.LWECiphertext[T] { return e.AddPlainLWE(a, pt) }, func(o tfhe.LWECiphertext[T]) { e.AddPlainLWETo(o, a, pt) })
	case "Sub":
		want = pa - pb
		pick(func() tfhe.LWECiphertext[T] { return e.SubLWE(a, b) }, func(o tfhe.LWECiphertext[T]) { e.SubLWETo(o, a, b) })
	case "SubPlain":
		want = pa - pt.Value
		pick(func() tfhe.LWECiphertext[T] { return e.SubPlainLWE(a, pt) }, func(o tfhe.LWECiphertext[T]) { e.SubPlainLWETo(o, a, pt) })
	case "Neg":
		want = -pa
		pick(func() tfhe.LWECiphertext[T] { return e.NegLWE(a) }, func(o tfhe.LWECiphertext[T]) { e.NegLWETo(o, a) })
	case "ScalarMul":
		want = c * pa
		pick(func() tfhe.LWECiphertext[T] { return e.ScalarMulLWE(a, c) }, func(o tfhe.LWECiphertext[T]) { e.ScalarMulLWETo(o, a, c) })
	case "ScalarMulAdd":
		want = p0 + c*pa
		e.ScalarMulAddLWETo(out, a, c)
	case "ScalarMulSub":
		want = p0 - c*pa
		e.ScalarMulSubLWETo(out, a, c)
	}
	v.exact(op+"LWE", one(ph(out)), one(want))
	if how != 1 && !tf.Same(a.Value, a0.Value) || &b.Value[0] != &a.Value[0] && !tf.Same(b.Value, b0.Value) {
		t.Fatalf("%sLWE modified an input (%v)", op, v.set)
	}
	vh.Label("%sLWE", op)
}

func linGLWE[T tfhe.TorusInt](v *env[T]) {
	t, e := v.t, v.eval
	k := v.wideKeys()
	op := rapid.SampledFrom([]string{"Add", "AddPlain", "Sub", "SubPlain", "Neg", "ScalarMul", "ScalarMulAdd", "ScalarMulSub",
		"PolyMul", "PolyMulAdd", "PolyMulSub", "FFTPolyMul", "FFTPolyMulAdd", "FFTPolyMulSub", "MonomialMul", "MonomialMulInPlace", "MonomialMulAdd", "MonomialMulSub",
		"Permute", "PermuteInPlace", "PermuteAdd", "PermuteSub"}).Draw(t, "glweOp")
	fft := len(op) > 3 && op[:3] == "FFT"
	noAlias := fft || len(op) >= 4 && (op[:4] == "Mono" || op[:4] == "Perm")
	if fft {
		k.g = v.sk.GLWEKey // the rounding must stay small
	}
	ph := func(c tfhe.GLWECiphertext[T]) []T { return tf.GPhase(c, k.g) }
	a, b := v.rawGLWE(), v.rawGLWE()
	a0, b0 := a.Copy(), b.Copy()
	pt := tfhe.GLWEPlaintext[T]{Value: v.poly(v.N)}
	c := v.val()
	pp := v.poly(v.N)
	sp := v.small(1 << uint(v.pr.N(8)))
	d := v.pr.N(8*v.N) - 4*v.N
	odd := d | 1
	how := v.pr.N(3)
	if noAlias && how == 1 {
		how = 0
	}
	ret := how == 2
	out := v.glwe()
	if how == 1 {
		out = a
	}
	if v.pr.N(8) == 0 && !noAlias {
		b, b0 = a, a0
	}
	pa, pb, p0 := ph(a), ph(b), ph(out)
	var want []T
	tol := 0.0
	type G = tfhe.GLWECiphertext[T]
	pick := func(r func() G, to func(G)) {
		if ret {
			out = r()
		} else {
			to(out)
		}
	}
	switch op {
	case "Add":
		want = plus(pa, pb)
		pick(func() G { return e.AddGLWE(a, b) }, func(o G) { e.AddGLWETo(o, a, b) })
	case "AddPlain":
		want = plus(pa, pt.Value.Coeffs)
		pick(func() G { return e.AddPlainGLWE(a, pt) }, func(o G) { e.AddPlainGLWETo(o, a, pt) })
	case "Sub":
		want = minus(pa, pb)
		pick(func() G { return e.SubGLWE(a, b) }, func(o G) { e.SubGLWETo(o, a, b) })
	case "SubPlain":
		want = minus(pa, pt.Value.Coeffs)
		pick(func() G { return e.SubPlainGLWE(a, pt) }, func(o G) { e.SubPlainGLWETo(o, a, pt) })
	case "Neg":
		want = times(pa, -T(1)+0)
		pick(func() G { return e.NegGLWE(a) }, func(o G) { e.NegGLWETo(o, a) })
	case "ScalarMul":
		want = times(pa, c)
		pick(func() G { return e.ScalarMulGLWE(a, c) }, func(o G) { e.ScalarMulGLWETo(o, a, c) })
	case "ScalarMulAdd":
		want = plus(p0, times(pa, c))
		e.ScalarMulAddGLWETo(out, a, c)
	case "ScalarMulSub":
		want = minus(p0, times(pa, c))
		e.ScalarMulSubGLWETo(out, a, c)
	case "PolyMul":
		want = tf.NegMul(pa, pp.Coeffs)
		pick(func() G { return e.PolyMulGLWE(a, pp) }, func(o G) { e.PolyMulGLWETo(o, a, pp) })
	case "PolyMulAdd":
		want = plus(p0, tf.NegMul(pa, pp.Coeffs))
		e.PolyMulAddGLWETo(out, a, pp)
	case "PolyMulSub":
		want = minus(p0, tf.NegMul(pa, pp.Coeffs))
		e.PolyMulSubGLWETo(out, a, pp)
	case "FFTPolyMul", "FFTPolyMulAdd", "FFTPolyMulSub":
		// One float64 product of a torus polynomial and a short one.
		fp := e.PolyEvaluator.FwdFFT(sp)
		want = tf.NegMul(pa, sp.Coeffs)
		tol = v.mulErr(norm1(sp))
		switch op {
		case "FFTPolyMul":
			pick(func() G { return e.FFTPolyMulGLWE(a, fp) }, func(o G) { e.FFTPolyMulGLWETo(o, a, fp) })
		case "FFTPolyMulAdd":
			want = plus(p0, want)
			e.FFTPolyMulAddGLWETo(out, a, fp)
		case "FFTPolyMulSub":
			want = minus(p0, want)
			e.FFTPolyMulSubGLWETo(out, a, fp)
		}
	case "MonomialMul":
		want = tf.Mono(pa, d)
		pick(func() G { return e.MonomialMulGLWE(a, d) }, func(o G) { e.MonomialMulGLWETo(o, a, d) })
	case "MonomialMulInPlace":
		want = tf.Mono(pa, d)
		out = a.Copy()
		e.MonomialMulGLWEInPlace(out, d)
	case "MonomialMulAdd":
		want = plus(p0, tf.Mono(pa, d))
		e.MonomialMulAddGLWETo(out, a, d)
	case "MonomialMulSub":
		want = minus(p0, tf.Mono(pa, d))
		e.MonomialMulSubGLWETo(out, a, d)
	default:
		// The phase of a permuted ciphertext is permuted under the permuted key.
		p0 = ph(out)
		perm := tfhe.GLWESecretKey[T]{}
		for _, s := range k.g.Value {
			perm.Value = append(perm.Value, poly.Poly[T]{Coeffs: tf.Permute(s.Coeffs, odd)})
		}
		outBefore := tf.GPhase(out, perm)
		want = tf.Permute(pa, odd)
		switch op {
		case "Permute":
			pick(func() G { return e.PermuteGLWE(a, odd) }, func(o G) { e.PermuteGLWETo(o, a, odd) })
		case "PermuteInPlace":
			out = a.Copy()
			e.PermuteGLWEInPlace(out, odd)
		case "PermuteAdd":
			want = plus(outBefore, want)
			e.PermuteAddGLWETo(out, a, odd)
		case "PermuteSub":
			want = minus(outBefore, want)
			e.PermuteSubGLWETo(out, a, odd)
		}
		v.exact(op+"GLWE", tf.GPhase(out, perm), want)
		even := odd + 1
		if !vh.Panics(func() { e.PermuteGLWE(a, even) }) {
			t.Fatalf("PermuteGLWE accepts the even %d", even)
		}
		want = nil
	}
	if want != nil {
		v.near(op+"GLWE", ph(out), want, tol)
	}
	for i := range a.Value {
		if how != 1 && !tf.Same(a.Value[i].Coeffs, a0.Value[i].Coeffs) || &b.Value[0] != &a.Value[0] && !tf.Same(b.Value[i].Coeffs, b0.Value[i].Coeffs) {
			t.Fatalf("%sGLWE modified an input (%v)", op, v.set)
		}
	}
	vh.Label("%sGLWE", op)
}

// mulErr bounds the error of one float64 product with a polynomial of 1-norm n1,
// seen through a binary key.
func (v *env[T]) mulErr(n1 float64) float64 {
	return (v.fftErr(v.K)-1)*(n1+1) + 2 + float64(v.K*v.N)
}

func linFFT[T tfhe.TorusInt](v *env[T]) {
	t, e := v.t, v.eval
	type F = tfhe.FFTGLWECiphertext[T]
	op := rapid.SampledFrom([]string{"Add", "Sub", "Neg", "FloatMul", "FloatMulAdd", "FloatMulSub", "CmplxMul", "CmplxMulAdd", "CmplxMulSub",
		"PolyMul", "PolyMulAdd", "PolyMulSub", "FFTPolyMul", "FFTPolyMulAdd", "FFTPolyMulSub", "Permute", "PermuteInPlace", "PermuteAdd", "PermuteSub"}).Draw(t, "fftOp")
	a, b, o0 := v.rawGLWE(), v.rawGLWE(), v.rawGLWE()
	fa, fb := v.enc.FwdFFTGLWECiphertext(a), v.enc.FwdFFTGLWECiphertext(b)
	fa0 := fa.Copy()
	fo := v.enc.FwdFFTGLWECiphertext(o0)
	noAlias := len(op) >= 4 && op[:4] == "Perm"
	how := v.pr.N(3)
	if noAlias && how == 1 {
		how = 0
	}
	ret := how == 2
	out := fo
	if how == 1 {
		out, o0 = fa, a
	}
	pa, pb, p0 := v.gphase(a), v.gphase(b), v.gphase(o0)
	c := T(v.pr.Range(-100, 100))
	cf := float64(tf.Signed(c))
	sp := v.small(1 << uint(v.pr.N(8)))
	d := v.pr.N(8*v.N) - 4*v.N
	odd := d | 1
	pick := func(r func() F, to func(F)) {
		if ret {
			out = r()
		} else {
			to(out)
		}
	}
	var want []T
	n1 := 2.0
	key := v.sk.GLWEKey
	switch op {
	case "Add":
		want = plus(pa, pb)
		pick(func() F { return e.AddFFTGLWE(fa, fb) }, func(o F) { e.AddFFTGLWETo(o, fa, fb) })
	case "Sub":
		want = minus(pa, pb)
		pick(func() F { return e.SubFFTGLWE(fa, fb) }, func(o F) { e.SubFFTGLWETo(o, fa, fb) })
	case "Neg":
		want = times(pa, -T(1)+0)
		pick(func() F { return e.NegFFTGLWE(fa) }, func(o F) { e.NegFFTGLWETo(o, fa) })
	case "FloatMul":
		want, n1 = times(pa, c), math.Abs(cf)
		pick(func() F { return e.FloatMulFFTGLWE(fa, cf) }, func(o F) { e.FloatMulFFTGLWETo(o, fa, cf) })
	case "FloatMulAdd":
		want, n1 = plus(p0, times(pa, c)), math.Abs(cf)+1
		e.FloatMulAddFFTGLWETo(out, fa, cf)
	case "FloatMulSub":
		want, n1 = minus(p0, times(pa, c)), math.Abs(cf)+1
		e.FloatMulSubFFTGLWETo(out, fa, cf)
	case "CmplxMul":
		want, n1 = times(pa, c), math.Abs(cf)
		pick(func() F { return e.CmplxMulFFTGLWE(fa, complex(cf, 0)) }, func(o F) { e.CmplxMulFFTGLWETo(o, fa, complex(cf, 0)) })
	case "CmplxMulAdd":
		want, n1 = plus(p0, times(pa, c)), math.Abs(cf)+1
		e.CmplxMulAddFFTGLWETo(out, fa, complex(cf, 0))
	case "CmplxMulSub":
		want, n1 = minus(p0, times(pa, c)), math.Abs(cf)+1
		e.CmplxMulSubFFTGLWETo(out, fa, complex(cf, 0))
	case "PolyMul", "PolyMulAdd", "PolyMulSub", "FFTPolyMul", "FFTPolyMulAdd", "FFTPolyMulSub":
		n1 = norm1(sp) + 1
		want = tf.NegMul(pa, sp.Coeffs)
		fp := e.PolyEvaluator.FwdFFT(sp)
		switch op {
		case "PolyMul":
			pick(func() F { return e.PolyMulFFTGLWE(fa, sp) }, func(o F) { e.PolyMulFFTGLWETo(o, fa, sp) })
		case "PolyMulAdd":
			want = plus(p0, want)
			e.PolyMulAddFFTGLWETo(out, fa, sp)
		case "PolyMulSub":
			want = minus(p0, want)
			e.PolyMulSubFFTGLWETo(out, fa, sp)
		case "FFTPolyMul":
			pick(func() F { return e.FFTPolyMulFFTGLWE(fa, fp) }, func(o F) { e.FFTPolyMulFFTGLWETo(o, fa, fp) })
		case "FFTPolyMulAdd":
			want = plus(p0, want)
			e.FFTPolyMulAddFFTGLWETo(out, fa, fp)
		case "FFTPolyMulSub":
			want = minus(p0, want)
			e.FFTPolyMulSubFFTGLWETo(out, fa, fp)
		}
	default:
		key = tfhe.GLWESecretKey[T]{}
		for _, s := range v.sk.GLWEKey.Value {
			key.Value = append(key.Value, poly.Poly[T]{Coeffs: tf.Permute(s.Coeffs, odd)})
		}
		p0 = tf.GPhase(o0, key)
		want = tf.Permute(pa, odd)
		switch op {
		case "Permute":
			pick(func() F { return e.PermuteFFTGLWE(fa, odd) }, func(o F) { e.PermuteFFTGLWETo(o, fa, odd) })
		case "PermuteInPlace":
			out = fa.Copy()
			e.PermuteFFTGLWEInPlace(out, odd)
		case "PermuteAdd":
			want = plus(p0, want)
			e.PermuteAddFFTGLWETo(out, fa, odd)
		case "PermuteSub":
			want = minus(p0, want)
			e.PermuteSubFFTGLWETo(out, fa, odd)
		}
		even := odd + 1
		if !vh.Panics(func() { e.PermuteFFTGLWE(fa, even) }) {
			t.Fatalf("PermuteFFTGLWE accepts the even %d", even)
		}
	}
	v.near(op+"FFTGLWE", tf.GPhase(v.enc.InvFFTGLWECiphertext(out), key), want, v.mulErr(n1+1))
	if how != 1 {
		for i := range fa.Value {
			for j := range fa.Value[i].Coeffs {
				if fa.Value[i].Coeffs[j] != fa0.Value[i].Coeffs[j] {
					t.Fatalf("%sFFTGLWE modified an input (%v)", op, v.set)
				}
			}
		}
	}
	vh.Label("%sFFTGLWE", op)
}

func linCase[T tfhe.TorusInt](t *rapid.T) {
	v := newEnv[T](t, tf.Opts{Extend: extends, LogN: [2]int{4, 7}, Big: 12, BigLWE: 1000, Order: -1, BlockCount: true})
	if rapid.Bool().Draw(t, "copy") {
		v.eval = v.eval.SafeCopy()
	}
	n := rapid.IntRange(2, 12).Draw(t, "ops")
	for i := 0; i < n; i++ {
		switch v.pr.N(4) {
		case 0:
			linLWE(v)
		case 1, 2:
			linGLWE(v)
		default:
			linFFT(v)
		}
	}
	vh.Case(true, "%v ops %d seed %x", v.set, n, v.pr.U64())
}

func TestLinear(t *testing.T) {
	vh.Check(t, "a case applies several linear operations to arbitrary ciphertexts, into fresh, used and aliased outputs, and compares phases under a key with full-width entries; every case is non-trivial", 2000, 60000, func(t *rapid.T) {
		both(t, linCase[uint32], linCase[uint64])
	})
}

func extractCase[T tfhe.TorusInt](t *rapid.T) {
	v := newEnv[T](t, tf.Opts{Extend: extends, LogN: [2]int{4, 8}, Big: 12, BigLWE: 1000, Order: int(tfhe.OrderKeySwitchBlindRotate), MaxRank: 5})
	c := v.rawGLWE()
	k := v.wideKeys()
	gk := k.g
	flat := gk.AsLWEKey()
	to := tfhe.NewLWESecretKeyCustom[T](v.K * v.N)
	tf.Dirty(v.pr, to.Value)
	gk.AsLWEKeyTo(to)
	for i := range gk.Value {
		if !tf.Same(flat.Value[i*v.N:(i+1)*v.N], gk.Value[i].Coeffs) || !tf.Same(to.Value[i*v.N:(i+1)*v.N], gk.Value[i].Coeffs) {
			t.Fatalf("AsLWEKey changes key polynomial %d", i)
		}
	}
	ph := tf.GPhase(c, gk)
	ref := c.Copy()
	for n := 0; n < 6; n++ {
		idx := []int{0, v.N - 1, v.N / 2, v.pr.N(v.N), v.pr.N(v.N), 1}[n]
		l := c.AsLWECiphertext(idx)
		m := v.lwe()
		c.AsLWECiphertextTo(idx, m)
		v.exact("extraction", one(tf.Phase(l, flat)), one(ph[idx]))
		v.exact("extraction to", one(tf.Phase(m, flat)), one(ph[idx]))
	}
	for i := range c.Value {
		if !tf.Same(c.Value[i].Coeffs, ref.Value[i].Coeffs) {
			t.Fatalf("extraction modified the ciphertext")
		}
	}
	vh.Case(true, "%v seed %x", v.set, v.pr.U64())
}

func TestExtract(t *testing.T) {
	vh.Check(t, "a case extracts several coefficients of an arbitrary GLWE ciphertext and compares phases under an arbitrary key; every case is non-trivial", 1500, 60000, func(t *rapid.T) {
		both(t, extractCase[uint32], extractCase[uint64])
	})
}
