package mkp

import (
	"math"
	"testing"

	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/mktfhe"
	"github.com/sp301415/tfhe-go/tfhe"
	"pgregory.net/rapid"

	"verifharness/tf"
	"verifharness/vh"
)

// keys is a set of arbitrary (not only binary) keys for every party, under which
// linear relations of phases must hold exactly.
type keys[T tfhe.TorusInt] struct {
	l []T
	g []poly.Poly[T]
}

func (k keys[T]) lwe(c lwe[T]) T { return c.Value[0] + tf.Dot(c.Value[1:], k.l) }

func (k keys[T]) glwe(c glwe[T]) []T {
	out := append([]T{}, c.Value[0].Coeffs...)
	for i := range k.g {
		out = tf.Plus(out, tf.NegMul(c.Value[i+1].Coeffs, k.g[i].Coeffs))
	}
	return out
}

func (k keys[T]) permuted(d int) keys[T] {
	p := keys[T]{}
	for _, s := range k.g {
		p.g = append(p.g, poly.Poly[T]{Coeffs: tf.Permute(s.Coeffs, d)})
	}
	return p
}

func (v *env[T]) wideKeys() keys[T] {
	k := keys[T]{l: make([]T, v.p.DefaultLWEDimension())}
	tf.Dirty(v.P, k.l)
	for i := 0; i < v.k; i++ {
		k.g = append(k.g, tf.DirtyPoly[T](v.P, v.N))
	}
	return k
}

// binaryKeys keeps floating-point errors small.
func (v *env[T]) binaryKeys() keys[T] {
	k := keys[T]{}
	for i := 0; i < v.k; i++ {
		p := poly.NewPoly[T](v.N)
		for j := range p.Coeffs {
			p.Coeffs[j] = T(v.P.N(2))
		}
		k.g = append(k.g, p)
	}
	return k
}

func linLWE[T tfhe.TorusInt](v *env[T]) {
	t, e := v.T, v.eval
	k := v.wideKeys()
	ph := func(c lwe[T]) T { return k.lwe(c) }
	a, b := v.rawLWE(), v.rawLWE()
	pt := tfhe.LWEPlaintext[T]{Value: v.Val()}
	c := v.Val()
	pa, pb := ph(a), ph(b)
	a0, b0 := a.Copy(), b.Copy()
	// out is a fresh, used or aliased output.
	how := v.P.N(3)
	out := v.lwe()
	ret := how == 2
	if how == 1 {
		out = a
	}
	if v.P.N(8) == 0 {
		b, b0, pb = a, a0, pa
	}
	p0 := ph(out)
	op := rapid.SampledFrom([]string{"Add", "AddPlain", "Sub", "SubPlain", "Neg", "ScalarMul", "ScalarMulAdd", "ScalarMulSub"}).Draw(t, "lweOp")
	var want T
	pick := func(r func() lwe[T], to func(lwe[T])) {
		if ret {
			out = r()
		} else {
			to(out)
		}
	}
	switch op {
	case "Add":
		want = pa + pb
		pick(func() lwe[T] { return e.AddLWE(a, b) }, func(o lwe[T]) { e.AddLWETo(o, a, b) })
	case "AddPlain":
		want = pa + pt.Value
		pick(func() lwe[T] { return e.AddPlainLWE(a, pt) }, func(o lwe[T]) { e.AddPlainLWETo(o, a, pt) })
	case "Sub":
		want = pa - pb
		pick(func() lwe[T] { return e.SubLWE(a, b) }, func(o lwe[T]) { e.SubLWETo(o, a, b) })
	case "SubPlain":
		want = pa - pt.Value
		pick(func() lwe[T] { return e.SubPlainLWE(a, pt) }, func(o lwe[T]) { e.SubPlainLWETo(o, a, pt) })
	case "Neg":
		want = -pa
		pick(func() lwe[T] { return e.NegLWE(a) }, func(o lwe[T]) { e.NegLWETo(o, a) })
	case "ScalarMul":
		want = c * pa
		pick(func() lwe[T] { return e.ScalarMulLWE(a, c) }, func(o lwe[T]) { e.ScalarMulLWETo(o, a, c) })
	case "ScalarMulAdd":
		want = p0 + c*pa
		e.ScalarMulAddLWETo(out, a, c)
	case "ScalarMulSub":
		want = p0 - c*pa
		e.ScalarMulSubLWETo(out, a, c)
	}
	v.Exact(op+"LWE", tf.One(ph(out)), tf.One(want))
	if how != 1 && !tf.Same(a.Value, a0.Value) || &b.Value[0] != &a.Value[0] && !tf.Same(b.Value, b0.Value) {
		t.Fatalf("%sLWE modified an input (%v)", op, v)
	}
	vh.Label("%sLWE", op)
}

func linGLWE[T tfhe.TorusInt](v *env[T]) {
	t, e := v.T, v.eval
	k := v.wideKeys()
	op := rapid.SampledFrom([]string{"Add", "AddPlain", "Sub", "SubPlain", "Neg", "ScalarMul", "ScalarMulAdd", "ScalarMulSub",
		"PolyMul", "PolyMulAdd", "PolyMulSub", "FFTPolyMul", "FFTPolyMulAdd", "FFTPolyMulSub", "MonomialMul", "MonomialMulInPlace", "MonomialMulAdd", "MonomialMulSub",
		"Permute", "PermuteInPlace", "PermuteAdd", "PermuteSub"}).Draw(t, "glweOp")
	fft := len(op) > 3 && op[:3] == "FFT"
	noAlias := fft || len(op) >= 4 && (op[:4] == "Mono" || op[:4] == "Perm")
	if fft {
		k.g = v.binaryKeys().g // the rounding must stay small
	}
	ph := func(c glwe[T]) []T { return k.glwe(c) }
	a, b := v.rawGLWE(), v.rawGLWE()
	a0, b0 := a.Copy(), b.Copy()
	pt := tfhe.GLWEPlaintext[T]{Value: v.Poly()}
	c := v.Val()
	pp := v.Poly()
	sp := v.Small(1 << uint(v.P.N(8)))
	d := v.P.N(8*v.N) - 4*v.N
	odd := d | 1
	how := v.P.N(3)
	if noAlias && how == 1 {
		how = 0
	}
	ret := how == 2
	out := v.glwe()
	if how == 1 {
		out = a
	}
	if v.P.N(8) == 0 && !noAlias {
		b, b0 = a, a0
	}
	pa, pb, p0 := ph(a), ph(b), ph(out)
	var want []T
	tol := 0.0
	type G = glwe[T]
	pick := func(r func() G, to func(G)) {
		if ret {
			out = r()
		} else {
			to(out)
		}
	}
	switch op {
	case "Add":
		want = tf.Plus(pa, pb)
		pick(func() G { return e.AddGLWE(a, b) }, func(o G) { e.AddGLWETo(o, a, b) })
	case "AddPlain":
		want = tf.Plus(pa, pt.Value.Coeffs)
		pick(func() G { return e.AddPlainGLWE(a, pt) }, func(o G) { e.AddPlainGLWETo(o, a, pt) })
	case "Sub":
		want = tf.Minus(pa, pb)
		pick(func() G { return e.SubGLWE(a, b) }, func(o G) { e.SubGLWETo(o, a, b) })
	case "SubPlain":
		want = tf.Minus(pa, pt.Value.Coeffs)
		pick(func() G { return e.SubPlainGLWE(a, pt) }, func(o G) { e.SubPlainGLWETo(o, a, pt) })
	case "Neg":
		want = tf.Times(pa, -T(1)+0)
		pick(func() G { return e.NegGLWE(a) }, func(o G) { e.NegGLWETo(o, a) })
	case "ScalarMul":
		want = tf.Times(pa, c)
		pick(func() G { return e.ScalarMulGLWE(a, c) }, func(o G) { e.ScalarMulGLWETo(o, a, c) })
	case "ScalarMulAdd":
		want = tf.Plus(p0, tf.Times(pa, c))
		e.ScalarMulAddGLWETo(out, a, c)
	case "ScalarMulSub":
		want = tf.Minus(p0, tf.Times(pa, c))
		e.ScalarMulSubGLWETo(out, a, c)
	case "PolyMul":
		want = tf.NegMul(pa, pp.Coeffs)
		pick(func() G { return e.PolyMulGLWE(a, pp) }, func(o G) { e.PolyMulGLWETo(o, a, pp) })
	case "PolyMulAdd":
		want = tf.Plus(p0, tf.NegMul(pa, pp.Coeffs))
		e.PolyMulAddGLWETo(out, a, pp)
	case "PolyMulSub":
		want = tf.Minus(p0, tf.NegMul(pa, pp.Coeffs))
		e.PolyMulSubGLWETo(out, a, pp)
	case "FFTPolyMul", "FFTPolyMulAdd", "FFTPolyMulSub":
		// One float64 product of a torus polynomial and a short one.
		fp := e.PolyEvaluator.FwdFFT(sp)
		want = tf.NegMul(pa, sp.Coeffs)
		tol = v.mulErr(tf.Norm1(sp.Coeffs))
		switch op {
		case "FFTPolyMul":
			pick(func() G { return e.FFTPolyMulGLWE(a, fp) }, func(o G) { e.FFTPolyMulGLWETo(o, a, fp) })
		case "FFTPolyMulAdd":
			want = tf.Plus(p0, want)
			e.FFTPolyMulAddGLWETo(out, a, fp)
		case "FFTPolyMulSub":
			want = tf.Minus(p0, want)
			e.FFTPolyMulSubGLWETo(out, a, fp)
		}
	case "MonomialMul":
		want = tf.Mono(pa, d)
		pick(func() G { return e.MonomialMulGLWE(a, d) }, func(o G) { e.MonomialMulGLWETo(o, a, d) })
	case "MonomialMulInPlace":
		want = tf.Mono(pa, d)
		out = a.Copy()
		e.MonomialMulGLWEInPlace(out, d)
	case "MonomialMulAdd":
		want = tf.Plus(p0, tf.Mono(pa, d))
		e.MonomialMulAddGLWETo(out, a, d)
	case "MonomialMulSub":
		want = tf.Minus(p0, tf.Mono(pa, d))
		e.MonomialMulSubGLWETo(out, a, d)
	default:
		// The phase of a permuted ciphertext is permuted under the permuted key.
		p0 = ph(out)
		perm := k.permuted(odd)
		outBefore := perm.glwe(out)
		want = tf.Permute(pa, odd)
		switch op {
		case "Permute":
			e.PermuteGLWETo(out, a, odd)
		case "PermuteInPlace":
			out = a.Copy()
			e.PermuteGLWEInPlace(out, odd)
		case "PermuteAdd":
			want = tf.Plus(outBefore, want)
			e.PermuteAddGLWETo(out, a, odd)
		case "PermuteSub":
			want = tf.Minus(outBefore, want)
			e.PermuteSubGLWETo(out, a, odd)
		}
		v.Exact(op+"GLWE", perm.glwe(out), want)
		even := odd + 1
		if !vh.Panics(func() { e.PermuteGLWETo(v.glwe(), a, even) }) {
			t.Fatalf("PermuteGLWE accepts the even %d", even)
		}
		want = nil
	}
	if want != nil {
		v.Near(op+"GLWE", ph(out), want, tol)
	}
	for i := range a.Value {
		if how != 1 && !tf.Same(a.Value[i].Coeffs, a0.Value[i].Coeffs) || &b.Value[0] != &a.Value[0] && !tf.Same(b.Value[i].Coeffs, b0.Value[i].Coeffs) {
			t.Fatalf("%sGLWE modified an input (%v)", op, v)
		}
	}
	vh.Label("%sGLWE", op)
}

func linFFT[T tfhe.TorusInt](v *env[T]) {
	t, e := v.T, v.eval
	type F = fft[T]
	op := rapid.SampledFrom([]string{"Add", "Sub", "Neg", "FloatMul", "FloatMulAdd", "FloatMulSub", "CmplxMul", "CmplxMulAdd", "CmplxMulSub",
		"PolyMul", "PolyMulAdd", "PolyMulSub", "FFTPolyMul", "FFTPolyMulAdd", "FFTPolyMulSub", "Permute", "PermuteInPlace", "PermuteAdd", "PermuteSub"}).Draw(t, "fftOp")
	a, b, o0 := v.rawGLWE(), v.rawGLWE(), v.rawGLWE()
	fa, fb := v.fwd(a), v.fwd(b)
	fa0 := fa.Copy()
	fo := v.fwd(o0)
	noAlias := len(op) >= 4 && op[:4] == "Perm"
	how := v.P.N(3)
	if noAlias && how == 1 {
		how = 0
	}
	ret := how == 2
	out := fo
	if how == 1 {
		out, o0 = fa, a
	}
	key := v.binaryKeys()
	pa, pb, p0 := key.glwe(a), key.glwe(b), key.glwe(o0)
	c := T(v.P.Range(-100, 100))
	cf := float64(tf.Signed(c))
	sp := v.Small(1 << uint(v.P.N(8)))
	d := v.P.N(8*v.N) - 4*v.N
	odd := d | 1
	pick := func(r func() F, to func(F)) {
		if ret {
			out = r()
		} else {
			to(out)
		}
	}
	var want []T
	n1 := 2.0

	switch op {
	case "Add":
		want = tf.Plus(pa, pb)
		pick(func() F { return e.AddFFTGLWE(fa, fb) }, func(o F) { e.AddFFTGLWETo(o, fa, fb) })
	case "Sub":
		want = tf.Minus(pa, pb)
		pick(func() F { return e.SubFFTGLWE(fa, fb) }, func(o F) { e.SubFFTGLWETo(o, fa, fb) })
	case "Neg":
		want = tf.Times(pa, -T(1)+0)
		pick(func() F { return e.NegFFTGLWE(fa) }, func(o F) { e.NegFFTGLWETo(o, fa) })
	case "FloatMul":
		want, n1 = tf.Times(pa, c), math.Abs(cf)
		pick(func() F { return e.FloatMulFFTGLWE(fa, cf) }, func(o F) { e.FloatMulFFTGLWETo(o, fa, cf) })
	case "FloatMulAdd":
		want, n1 = tf.Plus(p0, tf.Times(pa, c)), math.Abs(cf)+1
		e.FloatMulAddFFTGLWETo(out, fa, cf)
	case "FloatMulSub":
		want, n1 = tf.Minus(p0, tf.Times(pa, c)), math.Abs(cf)+1
		e.FloatMulSubFFTGLWETo(out, fa, cf)
	case "CmplxMul":
		want, n1 = tf.Times(pa, c), math.Abs(cf)
		pick(func() F { return e.CmplxMulFFTGLWE(fa, complex(cf, 0)) }, func(o F) { e.CmplxMulFFTGLWETo(o, fa, complex(cf, 0)) })
	case "CmplxMulAdd":
		want, n1 = tf.Plus(p0, tf.Times(pa, c)), math.Abs(cf)+1
		e.CmplxMulAddFFTGLWETo(out, fa, complex(cf, 0))
	case "CmplxMulSub":
		want, n1 = tf.Minus(p0, tf.Times(pa, c)), math.Abs(cf)+1
		e.CmplxMulSubFFTGLWETo(out, fa, complex(cf, 0))
	case "PolyMul", "PolyMulAdd", "PolyMulSub", "FFTPolyMul", "FFTPolyMulAdd", "FFTPolyMulSub":
		n1 = tf.Norm1(sp.Coeffs) + 1
		want = tf.NegMul(pa, sp.Coeffs)
		fp := e.PolyEvaluator.FwdFFT(sp)
		switch op {
		case "PolyMul":
			pick(func() F { return e.PolyMulFFTGLWE(fa, sp) }, func(o F) { e.PolyMulFFTGLWETo(o, fa, sp) })
		case "PolyMulAdd":
			want = tf.Plus(p0, want)
			e.PolyMulAddFFTGLWETo(out, fa, sp)
		case "PolyMulSub":
			want = tf.Minus(p0, want)
			e.PolyMulSubFFTGLWETo(out, fa, sp)
		case "FFTPolyMul":
			pick(func() F { return e.FFTPolyMulFFTGLWE(fa, fp) }, func(o F) { e.FFTPolyMulFFTGLWETo(o, fa, fp) })
		case "FFTPolyMulAdd":
			want = tf.Plus(p0, want)
			e.FFTPolyMulAddFFTGLWETo(out, fa, fp)
		case "FFTPolyMulSub":
			want = tf.Minus(p0, want)
			e.FFTPolyMulSubFFTGLWETo(out, fa, fp)
		}
	default:
		key = key.permuted(odd)
		p0 = key.glwe(o0)
		want = tf.Permute(pa, odd)
		switch op {
		case "Permute":
			e.PermuteFFTGLWETo(out, fa, odd)
		case "PermuteInPlace":
			out = fa.Copy()
			e.PermuteFFTGLWEInPlace(out, odd)
		case "PermuteAdd":
			want = tf.Plus(p0, want)
			e.PermuteAddFFTGLWETo(out, fa, odd)
		case "PermuteSub":
			want = tf.Minus(p0, want)
			e.PermuteSubFFTGLWETo(out, fa, odd)
		}
		even := odd + 1
		if !vh.Panics(func() { e.PermuteFFTGLWETo(v.fglwe(), fa, even) }) {
			t.Fatalf("PermuteFFTGLWE accepts the even %d", even)
		}
	}
	v.Near(op+"FFTGLWE", key.glwe(v.inv(out)), want, v.mulErr(n1+1))
	if how != 1 {
		for i := range fa.Value {
			for j := range fa.Value[i].Coeffs {
				if fa.Value[i].Coeffs[j] != fa0.Value[i].Coeffs[j] {
					t.Fatalf("%sFFTGLWE modified an input (%v)", op, v)
				}
			}
		}
	}
	vh.Label("%sFFTGLWE", op)
}

func linCase[T tfhe.TorusInt](t *rapid.T) {
	v := newEnv[T](t, opts{Opts: tf.Opts{LogN: [2]int{4, 7}, Big: 11, BigLWE: 1000, Order: -1, BlockCount: true}})
	v.eval = mktfhe.NewEvaluator(v.p, map[int]mktfhe.EvaluationKey[T]{})
	if rapid.Bool().Draw(t, "copy") {
		v.eval = v.eval.SafeCopy()
	}
	n := rapid.IntRange(2, 12).Draw(t, "ops")
	for i := 0; i < n; i++ {
		switch v.P.N(4) {
		case 0:
			linLWE(v)
		case 1, 2:
			linGLWE(v)
		default:
			linFFT(v)
		}
	}
	vh.Case(true, "%v ops %d seed %x", v, n, v.P.U64())
}

func TestLinear(t *testing.T) {
	vh.Check(t, "a case applies several linear operations to arbitrary ciphertexts, into fresh, used and aliased outputs, and compares phases under a key with full-width entries; every case is non-trivial", 2000, 60000, func(t *rapid.T) {
		both(t, linCase[uint32], linCase[uint64])
	})
}
