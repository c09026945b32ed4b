package xp

import (
	"math"
	"testing"

	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/tfhe"
	"github.com/sp301415/tfhe-go/xtfhe"
	"pgregory.net/rapid"

	"verifharness/tf"
	"verifharness/vh"
)

// split writes x as hi*2^k+lo with lo centred.
func split[T tfhe.TorusInt](x T, k uint) (hi, lo float64) {
	sh := uint(tf.Bits[T]()) - k
	var low int64
	if tf.Bits[T]() == 32 {
		low = int64(int32(uint32(x)<<sh) >> sh)
	} else {
		low = int64(uint64(x)<<sh) >> sh
	}
	return float64(tf.Signed(x-T(low)) >> k), float64(low)
}

// moments collects samples of a law.
type moments struct{ n, s, s2 float64 }

func (m *moments) add(x float64) { m.n++; m.s += x; m.s2 += x * x }

func (m *moments) check(t *rapid.T, what, on string, mean, va, kurtosis float64) {
	t.Helper()
	if m.n < 200 {
		return
	}
	v := m.s2/m.n - 2*mean*m.s/m.n + mean*mean
	if band := 8*math.Sqrt((kurtosis-1)/m.n) + 0.03; math.Abs(v/va-1) > band {
		t.Fatalf("%s: %v samples of %s have deviation %.4g instead of %.4g", on, m.n, what, math.Sqrt(v), math.Sqrt(va))
	}
	if d := math.Abs(m.s/m.n - mean); d > 8*math.Sqrt(va/m.n)+1e-9 {
		t.Fatalf("%s: %v samples of %s have mean %.4g instead of %.4g (deviation %.4g)", on, m.n, what, m.s/m.n, mean, math.Sqrt(va))
	}
	vh.Label("%s checked", what)
}

// discrete is the mean, variance and kurtosis of the discrete Gaussian law.
func discrete(c, sd float64) (mean, va, kurtosis float64) {
	sum := func(f func(k float64) float64) float64 {
		var w, s float64
		for k := math.Floor(c - 14*sd - 2); k <= c+14*sd+2; k++ {
			p := math.Exp(-(k - c) * (k - c) / (2 * sd * sd))
			w += p
			s += p * f(k)
		}
		return s / w
	}
	mean = sum(func(k float64) float64 { return k })
	va = sum(func(k float64) float64 { return (k - mean) * (k - mean) })
	return mean, va, sum(func(k float64) float64 { return math.Pow(k-mean, 4) }) / va / va
}

// newParts makes a sanitizer with a key chosen so that its randomness shows.
func newParts[T tfhe.TorusInt](t *rapid.T, pk [2]poly.Poly[T], l tfhe.ParametersLiteral[T], sr, tr, sl, tl float64) *xtfhe.Sanitizer[T] {
	q := tf.Q[T]()
	sp := xtfhe.SanitizationParametersLiteral[T]{BaseParams: l, RandSigma: sr / q, RandTau: tr / q, LinEvalSigma: sl / q, LinEvalTau: tl / q}.Compile()
	p := sp.BaseParams()
	k := tfhe.NewPublicKey(p)
	k.GLWEKey.Value[0].Value[0].CopyFrom(pk[0])
	k.GLWEKey.Value[0].Value[1].CopyFrom(pk[1])
	// The vector part must not matter.
	for _, c := range k.LWEKey.Value[0].Value {
		for i := range c.Coeffs {
			c.Coeffs[i] = T(0x12345678)
		}
	}
	evk := tfhe.NewEvaluationKey(p) // all zero: rotations are by the body only
	s := xtfhe.NewSanitizer(sp, k, evk)
	if rapid.Bool().Draw(t, "copy") {
		s = s.SafeCopy()
	}
	return s
}

func unitAt[T tfhe.TorusInt](n int, c T, i int) poly.Poly[T] {
	p := poly.NewPoly[T](n)
	p.Coeffs[i] = c
	return p
}

func reRandPartsCase[T tfhe.TorusInt](t *rapid.T) {
	pr := vh.NewPRNG(rapid.Uint64().Draw(t, "data"))
	bits := tf.Bits[T]()
	l := tf.Draw[T](t, tf.Opts{LogN: [2]int{4, 8}, Big: 11, MaxRank: 1, MaxLWE: 20, Order: int(tfhe.OrderKeySwitchBlindRotate)}).Lit
	N := l.PolyRank
	top := float64(bits)/2 - 6
	sr := math.Exp2(rapid.Float64Range(0.2, 8).Draw(t, "sigma")) // the sampler's table grows with it
	tr := math.Exp2(rapid.Float64Range(0.2, top).Draw(t, "tau"))
	// The key is (2^kb, 2^ka): the mask shows the randomiser and its error, the body
	// the randomiser and the body's error. Twelve deviations fit below each half.
	low := func(s float64) uint { return uint(math.Ceil(math.Log2(12*s+2))) + 1 }
	hi := func(s float64) uint { return uint(bits) - low(s) }
	ka := low(sr) + uint(pr.N(int(hi(sr)-low(sr))+1))
	kb := low(tr) + uint(pr.N(int(hi(sr)-low(tr))+1))
	s := newParts(t, [2]poly.Poly[T]{unitAt(N, T(1)<<kb, 0), unitAt(N, T(1)<<ka, 0)}, l, sr, tr, 1, 1)
	on := tf.Set[T]{Lit: l}.String()
	var r, e1, e0, cross moments
	seen := map[string]bool{}
	lwe := rapid.Bool().Draw(t, "lwe")
	reps := 3 + 600/N
	for i := 0; i < reps; i++ {
		var a, b []T
		if lwe {
			in := tfhe.NewLWECiphertextCustom[T](N)
			tf.Dirty(pr, in.Value)
			out := tfhe.NewLWECiphertextCustom[T](N)
			tf.Dirty(pr, out.Value)
			s.ReRandLWETo(out, in)
			d := tf.Minus(out.Value, in.Value)
			b = d[:1]
			a = make([]T, N)
			a[0] = d[1]
			for j := 1; j < N; j++ {
				a[N-j] = -d[j+1]
			}
		} else {
			in, out := tfhe.NewGLWECiphertextCustom[T](1, N), tfhe.NewGLWECiphertextCustom[T](1, N)
			for j := range in.Value {
				tf.Dirty(pr, in.Value[j].Coeffs)
				tf.Dirty(pr, out.Value[j].Coeffs)
			}
			s.ReRandGLWETo(out, in)
			a, b = tf.Minus(out.Value[1].Coeffs, in.Value[1].Coeffs), tf.Minus(out.Value[0].Coeffs, in.Value[0].Coeffs)
		}
		var rs, es []float64
		for j := range a {
			h, lo := split(a[j], ka)
			if math.Abs(h) > 12*sr+1 || math.Abs(lo) > 12*sr+1 {
				t.Fatalf("%s: the mask %#x at %d is not a randomiser and an error of deviation %.4g", on, a[j], j, sr)
			}
			rs, es = append(rs, h), append(es, lo)
			r.add(h)
			e1.add(lo)
			cross.add(h * lo / sr / sr)
			if j < len(b) {
				hb, lb := split(b[j], kb)
				if hb != h || math.Abs(lb) > 12*tr+1 {
					t.Fatalf("%s: the body %#x at %d is not that of the randomiser %v of the mask", on, b[j], j, h)
				}
				e0.add(lb)
			}
		}
		if sr > 30 {
			for _, x := range [][]float64{rs, es} {
				k := ""
				for _, y := range x {
					k += string(rune(int(y)&0x7fff)) + "."
				}
				if seen[k] {
					t.Fatalf("%s: a randomiser or an error is used twice", on)
				}
				seen[k] = true
			}
		}
	}
	if lwe { // the body shows one coefficient each time
		for i := 0; i < 1000; i++ {
			in := tfhe.NewLWECiphertextCustom[T](N)
			out := in.Copy()
			s.ReRandLWETo(out, in)
			_, lb := split(out.Value[0], kb)
			e0.add(lb)
		}
	}
	r.check(t, "randomiser", on, 0, sr*sr, 3)
	e1.check(t, "mask error", on, 0, sr*sr, 3)
	e0.check(t, "body error", on, 0, tr*tr+1.0/12, 3)
	if d := math.Abs(cross.s / cross.n); d > 8/math.Sqrt(cross.n) {
		t.Fatalf("%s: randomiser and error are correlated by %.4g", on, cross.s/cross.n)
	}
	vh.Label("lwe %v", lwe)
	vh.Case(true, "%s sigma %.4g tau %.4g 2^%d 2^%d seed %x", on, sr, tr, ka, kb, pr.U64())
}

// linEvalCase reads the polynomial that multiplies the rotated table.
func linEvalCase[T tfhe.TorusInt](t *rapid.T) {
	pr := vh.NewPRNG(rapid.Uint64().Draw(t, "data"))
	bits := tf.Bits[T]()
	o := tf.Opts{LogN: [2]int{4, 8}, Big: 11, MaxRank: 1, MaxLWE: 20, Order: int(tfhe.OrderKeySwitchBlindRotate), MaxLogP: 4}
	// The centre of the constant multiplier shows only in many samples of a narrow law.
	narrow := rapid.Bool().Draw(t, "narrow")
	if narrow {
		o.LogN, o.Big, o.MaxLWE, o.MaxLogP = [2]int{4, 5}, 0, 4, 2
	}
	l := tf.Draw[T](t, o).Lit
	N := l.PolyRank
	p := float64(l.MessageModulus)
	sl := math.Exp2(rapid.Float64Range(0.2, 8).Draw(t, "sigma"))
	reps := 1000
	if narrow {
		sl = rapid.Float64Range(0.4, 2).Draw(t, "narrowSigma")
		reps = 6000
	}
	for 2*p*sl > math.Exp2(float64(bits)/2-8) && sl > 1.2 {
		sl /= 2
	}
	tl := math.Exp2(rapid.Float64Range(0.2, float64(bits)/2-8).Draw(t, "tau"))
	k := uint(math.Ceil(math.Log2(12*tl+2))) + 1
	if float64(k)+math.Log2(24*p*sl+8*p) > float64(bits)-1 {
		t.Skip("no room")
	}
	zero := poly.NewPoly[T](N)
	s := newParts(t, [2]poly.Poly[T]{zero, zero}, l, 0.3, 0.3, sl, tl)
	on := tf.Set[T]{Lit: l}.String()
	var first, rest, tau moments
	step := tf.Q[T]() / float64(2*N)
	for i := 0; i < reps; i++ {
		w, j := pr.N(2*N), pr.N(N)
		if pr.N(2) == 0 {
			j = w % N // the constant coefficient
		}
		lut := tfhe.LookUpTable[T]{Value: []poly.Poly[T]{unitAt(N, T(1)<<k, j)}}
		in := tfhe.NewLWECiphertextCustom[T](N)
		tf.Dirty(pr, in.Value)
		in.Value[0] = T(float64(w) * step)
		out := in.Copy()
		if pr.N(2) == 0 {
			s.SanitizeLUTTo(out, in, lut)
		} else {
			out = s.SanitizeLUT(in, lut)
		}
		for m, x := range out.Value[1:] {
			if x != 0 {
				t.Fatalf("%s: a mask of %#x at %d without keys", on, x, m)
			}
		}
		// The coefficient of X^(w-j), with its sign.
		h, lo := split(out.Value[0], k)
		d := ((w-j)%(2*N) + 2*N) % (2 * N)
		if d >= N {
			h, d = -h, d-N
		}
		tau.add(lo)
		one := 0.0
		if d == 0 {
			one = 1
		}
		g := (h - one) / (2 * p)
		if g != math.Round(g) {
			t.Fatalf("%s: coefficient %d of the multiplier is %v, not %v modulo %v", on, d, h, one, 2*p)
		}
		if math.Abs(g) > 13*sl+1 {
			t.Fatalf("%s: coefficient %d of the multiplier is %v with deviation %v", on, d, g, sl)
		}
		if d == 0 {
			first.add(g)
		} else {
			rest.add(g)
		}
	}
	m, va, ku := discrete(-1/(2*p), sl)
	first.check(t, "constant multiplier", on, m, va, ku)
	m, va, ku = discrete(0, sl)
	rest.check(t, "multiplier", on, m, va, ku)
	if narrow {
		vh.Label("narrow multiplier")
	}
	tau.check(t, "output error", on, 0, tl*tl+1.0/12, 3)
	vh.Case(N >= 16, "%s sigma %.4g tau %.4g 2^%d seed %x", on, sl, tl, k, pr.U64())
}

func TestSanitizeParts(t *testing.T) {
	vh.Check(t, "a case rerandomises or sanitizes with crafted keys or tables under which every random part shows in the output, and tests the law of each part, that none is repeated, and their consistency; every case is non-trivial", 240, 12000, func(t *rapid.T) {
		if rapid.Bool().Draw(t, "linEval") {
			vh.Label("linear evaluation")
			both(t, linEvalCase[uint32], linEvalCase[uint64])
		} else {
			vh.Label("rerandomisation")
			both(t, reRandPartsCase[uint32], reRandPartsCase[uint64])
		}
	})
}
