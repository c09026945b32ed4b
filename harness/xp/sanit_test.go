package xp

import (
	"fmt"
	"math"
	"testing"

	"github.com/sp301415/tfhe-go/tfhe"
	"github.com/sp301415/tfhe-go/xtfhe"
	"pgregory.net/rapid"

	"verifharness/tf"
	"verifharness/vh"
)

// sanit is a sanitizer with its keys; the deviations are in units of the torus grid.
type sanit[T tfhe.TorusInt] struct {
	*env[T]
	sp             xtfhe.SanitizationParameters[T]
	s              *xtfhe.Sanitizer[T]
	pk             tfhe.PublicKey[T]
	sr, tr, sl, tl float64
	e2             float64 // squared norm of the error of the public key
	h              float64
}

// inVar is the variance ReRand adds, given the public key.
func (v *sanit[T]) inVar() float64 { return v.e2*v.sr*v.sr + v.h*v.sr*v.sr + v.tr*v.tr + 1.0/12 }

func (v *sanit[T]) outVar() float64 {
	q, N, p := tf.Q[T](), float64(v.N), float64(v.l.MessageModulus)
	rot := tf.BlindRotateVar(v.l, float64(tf.MaxOnes(v.l))) * q * q
	lin := 4 * p * p * v.sl * v.sl
	return rot*(1+N*lin) + 0.25*N*lin + v.tl*v.tl + 1
}

// margin tells whether sanitizing ciphertexts with the given error works.
func (v *sanit[T]) margin() float64 {
	q, L := tf.Q[T](), float64(v.l.LUTSize)
	m := tf.RotateMargin(v.l, float64(v.l.MessageModulus)) - 0.75/(2*L)
	in := tf.Sigmas*math.Sqrt(v.inVar()/q/q+tf.KeySwitchVar(v.l)) + tf.Sigmas*v.l.GLWEStdDev
	if tf.Sigmas*math.Sqrt(v.outVar())/q > 1/(4*float64(v.l.MessageModulus)) {
		return -1
	}
	return m - in
}

func newSanit[T tfhe.TorusInt](t *rapid.T, boot bool) *sanit[T] {
	l := tf.Draw[T](t, tf.Opts{LogN: [2]int{4, 8}, MaxRank: 1, MaxLWE: 40, Order: int(tfhe.OrderKeySwitchBlindRotate), Boot: true, MaxLogP: 3}).Lit
	if boot && rapid.IntRange(0, 2).Draw(t, "fine") > 0 {
		// Precise keys leave room for the randomisers.
		b := tf.Bits[T]()
		l.GLWEStdDev = math.Exp2(1 - float64(b))
		l.LWEStdDev = math.Exp2(2 - float64(b))
		lb := b/8 + rapid.IntRange(0, b/16).Draw(t, "logBase")
		l.BlindRotateParams = tfhe.GadgetParametersLiteral[T]{Base: 1 << uint(lb), Level: (b/2 + b/8 + lb - 1) / lb}
		l.KeySwitchParams = tfhe.GadgetParametersLiteral[T]{Base: 1 << 4, Level: b/4 - 2}
		l.MessageModulus = T(2)
	}
	q := tf.Q[T]()
	v := &sanit[T]{env: envOf(t, l)}
	v.pk = v.enc.GenPublicKey()
	ph := tf.GPhase(tfhe.GLWECiphertext[T]{Value: v.pk.GLWEKey.Value[0].Value}, v.sk.GLWEKey)
	v.e2 = tf.Norm2(ph)
	v.h = tf.Norm2(v.sk.GLWEKey.Value[0].Coeffs)
	if mx := 12 * (l.GLWEStdDev*q + 1); math.Sqrt(v.e2) > mx*math.Sqrt(float64(v.N)) {
		t.Fatalf("%s: the public key has error %.3g", v.On(), math.Sqrt(v.e2))
	}
	f := func(lo, hi float64) float64 {
		return math.Exp2(math.Log2(lo) + v.P.F()*math.Log2(hi/lo))
	}
	v.sr, v.tr, v.sl, v.tl = f(0.6, 2000), f(0.6, q/64), f(0.6, 500), f(0.6, q/64)
	ok := true
	if boot {
		// Each randomiser takes at most what the earlier ones left.
		ws := []*float64{&v.sr, &v.tr, &v.sl, &v.tl}
		want := []float64{v.sr, v.tr, v.sl, v.tl}
		for _, w := range ws {
			*w = 0.6
		}
		ok = v.margin() > 0
		for _, i := range [][]int{{0, 2, 1, 3}, {2, 0, 3, 1}, {1, 3, 0, 2}, {3, 2, 1, 0}}[v.P.N(4)] {
			for x := want[i]; ok && x > 0.6; x *= 0.7 {
				*ws[i] = x
				if v.margin() > 0 {
					break
				}
				*ws[i] = 0.6
			}
		}
	}
	lit := xtfhe.SanitizationParametersLiteral[T]{BaseParams: l, RandSigma: v.sr / q, RandTau: v.tr / q, LinEvalSigma: v.sl / q, LinEvalTau: v.tl / q}
	v.sp = lit.Compile()
	close := func(a, b float64) bool { return math.Abs(a-b) <= 1e-9*b }
	if !close(v.sp.RandSigmaQ(), v.sr) || !close(v.sp.RandTauQ(), v.tr) || !close(v.sp.LinEvalSigmaQ(), v.sl) || !close(v.sp.LinEvalTauQ(), v.tl) ||
		v.sp.RandSigma() != lit.RandSigma || v.sp.RandTau() != lit.RandTau || v.sp.LinEvalSigma() != lit.LinEvalSigma || v.sp.LinEvalTau() != lit.LinEvalTau {
		t.Fatalf("compiled deviations %g %g %g %g of %g %g %g %g", v.sp.RandSigmaQ(), v.sp.RandTauQ(), v.sp.LinEvalSigmaQ(), v.sp.LinEvalTauQ(), v.sr, v.tr, v.sl, v.tl)
	}
	evk := tfhe.EvaluationKey[T]{}
	if boot {
		if !ok {
			return nil
		}
		if rapid.Bool().Draw(t, "parallelKeys") {
			evk = v.enc.GenEvalKeyParallel()
		} else {
			evk = v.enc.GenEvalKey()
		}
	}
	v.s = xtfhe.NewSanitizer(v.sp, v.pk, evk)
	if v.P.N(3) == 0 {
		v.s = v.s.SafeCopy()
		vh.Label("copied")
	}
	return v
}

func (v *sanit[T]) on() string {
	return fmt.Sprintf("%s rand=%.3g/%.3g lin=%.3g/%.3g", v.set, v.sr, v.tr, v.sl, v.tl)
}

// topHist adds the top four bits of the values to a histogram.
func topHist[T tfhe.TorusInt](h []float64, x []T) {
	sh := uint(tf.Bits[T]() - 4)
	for _, y := range x {
		h[y>>sh]++
	}
}

func flat(h []float64) []float64 {
	n := 0.0
	for _, x := range h {
		n += x
	}
	e := make([]float64, len(h))
	for i := range e {
		e[i] = n / float64(len(h))
	}
	return e
}

// law tests centred errors against a standard deviation known exactly (two-sided)
// or only from below (floor).
func (v *sanit[T]) law(what string, errs []float64, lo, hi float64) {
	n := float64(len(errs))
	var s, s2 float64
	for _, e := range errs {
		s += e
		s2 += e * e
	}
	band := 8 * math.Sqrt(2/n)
	if va := s2 / n; va < lo*lo*(1-band)-1 || va > hi*hi*(1+band)+1 {
		v.T.Fatalf("%s: %s: the errors of %d runs have standard deviation %.4g, outside %.4g..%.4g", v.on(), what, len(errs), math.Sqrt(va), lo, hi)
	}
	if math.Abs(s/n) > 8*hi/math.Sqrt(n)+1 {
		v.T.Fatalf("%s: %s: the errors of %d runs have mean %.4g (deviation at most %.4g)", v.on(), what, len(errs), s/n, hi)
	}
}

func reRandCase[T tfhe.TorusInt](t *rapid.T) {
	v := newSanit[T](t, false)
	pk := fmt.Sprint(v.pk)
	q := tf.Q[T]()
	sd := math.Sqrt(v.inVar())
	tol := 10*sd + float64(v.N) + 2
	if tol > q/8 {
		return
	}
	n := 300
	hist := make([]float64, 16)
	var errs []float64
	if rapid.Bool().Draw(t, "lwe") {
		vh.Label("ReRandLWETo")
		ct := tfhe.NewLWECiphertext(v.p)
		if v.P.N(4) > 0 {
			tf.Dirty(v.P, ct.Value)
		}
		in := ct.Copy()
		ph := tf.Phase(ct, v.sk.LWELargeKey)
		out := ct
		alias := v.P.N(3) == 0
		if !alias {
			out = tfhe.NewLWECiphertext(v.p)
		}
		var prev []T
		for i := 0; i < n; i++ {
			if alias {
				copy(ct.Value, in.Value)
			} else {
				tf.Dirty(v.P, out.Value)
			}
			v.s.ReRandLWETo(out, ct)
			d := float64(tf.Signed(tf.Phase(out, v.sk.LWELargeKey) - ph))
			if math.Abs(d) > tol {
				t.Fatalf("%s: rerandomising moved the phase by %.4g (bound %.4g)", v.on(), d, tol)
			}
			errs = append(errs, d)
			topHist(hist, out.Value[1:])
			if prev != nil && v.sr > 3 && tf.Same(prev, out.Value[1:]) {
				t.Fatalf("%s: two rerandomisations have the same mask", v.on())
			}
			prev = append([]T(nil), out.Value[1:]...)
		}
		if !alias && !tf.Same(ct.Value, in.Value) {
			t.Fatalf("%s: rerandomising changed its input", v.on())
		}
	} else {
		vh.Label("ReRandGLWETo")
		ct := v.rawGLWE(1)
		in := ct.Copy()
		ph := v.gphase(ct)
		out := ct
		alias := v.P.N(3) == 0
		if !alias {
			out = v.glwe()
		}
		var prev []T
		n = 1 + 300/v.N
		j := v.P.N(v.N)
		reps := 300
		for i := 0; i < reps; i++ {
			if alias {
				ct.CopyFrom(in)
			} else {
				tf.Dirty(v.P, out.Value[0].Coeffs)
				tf.Dirty(v.P, out.Value[1].Coeffs)
			}
			v.s.ReRandGLWETo(out, ct)
			if i < n || i == reps-1 {
				g := v.gphase(out)
				for k := range g {
					if d := tf.Dist(g[k], ph[k]); d > tol {
						t.Fatalf("%s: rerandomising moved coefficient %d of the phase by %.4g (bound %.4g)", v.on(), k, d, tol)
					}
				}
			}
			l := tfhe.NewLWECiphertext(v.p)
			out.AsLWECiphertextTo(j, l)
			errs = append(errs, float64(tf.Signed(tf.Phase(l, v.sk.LWELargeKey)-ph[j])))
			topHist(hist, out.Value[1].Coeffs)
			if prev != nil && v.sr > 3 && tf.Same(prev, out.Value[1].Coeffs) {
				t.Fatalf("%s: two rerandomisations have the same mask", v.on())
			}
			prev = append([]T(nil), out.Value[1].Coeffs...)
		}
		if !alias && (!tf.Same(ct.Value[0].Coeffs, in.Value[0].Coeffs) || !tf.Same(ct.Value[1].Coeffs, in.Value[1].Coeffs)) {
			t.Fatalf("%s: rerandomising changed its input", v.on())
		}
	}
	v.law("rerandomised phase", errs, sd*0.999, sd*1.001)
	if v.sr > 3 {
		if z := chi2z(hist, flat(hist)); z > statZ {
			t.Fatalf("%s: rerandomised masks are not uniform (z=%.1f): %v", v.on(), z, hist)
		}
		vh.Label("mask uniformity checked")
	}
	if fmt.Sprint(v.pk) != pk {
		t.Fatalf("%s: rerandomising changed the public key", v.on())
	}
	vh.Case(true, "%s error deviation %.4g", v.on(), sd)
}

func sanitizeCase[T tfhe.TorusInt](t *rapid.T) {
	v := newSanit[T](t, true)
	if v == nil {
		vh.Label("no room")
		vh.Case(false, "no room for the randomisers")
		return
	}
	q, p := tf.Q[T](), int(v.l.MessageModulus)
	bound := 10*math.Sqrt(v.outVar()) + float64(p)
	slack := v.margin() * q * 0.95
	tab := make([]int, p)
	nz := false
	for i := range tab {
		tab[i] = v.P.N(p)
		nz = nz || tab[i] != 0
	}
	f := func(i int) int { return tab[i] }
	lut := v.s.GenLUT(f)
	law := v.P.N(4) == 0
	reps := 8
	if law {
		reps = 200
	}
	hist := make([]float64, 16)
	var errs []float64
	type job struct {
		m, form      int
		in, out, arg tfhe.LWECiphertext[T]
	}
	jobs := make([]job, reps)
	for i := range jobs {
		if j := &jobs[i]; law && i > 0 {
			j.m, j.in = jobs[0].m, jobs[0].in
		} else {
			j.m, j.in = v.P.N(p), tfhe.NewLWECiphertext(v.p)
			if v.P.N(4) > 0 {
				tf.Dirty(v.P, j.in.Value)
			}
			j.in.Value[0] += v.enc.EncodeLWE(j.m).Value - tf.Phase(j.in, v.sk.LWELargeKey) + T(int64((2*v.P.F()-1)*slack))
		}
		jobs[i].form, jobs[i].arg, jobs[i].out = v.P.N(5), jobs[i].in.Copy(), tfhe.NewLWECiphertext(v.p)
		tf.Dirty(v.P, jobs[i].out.Value)
	}
	// The jobs are shared out to copies that work at the same time.
	par := []int{1, 1, 2, 3, 4}[v.P.N(5)]
	gen := []*xtfhe.Sanitizer[T]{v.s}
	for len(gen) < par {
		gen = append(gen, gen[v.P.N(len(gen))].SafeCopy())
	}
	index := map[*xtfhe.Sanitizer[T]]int{}
	for i, g := range gen {
		index[g] = i
	}
	together(gen, func(s *xtfhe.Sanitizer[T]) bool {
		for i := index[s]; i < reps; i += par {
			switch j := &jobs[i]; j.form {
			case 0:
				j.out = s.SanitizeFunc(j.arg, f)
			case 1:
				j.out = s.SanitizeLUT(j.arg, lut)
			case 2:
				s.SanitizeFuncTo(j.out, j.arg, f)
			case 3:
				s.SanitizeLUTTo(j.out, j.arg, lut)
			case 4:
				j.out = j.arg
				s.SanitizeLUTTo(j.out, j.arg, lut)
			}
		}
		return true
	})
	if par > 1 {
		vh.Label("copies in parallel")
	}
	seen := map[string]bool{}
	for _, j := range jobs {
		m, ct, in, out, form := j.m, j.arg, j.in, j.out, j.form
		if form < 4 && !tf.Same(ct.Value, in.Value) {
			t.Fatalf("%s: sanitizing changed its input", v.on())
		}
		want := v.enc.EncodeLWE(tab[m]).Value
		d := float64(tf.Signed(tf.Phase(out, v.sk.LWELargeKey) - want))
		if math.Abs(d) > bound {
			t.Fatalf("%s: sanitizing f(%d)=%d is off by %.4g (bound %.4g)", v.on(), m, tab[m], d, bound)
		}
		if got := v.enc.DecryptLWE(out); got != tab[m] {
			t.Fatalf("%s: sanitized f(%d) decrypts to %d instead of %d", v.on(), m, got, tab[m])
		}
		errs = append(errs, d)
		// With a tiny key, a mask that switches to zero, which no step rotates, has a real chance.
		still := float64(v.l.LWEDimension)*math.Log2(2*float64(v.l.LUTSize)) < 60 && tf.Same(out.Value[1:], make([]T, len(out.Value)-1))
		if still {
			vh.Label("nothing to rotate")
		} else {
			topHist(hist, out.Value[1:])
		}
		if !still && nz && v.sl > 3 {
			k := string(tf.Body(&out.Value))
			if seen[k] {
				t.Fatalf("%s: two sanitizations have the same output", v.on())
			}
			seen[k] = true
		}
	}
	if law {
		v.law("sanitized phase", errs, v.tl, math.Sqrt(v.outVar()))
		vh.Label("output law checked")
		if nz && v.sl > 3 && v.sr > 3 {
			if z := chi2z(hist, flat(hist)); z > statZ {
				t.Fatalf("%s: masks of %d sanitizations of the same ciphertext are not uniform (z=%.1f): %v", v.on(), reps, z, hist)
			}
			vh.Label("output mask uniformity checked")
		}
	}
	if v.sl > 3 {
		vh.Label("LinEvalSigma above 3")
	}
	if g := v.s.GenLUT(f); len(g.Value) != 1 || !tf.Same(lut.Value[0].Coeffs, g.Value[0].Coeffs) {
		t.Fatalf("%s: sanitizing changed the table", v.on())
	}
	vh.Case(nz, "%s table %v bound %.3g", v.on(), tab, bound)
}

func TestSanitizeReRand(t *testing.T) {
	vh.Check(t, "a case rerandomises one generated LWE or GLWE ciphertext 300 times under generated keys and deviations, and tests the phase of each, the law of the phase errors against the deviation implied by the actual public key, and the uniformity of the masks; non-trivial = the deviations leave room", 240, 8000, func(t *rapid.T) {
		both(t, reRandCase[uint32], reRandCase[uint64])
	})
}

func TestSanitizeBootstrap(t *testing.T) {
	vh.Check(t, "a case sanitizes 8 ciphertexts, or one 200 times, with generated tables, parameters and admissible input errors through every entry point; non-trivial = the table is not all zero", 160, 6000, func(t *rapid.T) {
		both(t, sanitizeCase[uint32], sanitizeCase[uint64])
	})
}
