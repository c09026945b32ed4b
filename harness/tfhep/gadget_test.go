package tfhep

import (
	"math"
	"testing"

	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/tfhe"
	"pgregory.net/rapid"

	"verifharness/tf"
	"verifharness/vh"
)

// digitsOK checks that d is a balanced base-B expansion of x.
func digitsOK[T tfhe.TorusInt](t *rapid.T, what string, x T, d []T, lb, lv int) {
	if len(d) != lv {
		t.Fatalf("%s: %d digits at level %d", what, len(d), lv)
	}
	half := int64(1) << uint(lb-1)
	var sum T
	for i, v := range d {
		s := tf.Signed(v)
		if s < -half || s > half {
			t.Fatalf("%s: digit %d of %#x is %d, base 2^%d", what, i, x, s, lb)
		}
		sum += v << uint(tf.Bits[T]()-(i+1)*lb)
	}
	last := tf.Bits[T]() - lb*lv
	err := tf.Signed(x - sum)
	if last == 0 && err != 0 || last > 0 && (err > 1<<uint(last-1) || err < -(1<<uint(last-1))) {
		t.Fatalf("%s: %#x decomposes to %v (base 2^%d level %d), off by %d", what, x, d, lb, lv, err)
	}
}

func gadgetCase[T tfhe.TorusInt](t *rapid.T) {
	N := 1 << uint(rapid.IntRange(4, 9).Draw(t, "logN"))
	d := tfhe.NewDecomposer[T](N)
	pe := poly.NewEvaluator[T](N)
	pr := vh.NewPRNG(rapid.Uint64().Draw(t, "dirt"))
	rounds := rapid.IntRange(1, 4).Draw(t, "rounds")
	if rapid.Bool().Draw(t, "copy") {
		d = d.SafeCopy()
	}
	for r := 0; r < rounds; r++ {
		g := tf.DrawGadget[T](t, "gadget")
		lb, lv := g.LogBase(), g.Level()
		v := tf.Raw[T](tf1Shape(t, g), N)
		p := poly.Poly[T]{Coeffs: v}
		in := append([]T{}, v...)

		// Scalars, through a fresh slice and through the decomposer's buffer.
		buf := d.ScalarBuffer(g)
		for i := 0; i < 8; i++ {
			x := v[pr.N(N)]
			ds := d.DecomposeScalar(x, g)
			digitsOK(t, "scalar", x, ds, lb, lv)
			tf.Dirty(pr, buf)
			d.DecomposeScalarTo(buf, x, g)
			digitsOK(t, "scalar buffer", x, buf, lb, lv)
			if rx, e := d.RecomposeScalar(ds, g), tf.Dist(d.RecomposeScalar(ds, g), x); e > math.Exp2(float64(g.LogLastBaseQ()-1)) && !(g.LogLastBaseQ() == 0 && e == 0) {
				t.Fatalf("scalar %#x recomposes to %#x with base 2^%d level %d", x, rx, lb, lv)
			}
		}
		// Polynomials.
		check := func(what string, dp []poly.Poly[T]) {
			if len(dp) != lv {
				t.Fatalf("%s: %d digits at level %d", what, len(dp), lv)
			}
			dig := make([]T, lv)
			for i := range v {
				for j := range dp {
					dig[j] = dp[j].Coeffs[i]
				}
				digitsOK(t, what, v[i], dig, lb, lv)
				if s := d.DecomposeScalar(v[i], g); !tf.Same(s, dig) {
					t.Fatalf("%s: coefficient %d is %#x: digits %v, as a scalar %v (base 2^%d level %d)", what, i, v[i], dig, s, lb, lv)
				}
			}
			out := d.RecomposePoly(dp, g)
			to := tf.DirtyPoly[T](pr, N)
			d.RecomposePolyTo(to, dp, g)
			for i := range v {
				for j := range dp {
					dig[j] = dp[j].Coeffs[i]
				}
				want := T(0)
				for j, x := range dig {
					want += x << uint(tf.Bits[T]()-(j+1)*lb)
				}
				if out.Coeffs[i] != want || to.Coeffs[i] != want || d.RecomposeScalar(dig, g) != want {
					t.Fatalf("%s: digits %v recompose to %#x, %#x, %#x instead of %#x", what, dig, out.Coeffs[i], to.Coeffs[i], d.RecomposeScalar(dig, g), want)
				}
			}
		}
		check("poly", d.DecomposePoly(p, g))
		dp := make([]poly.Poly[T], lv)
		for i := range dp {
			dp[i] = tf.DirtyPoly[T](pr, N)
		}
		d.DecomposePolyTo(dp, p, g)
		check("polyTo", dp)
		pb := d.PolyBuffer(g)
		d.DecomposePolyTo(pb, p, g)
		check("poly buffer", pb)
		dp = d.DecomposePoly(p, g)
		if !tf.Same(in, v) {
			t.Fatalf("the decomposed polynomial was modified")
		}
		// The Fourier form is the transform of the digits.
		fb := d.FFTPolyBuffer(g)
		if len(fb) != lv {
			t.Fatalf("Fourier buffer of %d polynomials at level %d", len(fb), lv)
		}
		d.FourierDecomposePolyTo(fb, p, g)
		fd := d.FourierDecomposePoly(p, g)
		tol := math.Exp2(float64(lb-1)) * float64(N) * math.Exp2(-44)
		for j := range dp {
			want := pe.FwdFFT(dp[j])
			for i := range want.Coeffs {
				if math.Abs(want.Coeffs[i]-fd[j].Coeffs[i]) > tol || math.Abs(want.Coeffs[i]-fb[j].Coeffs[i]) > tol {
					t.Fatalf("Fourier digit %d slot %d: %g, %g instead of %g", j, i, fd[j].Coeffs[i], fb[j].Coeffs[i], want.Coeffs[i])
				}
			}
		}
		vh.Label("level %d", lv)
		vh.Case(lv > 1 || lb > 1, "q=2^%d N=%d base=2^%d level=%d first=%#x", tf.Bits[T](), N, lb, lv, v[0])
	}
}

// tf1Shape draws values that include ties and carries of the gadget.
func tf1Shape[T tfhe.TorusInt](t *rapid.T, g tfhe.GadgetParameters[T]) vh.Shape {
	return vh.DrawShape(t, "values")
}

// tiesCase targets the values around every carry: digits all at or next to base/2.
func tiesCase[T tfhe.TorusInt](t *rapid.T) {
	g := tf.DrawGadget[T](t, "gadget")
	lb, lv := g.LogBase(), g.Level()
	N := 16 << uint(rapid.IntRange(0, 3).Draw(t, "logN"))
	d := tfhe.NewDecomposer[T](N)
	pr := vh.NewPRNG(rapid.Uint64().Draw(t, "values"))
	v := make([]T, N)
	half := T(1) << uint(lb-1)
	for i := range v {
		var x T
		for j := 0; j < lv; j++ {
			dig := half
			switch pr.N(6) {
			case 0:
				dig--
			case 1:
				dig++
			case 2:
				dig = 2*half - 1
			case 3:
				dig = 0
			}
			x += dig << uint(tf.Bits[T]()-(j+1)*lb)
		}
		if last := tf.Bits[T]() - lb*lv; last > 0 {
			x += T(1) << uint(last-1)
			x += T(pr.N(3)) - 1
		}
		v[i] = x
	}
	dp := d.DecomposePoly(poly.Poly[T]{Coeffs: v}, g)
	dig := make([]T, lv)
	for i := range v {
		for j := range dp {
			dig[j] = dp[j].Coeffs[i]
		}
		digitsOK(t, "ties", v[i], dig, lb, lv)
		digitsOK(t, "ties scalar", v[i], d.DecomposeScalar(v[i], g), lb, lv)
	}
	vh.Label("ties")
	vh.Case(lv > 1, "ties q=2^%d N=%d base=2^%d level=%d first=%#x", tf.Bits[T](), N, lb, lv, v[0])
}

func TestGadget(t *testing.T) {
	vh.Check(t, "a case decomposes scalars and polynomials under generated gadget parameters and recomposes them; non-trivial = more than one digit or a base above 2", 3000, 100000, func(t *rapid.T) {
		if rapid.IntRange(0, 2).Draw(t, "kind") == 0 {
			both(t, tiesCase[uint32], tiesCase[uint64])
			return
		}
		both(t, gadgetCase[uint32], gadgetCase[uint64])
	})
}
