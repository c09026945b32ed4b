package mathp

import (
	"math"
	"testing"

	"github.com/sp301415/tfhe-go/math/num"
	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/math/vec"
	"pgregory.net/rapid"

	"verifharness/vh"
)

// ---- reference ring Z_Q[X]/(X^N+1), schoolbook ----

func refMul[T num.Integer](a, b []T) []T {
	n := len(a)
	out := make([]T, n)
	for i, x := range a {
		if x == 0 {
			continue
		}
		lo, hi := out[i:], out[:i]
		for j := range lo {
			lo[j] += x * b[j]
		}
		bb := b[n-i:]
		for j := range hi {
			hi[j] -= x * bb[j]
		}
	}
	return out
}

func refMono[T num.Integer](a []T, d int) []T {
	n := len(a)
	d = ((d % (2 * n)) + 2*n) % (2 * n)
	out := make([]T, n)
	for i, x := range a {
		j := (i + d) % (2 * n)
		if j < n {
			out[j] = x
		} else {
			out[j-n] = -x
		}
	}
	return out
}

func refPerm[T num.Integer](a []T, d int) []T {
	n := len(a)
	d = ((d % (2 * n)) + 2*n) % (2 * n)
	out := make([]T, n)
	for i, x := range a {
		j := i * d % (2 * n)
		if j < n {
			out[j] += x
		} else {
			out[j-n] -= x
		}
	}
	return out
}

func polyOf[T num.Integer](v []T) poly.Poly[T] { return poly.Poly[T]{Coeffs: append([]T(nil), v...)} }

func eqCoeffs[T num.Integer](t *rapid.T, what string, got, want []T) {
	if len(got) != len(want) {
		t.Fatalf("%s: rank %d want %d", what, len(got), len(want))
	}
	for i := range want {
		if got[i] != want[i] {
			t.Fatalf("%s: coefficient %d is %d, ring arithmetic gives %d", what, i, got[i], want[i])
		}
	}
}

var ranks = rapid.SampledFrom([]int{16, 16, 32, 32, 64, 128, 256, 256, 512, 1024})
var ranksBig = rapid.SampledFrom([]int{2048, 2048, 2048, 2048, 4096, 4096, 4096, 8192, 8192, 16384, 16384, 32768})

func drawRank(t *rapid.T) int {
	if rapid.IntRange(0, 19).Draw(t, "bigRank") == 0 {
		return ranksBig.Draw(t, "N")
	}
	return ranks.Draw(t, "N")
}

var accModes = []string{"Set", "Add", "Sub"}

func applyAcc[T num.Integer](mode string, o, x []T) []T {
	out := make([]T, len(o))
	for i := range o {
		switch mode {
		case "Set":
			out[i] = x[i]
		case "Add":
			out[i] = o[i] + x[i]
		case "Sub":
			out[i] = o[i] - x[i]
		}
	}
	return out
}

// ---- exact products ----

func mulCase[T num.Integer](t *rapid.T, typ string, bits int) {
	N := drawRank(t)
	ev := poly.NewEvaluator[T](N)
	if rapid.Bool().Draw(t, "safecopy") {
		ev = ev.SafeCopy()
	}
	steps := rapid.IntRange(1, 3).Draw(t, "steps")
	for s := 0; s < steps; s++ {
		sa, sb, so := vh.DrawShape(t, "a"), vh.DrawShape(t, "b"), vh.DrawShape(t, "out")
		a, b, o := conv[T](sa.Fill(N, bits)), conv[T](sb.Fill(N, bits)), conv[T](so.Fill(N, bits))
		mode := rapid.SampledFrom(accModes).Draw(t, "mode")
		short := rapid.Bool().Draw(t, "short")
		alias := rapid.SampledFrom([]string{"none", "none", "out=a", "out=b", "a=b"}).Draw(t, "alias")
		if short {
			// coefficients bounded by ShortLogBound bits
			for i := range b {
				b[i] = T(int64(signedF(b[i]>>1, bits)) % (1 << poly.ShortLogBound))
				if i%2 == 1 {
					b[i] = -b[i]
				}
			}
		}
		pa, pb, po := polyOf(a), polyOf(b), polyOf(o)
		if alias == "out=a" && mode == "Set" {
			po, o = pa, a
		}
		if alias == "out=b" && mode == "Set" && !short {
			po, o = pb, b
		}
		if alias == "a=b" && !short {
			pb, b = pa, a
		}
		want := applyAcc(mode, o, refMul(a, b))
		what := mode + "MulPoly"
		if short {
			what = mode + "ShortFFTPolyMul"
			fb := ev.FwdFFT(pb)
			fb0 := fb.Copy()
			if mode == "Set" {
				eqCoeffs(t, "ShortFFTPolyMulPoly["+typ+"]", ev.ShortFFTPolyMulPoly(pa, fb).Coeffs, want)
			}
			switch mode {
			case "Set":
				ev.ShortFFTPolyMulPolyTo(po, pa, fb)
			case "Add":
				ev.ShortFFTPolyMulAddPolyTo(po, pa, fb)
			case "Sub":
				ev.ShortFFTPolyMulSubPolyTo(po, pa, fb)
			}
			if !fb.Equals(fb0) {
				t.Fatalf("%s changed its transformed operand", what)
			}
		} else {
			if mode == "Set" {
				eqCoeffs(t, "MulPoly["+typ+"]", ev.MulPoly(pa, pb).Coeffs, want)
			}
			switch mode {
			case "Set":
				ev.MulPolyTo(po, pa, pb)
			case "Add":
				ev.MulAddPolyTo(po, pa, pb)
			case "Sub":
				ev.MulSubPolyTo(po, pa, pb)
			}
		}
		eqCoeffs(t, what+"["+typ+"]", po.Coeffs, want)
		if &pa.Coeffs[0] != &po.Coeffs[0] {
			eqCoeffs(t, what+" input a", pa.Coeffs, a)
		}
		if &pb.Coeffs[0] != &po.Coeffs[0] {
			eqCoeffs(t, what+" input b", pb.Coeffs, b)
		}
		wrap := sa.Kind != "zero" && sb.Kind != "zero" && sa.Kind != "small"
		vh.Label("short=%v", short)
		vh.Label("N=%d", N)
		vh.Case(wrap, "%s[%s] N=%d alias=%s a=%v b=%v out=%v", what, typ, N, alias, sa, sb, so)
	}
}

func TestPolyMul(t *testing.T) {
	vh.Check(t, "a case is one polynomial product (set, add or subtract form, general or short operand) against schoolbook multiplication; non-trivial = neither operand is zero and the first has full-width coefficients", 3000, 60000, func(t *rapid.T) {
		switch typ := rapid.SampledFrom([]string{"uint64", "uint64", "uint64", "uint32", "uint32", "int64", "int32", "int16", "uint16", "uint8", "int8", "int", "uint", "uintptr"}).Draw(t, "type"); typ {
		case "uint64":
			mulCase[uint64](t, typ, 64)
		case "uint32":
			mulCase[uint32](t, typ, 32)
		case "int64":
			mulCase[int64](t, typ, 64)
		case "int32":
			mulCase[int32](t, typ, 32)
		case "int16":
			mulCase[int16](t, typ, 16)
		case "uint16":
			mulCase[uint16](t, typ, 16)
		case "uint8":
			mulCase[uint8](t, typ, 8)
		case "int8":
			mulCase[int8](t, typ, 8)
		case "int":
			mulCase[int](t, typ, 64)
		case "uint":
			mulCase[uint](t, typ, 64)
		case "uintptr":
			mulCase[uintptr](t, typ, 64)
		}
	})
}

// ---- coefficient-domain ring maps ----

func mapCase[T num.Integer](t *rapid.T, typ string, bits int) {
	N := drawRank(t)
	ev := poly.NewEvaluator[T](N)
	if ev.Rank() != N || ev.NewPoly().Rank() != N || ev.NewFFTPoly().Rank() != N {
		t.Fatalf("rank accessors disagree with %d", N)
	}
	sa, so := vh.DrawShape(t, "a"), vh.DrawShape(t, "out")
	a, o := conv[T](sa.Fill(N, bits)), conv[T](so.Fill(N, bits))
	b := conv[T](vh.DrawShape(t, "b").Fill(N, bits))
	pa, pb := polyOf(a), polyOf(b)
	d := rapid.OneOf(rapid.IntRange(-2*N-3, 2*N+3), rapid.IntRange(-9*N, 9*N), rapid.SampledFrom([]int{0, 1, -1, N, -N, N - 1, N + 1, 2 * N, -2 * N, 2*N - 1, 1 - N})).Draw(t, "d")
	mono := refMono(a, d)
	eqCoeffs(t, "MonomialMulPoly", ev.MonomialMulPoly(pa, d).Coeffs, mono)
	for _, mode := range accModes {
		po := polyOf(o)
		switch mode {
		case "Set":
			ev.MonomialMulPolyTo(po, pa, d)
		case "Add":
			ev.MonomialMulAddPolyTo(po, pa, d)
		case "Sub":
			ev.MonomialMulSubPolyTo(po, pa, d)
		}
		eqCoeffs(t, "MonomialMul"+mode, po.Coeffs, applyAcc(mode, o, mono))
		eqCoeffs(t, "MonomialMul"+mode+" input", pa.Coeffs, a)
	}
	pi := polyOf(a)
	ev.MonomialMulPolyInPlace(pi, d)
	eqCoeffs(t, "MonomialMulPolyInPlace", pi.Coeffs, mono)
	if d&1 == 1 {
		perm := refPerm(a, d)
		eqCoeffs(t, "PermutePoly", ev.PermutePoly(pa, d).Coeffs, perm)
		for _, mode := range accModes {
			po := polyOf(o)
			switch mode {
			case "Set":
				ev.PermutePolyTo(po, pa, d)
			case "Add":
				ev.PermuteAddPolyTo(po, pa, d)
			case "Sub":
				ev.PermuteSubPolyTo(po, pa, d)
			}
			eqCoeffs(t, "Permute"+mode, po.Coeffs, applyAcc(mode, o, perm))
			eqCoeffs(t, "Permute"+mode+" input", pa.Coeffs, a)
		}
		pi := polyOf(a)
		ev.PermutePolyInPlace(pi, d)
		eqCoeffs(t, "PermutePolyInPlace", pi.Coeffs, perm)
	} else {
		po, fo := polyOf(o), ev.NewFFTPoly()
		for name, f := range map[string]func(){
			"PermutePoly":           func() { ev.PermutePoly(pa, d) },
			"PermutePolyTo":         func() { ev.PermutePolyTo(po, pa, d) },
			"PermuteAddPolyTo":      func() { ev.PermuteAddPolyTo(po, pa, d) },
			"PermuteSubPolyTo":      func() { ev.PermuteSubPolyTo(po, pa, d) },
			"PermutePolyInPlace":    func() { ev.PermutePolyInPlace(po, d) },
			"PermuteFFTPoly":        func() { ev.PermuteFFTPoly(fo, d) },
			"PermuteFFTPolyTo":      func() { ev.PermuteFFTPolyTo(fo, fo.Copy(), d) },
			"PermuteAddFFTPolyTo":   func() { ev.PermuteAddFFTPolyTo(fo, fo.Copy(), d) },
			"PermuteSubFFTPolyTo":   func() { ev.PermuteSubFFTPolyTo(fo, fo.Copy(), d) },
			"PermuteFFTPolyInPlace": func() { ev.PermuteFFTPolyInPlace(fo, d) },
		} {
			if !vh.Panics(f) {
				t.Fatalf("%s accepts the even exponent %d", name, d)
			}
		}
	}
	// linear operations
	c := T(vh.DrawShape(t, "c").Fill(1, bits)[0])
	type lin struct {
		name string
		ret  func() poly.Poly[T]
		to   func(poly.Poly[T])
		ref  func(o, a, b T) T
	}
	for _, l := range []lin{
		{"Add", func() poly.Poly[T] { return ev.AddPoly(pa, pb) }, func(p poly.Poly[T]) { ev.AddPolyTo(p, pa, pb) }, func(o, a, b T) T { return a + b }},
		{"Sub", func() poly.Poly[T] { return ev.SubPoly(pa, pb) }, func(p poly.Poly[T]) { ev.SubPolyTo(p, pa, pb) }, func(o, a, b T) T { return a - b }},
		{"Neg", func() poly.Poly[T] { return ev.NegPoly(pa) }, func(p poly.Poly[T]) { ev.NegPolyTo(p, pa) }, func(o, a, b T) T { return -a }},
		{"ScalarMul", func() poly.Poly[T] { return ev.ScalarMulPoly(pa, c) }, func(p poly.Poly[T]) { ev.ScalarMulPolyTo(p, pa, c) }, func(o, a, b T) T { return c * a }},
		{"ScalarMulAdd", nil, func(p poly.Poly[T]) { ev.ScalarMulAddPolyTo(p, pa, c) }, func(o, a, b T) T { return o + c*a }},
		{"ScalarMulSub", nil, func(p poly.Poly[T]) { ev.ScalarMulSubPolyTo(p, pa, c) }, func(o, a, b T) T { return o - c*a }},
	} {
		want := make([]T, N)
		for i := range want {
			want[i] = l.ref(o[i], a[i], b[i])
		}
		po := polyOf(o)
		l.to(po)
		eqCoeffs(t, l.name+"PolyTo", po.Coeffs, want)
		if l.ret != nil {
			eqCoeffs(t, l.name+"Poly", l.ret().Coeffs, want)
		}
	}
	eqCoeffs(t, "input", pa.Coeffs, a)
	eqCoeffs(t, "input", pb.Coeffs, b)
	// From, Copy, CopyFrom, Clear, Equals
	ln := rapid.IntRange(0, 2*N).Draw(t, "fromLen")
	src := conv[T](vh.DrawShape(t, "from").Fill(ln+1, bits))[:ln]
	from := append([]T(nil), src...)
	fr := poly.From(src, N)
	eqCoeffs(t, "From: input", src, from)
	if fr.Rank() != N {
		t.Fatalf("From(%d coefficients, %d) has rank %d", ln, N, fr.Rank())
	}
	for i := range fr.Coeffs {
		var w T
		if i < ln {
			w = src[i]
		}
		if fr.Coeffs[i] != w {
			t.Fatalf("From(%d coefficients, %d): coefficient %d is %d want %d", ln, N, i, fr.Coeffs[i], w)
		}
	}
	for i := range fr.Coeffs {
		fr.Coeffs[i]++
	}
	eqCoeffs(t, "From: source after writing the result", src, from)
	cp := pa.Copy()
	i := rapid.IntRange(0, N-1).Draw(t, "i")
	if !cp.Equals(pa) {
		t.Fatalf("Copy differs from its source")
	}
	cp.Coeffs[i]++
	if cp.Equals(pa) || pa.Coeffs[i] != a[i] {
		t.Fatalf("Copy shares memory, or Equals ignores coefficient %d", i)
	}
	cp.CopyFrom(pb)
	eqCoeffs(t, "CopyFrom", cp.Coeffs, b)
	cp.Clear()
	eqCoeffs(t, "Clear", cp.Coeffs, make([]T, N))
	eqCoeffs(t, "input", pb.Coeffs, b)
	vh.Label("d odd %v", d&1 == 1)
	vh.Case(d%(2*N) != 0 && sa.Kind != "zero", "[%s] N=%d d=%d a=%v out=%v c=%d", typ, N, d, sa, so, c)
}

func TestPolyMap(t *testing.T) {
	vh.Check(t, "a case applies every coefficient-domain operation of a generated ring to generated polynomials and a generated exponent; non-trivial = the monomial is not 1 and the polynomial is not zero", 4000, 100000, func(t *rapid.T) {
		switch typ := rapid.SampledFrom([]string{"uint64", "uint32", "int64", "int32", "uint8", "int16", "uint16", "int8", "uint", "int", "uintptr"}).Draw(t, "type"); typ {
		case "uint64":
			mapCase[uint64](t, typ, 64)
		case "uint16":
			mapCase[uint16](t, typ, 16)
		case "int8":
			mapCase[int8](t, typ, 8)
		case "uint":
			mapCase[uint](t, typ, 64)
		case "int":
			mapCase[int](t, typ, 64)
		case "uintptr":
			mapCase[uintptr](t, typ, 64)
		case "uint32":
			mapCase[uint32](t, typ, 32)
		case "int64":
			mapCase[int64](t, typ, 64)
		case "int32":
			mapCase[int32](t, typ, 32)
		case "uint8":
			mapCase[uint8](t, typ, 8)
		case "int16":
			mapCase[int16](t, typ, 16)
		}
	})
}

// ---- Fourier domain ----

func norm2[T num.Integer](v []T, bits int) float64 {
	var s float64
	for _, x := range v {
		f := signedF(x, bits)
		s += f * f
	}
	return math.Sqrt(s)
}

func signedF[T num.Integer](x T, bits int) float64 {
	return float64(int64(uint64(x)<<(64-bits)) >> (64 - bits))
}

// near compares modulo Q with an absolute tolerance.
func near[T num.Integer](t *rapid.T, what string, got, want []T, tol float64, bits int) {
	for i := range want {
		if d := math.Abs(signedF(got[i]-want[i], bits)); d > tol {
			t.Fatalf("%s: coefficient %d is %d, ring arithmetic gives %d (difference %g, tolerance %g)", what, i, got[i], want[i], d, tol)
		}
	}
}

const eps = 1.0 / (1 << 53)

func fftCase[T num.Integer](t *rapid.T, typ string, bits int) {
	N := drawRank(t)
	lg := float64(num.Log2(N) + 6)
	ev := poly.NewEvaluator[T](N)
	kind := rapid.SampledFrom([]string{"small", "mid", "full"}).Draw(t, "magnitude")
	sa, sb, so := vh.DrawShape(t, "a"), vh.DrawShape(t, "b"), vh.DrawShape(t, "out")
	cut := func(v []T, lim int64) []T {
		for i := range v {
			v[i] = T(int64(signedF(v[i]>>1, bits)) % lim)
		}
		return v
	}
	a, b, o := conv[T](sa.Fill(N, bits)), conv[T](sb.Fill(N, bits)), conv[T](so.Fill(N, bits))
	// b stays small so that products fit in the mantissa unless a is full width
	b = cut(b, 16)
	switch kind {
	case "small":
		a, o = cut(a, 128), cut(o, 128)
	case "mid":
		if bits > 16 {
			a, o = cut(a, 1<<20), cut(o, 1<<20)
		}
	}
	pa, pb := polyOf(a), polyOf(b)
	fa, fb := ev.FwdFFT(pa), ev.FwdFFT(pb)
	eqCoeffs(t, "FwdFFT input", pa.Coeffs, a)
	na, nb, no := norm2(a, bits), norm2(b, bits), norm2(o, bits)
	tolLin := eps * lg * (na + nb + no) * 4
	round := func(x float64) float64 {
		if x < 0.4 {
			return 0 // the nearest integer is exact
		}
		return x + 1
	}
	fa0 := fa.Copy()
	// round trip, in all output modes
	near(t, "InvFFT(FwdFFT(a))", ev.InvFFT(fa).Coeffs, a, round(tolLin), bits)
	for _, mode := range accModes {
		po, pu := polyOf(o), polyOf(o)
		fu := fa.Copy()
		switch mode {
		case "Set":
			ev.InvFFTTo(po, fa)
			ev.InvFFTToUnsafe(pu, fu)
		case "Add":
			ev.InvFFTAddTo(po, fa)
			ev.InvFFTAddToUnsafe(pu, fu)
		case "Sub":
			ev.InvFFTSubTo(po, fa)
			ev.InvFFTSubToUnsafe(pu, fu)
		}
		w := applyAcc(mode, o, a)
		near(t, "InvFFT"+mode, po.Coeffs, w, round(tolLin), bits)
		near(t, "InvFFT"+mode+"Unsafe", pu.Coeffs, w, round(tolLin), bits)
		if !fa.Equals(fa0) {
			t.Fatalf("InvFFT%s changed its input", mode)
		}
		fo := ev.FwdFFT(polyOf(o))
		switch mode {
		case "Set":
			ev.FwdFFTTo(fo, pa)
		case "Add":
			ev.FwdFFTAddTo(fo, pa)
		case "Sub":
			ev.FwdFFTSubTo(fo, pa)
		}
		near(t, "FwdFFT"+mode, ev.InvFFT(fo).Coeffs, w, round(tolLin), bits)
	}
	fo0 := ev.FwdFFT(polyOf(o))
	// pointwise operations: agree entry by entry with complex arithmetic
	ca, cb, co := vec.Float4ToCmplx(fa.Coeffs), vec.Float4ToCmplx(fb.Coeffs), vec.Float4ToCmplx(fo0.Coeffs)
	cf := float64(rapid.IntRange(-9, 9).Draw(t, "c"))
	cc := complex(float64(rapid.IntRange(-9, 9).Draw(t, "re")), float64(rapid.IntRange(-9, 9).Draw(t, "im")))
	type pw struct {
		name string
		ret  func() poly.FFTPoly
		to   func(poly.FFTPoly)
		ref  func(o, a, b complex128) complex128
	}
	ops := []pw{
		{"Add", func() poly.FFTPoly { return ev.AddFFTPoly(fa, fb) }, func(p poly.FFTPoly) { ev.AddFFTPolyTo(p, fa, fb) }, func(o, a, b complex128) complex128 { return a + b }},
		{"Sub", func() poly.FFTPoly { return ev.SubFFTPoly(fa, fb) }, func(p poly.FFTPoly) { ev.SubFFTPolyTo(p, fa, fb) }, func(o, a, b complex128) complex128 { return a - b }},
		{"Neg", func() poly.FFTPoly { return ev.NegFFTPoly(fa) }, func(p poly.FFTPoly) { ev.NegFFTPolyTo(p, fa) }, func(o, a, b complex128) complex128 { return -a }},
		{"FloatMul", func() poly.FFTPoly { return ev.FloatMulFFTPoly(fa, cf) }, func(p poly.FFTPoly) { ev.FloatMulFFTPolyTo(p, fa, cf) }, func(o, a, b complex128) complex128 { return complex(cf, 0) * a }},
		{"FloatMulAdd", nil, func(p poly.FFTPoly) { ev.FloatMulAddFFTPolyTo(p, fa, cf) }, func(o, a, b complex128) complex128 { return o + complex(cf, 0)*a }},
		{"FloatMulSub", nil, func(p poly.FFTPoly) { ev.FloatMulSubFFTPolyTo(p, fa, cf) }, func(o, a, b complex128) complex128 { return o - complex(cf, 0)*a }},
		{"CmplxMul", func() poly.FFTPoly { return ev.CmplxMulFFTPoly(fa, cc) }, func(p poly.FFTPoly) { ev.CmplxMulFFTPolyTo(p, fa, cc) }, func(o, a, b complex128) complex128 { return cc * a }},
		{"CmplxMulAdd", nil, func(p poly.FFTPoly) { ev.CmplxMulAddFFTPolyTo(p, fa, cc) }, func(o, a, b complex128) complex128 { return o + cc*a }},
		{"CmplxMulSub", nil, func(p poly.FFTPoly) { ev.CmplxMulSubFFTPolyTo(p, fa, cc) }, func(o, a, b complex128) complex128 { return o - cc*a }},
		{"Mul", func() poly.FFTPoly { return ev.MulFFTPoly(fa, fb) }, func(p poly.FFTPoly) { ev.MulFFTPolyTo(p, fa, fb) }, func(o, a, b complex128) complex128 { return a * b }},
		{"MulAdd", nil, func(p poly.FFTPoly) { ev.MulAddFFTPolyTo(p, fa, fb) }, func(o, a, b complex128) complex128 { return o + a*b }},
		{"MulSub", nil, func(p poly.FFTPoly) { ev.MulSubFFTPolyTo(p, fa, fb) }, func(o, a, b complex128) complex128 { return o - a*b }},
		{"PolyMul", func() poly.FFTPoly { return ev.PolyMulFFTPoly(fa, pb) }, func(p poly.FFTPoly) { ev.PolyMulFFTPolyTo(p, fa, pb) }, func(o, a, b complex128) complex128 { return a * b }},
		{"PolyMulAdd", nil, func(p poly.FFTPoly) { ev.PolyMulAddFFTPolyTo(p, fa, pb) }, func(o, a, b complex128) complex128 { return o + a*b }},
		{"PolyMulSub", nil, func(p poly.FFTPoly) { ev.PolyMulSubFFTPolyTo(p, fa, pb) }, func(o, a, b complex128) complex128 { return o - a*b }},
	}
	fb0 := fb.Copy()
	check := func(name string, f poly.FFTPoly, ref func(o, a, b complex128) complex128) {
		got := vec.Float4ToCmplx(f.Coeffs)
		for i := range got {
			w := ref(co[i], ca[i], cb[i])
			m := cabs(co[i]) + (cabs(ca[i])+1)*(cabs(cb[i])+20)
			if cabs(got[i]-w) > 16*eps*m+1e-9 {
				t.Fatalf("%sFFTPoly: slot %d is %v, complex arithmetic gives %v", name, i, got[i], w)
			}
		}
	}
	for _, p := range ops {
		fo := fo0.Copy()
		p.to(fo)
		check(p.name+"To", fo, p.ref)
		if p.ret != nil {
			check(p.name, p.ret(), p.ref)
		}
		if !fa.Equals(fa0) || !fb.Equals(fb0) {
			t.Fatalf("%sFFTPolyTo changed an input", p.name)
		}
	}
	// in place
	fi := fa.Copy()
	ev.MulFFTPolyTo(fi, fi, fb)
	check("Mul in place", fi, func(o, a, b complex128) complex128 { return a * b })
	fi = fa.Copy()
	ev.SubFFTPolyTo(fi, fb, fi)
	check("Sub in place", fi, func(o, a, b complex128) complex128 { return b - a })
	fi = fa.Copy()
	ev.CmplxMulFFTPolyTo(fi, fi, cc)
	check("CmplxMul in place", fi, func(o, a, b complex128) complex128 { return cc * a })
	// meaning in the ring
	prod := refMul(a, b)
	tolMul := round(eps * lg * (na*nb + no) * 8)
	near(t, "InvFFT(a*b)", ev.InvFFT(ev.MulFFTPoly(fa, fb)).Coeffs, prod, tolMul, bits)
	near(t, "FFTPolyMulPoly", ev.FFTPolyMulPoly(pa, fb).Coeffs, prod, tolMul, bits)
	near(t, "InvFFT(PolyMulFFTPoly)", ev.InvFFT(ev.PolyMulFFTPoly(fa, pb)).Coeffs, prod, tolMul, bits)
	for _, mode := range accModes {
		po := polyOf(o)
		switch mode {
		case "Set":
			ev.FFTPolyMulPolyTo(po, pa, fb)
		case "Add":
			ev.FFTPolyMulAddPolyTo(po, pa, fb)
		case "Sub":
			ev.FFTPolyMulSubPolyTo(po, pa, fb)
		}
		near(t, "FFTPolyMul"+mode, po.Coeffs, applyAcc(mode, o, prod), tolMul, bits)
	}
	d := rapid.OneOf(rapid.IntRange(-2*N-3, 2*N+3), rapid.IntRange(-9*N, 9*N), rapid.SampledFrom([]int{0, 1, -1, N, -N, N - 1, 2*N - 1})).Draw(t, "d")
	one := make([]T, N)
	one[0] = 1
	xd := refMono(one, d)
	fm := ev.FwdFFT(polyOf(o))
	ev.MonomialFwdFFTTo(fm, d)
	near(t, "InvFFT(MonomialFwdFFT)", ev.InvFFT(fm).Coeffs, xd, 0, bits)
	if !ev.MonomialFwdFFT(d).Approx(fm, 1e-6) {
		t.Fatalf("MonomialFwdFFT differs from MonomialFwdFFTTo at d=%d", d)
	}
	near(t, "InvFFT(a*X^d)", ev.InvFFT(ev.MulFFTPoly(fa, fm)).Coeffs, refMono(a, d), round(tolLin), bits)
	ev.MonomialSubOneFwdFFTTo(fm, d)
	xd1 := append([]T(nil), xd...)
	xd1[0]--
	near(t, "InvFFT(MonomialSubOneFwdFFT)", ev.InvFFT(fm).Coeffs, xd1, 0, bits)
	if !ev.MonomialSubOneFwdFFT(d).Approx(fm, 1e-6) {
		t.Fatalf("MonomialSubOneFwdFFT differs from its To form at d=%d", d)
	}
	d |= 1
	perm := refPerm(a, d)
	near(t, "InvFFT(PermuteFFTPoly)", ev.InvFFT(ev.PermuteFFTPoly(fa, d)).Coeffs, perm, round(tolLin), bits)
	for _, mode := range accModes {
		fo := fo0.Copy()
		switch mode {
		case "Set":
			ev.PermuteFFTPolyTo(fo, fa, d)
		case "Add":
			ev.PermuteAddFFTPolyTo(fo, fa, d)
		case "Sub":
			ev.PermuteSubFFTPolyTo(fo, fa, d)
		}
		near(t, "PermuteFFT"+mode, ev.InvFFT(fo).Coeffs, applyAcc(mode, o, perm), round(tolLin), bits)
	}
	fi = fa.Copy()
	ev.PermuteFFTPolyInPlace(fi, d)
	near(t, "PermuteFFTPolyInPlace", ev.InvFFT(fi).Coeffs, perm, round(tolLin), bits)
	if !fa.Equals(fa0) {
		t.Fatalf("permutation changed its input")
	}
	cp := fa.Copy()
	i := rapid.IntRange(0, N-1).Draw(t, "i")
	cp.Coeffs[i] = 3*cp.Coeffs[i] + 1
	if fa.Coeffs[i] != fa0.Coeffs[i] || cp.Equals(fa) || cp.Approx(fa, 1e-9) {
		t.Fatalf("FFTPoly.Copy shares memory, or Equals/Approx ignore entry %d", i)
	}
	cp.CopyFrom(fb)
	if !cp.Equals(fb) || !cp.Approx(fb, 0.1) {
		t.Fatalf("FFTPoly.CopyFrom")
	}
	cp.Clear()
	for i := range cp.Coeffs {
		if cp.Coeffs[i] != 0 {
			t.Fatalf("FFTPoly.Clear left entry %d", i)
		}
	}
	vh.Label("N=%d", N)
	vh.Label("magnitude %s", kind)
	vh.Case(na > 0 && nb > 0, "[%s] N=%d %s a=%v b=%v out=%v d=%d c=%v", typ, N, kind, sa, sb, so, d, cc)
}

func cabs(c complex128) float64 { return math.Hypot(real(c), imag(c)) }

func TestPolyFFT(t *testing.T) {
	vh.Check(t, "a case transforms generated polynomials and runs every Fourier-domain operation against complex arithmetic slot by slot and ring arithmetic after the inverse; non-trivial = both operands are non-zero", 2000, 40000, func(t *rapid.T) {
		switch typ := rapid.SampledFrom([]string{"uint64", "uint64", "uint32", "uint32", "int64", "int32", "uint8", "int16", "int8", "uint16", "uint", "int", "uintptr"}).Draw(t, "type"); typ {
		case "uint64":
			fftCase[uint64](t, typ, 64)
		case "uint32":
			fftCase[uint32](t, typ, 32)
		case "int64":
			fftCase[int64](t, typ, 64)
		case "int32":
			fftCase[int32](t, typ, 32)
		case "uint8":
			fftCase[uint8](t, typ, 8)
		case "int16":
			fftCase[int16](t, typ, 16)
		case "int8":
			fftCase[int8](t, typ, 8)
		case "uint16":
			fftCase[uint16](t, typ, 16)
		case "uint":
			fftCase[uint](t, typ, 64)
		case "uintptr":
			fftCase[uintptr](t, typ, 64)
		case "int":
			fftCase[int](t, typ, 64)
		}
	})
}
