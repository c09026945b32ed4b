package xp

import (
	"fmt"
	"math"
	"sort"
	"testing"
	"unsafe"

	"github.com/sp301415/tfhe-go/math/num"
	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/xtfhe"
	"pgregory.net/rapid"

	"verifharness/vh"
)

func cdtCase[T num.Integer](t *rapid.T, typ string, n int) {
	bits := int(8 * unsafe.Sizeof(T(0)))
	sz := uint(bits)
	sign := func(x T) int64 { return int64(uint64(x)<<(64-sz)) >> (64 - sz) }
	span := math.Exp2(float64(bits - 2))
	if span > 1<<40 {
		span = 1 << 40
	}
	// The values stay within half of the type.
	sd := 0.0
	switch rapid.SampledFrom([]string{"tiny", "unit", "small", "any"}).Draw(t, "scale") {
	case "tiny":
		sd = rapid.Float64Range(0.001, 0.6).Draw(t, "stdDev")
	case "unit":
		sd = rapid.Float64Range(0.3, 2).Draw(t, "stdDev")
	case "small":
		sd = rapid.Float64Range(2, 30).Draw(t, "stdDev")
	case "any":
		sd = rapid.Float64Range(1, 3000).Draw(t, "stdDev")
	}
	if m := span / 16; sd > m {
		sd = m
	}
	c := 0.0
	room := span - 13*sd - 2
	switch rapid.SampledFrom([]string{"zero", "frac", "frac", "near", "int", "far"}).Draw(t, "where") {
	case "frac":
		c = rapid.Float64Range(-1, 1).Draw(t, "center")
	case "near":
		c = rapid.Float64Range(-30, 30).Draw(t, "center")
	case "int":
		c = float64(rapid.IntRange(-40, 40).Draw(t, "center"))
	case "far":
		c = rapid.Float64Range(-1, 1).Draw(t, "center") * room
	}
	if math.Abs(c) > room {
		c = math.Copysign(room, c)
	}
	s := xtfhe.NewCDTSampler[T](c, sd)
	if s.Center() != c || s.StdDev() != sd {
		t.Fatalf("%s: center %g stdDev %g reported as %g, %g", typ, c, sd, s.Center(), s.StdDev())
	}
	form := rapid.SampledFrom([]string{"single", "vec", "poly", "add", "sub"}).Draw(t, "form")
	x := make([]int64, 0, n)
	p := vh.NewPRNG(rapid.Uint64().Draw(t, "data"))
	for len(x) < n {
		base := make([]T, 1<<uint(p.Range(4, 9)))
		for i := range base {
			base[i] = T(p.U64())
		}
		v := append([]T(nil), base...)
		q := poly.Poly[T]{Coeffs: v}
		switch form {
		case "single":
			for i := range v {
				v[i] = s.Sample()
			}
		case "vec":
			s.SampleVecTo(v)
		case "poly":
			s.SamplePolyTo(q)
		case "add":
			s.SamplePolyAddTo(q)
		case "sub":
			s.SamplePolySubTo(q)
		}
		for i := range v {
			d := v[i]
			switch form {
			case "add":
				d = v[i] - base[i]
			case "sub":
				d = base[i] - v[i]
			}
			x = append(x, sign(d))
		}
	}
	// Reference law, by direct summation around the centre.
	near := int64(math.Round(c))
	w := func(k int64) float64 {
		a, b := float64(k)-c, float64(near)-c
		return math.Exp(-(a - b) * (a + b) / (2 * sd * sd))
	}
	lo, hi := int64(math.Floor(c-13*sd))-1, int64(math.Ceil(c+13*sd))+1
	var z, mean, va float64
	for k := lo; k <= hi; k++ {
		z += w(k)
		mean += w(k) * (float64(k) - c)
	}
	mean /= z
	for k := lo; k <= hi; k++ {
		d := float64(k) - c - mean
		va += w(k) / z * d * d
	}
	nf := float64(len(x))
	on := fmt.Sprintf("%s %s center=%g stdDev=%g samples=%d", typ, form, c, sd, len(x))
	// Bins of about a twentieth of a deviation.
	step := int64(sd / 20)
	if step < 1 {
		step = 1
	}
	var obs, exp []float64
	var edges []int64
	acc := 0.0
	for k := lo; k <= hi; k++ {
		acc += w(k) / z * nf
		if (k-lo)%step == 0 || k == hi {
			edges = append(edges, k)
			exp = append(exp, acc)
			acc = 0
		}
	}
	obs = make([]float64, len(edges)+1)
	exp = append(exp, 0)
	var sum, sum2, cross, prev float64
	for i, k := range x {
		d := float64(k) - c
		if math.Abs(d) > 12*sd+2 {
			t.Fatalf("%s: sample %d is %.3g away from the centre", on, k, d)
		}
		// Below this the value has probability under 2^-40.
		if wk := w(k) / z; wk < 1e-13 {
			t.Fatalf("%s: sample %d has probability %.3g", on, k, wk)
		}
		obs[sort.Search(len(edges), func(j int) bool { return k <= edges[j] })]++
		d -= mean
		sum += d
		sum2 += d * d
		if i > 0 {
			cross += d * prev
		}
		prev = d
	}
	if z := chi2z(obs, exp); z > statZ {
		t.Fatalf("%s: the samples do not follow the discrete Gaussian law (z=%.1f)", on, z)
	}
	if math.Abs(sum) > statZ*math.Sqrt(nf*va)+statZ*statZ {
		t.Fatalf("%s: the mean is %g instead of %g", on, c+mean+sum/nf, c+mean)
	}
	if sd > 0.5 && math.Abs(sum2/nf-va) > statZ*va*math.Sqrt(5/nf) {
		t.Fatalf("%s: the variance is %g instead of %g", on, sum2/nf, va)
	}
	if sd > 0.5 && math.Abs(cross) > statZ*va*math.Sqrt(nf)*1.1+statZ {
		t.Fatalf("%s: neighbours are correlated: %g", on, cross/nf/va)
	}
	switch {
	case math.Abs(c) >= 1:
		vh.Label("centre beyond 1")
	case c != 0:
		vh.Label("fractional centre")
	}
	if sd < 0.6 {
		vh.Label("tiny deviation")
	}
	vh.Label("form %s", form)
	vh.Case(va > 0.05, "%s: mean %.3f variance %.3f", on, c+mean+sum/nf, sum2/nf)
}

func TestCDTSampler(t *testing.T) {
	vh.Check(t, "a case draws 2000 to 40000 samples in one of the five forms for a generated type, centre and standard deviation and tests range, histogram, mean, variance and independence of neighbours against the discrete Gaussian law summed directly; non-trivial = the variance is above 0.05", 300, 20000, func(t *rapid.T) {
		n := rapid.SampledFrom([]int{2000, 10000, 40000}).Draw(t, "samples")
		switch typ := rapid.SampledFrom([]string{"uint64", "uint32", "int64", "int32", "int16", "uint8", "int"}).Draw(t, "type"); typ {
		case "uint64":
			cdtCase[uint64](t, typ, n)
		case "uint32":
			cdtCase[uint32](t, typ, n)
		case "int64":
			cdtCase[int64](t, typ, n)
		case "int32":
			cdtCase[int32](t, typ, n)
		case "int16":
			cdtCase[int16](t, typ, n)
		case "uint8":
			cdtCase[uint8](t, typ, n)
		default:
			cdtCase[int](t, typ, n)
		}
	})
}

// cdtVolume looks at the far tails, which need very many samples.
func cdtVolume[T num.Integer](t *rapid.T, n int) {
	bits := uint(8 * unsafe.Sizeof(T(0)))
	sd := rapid.Float64Range(0.5, 40).Draw(t, "stdDev")
	c := rapid.Float64Range(-1, 1).Draw(t, "center")
	if rapid.Bool().Draw(t, "far") {
		c *= 1000
	}
	s := xtfhe.NewCDTSampler[T](c, sd)
	if rapid.Bool().Draw(t, "copyLike") {
		s = xtfhe.NewCDTSampler[T](s.Center(), s.StdDev())
	}
	lo := int64(math.Floor(c-13*sd)) - 1
	hi := int64(math.Ceil(c+13*sd)) + 1
	obs, exp := make([]float64, hi-lo+1), make([]float64, hi-lo+1)
	v := make([]T, 4096)
	for k := 0; k < n; k += len(v) {
		s.SampleVecTo(v)
		for _, y := range v {
			x := int64(uint64(y)<<(64-bits)) >> (64 - bits)
			if x < lo || x > hi {
				t.Fatalf("center %g stdDev %g: sample %d", c, sd, x)
			}
			obs[x-lo]++
		}
	}
	z := 0.0
	for i := range exp {
		d := float64(lo+int64(i)) - c
		exp[i] = math.Exp(-d * d / (2 * sd * sd))
		z += exp[i]
	}
	for i := range exp {
		exp[i] *= float64(n) / z
	}
	on := fmt.Sprintf("center %g stdDev %g: %d samples", c, sd, n)
	if z := chi2z(obs, exp); z > statZ {
		t.Fatalf("%s do not follow the discrete Gaussian law (z=%.1f)", on, z)
	}
	// Every tail: the number of samples at or beyond each value, on either side.
	tail := func(side string, at func(i int) int) {
		var o, e float64
		for i := range obs {
			o += obs[at(i)]
			e += exp[at(i)]
			// A Poisson count falls short no more than a normal one, but exceeds it more.
			if d := o - e; -d > statZ*math.Sqrt(e) || d > statZ*math.Sqrt(e)+statZ*statZ/2 {
				t.Fatalf("%s: %v instead of %.4g at or %s %d", on, o, e, side, lo+int64(at(i)))
			}
			if e > float64(n)/2 {
				break
			}
		}
	}
	tail("below", func(i int) int { return i })
	tail("above", func(i int) int { return len(obs) - 1 - i })
	vh.Case(true, "%s", on)
}

func TestCDTVolume(t *testing.T) {
	n := 1 << 28
	vh.Check(t, "a case tests 268 million samples of one generated type, centre and standard deviation against the discrete Gaussian law: every value, and every lower and upper tail; every case is non-trivial", 8, 200, func(t *rapid.T) {
		switch rapid.SampledFrom([]string{"uint64", "uint32", "int64"}).Draw(t, "type") {
		case "uint64":
			cdtVolume[uint64](t, n)
		case "uint32":
			cdtVolume[uint32](t, n)
		default:
			cdtVolume[int64](t, n)
		}
	})
}
