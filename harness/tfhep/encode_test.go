package tfhep

import (
	"testing"

	"github.com/sp301415/tfhe-go/tfhe"
	"pgregory.net/rapid"

	"verifharness/tf"
	"verifharness/vh"
)

// fmod is the mathematical remainder.
func fmod(a int, m int) int { return ((a % m) + m) % m }

func encodeCase[T tfhe.TorusInt](t *rapid.T) {
	bits := tf.Bits[T]()
	logN := rapid.IntRange(4, 8).Draw(t, "logN")
	N := 1 << uint(logN)
	maxP := 20
	p := rapid.IntRange(2, 1<<uint(maxP)).Draw(t, "p")
	if rapid.Bool().Draw(t, "smallP") {
		p = rapid.IntRange(2, 70).Draw(t, "p")
	}
	if rapid.Bool().Draw(t, "pow2") {
		p = 1 << uint(rapid.IntRange(1, maxP).Draw(t, "logP"))
	}
	pow2 := p&(p-1) == 0
	lit := tfhe.ParamsUint2
	params := tfhe.ParametersLiteral[T]{
		LWEDimension: 6, GLWERank: 1, PolyRank: N, LWEStdDev: lit.LWEStdDev, GLWEStdDev: lit.LWEStdDev,
		MessageModulus:    T(p),
		BlindRotateParams: tfhe.GadgetParametersLiteral[T]{Base: 16, Level: 2},
		KeySwitchParams:   tfhe.GadgetParametersLiteral[T]{Base: 16, Level: 2},
	}.Compile()
	e := tfhe.NewEncoder(params)
	pr := vh.NewPRNG(rapid.Uint64().Draw(t, "seed"))

	// mode: default encoding, custom, custom without modulus.
	mode := rapid.SampledFrom([]string{"default", "custom", "nomod"}).Draw(t, "mode")
	mm, scale := T(p), params.Scale()
	logScale := 0
	switch mode {
	case "custom":
		// Any scale that leaves room for p messages.
		room := bits - bitlen(p)
		logScale = rapid.IntRange(3, room-1).Draw(t, "logScale")
		scale = T(1) << uint(logScale)
		if rapid.Bool().Draw(t, "oddScale") {
			scale += T(pr.U64()) % scale
		}
	case "nomod":
		logScale = rapid.IntRange(bits-20, bits-2).Draw(t, "logScale")
		scale = T(1) << uint(logScale)
		mm = 0
		p = 1 << uint(bits-logScale)
		pow2 = true
	}
	msg := func() int {
		switch pr.N(5) {
		case 0:
			return pr.N(3 * p)
		case 1:
			if pow2 {
				return int(pr.U64() >> 1)
			}
			return int(pr.U64() >> 34)
		case 2:
			if pow2 {
				return -int(pr.U64() >> 2)
			}
			return p - 1
		case 3:
			if pow2 {
				return -1 - pr.N(p)
			}
			return 0
		}
		return pr.N(p)
	}
	// The quotient is taken in floating point: keep clear of the boundary by its precision.
	margin := T(1)
	if bits == 64 {
		margin = 1 << 13
	}
	// The scale is rounded, so 2*p times the scale may miss the torus by p.
	if mode == "default" {
		margin += T(p) + 2
	}
	// A scale that does not divide the torus into a multiple of p leaves no room
	// below message zero.
	room0 := mode != "custom" || logScale+bitlen(p-1) <= bits && scale&(scale-1) == 0 && pow2
	noise := func(m int) T {
		if scale/2 <= margin+1 {
			return 0
		}
		lim := scale/2 - margin
		if !room0 && fmod(m, p) == 0 {
			return T(pr.U64()) % lim
		}
		switch pr.N(4) {
		case 0:
			return lim - 1
		case 1:
			return -(lim - 1)
		case 2:
			return T(pr.U64()) % lim
		}
		return -(T(pr.U64()) % lim)
	}
	enc := func(m int) tfhe.LWEPlaintext[T] {
		if mode == "default" {
			return e.EncodeLWE(m)
		}
		return e.EncodeLWECustom(m, mm, scale)
	}
	dec := func(pt tfhe.LWEPlaintext[T]) int {
		if mode == "default" {
			return e.DecodeLWE(pt)
		}
		return e.DecodeLWECustom(pt, mm, scale)
	}
	for i := 0; i < 10; i++ {
		m := msg()
		pt := enc(m)
		if got := dec(pt); got != fmod(m, p) {
			t.Fatalf("%s p=%d scale=%d: %d encodes to %#x, which decodes to %d", mode, p, scale, m, pt.Value, got)
		}
		ns := noise(m)
		if got := dec(tfhe.LWEPlaintext[T]{Value: pt.Value + ns}); got != fmod(m, p) {
			t.Fatalf("%s p=%d scale=%d: %d encodes to %#x; with an error of %d it decodes to %d", mode, p, scale, m, pt.Value, tf.Signed(ns), got)
		}
	}
	// Vectors, shorter or longer than the polynomial.
	n := rapid.SampledFrom([]int{0, 1, N - 1, N, N + 1, 2 * N, N / 2}).Draw(t, "len")
	ms := make([]int, n)
	for i := range ms {
		ms[i] = msg()
	}
	out := tfhe.GLWEPlaintext[T]{Value: tf.DirtyPoly[T](pr, N)}
	var fresh tfhe.GLWEPlaintext[T]
	if mode == "default" {
		e.EncodeGLWETo(out, ms)
		fresh = e.EncodeGLWE(ms)
	} else {
		e.EncodeGLWECustomTo(out, ms, mm, scale)
		fresh = e.EncodeGLWECustom(ms, mm, scale)
	}
	for i := 0; i < N; i++ {
		want := enc(0).Value
		if i < n {
			want = enc(ms[i]).Value
		}
		if out.Value.Coeffs[i] != want || fresh.Value.Coeffs[i] != want {
			t.Fatalf("%s: coefficient %d of %d messages is %#x, %#x instead of %#x", mode, i, n, out.Value.Coeffs[i], fresh.Value.Coeffs[i], want)
		}
		nm := 0
		if i < n {
			nm = ms[i]
		}
		out.Value.Coeffs[i] += noise(nm)
	}
	pin := append([]T{}, out.Value.Coeffs...)
	m := rapid.SampledFrom([]int{0, 1, N - 1, N, N + 3}).Draw(t, "outLen")
	got := make([]int, m)
	for i := range got {
		got[i] = -7
	}
	var all []int
	if mode == "default" {
		e.DecodeGLWETo(got, out)
		all = e.DecodeGLWE(out)
	} else {
		e.DecodeGLWECustomTo(got, out, mm, scale)
		all = e.DecodeGLWECustom(out, mm, scale)
	}
	if len(all) != N {
		t.Fatalf("decoding returns %d messages for rank %d", len(all), N)
	}
	for i := 0; i < N || i < m; i++ {
		want := 0
		if i < n && i < N {
			want = fmod(ms[i], p)
		}
		if i < N && all[i] != want {
			t.Fatalf("%s p=%d: message %d decodes to %d instead of %d", mode, p, i, all[i], want)
		}
		if i >= N {
			want = -7
		}
		if i < m && got[i] != want {
			t.Fatalf("%s p=%d: output %d of %d is %d instead of %d", mode, p, i, m, got[i], want)
		}
	}
	if !tf.Same(pin, out.Value.Coeffs) {
		t.Fatalf("decoding modified the plaintext")
	}
	// Booleans: within an eighth of the torus.
	be := tfhe.NewBinaryEncoder(params)
	for _, b := range []bool{false, true} {
		pt := be.EncodeLWEBool(b)
		lim := T(1)<<uint(bits-3) - 1
		for _, ns := range []T{0, lim, -lim, T(pr.U64()) % lim, -(T(pr.U64()) % lim)} {
			if be.DecodeLWEBool(tfhe.LWEPlaintext[T]{Value: pt.Value + ns}) != b {
				t.Fatalf("boolean %v encodes to %#x; with an error of %d it decodes to %v", b, pt.Value, tf.Signed(ns), !b)
			}
		}
	}
	vh.Label("mode %s pow2=%v", mode, pow2)
	vh.Case(n > 0, "q=2^%d %s p=%d scale=%d N=%d len=%d", bits, mode, p, scale, N, n)
}

func bitlen(p int) int {
	n := 0
	for p > 0 {
		n++
		p >>= 1
	}
	return n
}

func TestEncode(t *testing.T) {
	vh.Check(t, "a case encodes generated messages under a generated modulus and scale, perturbs them below half a scale and decodes; non-trivial = at least one message in the polynomial", 20000, 500000, func(t *rapid.T) {
		both(t, encodeCase[uint32], encodeCase[uint64])
	})
}
