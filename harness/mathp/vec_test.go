package mathp

import (
	"fmt"
	"testing"

	"github.com/sp301415/tfhe-go/math/num"
	"github.com/sp301415/tfhe-go/math/vec"
	"pgregory.net/rapid"

	"verifharness/vh"
)

const guard = 24

// guarded is a slice in the middle of a larger array whose margins must stay untouched.
type guarded[T num.Number] struct {
	back []T
	v    []T
	off  int
}

func newGuarded[T num.Number](off int, vals []T) guarded[T] {
	b := make([]T, off+guard+len(vals)+guard)
	for i := range b {
		b[i] = T(77)
	}
	v := b[off+guard : off+guard+len(vals)]
	copy(v, vals)
	return guarded[T]{b, v, off}
}

func (g guarded[T]) intact() error {
	for i := range g.back {
		if (i < g.off+guard || i >= g.off+guard+len(g.v)) && g.back[i] != T(77) {
			return fmt.Errorf("wrote outside the vector, at distance %d from its start (length %d)", i-g.off-guard, len(g.v))
		}
	}
	return nil
}

var vecLens = rapid.Custom(func(t *rapid.T) int {
	if rapid.IntRange(0, 63).Draw(t, "long") == 63 {
		return 1<<uint(rapid.IntRange(12, 16).Draw(t, "log")) + rapid.IntRange(-9, 9).Draw(t, "off")
	}
	return shortLens.Draw(t, "short")
})

var shortLens = rapid.OneOf(
	rapid.IntRange(1, 40), rapid.IntRange(1, 40),
	rapid.SampledFrom([]int{63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 686, 687, 688, 1023, 1024, 1025, 2047, 2048, 2049}),
	rapid.IntRange(1, 3000))

func conv[T num.Real](raw []uint64) []T {
	out := make([]T, len(raw))
	for i, r := range raw {
		switch any(out[0]).(type) {
		case float32, float64:
			out[i] = T(int64(r<<48) >> 48 % 997)
		default:
			out[i] = T(r)
		}
	}
	return out
}

func convC(raw []uint64) []complex128 {
	out := make([]complex128, len(raw))
	for i, r := range raw {
		out[i] = complex(float64(int8(r)), float64(int8(r>>8)))
	}
	return out
}

// convC64 keeps the parts small enough for products to be exact in float32.
func convC64(raw []uint64) []complex64 {
	out := make([]complex64, len(raw))
	for i, r := range raw {
		out[i] = complex(float32(int8(r)), float32(int8(r>>8)))
	}
	return out
}

type vecOp struct {
	name string
	args int // number of vector inputs
	c    bool
	acc  bool
}

var vecOps = []vecOp{
	{"Add", 2, false, false}, {"Sub", 2, false, false}, {"Neg", 1, false, false},
	{"ScalarMul", 1, true, false}, {"ScalarMulAdd", 1, true, true}, {"ScalarMulSub", 1, true, true},
	{"Mul", 2, false, false}, {"MulAdd", 2, false, true}, {"MulSub", 2, false, true},
}

func refOp[T num.Number](op string, o, a, b, c T) T {
	switch op {
	case "Add":
		return a + b
	case "Sub":
		return a - b
	case "Neg":
		return -a
	case "ScalarMul":
		return c * a
	case "ScalarMulAdd":
		return o + c*a
	case "ScalarMulSub":
		return o - c*a
	case "Mul":
		return a * b
	case "MulAdd":
		return o + a*b
	case "MulSub":
		return o - a*b
	}
	panic("op")
}

func callTo[T num.Number](op string, o, a, b []T, c T) {
	switch op {
	case "Add":
		vec.AddTo(o, a, b)
	case "Sub":
		vec.SubTo(o, a, b)
	case "Neg":
		vec.NegTo(o, a)
	case "ScalarMul":
		vec.ScalarMulTo(o, a, c)
	case "ScalarMulAdd":
		vec.ScalarMulAddTo(o, a, c)
	case "ScalarMulSub":
		vec.ScalarMulSubTo(o, a, c)
	case "Mul":
		vec.MulTo(o, a, b)
	case "MulAdd":
		vec.MulAddTo(o, a, b)
	case "MulSub":
		vec.MulSubTo(o, a, b)
	}
}

func callRet[T num.Number](op string, a, b []T, c T) []T {
	switch op {
	case "Add":
		return vec.Add(a, b)
	case "Sub":
		return vec.Sub(a, b)
	case "Neg":
		return vec.Neg(a)
	case "ScalarMul":
		return vec.ScalarMul(a, c)
	case "Mul":
		return vec.Mul(a, b)
	}
	return nil
}

func vecCase[T num.Number](t *rapid.T, typ string, cast func([]uint64) []T, bits int) {
	n := vecLens.Draw(t, "n")
	op := rapid.SampledFrom(vecOps).Draw(t, "op")
	off := rapid.IntRange(0, 9).Draw(t, "offset")
	alias := rapid.SampledFrom([]string{"none", "none", "out=a", "out=b", "a=b", "all"}).Draw(t, "alias")
	sa, sb, so := vh.DrawShape(t, "a"), vh.DrawShape(t, "b"), vh.DrawShape(t, "o")
	c := cast([]uint64{vh.DrawShape(t, "c").Fill(1, bits)[0]})[0]

	av, bv, ov := cast(sa.Fill(n, bits)), cast(sb.Fill(n, bits)), cast(so.Fill(n, bits))
	a, b, o := newGuarded(off, av), newGuarded((off*3)%10, bv), newGuarded((off*7)%10, ov)
	switch alias {
	case "out=a":
		o, ov = a, av
	case "out=b":
		o, ov = b, bv
	case "a=b":
		b, bv = a, av
	case "all":
		b, bv, o, ov = a, av, a, av
	}
	want := make([]T, n)
	for i := range want {
		want[i] = refOp(op.name, ov[i], av[i], bv[i], c)
	}
	ret := callRet(op.name, a.v, b.v, c)
	if ret != nil {
		for i := range want {
			if ret[i] != want[i] {
				t.Fatalf("%s[%s] n=%d: result[%d]=%v, elementwise %v", op.name, typ, n, i, ret[i], want[i])
			}
		}
	}
	callTo(op.name, o.v, a.v, b.v, c)
	for i := range want {
		if o.v[i] != want[i] {
			t.Fatalf("%sTo[%s] n=%d alias=%s offset=%d: out[%d]=%v, elementwise %v", op.name, typ, n, alias, off, i, o.v[i], want[i])
		}
	}
	for _, g := range []guarded[T]{a, b, o} {
		if err := g.intact(); err != nil {
			t.Fatalf("%sTo[%s] n=%d alias=%s: %v", op.name, typ, n, alias, err)
		}
	}
	in := map[*T][]T{}
	in[&a.v[0]] = av
	in[&b.v[0]] = bv
	delete(in, &o.v[0])
	for p, w := range in {
		g := a.v
		if p == &b.v[0] {
			g = b.v
		}
		for i := range w {
			if g[i] != w[i] {
				t.Fatalf("%sTo[%s] n=%d alias=%s: input changed at %d", op.name, typ, n, alias, i)
			}
		}
	}
	// mismatched lengths must be refused, not read or written past the end
	if rapid.IntRange(0, 3).Draw(t, "mismatch") == 0 {
		d := rapid.IntRange(1, 9).Draw(t, "extra")
		short, long := newGuarded(off, cast(sa.Fill(n, bits))), newGuarded(off, cast(sa.Fill(n+d, bits)))
		which := rapid.IntRange(0, 2).Draw(t, "which")
		x := [3]guarded[T]{short, short, short}
		if which == 2 && op.args == 1 {
			which = 1
		}
		x[which] = long
		if !vh.Panics(func() { callTo(op.name, x[0].v, x[1].v, x[2].v, c) }) {
			t.Fatalf("%sTo[%s]: vectors of lengths %d and %d accepted", op.name, typ, n, n+d)
		}
		vh.Label("mismatched lengths refused")
	}
	vh.Label("type %s", typ)
	vh.Label("op %s", op.name)
	vh.Label("tail %v", n%8 != 0)
	vh.Case(n%8 != 0 || alias != "none", "%sTo[%s] n=%d alias=%s offset=%d a=%v b=%v out=%v c=%v", op.name, typ, n, alias, off, sa, sb, so, c)
}

func TestVecArith(t *testing.T) {
	vh.Check(t, "a case is one vector operation on generated values, length, alignment, aliasing and element type; non-trivial = the length has a tail (not a multiple of 8) or an operand is aliased", 24000, 600000, func(t *rapid.T) {
		switch typ := rapid.SampledFrom([]string{"uint32", "uint64", "uint32", "uint64", "int", "int64", "int32", "int16", "int8", "uint", "uint8", "uint16", "uintptr", "float64", "float32", "complex128", "complex64"}).Draw(t, "type"); typ {
		case "uint32":
			vecCase(t, typ, conv[uint32], 32)
		case "uint64":
			vecCase(t, typ, conv[uint64], 64)
		case "int":
			vecCase(t, typ, conv[int], 64)
		case "int64":
			vecCase(t, typ, conv[int64], 64)
		case "int32":
			vecCase(t, typ, conv[int32], 32)
		case "int16":
			vecCase(t, typ, conv[int16], 16)
		case "int8":
			vecCase(t, typ, conv[int8], 8)
		case "uint":
			vecCase(t, typ, conv[uint], 64)
		case "uint8":
			vecCase(t, typ, conv[uint8], 8)
		case "uint16":
			vecCase(t, typ, conv[uint16], 16)
		case "uintptr":
			vecCase(t, typ, conv[uintptr], 64)
		case "complex64":
			vecCase(t, typ, convC64, 32)
		case "float64":
			vecCase(t, typ, conv[float64], 64)
		case "float32":
			vecCase(t, typ, conv[float32], 32)
		case "complex128":
			vecCase(t, typ, convC, 64)
		}
	})
}

func TestVecShape(t *testing.T) {
	vh.Check(t, "a case applies every reordering/conversion helper to one generated vector; non-trivial = length > 2 and distinct entries", 8000, 200000, func(t *rapid.T) {
		n := vecLens.Draw(t, "n")
		s := vh.DrawShapeOf(t, "v", "uniform", "ramp", "extreme", "small")
		v := s.Fill(n, 64)
		orig := append([]uint64(nil), v...)
		same := func(what string) {
			for i := range v {
				if v[i] != orig[i] {
					t.Fatalf("%s changed its input at %d", what, i)
				}
			}
		}
		l := rapid.IntRange(-n, n).Draw(t, "l")
		at := func(i int) uint64 { return orig[((i%n)+n)%n] }
		r := vec.Rotate(v, l)
		ro := newGuarded[uint64](3, make([]uint64, n))
		vec.RotateTo(ro.v, v, l)
		for i := range r {
			if r[i] != at(i-l) || ro.v[i] != at(i-l) {
				t.Fatalf("Rotate n=%d l=%d: [%d]=%d/%d want %d", n, l, i, r[i], ro.v[i], at(i-l))
			}
		}
		same("Rotate")
		if err := ro.intact(); err != nil {
			t.Fatal(err)
		}
		l2 := rapid.IntRange(-3*n, 3*n).Draw(t, "l2")
		ri := newGuarded(5, v)
		vec.RotateInPlace(ri.v, l2)
		for i := range ri.v {
			if ri.v[i] != at(i-l2) {
				t.Fatalf("RotateInPlace n=%d l=%d: [%d]=%d want %d", n, l2, i, ri.v[i], at(i-l2))
			}
		}
		rv := vec.Reverse(v)
		rvi := newGuarded(1, v)
		vec.ReverseInPlace(rvi.v)
		rvo := newGuarded(1, make([]uint64, n))
		vec.ReverseTo(rvo.v, v)
		for i := range rv {
			if rv[i] != orig[n-1-i] || rvi.v[i] != orig[n-1-i] || rvo.v[i] != orig[n-1-i] {
				t.Fatalf("Reverse n=%d at %d", n, i)
			}
		}
		same("Reverse")
		// bit reversal: power-of-two lengths
		lg := rapid.IntRange(0, 13).Draw(t, "lg")
		m := 1 << lg
		br := make([]int, m)
		for i := range br {
			br[i] = i
		}
		vec.BitReverseInPlace(br)
		for i := range br {
			j := 0
			for b := 0; b < lg; b++ {
				j |= (i >> b & 1) << (lg - 1 - b)
			}
			if br[i] != j {
				t.Fatalf("BitReverseInPlace n=%d: [%d]=%d want %d", m, i, br[i], j)
			}
		}
		// copies, equality, fill, dot, cast
		cp := vec.Copy(v)
		if !vec.Equals(cp, v) {
			t.Fatalf("Copy differs")
		}
		k := rapid.IntRange(0, n-1).Draw(t, "k")
		cp[k]++
		if v[k] != orig[k] {
			t.Fatalf("Copy shares memory with its source")
		}
		if vec.Equals(cp, v) {
			t.Fatalf("Equals ignores index %d of %d", k, n)
		}
		if vec.Equals(v, v[:n-1]) {
			t.Fatalf("Equals ignores length")
		}
		w := vh.DrawShape(t, "w").Fill(n, 64)
		var dot uint64
		var dot32 uint32
		v32, w32 := make([]uint32, n), make([]uint32, n)
		for i := range v {
			dot += v[i] * w[i]
			v32[i], w32[i] = uint32(v[i]), uint32(w[i])
			dot32 += v32[i] * w32[i]
		}
		if g := vec.Dot(v, w); g != dot {
			t.Fatalf("Dot n=%d: %d want %d", n, g, dot)
		}
		if g := vec.Dot(v32, w32); g != dot32 {
			t.Fatalf("Dot32 n=%d: %d want %d", n, g, dot32)
		}
		c32 := vec.Cast[uint32](v)
		ci := vec.Cast[int64](v32)
		cf := vec.Cast[float64](v32)
		cto := newGuarded(2, make([]int32, n))
		vec.CastTo(cto.v, v)
		for i := range v {
			if c32[i] != uint32(v[i]) || ci[i] != int64(v32[i]) || cf[i] != float64(v32[i]) || cto.v[i] != int32(v[i]) {
				t.Fatalf("Cast at %d", i)
			}
		}
		f := newGuarded(4, v)
		vec.Fill(f.v, 9)
		for i := range f.v {
			if f.v[i] != 9 {
				t.Fatalf("Fill missed index %d of %d", i, n)
			}
		}
		if err := f.intact(); err != nil {
			t.Fatal(err)
		}
		// complex packing
		q := rapid.IntRange(1, 70).Draw(t, "quads")
		cx := convC(vh.Shape{Kind: "uniform", Seed: s.Seed}.Fill(4*q, 64))
		f4 := vec.CmplxToFloat4(cx)
		f4o := newGuarded(1, make([]float64, 8*q))
		vec.CmplxToFloat4To(f4o.v, cx)
		for i := range cx {
			p := 8*(i/4) + i%4
			if f4[p] != real(cx[i]) || f4[p+4] != imag(cx[i]) || f4o.v[p] != real(cx[i]) || f4o.v[p+4] != imag(cx[i]) {
				t.Fatalf("CmplxToFloat4 at %d", i)
			}
		}
		back := vec.Float4ToCmplx(f4)
		bo := newGuarded(1, make([]complex128, 4*q))
		vec.Float4ToCmplxTo(bo.v, f4)
		for i := range cx {
			if back[i] != cx[i] || bo.v[i] != cx[i] {
				t.Fatalf("Float4ToCmplx at %d", i)
			}
		}
		if bad := rapid.IntRange(1, 3).Draw(t, "bad"); !vh.Panics(func() { vec.CmplxToFloat4(make([]complex128, 4*q+bad)) }) {
			t.Fatalf("CmplxToFloat4 accepted length %d", 4*q+bad)
		}
		same("conversions")
		vh.Case(n > 2 && s.Kind != "small", "n=%d rotate by %d and %d, v=%v, bitrev 2^%d, %d quads", n, l, l2, s, lg, q)
	})
}
