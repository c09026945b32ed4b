package mathp

import (
	"fmt"
	"reflect"
	"strings"
	"testing"

	"github.com/sp301415/tfhe-go/math/num"
	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/math/vec"
	"pgregory.net/rapid"

	"verifharness/vh"
)

// fenced is a slice inside a larger array whose other entries must not change.
type fenced[T comparable] struct {
	s    []T
	back []T
	was  []T
	pad  int
}

func newFenced[T comparable](t *rapid.T, pr *vh.PRNG, n, pad int, of func(uint64) T) fenced[T] {
	f := fenced[T]{back: make([]T, n+2*pad), pad: pad}
	for i := range f.back {
		f.back[i] = of(pr.U64())
	}
	f.was = append([]T{}, f.back...)
	if rapid.Bool().Draw(t, "capped") {
		f.s = f.back[pad : pad+n : pad+n]
	} else {
		f.s = f.back[pad : pad+n]
	}
	return f
}

// outside returns the first changed position outside the slice, relative to it.
func (f fenced[T]) outside() (int, bool) {
	for i, x := range f.back {
		if (i < f.pad || i >= f.pad+len(f.s)) && x != f.was[i] {
			return i - f.pad, true
		}
	}
	return 0, false
}

// panics tells whether f panics.
func panics(f func()) (msg string, did bool) {
	defer func() {
		if r := recover(); r != nil {
			msg, did = fmt.Sprint(r), true
		}
	}()
	f()
	return
}

func drawWrong(t *rapid.T, n int) int {
	for {
		m := rapid.SampledFrom([]int{0, 1, n / 2, n - 8, n - 4, n - 1, n + 1, n + 4, n + 8, 2 * n}).Draw(t, "length")
		if m != n {
			return m
		}
	}
}

// lengthVec calls an operation of math/vec with operands that disagree.
func lengthVec[T num.Integer](t *rapid.T) {
	pr := vh.NewPRNG(rapid.Uint64().Draw(t, "data"))
	of := func(x uint64) T { return T(x) }
	c := T(pr.U64())
	ops := []struct {
		name string
		n    int
		f    func(a ...[]T)
	}{
		{"AddTo", 3, func(a ...[]T) { vec.AddTo(a[0], a[1], a[2]) }},
		{"SubTo", 3, func(a ...[]T) { vec.SubTo(a[0], a[1], a[2]) }},
		{"MulTo", 3, func(a ...[]T) { vec.MulTo(a[0], a[1], a[2]) }},
		{"MulAddTo", 3, func(a ...[]T) { vec.MulAddTo(a[0], a[1], a[2]) }},
		{"MulSubTo", 3, func(a ...[]T) { vec.MulSubTo(a[0], a[1], a[2]) }},
		{"ScalarMulTo", 2, func(a ...[]T) { vec.ScalarMulTo(a[0], a[1], c) }},
		{"ScalarMulAddTo", 2, func(a ...[]T) { vec.ScalarMulAddTo(a[0], a[1], c) }},
		{"ScalarMulSubTo", 2, func(a ...[]T) { vec.ScalarMulSubTo(a[0], a[1], c) }},
		{"NegTo", 2, func(a ...[]T) { vec.NegTo(a[0], a[1]) }},
		{"ReverseTo", 2, func(a ...[]T) { vec.ReverseTo(a[0], a[1]) }},
		{"RotateTo", 2, func(a ...[]T) { vec.RotateTo(a[0], a[1], int(c)%8) }},
		{"CastTo", 2, func(a ...[]T) { vec.CastTo(a[0], a[1]) }},
		{"Add", 2, func(a ...[]T) { vec.Add(a[0], a[1]) }},
		{"Sub", 2, func(a ...[]T) { vec.Sub(a[0], a[1]) }},
		{"Mul", 2, func(a ...[]T) { vec.Mul(a[0], a[1]) }},
		{"Dot", 2, func(a ...[]T) { vec.Dot(a[0], a[1]) }},
	}
	op := rapid.SampledFrom(ops).Draw(t, "op")
	n := rapid.IntRange(1, 80).Draw(t, "n")
	bad := rapid.IntRange(0, op.n-1).Draw(t, "wrong")
	m := drawWrong(t, n)
	if m < 0 {
		m = n + 3
	}
	f := make([]fenced[T], op.n)
	a := make([][]T, op.n)
	lens := make([]int, op.n)
	for i := range f {
		lens[i] = n
		if i == bad {
			lens[i] = m
		}
		f[i] = newFenced(t, pr, lens[i], 2*n+32, of)
		a[i] = f[i].s
	}
	_, did := panics(func() { op.f(a...) })
	what := fmt.Sprintf("vec.%s[%T] of lengths %v", op.name, c, lens)
	for i := range f {
		if at, ok := f[i].outside(); ok {
			t.Fatalf("%s wrote at %d of operand %d, outside of it", what, at, i)
		}
	}
	if !did {
		t.Fatalf("%s was accepted", what)
	}
	vh.Label("vec.%s", op.name)
	vh.Case(n >= 8, "%s", what)
}

// lengthFloat4 does the same for the conversions of complex vectors.
func lengthFloat4(t *rapid.T) {
	pr := vh.NewPRNG(rapid.Uint64().Draw(t, "data"))
	n, m := rapid.IntRange(0, 40).Draw(t, "complex"), rapid.IntRange(0, 80).Draw(t, "floats")
	if rapid.Bool().Draw(t, "twice") {
		m = 2 * n
	}
	valid := n%4 == 0 && m == 2*n
	z := newFenced(t, pr, n, 100, func(x uint64) complex128 { return complex(float64(x&0xfff), float64(x>>50)) })
	r := newFenced(t, pr, m, 200, func(x uint64) float64 { return float64(x & 0xfff) })
	what := "vec.CmplxToFloat4To"
	f := func() { vec.CmplxToFloat4To(r.s, z.s) }
	if rapid.Bool().Draw(t, "back") {
		what, f = "vec.Float4ToCmplxTo", func() { vec.Float4ToCmplxTo(z.s, r.s) }
	}
	_, did := panics(f)
	if _, ok := z.outside(); ok {
		t.Fatalf("%s of lengths %d, %d wrote outside", what, n, m)
	}
	if _, ok := r.outside(); ok {
		t.Fatalf("%s of lengths %d, %d wrote outside", what, n, m)
	}
	if did == valid {
		t.Fatalf("%s of %d complex and %d real numbers: panic %v", what, n, m, did)
	}
	vh.Label("%s", what)
	vh.Case(!valid, "%s %d %d", what, n, m)
}

// lengthPoly calls a method of the evaluator, found by reflection, with operands of wrong rank.
func lengthPoly[T num.Integer](t *rapid.T) {
	pr := vh.NewPRNG(rapid.Uint64().Draw(t, "data"))
	N := 1 << uint(rapid.IntRange(4, 8).Draw(t, "logN"))
	ev := poly.NewEvaluator[T](N)
	rv, rt := reflect.ValueOf(ev), reflect.TypeOf(ev)
	pt, ft := reflect.TypeOf(poly.Poly[T]{}), reflect.TypeOf(poly.FFTPoly{})
	var ms []int
	for i := 0; i < rt.NumMethod(); i++ {
		for j := 1; j < rt.Method(i).Type.NumIn(); j++ {
			if a := rt.Method(i).Type.In(j); a == pt || a == ft {
				ms = append(ms, i)
				break
			}
		}
	}
	if len(ms) < 60 {
		t.Fatalf("only %d methods", len(ms))
	}
	m := rt.Method(rapid.SampledFrom(ms).Draw(t, "method"))
	var ops []int
	for j := 1; j < m.Type.NumIn(); j++ {
		if a := m.Type.In(j); a == pt || a == ft {
			ops = append(ops, j)
		}
	}
	// One wrong operand, or all of them wrong alike: the rank is the evaluator's.
	bad := rapid.IntRange(0, len(ops)).Draw(t, "wrong")
	wrong := drawWrong(t, N)
	var args []reflect.Value
	var ints []fenced[T]
	var floats []fenced[float64]
	var lens []int
	for j := 1; j < m.Type.NumIn(); j++ {
		n := N
		if bad == len(ops) || ops[bad] == j {
			n = wrong
		}
		switch a := m.Type.In(j); {
		case a == pt:
			f := newFenced(t, pr, n, 3*N+32, func(x uint64) T { return T(x) })
			ints, lens = append(ints, f), append(lens, n)
			args = append(args, reflect.ValueOf(poly.Poly[T]{Coeffs: f.s}))
		case a == ft:
			f := newFenced(t, pr, n, 3*N+32, func(x uint64) float64 { return float64(x & 0xffff) })
			floats, lens = append(floats, f), append(lens, n)
			args = append(args, reflect.ValueOf(poly.FFTPoly{Coeffs: f.s}))
		case a.Kind() == reflect.Int && strings.Contains(m.Name, "Permute"):
			args = append(args, reflect.ValueOf(2*pr.N(N)+1))
		case a.Kind() == reflect.Int && a == reflect.TypeOf(0) && strings.Contains(m.Name, "Monomial"):
			args = append(args, reflect.ValueOf(pr.N(2*N)))
		default:
			args = append(args, reflect.ValueOf(pr.N(100)).Convert(reflect.TypeOf(float64(0))).Convert(reflect.TypeOf(float64(0))))
			if a.Kind() == reflect.Complex128 {
				args[len(args)-1] = reflect.ValueOf(complex(float64(pr.N(9)), 1))
			} else {
				args[len(args)-1] = args[len(args)-1].Convert(a)
			}
		}
	}
	_, did := panics(func() { rv.MethodByName(m.Name).Call(args) })
	var zero T
	what := fmt.Sprintf("Evaluator[%T] of rank %d: %s of ranks %v", zero, N, m.Name, lens)
	for i := range ints {
		if at, ok := ints[i].outside(); ok {
			t.Fatalf("%s wrote at %d, outside of its operand", what, at)
		}
	}
	for i := range floats {
		if at, ok := floats[i].outside(); ok {
			t.Fatalf("%s wrote at %d, outside of its operand", what, at)
		}
	}
	if !did {
		t.Fatalf("%s was accepted", what)
	}
	vh.Label("poly %s", m.Name)
	vh.Case(true, "%s", what)
}

func TestLengths(t *testing.T) {
	vh.Check(t, "a case calls an operation of math/vec or math/poly with operands whose lengths disagree, inside larger arrays of known contents; it must panic and leave everything outside the operands alone; non-trivial = vectors of at least 8 entries, or any polynomial", 20000, 400000, func(t *rapid.T) {
		switch rapid.IntRange(0, 9).Draw(t, "what") {
		case 0:
			lengthFloat4(t)
		case 1, 2, 3:
			switch rapid.IntRange(0, 5).Draw(t, "type") {
			case 0:
				lengthVec[uint32](t)
			case 1:
				lengthVec[uint64](t)
			case 2:
				lengthVec[int64](t)
			case 3:
				lengthVec[int32](t)
			case 4:
				lengthVec[uint8](t)
			default:
				lengthVec[uintptr](t)
			}
		default:
			switch rapid.IntRange(0, 4).Draw(t, "type") {
			case 0, 1:
				lengthPoly[uint32](t)
			case 2, 3:
				lengthPoly[uint64](t)
			default:
				lengthPoly[int16](t)
			}
		}
	})
}
