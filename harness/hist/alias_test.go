package hist

import (
	"fmt"
	"reflect"
	"strings"
	"testing"

	"github.com/sp301415/tfhe-go/tfhe"
	"pgregory.net/rapid"

	"verifharness/vh"
)

// apart tells whether the operation documents that its output may not be an input.
func apart(name, m string) bool {
	return name != "xtfhe.BFVEvaluator" && strings.HasSuffix(m, "To") && (strings.HasPrefix(m, "MonomialMul") || strings.HasPrefix(m, "Permute"))
}

// aliasCase compares an operation whose output is one of its inputs with the same
// operation on separate objects.
func aliasCase[T tfhe.TorusInt](t *rapid.T, name string) {
	w, s := newWorld[T](t, name)
	vh.Label(name)
	steps := rapid.IntRange(10, 60).Draw(t, "steps")
	n := 0
	var calls []string
	for _, m := range s.calls {
		if f := reflect.ValueOf(s.fresh()).MethodByName(m); f.IsValid() && !apart(name, m) && aliasable(name, m, f.Type()) {
			calls = append(calls, m)
		}
	}
	s.calls = calls
	if len(calls) == 0 {
		t.Fatalf("no operation of %s", name)
	}
	var hist []string
	for i := 0; i < steps; i++ {
		m := s.calls[w.P.N(len(s.calls))]
		if w.P.N(2) == 0 {
			m = w.heavy(s)
		}
		o := s.fresh()
		c := w.draw(s, o, m)
		if c == nil || c.out < 0 {
			continue
		}
		var in []int
		for j := range c.args {
			if j != c.out && c.args[j].Type() == c.args[c.out].Type() && first(c.args[j]) != 0 && sizeOf(c.args[j]) == sizeOf(c.args[c.out]) {
				in = append(in, j)
			}
		}
		if len(in) == 0 {
			continue
		}
		// One or all of the inputs are the output.
		pick := []int{in[w.P.N(len(in))]}
		if w.P.N(3) == 0 {
			pick = in
		}
		a, b := clone(c.args), clone(c.args)
		x := c.args[pick[0]]
		a[c.out] = deep(x)
		b[c.out] = deep(x)
		c.dirty(w.P, b)
		for _, j := range pick {
			a[j] = a[c.out]
			b[j] = deep(x)
		}
		_, pa := c.outcome(o, a)
		_, pb := c.outcome(s.fresh(), b)
		where := func() string {
			return fmt.Sprintf("%s.%s with its output as argument %v (%s)", name, m, pick, w.set)
		}
		if pa != pb {
			t.Fatalf("panic %q, on separate objects %q: %s", pa, pb, where())
		}
		if d := same(a[c.out], b[c.out]); d != "" {
			t.Fatalf("output differs from that on separate objects (%s): %s", d, where())
		}
		for j := range a {
			if j == c.out || has(pick, j) || consumes(m) {
				continue
			}
			if d := same(a[j], c.args[j]); d != "" {
				t.Fatalf("argument %d was modified (%s): %s", j, d, where())
			}
		}
		n++
		hist = append(hist, fmt.Sprint(m, pick))
	}
	vh.Case(n >= 3, "%s %s: %v", name, w.set, hist)
}

// aliasable tells whether some input has the type of the output.
func aliasable(name, m string, f reflect.Type) bool {
	out := outArg(name, m, f.NumIn())
	for j := 0; j < f.NumIn() && out >= 0; j++ {
		if j != out && f.In(j) == f.In(out) {
			return true
		}
	}
	return false
}

func has(xs []int, x int) bool {
	for _, y := range xs {
		if x == y {
			return true
		}
	}
	return false
}

const aliasRule = "a case is 10 to 60 operations of one type over drawn parameters, each with its output passed as one or all of its inputs; non-trivial if at least 3 operations had such an input"

var aliasNames = []string{"tfhe.Evaluator", "tfhe.BinaryEvaluator", "mktfhe.Evaluator", "mktfhe.BinaryEvaluator",
	"xtfhe.BFVEvaluator", "xtfhe.ManyLUTEvaluator", "xtfhe.FHEWEvaluator", "xtfhe.CircuitBootstrapper", "poly.Evaluator"}

// TestAlias checks operations whose output is one of their inputs.
func TestAlias(t *testing.T) {
	vh.Check(t, aliasRule, 800, 8000, func(t *rapid.T) {
		name := rapid.SampledFrom(aliasNames).Draw(t, "subject")
		both(t, func(t *rapid.T) { aliasCase[uint32](t, name) }, func(t *rapid.T) { aliasCase[uint64](t, name) })
	})
}
