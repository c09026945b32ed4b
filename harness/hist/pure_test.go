package hist

import (
	"fmt"
	"math"
	"reflect"
	"strings"
	"testing"

	"github.com/sp301415/tfhe-go/tfhe"
	"pgregory.net/rapid"

	"verifharness/tf"
	"verifharness/vh"
)

// call is one operation with its arguments.
type call struct {
	m    string
	out  int // output argument or -1
	acc  bool
	args []reflect.Value
}

func clone(args []reflect.Value) []reflect.Value {
	n := make([]reflect.Value, len(args))
	for i, a := range args {
		n[i] = deep(a)
	}
	return n
}

// draw makes a call of a drawn operation of o, nil if it is unknown to the generator.
func (w *world[T]) draw(s *subject, o any, m string) *call {
	f := reflect.ValueOf(o).MethodByName(m)
	if !f.IsValid() {
		return nil
	}
	n := f.Type().NumIn()
	c := &call{m: m, out: outArg(s.name, m, n), acc: accumulates(m)}
	if !w.again {
		w.begin(s.name)
	}
	for i := 0; i < n; i++ {
		x, ok := w.arg(m, i, f.Type().In(i), i == c.out)
		if !ok {
			return nil
		}
		c.args = append(c.args, reflect.ValueOf(x))
	}
	return c
}

func (c *call) run(o any, args []reflect.Value) []reflect.Value {
	res := reflect.ValueOf(o).MethodByName(c.m).Call(args)
	for i := range res {
		res[i] = deep(res[i]) // results may live in buffers
	}
	return res
}

// dirty overwrites a pure output.
func (c *call) dirty(p *vh.PRNG, args []reflect.Value) {
	if c.out < 0 || c.acc {
		return
	}
	for _, l := range tf.Leaves(ptr(args[c.out])) {
		if !l.V.IsValid() || !l.V.CanSet() {
			continue
		}
		switch l.V.Kind() {
		case reflect.Float64:
			l.V.SetFloat((p.F() - 0.5) * math.Exp2(float64(p.N(60))))
		case reflect.Uint32, reflect.Uint64:
			l.V.SetUint(p.U64() >> uint(64-l.V.Type().Bits()))
		case reflect.Int:
			l.V.SetInt(int64(p.N(1000)) - 500)
		}
	}
}

// dim is a size for the case's log.
func sizeOf(v reflect.Value) int { return len(tf.Leaves(ptr(v))) }

func copied(o any) any { return reflect.ValueOf(o).MethodByName("SafeCopy").Call(nil)[0].Interface() }

func canCopy(o any) bool { return reflect.ValueOf(o).MethodByName("SafeCopy").IsValid() }

// outcome runs a call, reporting a panic as a value.
func (c *call) outcome(o any, args []reflect.Value) (res []reflect.Value, panicked string) {
	defer func() {
		if r := recover(); r != nil {
			panicked = fmt.Sprint(r)
		}
	}()
	return c.run(o, args), ""
}

// purityCase runs a history of operations on one object and its copies; every result
// must be the one a fresh object gives.
func purityCase[T tfhe.TorusInt](t *rapid.T, name string) {
	w, s := newWorld[T](t, name)
	vh.Label(name)
	used := s.fresh()
	if !canCopy(used) {
		vh.Label("not copyable")
	}
	fam := map[string]bool{}
	steps := rapid.IntRange(10, 60).Draw(t, "steps")
	var hist []string
	seen, last := pool{}, ""
	for i := 0; i < steps; i++ {
		m := s.calls[w.P.N(len(s.calls))]
		if w.P.N(4) == 0 { // prefer the long operations at times
			m = w.heavy(s)
		}
		// The last operation may follow once more, over arguments of the same shape.
		if w.again = last != "" && w.P.N(3) == 0; w.again {
			m = last
		}
		if canCopy(used) && w.P.N(12) == 0 {
			used = copied(used)
			hist = append(hist, "SafeCopy")
			vh.Label("copied")
		}
		c := w.draw(s, used, m)
		if c == nil {
			vh.Label("unknown " + name + "." + m)
			continue
		}
		// The same object may be passed as several inputs.
		one := w.P.N(6) == 0 && c.share(w.P)
		last = m
		hist = append(hist, m)
		// Objects of earlier operations are given again, with other contents.
		var old []reflect.Value
		if !one {
			old = seen.reuse(w.P, c, w.again)
		}
		a, b := c.dup(), c.dup()
		for j, x := range old {
			if x.IsValid() {
				a[j] = x
			}
		}
		seen.add(w.P, a)
		c.dirty(w.P, a)
		c.dirty(w.P, b)
		ra, pa := c.outcome(used, a)
		rb, pb := c.outcome(s.fresh(), b)
		where := func() string { return fmt.Sprintf("%s.%s after %v (%s)", name, m, hist, w.set) }
		if pa != "" || pb != "" {
			t.Fatalf("panic %q, on a fresh object %q: %s", pa, pb, where())
		}
		for j := range ra {
			if d := same(ra[j], rb[j]); d != "" {
				t.Fatalf("result %d differs from a fresh object's (%s): %s", j, d, where())
			}
		}
		for j := range a {
			if j == c.out {
				if d := same(a[j], b[j]); d != "" {
					t.Fatalf("output differs from a fresh object's (%s): %s", d, where())
				}
				continue
			}
			if consumes(m) {
				continue
			}
			if d := same(a[j], c.args[j]); d != "" {
				t.Fatalf("argument %d was modified (%s): %s", j, d, where())
			}
		}
		// The allocating form gives the value the writing form writes.
		if c.out < 0 && len(ra) == 1 {
			if o := (&call{m: m + "To"}); w.twin(s, c, o) {
				x := c.args
				pos := outArg(name, o.m, len(x)+1)
				args := append([]reflect.Value{}, clone(x[:pos])...)
				z := deep(ra[0])
				args = append(args, z)
				args = append(args, clone(x[pos:])...)
				o.out = pos
				o.dirty(w.P, args)
				if _, p := o.outcome(used, args); p != "" {
					t.Fatalf("%sTo panics with %q: %s", m, p, where())
				}
				if d := same(args[pos], ra[0]); d != "" {
					t.Fatalf("%sTo writes another value (%s): %s", m, d, where())
				}
				vh.Label("compared with the writing form")
			}
		}
		// So does the in-place form.
		if c.out == 0 && strings.HasSuffix(m, "To") && !c.acc && len(a) > 1 && a[0].Type() == a[1].Type() {
			o := &call{m: strings.TrimSuffix(m, "To") + "InPlace"}
			if f := reflect.ValueOf(used).MethodByName(o.m); f.IsValid() && f.Type().NumIn() == len(a)-1 {
				args := clone(c.args[1:])
				if _, p := o.outcome(used, args); p != "" {
					t.Fatalf("%s panics with %q: %s", o.m, p, where())
				}
				if d := near(args[0], a[0]); d != "" {
					t.Fatalf("%s gives another value (%s): %s", o.m, d, where())
				}
				vh.Label("compared with the in-place form")
			}
		}
		fam[m] = true
	}
	vh.Case(len(fam) >= 8 || len(fam) == len(s.calls), "%s %s: %v", name, w.set, hist)
}

// pool holds objects that were arguments before.
type pool map[reflect.Type][]reflect.Value

func isFunc(v reflect.Value) bool {
	return v.Kind() == reflect.Func || v.Kind() == reflect.Slice && v.Type().Elem().Kind() == reflect.Func
}

func (q pool) add(p *vh.PRNG, args []reflect.Value) {
	for _, a := range args {
		if isFunc(a) || first(a) == 0 {
			continue
		}
		l := q[a.Type()]
		known := false
		for _, x := range l {
			known = known || first(x) == first(a)
		}
		if known {
			continue
		}
		if len(l) < 4 {
			q[a.Type()] = append(l, a)
		} else {
			l[p.N(len(l))] = a
		}
	}
}

// reuse picks earlier objects to be arguments of c and gives them the contents of the
// drawn arguments, or changes only some of their values, which then are those of c.
func (q pool) reuse(p *vh.PRNG, c *call, again bool) []reflect.Value {
	out := make([]reflect.Value, len(c.args))
	taken := map[uintptr]bool{}
	part := p.N(2) == 0
	for j, a := range c.args {
		if isFunc(a) || first(a) == 0 || p.N(4) == 0 || !again && p.N(2) == 0 {
			continue
		}
		l := q[a.Type()]
		if len(l) == 0 {
			continue
		}
		x := l[p.N(len(l))]
		if taken[first(x)] {
			continue
		}
		was, now := tf.Leaves(ptr(x)), tf.Leaves(ptr(a))
		if !fits(was, now) {
			continue
		}
		taken[first(x)] = true
		for i, n := 0, len(was); i < n; i++ {
			if part && p.N(n) > 1 { // a value or so
				continue
			}
			if v := was[i].V; v.IsValid() && v.CanSet() {
				v.Set(now[i].V)
			}
		}
		c.args[j] = deep(x)
		out[j] = x
		vh.Label("an earlier object with other contents")
	}
	return out
}

// fits tells whether objects differ only in values that can be set.
func fits(a, b []tf.Leaf) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].V.IsValid() != b[i].V.IsValid() {
			return false
		}
		if (!a[i].V.IsValid() || !a[i].V.CanSet()) && a[i].Bits != b[i].Bits {
			return false
		}
	}
	return true
}

// dup copies the arguments, keeping shared ones shared.
func (c *call) dup() []reflect.Value {
	n := clone(c.args)
	for i := range c.args {
		for j := 0; j < i; j++ {
			if i != c.out && j != c.out && shared(c.args[i], c.args[j]) {
				n[i] = n[j]
			}
		}
	}
	return n
}

func first(v reflect.Value) uintptr {
	switch v.Kind() {
	case reflect.Struct:
		if v.NumField() > 0 && v.NumField() < 4 {
			return first(v.Field(0))
		}
	case reflect.Slice:
		if v.Len() > 0 {
			if k := v.Type().Elem().Kind(); k == reflect.Struct || k == reflect.Slice {
				return first(v.Index(0))
			}
			return v.Pointer()
		}
	}
	return 0
}

func shared(a, b reflect.Value) bool {
	return a.Type() == b.Type() && a.Kind() != reflect.Func && first(a) != 0 && first(a) == first(b)
}

// share makes two inputs of one type the same object.
func (c *call) share(p *vh.PRNG) bool {
	for i := range c.args {
		for j := 0; j < i; j++ {
			if i != c.out && j != c.out && c.args[i].Type() == c.args[j].Type() && first(c.args[i]) != 0 && sizeOf(c.args[i]) == sizeOf(c.args[j]) {
				c.args[i] = c.args[j]
				vh.Label("one object as two inputs")
				return true
			}
		}
	}
	return false
}

// twin tells whether the writing form of c exists with one more argument.
func (w *world[T]) twin(s *subject, c, o *call) bool {
	f := reflect.ValueOf(s.fresh()).MethodByName(o.m)
	return f.IsValid() && f.Type().NumIn() == len(c.args)+1 && f.Type().NumOut() == 0
}

// heavy picks an operation that uses many buffers.
func (w *world[T]) heavy(s *subject) string {
	var hs []string
	for _, m := range s.calls {
		for _, p := range []string{"Bootstrap", "BlindRotate", "KeySwitch", "ExternalProd", "GadgetProd", "HybridProd", "CMux", "Circuit", "Pack", "Mul", "Relin",
			"AND", "NAND", "OR", "NOR", "XOR", "XNOR", "Decrypt", "UniDecrypt", "FFTUniDecrypt", "Decompose", "Fourier", "FFTPolyMul", "PolyMul", "Permute"} {
			if strings.HasPrefix(m, p) {
				hs = append(hs, m)
				break
			}
		}
	}
	if len(hs) == 0 {
		hs = s.calls
	}
	return hs[w.P.N(len(hs))]
}

// near compares two values, floats up to rounding.
func near(a, b reflect.Value) string {
	x, y := tf.Leaves(ptr(a)), tf.Leaves(ptr(b))
	m := 0.0
	for _, l := range x {
		if l.V.IsValid() && l.V.Kind() == reflect.Float64 {
			m = math.Max(m, math.Abs(l.V.Float()))
		}
	}
	if m == 0 {
		return tf.DiffLeaves(x, y)
	}
	for i := range x {
		if i < len(y) && x[i].V.IsValid() && x[i].V.Kind() == reflect.Float64 && y[i].V.IsValid() {
			if d := math.Abs(x[i].V.Float() - y[i].V.Float()); !(d <= m*1e-9) {
				return fmt.Sprintf("value %d is off by %g", i, d)
			}
		}
	}
	if len(x) != len(y) {
		return "lengths differ"
	}
	return ""
}

const pureRule = "a case is a history of 10 to 60 operations on one object (and SafeCopies of it) over drawn parameters; non-trivial if it has at least 8 different operations"

// TestPurity checks that results depend on the arguments only.
func TestPurity(t *testing.T) {
	vh.Check(t, pureRule, 1600, 12000, func(t *rapid.T) {
		name := rapid.SampledFrom(subjectNames).Draw(t, "subject")
		both(t, func(t *rapid.T) { purityCase[uint32](t, name) }, func(t *rapid.T) { purityCase[uint64](t, name) })
	})
}
