package tf

import (
	"math"
	"sort"

	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/tfhe"
	"pgregory.net/rapid"

	"verifharness/vh"
)

// Gen draws bulk values and compares results.
type Gen[T tfhe.TorusInt] struct {
	T  *rapid.T
	P  *vh.PRNG
	N  int
	On func() string // describes the environment in failures
}

// Val returns a value of random magnitude.
func (g *Gen[T]) Val() T {
	x := g.P.U64()
	return T(x >> uint(g.P.N(64)))
}

// Vec returns n arbitrary values.
func (g *Gen[T]) Vec(n int) []T {
	out := make([]T, n)
	kind := g.P.N(4)
	for i := range out {
		switch kind {
		case 0:
			out[i] = T(g.P.U64())
		case 1:
			out[i] = g.Val()
		case 2:
			out[i] = T(g.P.N(5)) - 2
		case 3:
			if g.P.N(4) == 0 {
				out[i] = T(1)<<uint(Bits[T]()-1) + T(g.P.N(3)) - 1
			}
		}
	}
	return out
}

// Poly returns an arbitrary polynomial.
func (g *Gen[T]) Poly() poly.Poly[T] { return poly.Poly[T]{Coeffs: g.Vec(g.N)} }

// Small returns a polynomial with coefficients in [-b, b], dense or sparse.
func (g *Gen[T]) Small(b int) poly.Poly[T] {
	p := poly.NewPoly[T](g.N)
	switch g.P.N(4) {
	case 0:
		p.Coeffs[g.P.N(g.N)] = T(1)
	case 1:
		for i := range p.Coeffs {
			if g.P.N(8) == 0 {
				p.Coeffs[i] = T(g.P.Range(-b, b))
			}
		}
	default:
		for i := range p.Coeffs {
			p.Coeffs[i] = T(g.P.Range(-b, b))
		}
	}
	return p
}

// Near compares two vectors on the torus.
func (g *Gen[T]) Near(what string, got, want []T, tol float64) {
	g.T.Helper()
	if d, at := MaxDist(got, want); !(d <= tol) {
		if at < 0 {
			g.T.Fatalf("%s: %d values instead of %d (%v)", what, len(got), len(want), g.On())
		}
		g.T.Fatalf("%s: value %d is %#x instead of %#x, off by %g of at most %g (%v)", what, at, got[at], want[at], d, tol, g.On())
	}
}

// Exact compares two vectors.
func (g *Gen[T]) Exact(what string, got, want []T) { g.T.Helper(); g.Near(what, got, want, 0) }

// One wraps a scalar.
func One[T any](x T) []T { return []T{x} }

// Times returns c*p.
func Times[T tfhe.TorusInt](p []T, c T) []T {
	out := make([]T, len(p))
	for i := range p {
		out[i] = p[i] * c
	}
	return out
}

// Plus returns a+b.
func Plus[T tfhe.TorusInt](a, b []T) []T {
	out := make([]T, len(a))
	for i := range a {
		out[i] = a[i] + b[i]
	}
	return out
}

// Minus returns a-b.
func Minus[T tfhe.TorusInt](a, b []T) []T {
	out := make([]T, len(a))
	for i := range a {
		out[i] = a[i] - b[i]
	}
	return out
}

// Norm2 is the squared 2-norm of a polynomial with small signed coefficients.
func Norm2[T tfhe.TorusInt](p []T) float64 {
	s := 0.0
	for _, x := range p {
		s += float64(Signed(x)) * float64(Signed(x))
	}
	return s
}

// Norm1 is the 1-norm.
func Norm1[T tfhe.TorusInt](p []T) float64 {
	s := 0.0
	for _, x := range p {
		s += math.Abs(float64(Signed(x)))
	}
	return s
}

// DigitVar is the variance of a balanced digit.
func DigitVar(b float64) float64 { return b*b/12 + b/4 + 1 }

// Last is the size of the part a gadget decomposition drops.
func Last[T tfhe.TorusInt](g tfhe.GadgetParameters[T]) float64 {
	if g.LogLastBaseQ() == 0 {
		return 0
	}
	return math.Exp2(float64(g.LogLastBaseQ()))
}

// NoiseStat accumulates fresh errors.
type NoiseStat struct {
	n     int
	s, s2 float64
}

// Add records one error.
func (s *NoiseStat) Add(err float64) { s.n++; s.s += err; s.s2 += err * err }

// AddAll records the errors of a vector.
func (s *NoiseStat) AddAll(v any) {
	switch v := v.(type) {
	case []uint32:
		for _, x := range v {
			s.Add(float64(int32(x)))
		}
	case []uint64:
		for _, x := range v {
			s.Add(float64(int64(x)))
		}
	}
}

// Check compares the empirical law of fresh errors with the stated deviation.
func (s *NoiseStat) Check(t *rapid.T, what string, sigma float64) {
	if s.n < 400 || sigma < 4 {
		return
	}
	n := float64(s.n)
	mean, va := s.s/n, s.s2/n
	if r := va / (sigma*sigma + 1.0/12); r < 1-8*math.Sqrt(2/n) || r > 1+8*math.Sqrt(2/n) {
		t.Fatalf("%s: the errors of %d fresh encryptions have standard deviation %g instead of %g", what, s.n, math.Sqrt(va), sigma)
	}
	if math.Abs(mean) > 8*sigma/math.Sqrt(n)+0.6 {
		t.Fatalf("%s: the errors of %d fresh encryptions have mean %g, standard deviation %g", what, s.n, mean, sigma)
	}
	vh.Label("noise law checked")
}

// Laws collects the errors of encryptions by what was encrypted, and every error
// vector, to tell missing and repeated noise.
type Laws struct {
	stat map[string]*NoiseStat
	sig  map[string]float64
	seen map[string]string
}

// Law records the errors of one row. Extra bounds errors that are not noise.
func Law[T tfhe.TorusInt](t *rapid.T, l *Laws, what string, got, want []T, sigma, extra float64) {
	t.Helper()
	if sigma < 4 || sigma < 16*extra {
		return
	}
	if l.stat == nil {
		l.stat, l.sig, l.seen = map[string]*NoiseStat{}, map[string]float64{}, map[string]string{}
	}
	if l.stat[what] == nil {
		l.stat[what] = &NoiseStat{}
	}
	l.sig[what] = sigma
	d := Minus(got, want)
	s := NoiseStat{}
	s.AddAll(d)
	if n := float64(s.n); n >= 16 && s.s2/n < sigma*sigma*faintest(n) {
		t.Fatalf("%s: a row of %d coefficients has errors of deviation %g instead of %g", what, s.n, math.Sqrt(s.s2/n), sigma)
	}
	l.stat[what].n += s.n
	l.stat[what].s += s.s
	l.stat[what].s2 += s.s2
	if float64(len(d))*math.Log2(sigma/4) > 90 && extra == 0 {
		k := string(Body(&d))
		if o, ok := l.seen[k]; ok {
			t.Fatalf("%s: a row has the same errors as a row of %s", what, o)
		}
		l.seen[k] = what
		vh.Label("errors compared")
	}
}

// faintest is the ratio below which the mean square of n normal errors stays with
// probability below 1e-13.
func faintest(n float64) float64 {
	lo, hi := 0.0, 1.0
	for i := 0; i < 40; i++ {
		if r := (lo + hi) / 2; r-1-math.Log(r) > 60/n {
			lo = r
		} else {
			hi = r
		}
	}
	return lo
}

// Check compares all laws.
func (l *Laws) Check(t *rapid.T) {
	t.Helper()
	for _, k := range SortedKeys(l.stat) {
		l.stat[k].Check(t, k, l.sig[k])
	}
}

// SortedKeys returns the keys of a map in order.
func SortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// ModSwitch is the exact rounding of x*2L/Q and whether x is near a tie.
func ModSwitch[T tfhe.TorusInt](x T, L int) (int, bool) {
	// x*2L fits in 128 bits; the top part is the quotient.
	b := uint(Bits[T]())
	q := mulAddShift(uint64(x), uint64(2*L), b)
	tie := q.frac < 1.0/256 || q.frac > 1-1.0/256
	return int(q.int) % (2 * L), tie
}

// Angle draws a value whose rounding to 2L steps is not a tie.
func (g *Gen[T]) Angle(L int) T {
	for {
		var x T
		switch g.P.N(8) {
		case 0:
			x = 0 - T(g.P.N(3)) // the top of the range rounds to zero
		case 1:
			x = T(float64(g.P.N(2*L)) / float64(2*L) * Q[T]()) // multiples of the step
		case 2:
			x = T(g.P.N(4)) << uint(Bits[T]()-2)
		case 3:
			x = g.Val()
		default:
			x = T(g.P.U64())
		}
		if _, tie := ModSwitch(x, L); !tie {
			return x
		}
	}
}
