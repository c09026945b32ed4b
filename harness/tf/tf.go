// Package tf holds what the TFHE checks share: a generator of working parameter
// sets with known noise, and reference arithmetic that does not use the library's
// polynomial or vector code.
package tf

import (
	"fmt"
	"math"
	"os"
	"unsafe"

	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/tfhe"
	"pgregory.net/rapid"

	"verifharness/vh"
)

// Bits returns the width of T.
func Bits[T tfhe.TorusInt]() int { return int(8 * unsafe.Sizeof(T(0))) }

// Q returns 2^Bits as a float.
func Q[T tfhe.TorusInt]() float64 { return math.Exp2(float64(Bits[T]())) }

// Signed returns x as a centered value.
func Signed[T tfhe.TorusInt](x T) int64 {
	sh := uint(64 - Bits[T]())
	return int64(uint64(x)<<sh) >> sh
}

// Dist returns |a-b| on the torus.
func Dist[T tfhe.TorusInt](a, b T) float64 { return math.Abs(float64(Signed(a - b))) }

// MaxDist returns the largest distance between two vectors and where it is.
func MaxDist[T tfhe.TorusInt](a, b []T) (float64, int) {
	m, at := 0.0, -1
	if len(a) != len(b) {
		return math.Inf(1), -1
	}
	for i := range a {
		if d := Dist(a[i], b[i]); d > m {
			m, at = d, i
		}
	}
	return m, at
}

// Dot is the inner product modulo 2^Bits.
func Dot[T tfhe.TorusInt](a, b []T) T {
	var s T
	for i := range a {
		s += a[i] * b[i]
	}
	return s
}

// NegMul returns a*b modulo X^N+1 by the definition.
func NegMul[T tfhe.TorusInt](a, b []T) []T {
	n := len(a)
	out := make([]T, n)
	for i, x := range b {
		if x == 0 {
			continue
		}
		for j, y := range a {
			if i+j < n {
				out[i+j] += x * y
			} else {
				out[i+j-n] -= x * y
			}
		}
	}
	return out
}

// Mono returns a*X^d modulo X^N+1 for any d.
func Mono[T tfhe.TorusInt](a []T, d int) []T {
	n := len(a)
	d = ((d % (2 * n)) + 2*n) % (2 * n)
	out := make([]T, n)
	for i, x := range a {
		k := (i + d) % (2 * n)
		if k < n {
			out[k] = x
		} else {
			out[k-n] = -x
		}
	}
	return out
}

// Permute returns a(X^d) modulo X^N+1 for odd d.
func Permute[T tfhe.TorusInt](a []T, d int) []T {
	n := len(a)
	out := make([]T, n)
	for i, x := range a {
		k := ((i*d)%(2*n) + 2*n) % (2 * n)
		if k < n {
			out[k] += x
		} else {
			out[k-n] -= x
		}
	}
	return out
}

// Phase returns b + <a, s>.
func Phase[T tfhe.TorusInt](ct tfhe.LWECiphertext[T], sk tfhe.LWESecretKey[T]) T {
	if len(ct.Value) != len(sk.Value)+1 {
		panic(fmt.Sprintf("ciphertext of length %d under a key of length %d", len(ct.Value), len(sk.Value)))
	}
	return ct.Value[0] + Dot(ct.Value[1:], sk.Value)
}

// GPhase returns b + sum a_i*s_i.
func GPhase[T tfhe.TorusInt](ct tfhe.GLWECiphertext[T], sk tfhe.GLWESecretKey[T]) []T {
	out := append([]T{}, ct.Value[0].Coeffs...)
	for i := range sk.Value {
		for j, x := range NegMul(ct.Value[i+1].Coeffs, sk.Value[i].Coeffs) {
			out[j] += x
		}
	}
	return out
}

// Gadget is a gadget parameter pair.
type Gadget struct{ LogBase, Level int }

// Lit returns the literal.
func Lit[T tfhe.TorusInt](g Gadget) tfhe.GadgetParametersLiteral[T] {
	return tfhe.GadgetParametersLiteral[T]{Base: 1 << uint(g.LogBase), Level: g.Level}
}

// DrawGadget draws any valid gadget parameters.
func DrawGadget[T tfhe.TorusInt](t *rapid.T, name string) tfhe.GadgetParameters[T] {
	b := Bits[T]()
	lb := rapid.IntRange(1, b-1).Draw(t, name+".logBase")
	lv := rapid.IntRange(1, b/lb).Draw(t, name+".level")
	return Lit[T](Gadget{lb, lv}).Compile()
}

// DrawGadgetFor draws gadget parameters with at least minBits of precision and a
// base of at most maxLog bits.
func DrawGadgetFor[T tfhe.TorusInt](t *rapid.T, name string, maxLog, minBits int) tfhe.GadgetParameters[T] {
	b := Bits[T]()
	lb := rapid.IntRange(1, maxLog).Draw(t, name+".logBase")
	lo := (minBits + lb - 1) / lb
	if lo < 1 {
		lo = 1
	}
	hi := b / lb
	if hi > lo+3 {
		hi = lo + 3
	}
	if lo > hi {
		lo = hi
	}
	lv := rapid.IntRange(lo, hi).Draw(t, name+".level")
	return Lit[T](Gadget{lb, lv}).Compile()
}

// Opts bounds a generated parameter set.
type Opts struct {
	LogN       [2]int // smallest and largest log(PolyRank)
	MaxRank    int
	Extend     []int // allowed LUT extend factors
	Boot       bool  // bootstrapping must be correct
	Order      int   // -1: any
	BlockCount bool  // allow a single block
	MaxLWE     int
	MaxLogP    int
	Noisy      bool // allow noise that covers half of the bits
	Big        int  // log(PolyRank) reached by a few cases
	BigLWE     int  // LWE dimension reached by them
}

// Set is a generated parameter set with its noise budget.
type Set[T tfhe.TorusInt] struct {
	Lit    tfhe.ParametersLiteral[T]
	Params tfhe.Parameters[T]
}

func (s Set[T]) String() string {
	l := s.Lit
	return fmt.Sprintf("q=2^%d n=%d k=%d N=%d lut=%d block=%d p=%d sLWE=%.3g sGLWE=%.3g br=%d^%d ks=%d^%d order=%d",
		Bits[T](), l.LWEDimension, l.GLWERank, l.PolyRank, l.LUTSize, l.BlockSize, l.MessageModulus, l.LWEStdDev, l.GLWEStdDev,
		l.BlindRotateParams.Base, l.BlindRotateParams.Level, l.KeySwitchParams.Base, l.KeySwitchParams.Level, int(l.BootstrapOrder))
}

// BlindRotateVar bounds the variance (relative to the torus) a blind rotation adds,
// for a key whose LWE part has at most h ones.
func BlindRotateVar[T tfhe.TorusInt](l tfhe.ParametersLiteral[T], h float64) float64 {
	n, k, N := float64(l.LWEDimension), float64(l.GLWERank), float64(l.PolyRank)
	B, lv := float64(l.BlindRotateParams.Base), float64(l.BlindRotateParams.Level)
	s := l.GLWEStdDev
	v := 2 * n * (k + 1) * lv * N * B * B / 12 * (s*s + math.Exp2(-2*float64(Bits[T]()))/4)
	v += 2 * h * (1 + k*N) * math.Pow(B, -2*lv) / 12
	v += 8 * n * math.Exp2(-106.6) * (k + 1) * (k*N + 1) * N * lv * B * B
	return v
}

// KeySwitchVar bounds the variance the default key switching adds.
func KeySwitchVar[T tfhe.TorusInt](l tfhe.ParametersLiteral[T]) float64 {
	m := float64(l.GLWERank*l.PolyRank - l.LWEDimension)
	B, lv := float64(l.KeySwitchParams.Base), float64(l.KeySwitchParams.Level)
	s := l.LWEStdDev
	return m*lv*B*B/6*(s*s+math.Exp2(-2*float64(Bits[T]()))/4) + m*math.Pow(B, -2*lv)/12
}

// MaxOnes is the largest Hamming weight of the LWE key.
func MaxOnes[T tfhe.TorusInt](l tfhe.ParametersLiteral[T]) int {
	if l.BlockSize > 1 {
		return l.LWEDimension / l.BlockSize
	}
	return l.LWEDimension
}

// RotateMargin returns how far the phase may be from the message, as a fraction of
// the torus, before the mod-switched lookup can fail.
func RotateMargin[T tfhe.TorusInt](l tfhe.ParametersLiteral[T], p float64) float64 {
	L := float64(l.LUTSize)
	h := float64(MaxOnes(l)) + 1
	steps := h / 2
	if s := 9 * math.Sqrt(h/12); s < steps {
		steps = s
	}
	return (L/(2*p) - steps - 1.5) / (2 * L)
}

// DefaultStdDev is the relative standard deviation of fresh LWE encryptions.
func DefaultStdDev[T tfhe.TorusInt](l tfhe.ParametersLiteral[T]) float64 {
	if l.BootstrapOrder == tfhe.OrderBlindRotateKeySwitch {
		return l.LWEStdDev
	}
	return l.GLWEStdDev
}

// OutVar bounds the relative variance of a bootstrapped ciphertext.
func OutVar[T tfhe.TorusInt](l tfhe.ParametersLiteral[T]) float64 {
	v := BlindRotateVar(l, float64(MaxOnes(l)))
	if l.BootstrapOrder == tfhe.OrderBlindRotateKeySwitch {
		v += KeySwitchVar(l)
	}
	return v
}

// Sigmas is how many standard deviations of noise must fit.
const Sigmas = 10

// Slack is how much further the phase of a c-fold sum of bootstrapped ciphertexts
// may be off (as a fraction of the torus) for message modulus p.
func Slack[T tfhe.TorusInt](l tfhe.ParametersLiteral[T], p, c float64) float64 {
	s := DefaultStdDev(l)
	in := math.Max(OutVar(l), s*s) * c * c
	if l.BootstrapOrder == tfhe.OrderKeySwitchBlindRotate {
		in += KeySwitchVar(l)
	}
	return RotateMargin(l, p) - Sigmas*math.Sqrt(in)
}

// Fits tells whether c-fold sums of bootstrapped ciphertexts bootstrap correctly
// with message modulus p.
func Fits[T tfhe.TorusInt](l tfhe.ParametersLiteral[T], p, c float64) bool {
	if Slack(l, p, c) <= 0 {
		return false
	}
	// The output must decode too.
	return Sigmas*math.Sqrt(OutVar(l)) < 1/(4*p)
}

// large makes about one case in fifteen a large one; VH_BIG makes all.
func large(x int) bool { return x == 17 || x == 20 || x == 23 || os.Getenv("VH_BIG") != "" }

// Draw draws a parameter set.
func Draw[T tfhe.TorusInt](t *rapid.T, o Opts) Set[T] {
	bits := Bits[T]()
	if o.MaxRank == 0 {
		o.MaxRank = 3
	}
	if o.MaxLWE == 0 {
		o.MaxLWE = 40
	}
	if o.MaxLogP == 0 {
		o.MaxLogP = 5
	}
	if len(o.Extend) == 0 {
		o.Extend = []int{1}
	}
	if o.Big > o.LogN[1] && large(rapid.IntRange(0, 31).Draw(t, "size")) {
		o.LogN = [2]int{o.LogN[1] + 1, o.Big}
		o.MaxRank = minInt(o.MaxRank, 2)
		if o.BigLWE > 0 {
			o.MaxLWE = o.BigLWE
		}
	}
	for try := 0; ; try++ {
		var l tfhe.ParametersLiteral[T]
		logN := rapid.IntRange(o.LogN[0], o.LogN[1]).Draw(t, "logN")
		l.PolyRank = 1 << uint(logN)
		l.GLWERank = rapid.IntRange(1, o.MaxRank).Draw(t, "rank")
		l.BlockSize = rapid.SampledFrom([]int{1, 1, 1, 2, 2, 3, 3, 4, 5, 6, 8}).Draw(t, "block")
		l.LUTSize = l.PolyRank * rapid.SampledFrom(o.Extend).Draw(t, "extend")
		lo := 2
		if o.BlockCount {
			lo = 1
		}
		max := l.GLWERank * l.PolyRank / l.BlockSize
		if m := o.MaxLWE / l.BlockSize; m < max {
			max = m
		}
		if max < lo {
			max = lo
		}
		blocks := rapid.IntRange(lo, max).Draw(t, "blocks")
		l.LWEDimension = l.BlockSize * blocks
		if rapid.IntRange(0, 9).Draw(t, "fullDim") == 0 && l.GLWERank*l.PolyRank <= 2*o.MaxLWE {
			l.LWEDimension = l.GLWERank * l.PolyRank
			for l.LWEDimension%l.BlockSize != 0 {
				l.BlockSize--
			}
		}
		l.BootstrapOrder = tfhe.BootstrapOrder(o.Order)
		if o.Order < 0 {
			l.BootstrapOrder = tfhe.BootstrapOrder(rapid.IntRange(0, 1).Draw(t, "order"))
		}
		top := float64(bits) / 4
		if o.Noisy && rapid.Bool().Draw(t, "noisy") {
			top = float64(bits) / 2
		}
		sg := rapid.Float64Range(0.3, top).Draw(t, "logSigmaGLWE")
		sl := rapid.Float64Range(0.3, top).Draw(t, "logSigmaLWE")
		l.GLWEStdDev = math.Exp2(sg - float64(bits))
		l.LWEStdDev = math.Exp2(sl - float64(bits))
		bb := rapid.IntRange(1, bits/3).Draw(t, "br.logBase")
		kb := rapid.IntRange(1, bits/4).Draw(t, "ks.logBase")
		bmin, kmin := (11+bb)/bb, (11+kb)/kb
		bmax, kmax := bits/bb, bits/kb
		bl := rapid.IntRange(minInt(bmin, bmax), minInt(bmax, bmin+3)).Draw(t, "br.level")
		kl := rapid.IntRange(minInt(kmin, kmax), minInt(kmax, kmin+3)).Draw(t, "ks.level")
		// Gadgets that reach down to (nearly) the last bit.
		switch rapid.IntRange(0, 11).Draw(t, "full") {
		case 5:
			bl = bmax
		case 6:
			kl = kmax
		case 7:
			bl, kl = bmax, kmax
		}
		l.BlindRotateParams = tfhe.GadgetParametersLiteral[T]{Base: 1 << uint(bb), Level: bl}
		l.KeySwitchParams = tfhe.GadgetParametersLiteral[T]{Base: 1 << uint(kb), Level: kl}
		p := rapid.IntRange(2, 1<<uint(o.MaxLogP)).Draw(t, "p")
		if rapid.Bool().Draw(t, "pow2") {
			p = 1 << uint(rapid.IntRange(1, o.MaxLogP).Draw(t, "logP"))
		}
		if o.Boot {
			for p > 2 && !Fits(l, float64(p), 1) {
				p--
			}
			for try2 := 0; !Fits(l, float64(p), 1) && try2 < 8; try2++ {
				// Too noisy: calm the noise, then enlarge the table.
				l.GLWEStdDev = math.Max(l.GLWEStdDev/4, math.Exp2(0.2-float64(bits)))
				l.LWEStdDev = math.Max(l.LWEStdDev/4, math.Exp2(0.2-float64(bits)))
				if try2 > 3 && l.LWEDimension > 2*l.BlockSize {
					l.LWEDimension = l.LWEDimension / l.BlockSize / 2 * l.BlockSize
				}
				if try2 > 4 {
					l.BlindRotateParams = tfhe.GadgetParametersLiteral[T]{Base: 1 << uint(bits/5), Level: 3}
					l.KeySwitchParams = tfhe.GadgetParametersLiteral[T]{Base: 1 << uint(bits/8), Level: 4}
				}
			}
			if !Fits(l, float64(p), 1) {
				if try > 50 {
					t.Skip("no working parameters")
				}
				continue
			}
		}
		l.MessageModulus = T(p)
		return Set[T]{Lit: l, Params: l.Compile()}
	}
}

func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// DrawOrder draws a bootstrap order label.
func DrawType(t *rapid.T) string {
	return rapid.SampledFrom([]string{"uint32", "uint64"}).Draw(t, "type")
}

// Raw returns n values of a drawn shape as T.
func Raw[T tfhe.TorusInt](s vh.Shape, n int) []T {
	r := s.Fill(n, Bits[T]())
	out := make([]T, n)
	for i := range out {
		out[i] = T(r[i])
	}
	return out
}

// Dirty fills a slice with arbitrary values.
func Dirty[T tfhe.TorusInt](p *vh.PRNG, v []T) {
	for i := range v {
		v[i] = T(p.U64())
	}
}

// DirtyPoly returns a polynomial with arbitrary coefficients.
func DirtyPoly[T tfhe.TorusInt](p *vh.PRNG, n int) poly.Poly[T] {
	q := poly.Poly[T]{Coeffs: make([]T, n)}
	Dirty(p, q.Coeffs)
	return q
}

// Same reports whether two vectors are equal.
func Same[T tfhe.TorusInt](a, b []T) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
