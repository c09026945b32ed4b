package tfhep

import (
	"math"

	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/tfhe"
	"pgregory.net/rapid"

	"verifharness/tf"
	"verifharness/vh"
)

// env is a parameter set with its keys and parties.
type env[T tfhe.TorusInt] struct {
	t    *rapid.T
	set  tf.Set[T]
	p    tfhe.Parameters[T]
	enc  *tfhe.Encryptor[T]
	sk   tfhe.SecretKey[T]
	dsk  tfhe.LWESecretKey[T] // default LWE key
	eval *tfhe.Evaluator[T]
	pr   *vh.PRNG
	N, K int
	laws tf.Laws
}

// newEnv draws an environment without evaluation keys.
func newEnv[T tfhe.TorusInt](t *rapid.T, o tf.Opts) *env[T] {
	set := tf.Draw[T](t, o)
	v := &env[T]{t: t, set: set, p: set.Params, pr: vh.NewPRNG(rapid.Uint64().Draw(t, "data"))}
	v.enc = tfhe.NewEncryptor(v.p)
	v.sk = v.enc.SecretKey
	// The default key is the large one when key switching comes first.
	v.dsk = v.sk.LWEKey
	if v.p.BootstrapOrder() == tfhe.OrderKeySwitchBlindRotate {
		v.dsk = v.sk.LWELargeKey
	}
	v.eval = tfhe.NewEvaluator(v.p, tfhe.EvaluationKey[T]{})
	v.N, v.K = v.p.PolyRank(), v.p.GLWERank()
	return v
}

// boot generates the evaluation key.
func (v *env[T]) boot() {
	if rapid.Bool().Draw(v.t, "parallelKeys") {
		v.eval = tfhe.NewEvaluator(v.p, v.enc.GenEvalKeyParallel())
	} else {
		v.eval = tfhe.NewEvaluator(v.p, v.enc.GenEvalKey())
	}
}

// fftErr bounds the error of a polynomial that went through the transform, seen
// through a binary key of rank k.
func (v *env[T]) fftErr(k int) float64 {
	return tf.Q[T]()*math.Exp2(-48)*math.Sqrt(float64(k*v.N+1)) + 1
}

// lweSigma is the standard deviation of fresh LWE ciphertexts in units of the torus.
func (v *env[T]) lweSigma() float64 {
	return tf.DefaultStdDev(v.set.Lit)*tf.Q[T]() + 0.5
}

func (v *env[T]) glweSigma() float64 { return v.set.Lit.GLWEStdDev*tf.Q[T]() + 0.5 }

// T returns a value of random magnitude.
func (v *env[T]) val() T {
	x := v.pr.U64()
	return T(x >> uint(v.pr.N(64)))
}

// vec returns n arbitrary values.
func (v *env[T]) vec(n int) []T {
	out := make([]T, n)
	kind := v.pr.N(4)
	for i := range out {
		switch kind {
		case 0:
			out[i] = T(v.pr.U64())
		case 1:
			out[i] = v.val()
		case 2:
			out[i] = T(v.pr.N(5)) - 2
		case 3:
			if v.pr.N(4) == 0 {
				out[i] = T(1)<<uint(tf.Bits[T]()-1) + T(v.pr.N(3)) - 1
			}
		}
	}
	return out
}

func (v *env[T]) poly(n int) poly.Poly[T] { return poly.Poly[T]{Coeffs: v.vec(n)} }

// small returns a polynomial with coefficients in [-b, b], dense or sparse.
func (v *env[T]) small(b int) poly.Poly[T] {
	p := poly.NewPoly[T](v.N)
	switch v.pr.N(4) {
	case 0:
		p.Coeffs[v.pr.N(v.N)] = T(1)
	case 1:
		for i := range p.Coeffs {
			if v.pr.N(8) == 0 {
				p.Coeffs[i] = T(v.pr.Range(-b, b))
			}
		}
	default:
		for i := range p.Coeffs {
			p.Coeffs[i] = T(v.pr.Range(-b, b))
		}
	}
	return p
}

// norm2 is the squared 2-norm of a polynomial with small signed coefficients.
func norm2[T tfhe.TorusInt](p poly.Poly[T]) float64 {
	s := 0.0
	for _, x := range p.Coeffs {
		s += float64(tf.Signed(x)) * float64(tf.Signed(x))
	}
	return s
}

// norm1 is the 1-norm.
func norm1[T tfhe.TorusInt](p poly.Poly[T]) float64 {
	s := 0.0
	for _, x := range p.Coeffs {
		s += math.Abs(float64(tf.Signed(x)))
	}
	return s
}

// msgs returns arbitrary messages, some beyond the modulus, of a length that may
// differ from the rank.
func (v *env[T]) msgs() []int {
	n := []int{v.N, v.N, v.N - 1, 1, v.N + 3, 0}[v.pr.N(6)]
	m := make([]int, n)
	for i := range m {
		m[i] = v.pr.N(3 * int(v.p.MessageModulus()))
	}
	return m
}

// dirty LWE and GLWE outputs.
func (v *env[T]) lwe() tfhe.LWECiphertext[T] {
	c := tfhe.NewLWECiphertext(v.p)
	tf.Dirty(v.pr, c.Value)
	return c
}

func (v *env[T]) glwe() tfhe.GLWECiphertext[T] {
	c := tfhe.NewGLWECiphertext(v.p)
	for i := range c.Value {
		tf.Dirty(v.pr, c.Value[i].Coeffs)
	}
	return c
}

func (v *env[T]) fglwe() tfhe.FFTGLWECiphertext[T] {
	c := tfhe.NewFFTGLWECiphertext(v.p)
	for i := range c.Value {
		for j := range c.Value[i].Coeffs {
			c.Value[i].Coeffs[j] = (v.pr.F() - 0.5) * tf.Q[T]()
		}
	}
	return c
}

// phase decrypts by the definition.
func (v *env[T]) phase(c tfhe.LWECiphertext[T]) T { return tf.Phase(c, v.dsk) }

func (v *env[T]) gphase(c tfhe.GLWECiphertext[T]) []T { return tf.GPhase(c, v.sk.GLWEKey) }

func (v *env[T]) fphase(c tfhe.FFTGLWECiphertext[T]) []T {
	return v.gphase(v.enc.InvFFTGLWECiphertext(c))
}

// gadget draws gadget parameters for products.
func (v *env[T]) gadget(minBits int) tfhe.GadgetParameters[T] {
	if rapid.IntRange(0, 3).Draw(v.t, "precise") > 0 {
		minBits = tf.Bits[T]() / 2
	}
	return tf.DrawGadgetFor[T](v.t, "gadget", tf.Bits[T]()/2, minBits)
}

func (v *env[T]) near(what string, got, want []T, tol float64) {
	v.t.Helper()
	if d, at := tf.MaxDist(got, want); !(d <= tol) {
		if at < 0 {
			v.t.Fatalf("%s: %d values instead of %d (%v)", what, len(got), len(want), v.set)
		}
		v.t.Fatalf("%s: value %d is %#x instead of %#x, off by %g of at most %g (%v)", what, at, got[at], want[at], d, tol, v.set)
	}
}

func (v *env[T]) exact(what string, got, want []T) { v.t.Helper(); v.near(what, got, want, 0) }

// one wraps a scalar.
func one[T any](x T) []T { return []T{x} }

// scaled returns p*2^s.
func scaled[T tfhe.TorusInt](p []T, s int) []T {
	out := make([]T, len(p))
	for i := range p {
		out[i] = p[i] << uint(s)
	}
	return out
}

func times[T tfhe.TorusInt](p []T, c T) []T {
	out := make([]T, len(p))
	for i := range p {
		out[i] = p[i] * c
	}
	return out
}

func plus[T tfhe.TorusInt](a, b []T) []T {
	out := make([]T, len(a))
	for i := range a {
		out[i] = a[i] + b[i]
	}
	return out
}

func minus[T tfhe.TorusInt](a, b []T) []T {
	out := make([]T, len(a))
	for i := range a {
		out[i] = a[i] - b[i]
	}
	return out
}

// modT reduces messages like the encoder does for values below the modulus.
func modT[T tfhe.TorusInt](ms []int, n int, p T) []T {
	out := make([]T, n)
	for i := range out {
		if i < len(ms) {
			out[i] = T(ms[i]) % p
		}
	}
	return out
}
