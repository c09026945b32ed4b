package xp

import (
	"math"

	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/tfhe"
	"pgregory.net/rapid"

	"verifharness/tf"
	"verifharness/vh"
)

// env is a parameter set with one party.
type env[T tfhe.TorusInt] struct {
	tf.Gen[T]
	set tf.Set[T]
	l   tfhe.ParametersLiteral[T]
	p   tfhe.Parameters[T]
	enc *tfhe.Encryptor[T]
	sk  tfhe.SecretKey[T]
	K   int

	laws  tf.Laws
	seen  map[string]string
	again bool // checking rows once more
}

func newEnv[T tfhe.TorusInt](t *rapid.T, o tf.Opts) *env[T] {
	return envOf(t, tf.Draw[T](t, o).Lit)
}

func envOf[T tfhe.TorusInt](t *rapid.T, l tfhe.ParametersLiteral[T]) *env[T] {
	v := &env[T]{l: l, p: l.Compile()}
	v.set = tf.Set[T]{Lit: l, Params: v.p}
	v.T, v.P = t, vh.NewPRNG(rapid.Uint64().Draw(t, "data"))
	v.N, v.K = v.p.PolyRank(), v.p.GLWERank()
	v.On = v.set.String
	v.enc = tfhe.NewEncryptor(v.p)
	v.sk = v.enc.SecretKey
	return v
}

func (v *env[T]) gphase(c tfhe.GLWECiphertext[T]) []T { return tf.GPhase(c, v.sk.GLWEKey) }

func (v *env[T]) sigma() float64 { return v.l.GLWEStdDev*tf.Q[T]() + 0.5 }

func (v *env[T]) glwe() tfhe.GLWECiphertext[T] {
	c := tfhe.NewGLWECiphertext(v.p)
	for i := range c.Value {
		tf.Dirty(v.P, c.Value[i].Coeffs)
	}
	return c
}

// rawGLWE is an arbitrary ciphertext of the given rank.
func (v *env[T]) rawGLWE(k int) tfhe.GLWECiphertext[T] {
	c := tfhe.GLWECiphertext[T]{}
	for i := 0; i <= k; i++ {
		c.Value = append(c.Value, v.Poly())
	}
	return c
}

// around encrypts a phase under the GLWE key with a chosen error.
func (v *env[T]) around(ph []T, noise float64) tfhe.GLWECiphertext[T] {
	c := v.glwe()
	for i := range c.Value[0].Coeffs {
		c.Value[0].Coeffs[i] = 0
	}
	g := v.gphase(c)
	for i := range g {
		c.Value[0].Coeffs[i] = ph[i] - g[i] + T(int64((2*v.P.F()-1)*noise))
	}
	return c
}

// ksTol bounds the error of a key switching (or gadget product) of rows polynomials
// of any values with encryptions of a message of squared 2-norm m2 and 1-norm m1.
func (v *env[T]) ksTol(g tfhe.GadgetParameters[T], rows int, m2, m1 float64) float64 {
	b, l, N := float64(g.Base()), float64(g.Level()), float64(v.N)
	terms := float64(rows) * l * N
	noise := tf.Sigmas * (v.sigma() + 1) * (b/2 + 1) * math.Sqrt(terms)
	round := m1 * tf.Last(g) / 2
	fft := 24 * tf.Q[T]() * math.Exp2(-53) * b * math.Sqrt(terms*float64(v.K*v.N+1))
	_ = m2
	return noise + round + fft + 2*float64(v.K)*N + 4
}

// mono returns c*X^d.
func mono[T tfhe.TorusInt](n int, c T, d int) poly.Poly[T] {
	p := poly.NewPoly[T](n)
	p.Coeffs[0] = c
	p.Coeffs = tf.Mono(p.Coeffs, d)
	return p
}

func norms[T tfhe.TorusInt](ps ...[]T) (m2, m1 float64) {
	for _, p := range ps {
		m2 += tf.Norm2(p)
		m1 += tf.Norm1(p)
	}
	return
}
