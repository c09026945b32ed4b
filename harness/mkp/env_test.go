package mkp

import (
	"fmt"
	"math"

	"github.com/sp301415/tfhe-go/mktfhe"
	"github.com/sp301415/tfhe-go/tfhe"
	"pgregory.net/rapid"

	"verifharness/tf"
	"verifharness/vh"
)

const freshSigmas = 9

type (
	lwe[T tfhe.TorusInt]  = mktfhe.LWECiphertext[T]
	glwe[T tfhe.TorusInt] = mktfhe.GLWECiphertext[T]
	fft[T tfhe.TorusInt]  = mktfhe.FFTGLWECiphertext[T]
)

// env is a multi-key parameter set with its parties.
type env[T tfhe.TorusInt] struct {
	tf.Gen[T]
	lit   mktfhe.ParametersLiteral[T]
	p     mktfhe.Parameters[T]
	l     tfhe.ParametersLiteral[T]
	k     int
	D     int // default LWE dimension of one party
	seed  []byte
	encs  []*mktfhe.Encryptor[T] // nil when the party is absent
	in    []int                  // present parties
	sks   map[int]tfhe.SecretKey[T]
	evks  map[int]mktfhe.EvaluationKey[T]
	eval  *mktfhe.Evaluator[T]
	limit int
	laws  tf.Laws
}

func (v *env[T]) String() string {
	l := v.l
	return fmt.Sprintf("q=2^%d n=%d N=%d block=%d p=%d sLWE=%.3g sGLWE=%.3g br=%d^%d ks=%d^%d order=%d parties=%v of %d acc=%d^%d relin=%d^%d",
		tf.Bits[T](), l.LWEDimension, l.PolyRank, l.BlockSize, l.MessageModulus, l.LWEStdDev, l.GLWEStdDev,
		l.BlindRotateParams.Base, l.BlindRotateParams.Level, l.KeySwitchParams.Base, l.KeySwitchParams.Level, int(l.BootstrapOrder),
		v.in, v.k, v.lit.AccumulatorParams.Base, v.lit.AccumulatorParams.Level, v.lit.RelinKeyParams.Base, v.lit.RelinKeyParams.Level)
}

type opts struct {
	tf.Opts
	parties int
	boot    bool
	sum     float64 // bootstrapping must work on sums of this many ciphertexts
}

// hybridVar bounds the relative variance of a hybrid product with k parties and a
// message of squared norm m2.
func hybridVar[T tfhe.TorusInt](l tfhe.ParametersLiteral[T], g tfhe.GadgetParameters[T], k, m2 float64) float64 {
	N, B, lv := float64(l.PolyRank), float64(g.Base()), float64(g.Level())
	s2 := l.GLWEStdDev*l.GLWEStdDev + math.Exp2(-2*float64(tf.Bits[T]()))
	last := tf.Last(g) / tf.Q[T]()
	row := lv * N * tf.DigitVar(B) * s2
	v := row*(1+k*N) + N*k*row + row
	v += m2*last*last/12*(1+k*N) + N*last*last/12
	if m2 >= N {
		// Products of binary keys are far from random.
		v += k * N * N * N / 16 * last * last / 12
	}
	v += 64 * math.Exp2(-106) * lv * N * tf.DigitVar(B) * (2 + 3*k*N) * N
	return v
}

// externalVar bounds the relative variance of an external product with rows of
// variance s2 encrypting a message of squared norm m2.
func externalVar[T tfhe.TorusInt](l tfhe.ParametersLiteral[T], g, relin tfhe.GadgetParameters[T], k, s2, m2 float64) float64 {
	N, B, lv := float64(l.PolyRank), float64(g.Base()), float64(g.Level())
	last := tf.Last(g) / tf.Q[T]()
	v := (1 + k*N) * (lv*N*tf.DigitVar(B)*s2 + m2*last*last/12)
	v += 64 * math.Exp2(-106) * lv * N * tf.DigitVar(B) * (2 + k*N) * N
	return v + hybridVar(l, relin, k, N)
}

// rotateVar bounds the relative variance of a blind rotation.
func rotateVar[T tfhe.TorusInt](lit mktfhe.ParametersLiteral[T], k, h float64) float64 {
	l := lit.SubParams
	acc, relin := lit.AccumulatorParams.Compile(), lit.RelinKeyParams.Compile()
	q := math.Exp2(-2 * float64(tf.Bits[T]()))
	return k * externalVar(l, acc, relin, k, tf.BlindRotateVar(l, h)+q, 1)
}

func outVar[T tfhe.TorusInt](lit mktfhe.ParametersLiteral[T]) float64 {
	k := float64(lit.PartyCount)
	v := rotateVar(lit, k, float64(tf.MaxOnes(lit.SubParams)))
	if lit.SubParams.BootstrapOrder == tfhe.OrderBlindRotateKeySwitch {
		v += k * tf.KeySwitchVar(lit.SubParams)
	}
	return v
}

// rotateMargin returns how far a phase may be from its message before the lookup
// can fail, as a fraction of the torus.
func rotateMargin[T tfhe.TorusInt](lit mktfhe.ParametersLiteral[T], p float64) float64 {
	l := lit.SubParams
	L := float64(l.LUTSize)
	h := float64(tf.MaxOnes(l)*lit.PartyCount) + 1
	steps := h / 2
	if s := 9 * math.Sqrt(h/12); s < steps {
		steps = s
	}
	return (L/(2*p) - steps - 1.5) / (2 * L)
}

func inVar[T tfhe.TorusInt](lit mktfhe.ParametersLiteral[T]) float64 {
	s := tf.DefaultStdDev(lit.SubParams)
	return math.Max(outVar(lit), s*s)
}

// slack is how much further the phase of a c-fold sum of bootstrapped ciphertexts
// may be off.
func slack[T tfhe.TorusInt](lit mktfhe.ParametersLiteral[T], p, c float64) float64 {
	in := inVar(lit) * c * c
	if lit.SubParams.BootstrapOrder == tfhe.OrderKeySwitchBlindRotate {
		in += float64(lit.PartyCount) * tf.KeySwitchVar(lit.SubParams)
	}
	return rotateMargin(lit, p) - tf.Sigmas*math.Sqrt(in)
}

func fits[T tfhe.TorusInt](lit mktfhe.ParametersLiteral[T], p, c float64) bool {
	return slack(lit, p, c) > 0 && tf.Sigmas*math.Sqrt(outVar(lit)) < 1/(4*p)
}

// newEnv draws parameters and the parties' encryptors.
func newEnv[T tfhe.TorusInt](t *rapid.T, o opts) *env[T] {
	bits := tf.Bits[T]()
	o.MaxRank = 1
	o.Boot = false
	if o.parties == 0 {
		o.parties = 4
	}
	if o.sum == 0 {
		o.sum = 1
	}
	var lit mktfhe.ParametersLiteral[T]
	for try := 0; ; try++ {
		if try == 40 {
			t.Skip("no working parameters")
		}
		l := tf.Draw[T](t, o.Opts).Lit
		lit = mktfhe.ParametersLiteral[T]{SubParams: l, PartyCount: rapid.IntRange(1, o.parties).Draw(t, "parties")}
		top := bits / 3
		if top > 20 {
			top = 20
		}
		lit.AccumulatorParams = gadgetLit(tf.DrawGadgetFor[T](t, "acc", top, 8))
		lit.RelinKeyParams = gadgetLit(tf.DrawGadgetFor[T](t, "relin", top, 12))
		if !o.boot {
			break
		}
		ok := false
		p := float64(l.MessageModulus)
		for try2 := 0; try2 < 10; try2++ {
			for p > 2 && !fits(lit, p, o.sum) {
				p--
			}
			if ok = fits(lit, p, o.sum); ok {
				break
			}
			s := &lit.SubParams
			s.GLWEStdDev = math.Max(s.GLWEStdDev/8, math.Exp2(0.2-float64(bits)))
			s.LWEStdDev = math.Max(s.LWEStdDev/8, math.Exp2(0.2-float64(bits)))
			if try2 > 2 && s.LWEDimension > 2*s.BlockSize {
				s.LWEDimension = s.LWEDimension / s.BlockSize / 2 * s.BlockSize
			}
			if try2 > 3 {
				s.BlindRotateParams = tfhe.GadgetParametersLiteral[T]{Base: 1 << uint(bits/8), Level: 6}
				s.KeySwitchParams = tfhe.GadgetParametersLiteral[T]{Base: 1 << uint(bits/8), Level: 4}
				lit.AccumulatorParams = tfhe.GadgetParametersLiteral[T]{Base: 1 << uint(bits/8), Level: 3 + try2%3}
				lit.RelinKeyParams = tfhe.GadgetParametersLiteral[T]{Base: 1 << uint(bits/8), Level: 6}
			}
		}
		lit.SubParams.MessageModulus = T(p)
		if ok {
			break
		}
	}
	v := &env[T]{lit: lit, p: lit.Compile(), l: lit.SubParams, k: lit.PartyCount}
	v.T, v.P = t, vh.NewPRNG(rapid.Uint64().Draw(t, "data"))
	v.N = v.p.PolyRank()
	v.On = v.String
	v.D = v.p.SubParams().DefaultLWEDimension()
	v.seed = make([]byte, rapid.IntRange(0, 40).Draw(t, "seedLen"))
	for i := range v.seed {
		v.seed[i] = byte(v.P.U64())
	}
	v.encs = make([]*mktfhe.Encryptor[T], v.k)
	v.sks = map[int]tfhe.SecretKey[T]{}
	for i := range v.encs {
		if rapid.IntRange(0, 3).Draw(t, "present") > 0 || i == v.k-1 && len(v.in) == 0 {
			v.encs[i] = mktfhe.NewEncryptor(v.p, i, v.seed)
			v.in = append(v.in, i)
			v.sks[i] = v.encs[i].SecretKey
		}
	}
	return v
}

func gadgetLit[T tfhe.TorusInt](g tfhe.GadgetParameters[T]) tfhe.GadgetParametersLiteral[T] {
	return tfhe.GadgetParametersLiteral[T]{Base: g.Base(), Level: g.Level()}
}

// light gives every present party the keys products need.
func (v *env[T]) light() {
	v.evks = map[int]mktfhe.EvaluationKey[T]{}
	for _, i := range v.in {
		v.evks[i] = mktfhe.EvaluationKey[T]{CRSPublicKey: v.encs[i].GenCRSPublicKey(), RelinKey: v.encs[i].GenRelinKey()}
	}
	v.eval = mktfhe.NewEvaluator(v.p, v.evks)
}

// boot gives every present party full evaluation keys.
func (v *env[T]) boot() {
	v.evks = map[int]mktfhe.EvaluationKey[T]{}
	for _, i := range v.in {
		if rapid.IntRange(0, 3).Draw(v.T, "parallelKeys") == 0 {
			v.evks[i] = v.encs[i].GenEvalKeyParallel()
		} else {
			v.evks[i] = v.encs[i].GenEvalKey()
		}
	}
	// The evaluator learns its parties in any order.
	some := map[int]mktfhe.EvaluationKey[T]{}
	var late []int
	for _, i := range v.in {
		if v.P.N(3) == 0 {
			late = append(late, i)
		} else {
			some[i] = v.evks[i]
		}
	}
	v.eval = mktfhe.NewEvaluator(v.p, some)
	for i := len(late) - 1; i >= 0; i-- {
		v.eval.AddEvaluationKey(late[i], v.evks[late[i]])
	}
	if rapid.IntRange(0, 2).Draw(v.T, "copy") == 0 {
		v.eval = v.eval.SafeCopy()
	}
}

// phase decrypts by the definition, over the present parties.
func (v *env[T]) phase(c lwe[T]) T {
	b := c.Value[0]
	for _, i := range v.in {
		sk := v.sks[i].LWEKey
		if v.p.BootstrapOrder() == tfhe.OrderKeySwitchBlindRotate {
			sk = v.sks[i].LWELargeKey
		}
		b += tf.Dot(c.Value[1+i*v.D:1+(i+1)*v.D], sk.Value)
	}
	return b
}

func (v *env[T]) gphase(c glwe[T]) []T {
	out := append([]T{}, c.Value[0].Coeffs...)
	for _, i := range v.in {
		for j, x := range tf.NegMul(c.Value[i+1].Coeffs, v.sks[i].GLWEKey.Value[0].Coeffs) {
			out[j] += x
		}
	}
	return out
}

func (v *env[T]) fphase(c fft[T]) []T { return v.gphase(v.inv(c)) }

func (v *env[T]) inv(c fft[T]) glwe[T] {
	return mktfhe.NewGLWETransformer[T](v.N).InvGLWECiphertext(c)
}

func (v *env[T]) fwd(c glwe[T]) fft[T] {
	return mktfhe.NewGLWETransformer[T](v.N).FwdFFTGLWECiphertext(c)
}

func (v *env[T]) lweSigma() float64  { return tf.DefaultStdDev(v.l)*tf.Q[T]() + 0.5 }
func (v *env[T]) glweSigma() float64 { return v.l.GLWEStdDev*tf.Q[T]() + 0.5 }

// fftErr bounds the error of a ciphertext that went through the transform.
func (v *env[T]) fftErr() float64 {
	return tf.Q[T]()*math.Exp2(-48)*math.Sqrt(float64(v.k*v.N+1)) + 1
}

// mulErr bounds the error of one float64 product with a polynomial of 1-norm n1.
func (v *env[T]) mulErr(n1 float64) float64 {
	return (v.fftErr()-1)*(n1+1) + 2 + float64(v.k*v.N)
}

// Used outputs.
func (v *env[T]) lwe() lwe[T] {
	c := mktfhe.NewLWECiphertext(v.p)
	tf.Dirty(v.P, c.Value)
	return c
}

func (v *env[T]) glwe() glwe[T] {
	c := mktfhe.NewGLWECiphertext(v.p)
	for i := range c.Value {
		tf.Dirty(v.P, c.Value[i].Coeffs)
	}
	return c
}

func (v *env[T]) fglwe() fft[T] {
	c := mktfhe.NewFFTGLWECiphertext(v.p)
	for i := range c.Value {
		for j := range c.Value[i].Coeffs {
			c.Value[i].Coeffs[j] = (v.P.F() - 0.5) * tf.Q[T]()
		}
	}
	return c
}

// rawLWE and rawGLWE are arbitrary ciphertexts.
func (v *env[T]) rawLWE() lwe[T] { return lwe[T]{Value: v.Vec(v.p.DefaultLWEDimension() + 1)} }

func (v *env[T]) rawGLWE() glwe[T] {
	c := glwe[T]{}
	for i := 0; i <= v.k; i++ {
		c.Value = append(c.Value, v.Poly())
	}
	return c
}

func (v *env[T]) party() int { return v.in[v.P.N(len(v.in))] }

func (v *env[T]) msgs() []int {
	n := []int{v.N, v.N, v.N - 1, 1, v.N + 3, 0}[v.P.N(6)]
	m := make([]int, n)
	for i := range m {
		m[i] = v.P.N(3 * int(v.p.MessageModulus()))
	}
	return m
}

// decryptor makes an all-knowing decryptor in a drawn way.
func (v *env[T]) decryptor() *mktfhe.Decryptor[T] {
	some := map[int]tfhe.SecretKey[T]{}
	var late []int
	for _, i := range v.in {
		if v.P.N(3) == 0 {
			late = append(late, i)
		} else {
			some[i] = v.sks[i]
		}
	}
	d := mktfhe.NewDecryptor(v.p, some)
	for i := len(late) - 1; i >= 0; i-- {
		d.AddSecretKey(late[i], v.sks[late[i]])
	}
	if v.P.N(3) == 0 {
		d = d.SafeCopy()
	}
	return d
}
