package prec

import (
	"fmt"
	"math"
	"reflect"
	"strings"
	"testing"

	"github.com/sp301415/tfhe-go/math/csprng"
	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/mktfhe"
	"github.com/sp301415/tfhe-go/tfhe"
	"github.com/sp301415/tfhe-go/xtfhe"
	"pgregory.net/rapid"

	"verifharness/tf"
	"verifharness/vh"
)

func panics(f func()) (msg string, did bool) {
	defer func() {
		if r := recover(); r != nil {
			msg, did = fmt.Sprint(r), true
		}
	}()
	f()
	return
}

// must checks that f panics exactly when the precondition is violated.
func must(t *rapid.T, what string, valid bool, f func()) {
	t.Helper()
	msg, did := panics(f)
	if did && valid {
		t.Fatalf("%s panics: %s", what, msg)
	}
	if !did && !valid {
		t.Fatalf("%s is accepted", what)
	}
	vh.Label("%s", strings.SplitN(what, "(", 2)[0])
	vh.Case(!valid, "%s valid=%v", what, valid)
}

func small[T tfhe.TorusInt](t *rapid.T, order int) tfhe.ParametersLiteral[T] {
	return tf.Draw[T](t, tf.Opts{LogN: [2]int{4, 7}, MaxRank: 2, MaxLWE: 12, Order: order}).Lit
}

// permutes calls a permuting method of an evaluator, found by reflection, with a drawn exponent.
func permutes[T tfhe.TorusInt](t *rapid.T, name string, o any, p tfhe.Parameters[T], parties int) {
	rv := reflect.ValueOf(o)
	rt := rv.Type()
	var ms []string
	for i := 0; i < rt.NumMethod(); i++ {
		if m := rt.Method(i); strings.HasPrefix(m.Name, "Permute") && m.Type.In(m.Type.NumIn()-1).Kind() == reflect.Int {
			ms = append(ms, m.Name)
		}
	}
	if len(ms) < 8 {
		t.Fatalf("%s: only %v", name, ms)
	}
	m := rapid.SampledFrom(ms).Draw(t, "method")
	d := rapid.IntRange(-3*p.PolyRank(), 3*p.PolyRank()).Draw(t, "exponent")
	f := rv.MethodByName(m)
	args := make([]reflect.Value, f.Type().NumIn())
	for i := range args {
		var a any
		switch reflect.Zero(f.Type().In(i)).Interface().(type) {
		case poly.Poly[T]:
			a = poly.NewPoly[T](p.PolyRank())
		case poly.FFTPoly:
			a = poly.NewFFTPoly(p.PolyRank())
		case tfhe.GLWECiphertext[T]:
			a = tfhe.NewGLWECiphertext(p)
		case tfhe.FFTGLWECiphertext[T]:
			a = tfhe.NewFFTGLWECiphertext(p)
		case mktfhe.GLWECiphertext[T]:
			a = mktfhe.NewGLWECiphertextCustom[T](parties, p.PolyRank())
		case mktfhe.FFTGLWECiphertext[T]:
			a = mktfhe.NewFFTGLWECiphertextCustom[T](parties, p.PolyRank())
		case int:
			a = d
		default:
			t.Fatalf("%s.%s: unknown parameter %v", name, m, f.Type().In(i))
		}
		args[i] = reflect.ValueOf(a)
	}
	must(t, fmt.Sprintf("%s.%s(%d) of rank %d", name, m, d, p.PolyRank()), d%2 != 0, func() { f.Call(args) })
}

func permuteCase[T tfhe.TorusInt](t *rapid.T) {
	l := small[T](t, -1)
	p := l.Compile()
	switch rapid.IntRange(0, 3).Draw(t, "on") {
	case 0:
		permutes(t, "poly.Evaluator", poly.NewEvaluator[T](p.PolyRank()), p, 0)
	case 1:
		permutes(t, "tfhe.Evaluator", tfhe.NewEvaluator(p, tfhe.EvaluationKey[T]{}), p, 0)
	default:
		mp := multi(t, l)
		permutes(t, "mktfhe.Evaluator", mktfhe.NewEvaluator(mp, nil), mp.SubParams(), mp.PartyCount())
	}
}

func multi[T tfhe.TorusInt](t *rapid.T, l tfhe.ParametersLiteral[T]) mktfhe.Parameters[T] {
	l.GLWERank = 1
	l.LUTSize = l.PolyRank
	if l.LWEDimension > l.PolyRank {
		l.LWEDimension = l.BlockSize * (l.PolyRank / l.BlockSize)
	}
	g := tfhe.GadgetParametersLiteral[T]{Base: 1 << 5, Level: 3}
	return mktfhe.ParametersLiteral[T]{SubParams: l, PartyCount: rapid.IntRange(1, 4).Draw(t, "parties"), AccumulatorParams: g, RelinKeyParams: g}.Compile()
}

// publicCase: public keys need OrderKeySwitchBlindRotate.
func publicCase[T tfhe.TorusInt](t *rapid.T) {
	l := small[T](t, -1)
	p := l.Compile()
	ok := l.BootstrapOrder == tfhe.OrderKeySwitchBlindRotate
	if p.IsPublicKeyEncryptable() != ok {
		t.Fatalf("IsPublicKeyEncryptable() = %v for order %v", p.IsPublicKeyEncryptable(), l.BootstrapOrder)
	}
	pk := tfhe.NewPublicKeyCustom[T](p.GLWERank(), p.PolyRank())
	switch rapid.IntRange(0, 8).Draw(t, "call") {
	case 0:
		must(t, "tfhe.NewPublicKey", ok, func() { tfhe.NewPublicKey(p) })
	case 1:
		must(t, "tfhe.Encryptor.GenPublicKey", ok, func() { tfhe.NewEncryptor(p).GenPublicKey() })
	case 2:
		must(t, "tfhe.BinaryEncryptor.GenPublicKey", ok, func() { tfhe.NewBinaryEncryptor(p).GenPublicKey() })
	case 3:
		must(t, "tfhe.BinaryEncryptor.PublicEncryptor", ok, func() { tfhe.NewBinaryEncryptor(p).PublicEncryptor() })
	case 4:
		must(t, "tfhe.NewPublicEncryptor", ok, func() { tfhe.NewPublicEncryptor(p, pk) })
	case 5:
		must(t, "tfhe.NewBinaryPublicEncryptor", ok, func() { tfhe.NewBinaryPublicEncryptor(p, pk) })
	default:
		mp := multi(t, l)
		i := rapid.IntRange(0, mp.PartyCount()-1).Draw(t, "party")
		switch rapid.IntRange(0, 2).Draw(t, "mkcall") {
		case 0:
			must(t, "mktfhe.Encryptor.GenPublicKey", ok, func() { mktfhe.NewEncryptor(mp, i, nil).GenPublicKey() })
		case 1:
			must(t, "mktfhe.BinaryEncryptor.GenPublicKey", ok, func() { mktfhe.NewBinaryEncryptor(mp, i, nil).GenPublicKey() })
		default:
			must(t, "mktfhe.BinaryEncryptor.PublicEncryptor", ok, func() { mktfhe.NewBinaryEncryptor(mp, i, nil).PublicEncryptor() })
		}
	}
}

// partyCase: party indices and shapes of single-key ciphertexts.
func partyCase[T tfhe.TorusInt](t *rapid.T) {
	mp := multi(t, small[T](t, -1))
	k := mp.PartyCount()
	N := mp.PolyRank()
	rank := rapid.IntRange(1, 3).Draw(t, "rank")
	i := rapid.IntRange(0, k-1).Draw(t, "party")
	switch rapid.IntRange(0, 4).Draw(t, "call") {
	case 0:
		// An index equal to the count is not judged.
		if i = rapid.IntRange(0, 2*k+2).Draw(t, "index"); i != k {
			must(t, "mktfhe.NewEncryptor", i < k, func() { mktfhe.NewEncryptor(mp, i, []byte{1}) })
		}
	case 1:
		if i = rapid.IntRange(0, 2*k+2).Draw(t, "index"); i != k {
			sk := tfhe.NewEncryptor(mp.SubParams()).SecretKey
			must(t, "mktfhe.NewEncryptorWithKey", i < k, func() { mktfhe.NewEncryptorWithKey(mp, i, []byte{1}, sk) })
		}
	case 2:
		c := mktfhe.NewGLWECiphertext(mp)
		must(t, "mktfhe.GLWECiphertext.CopyFromSubKey", rank == 1, func() { c.CopyFromSubKey(tfhe.NewGLWECiphertextCustom[T](rank, N), i) })
	case 3:
		c := mktfhe.NewFFTGLWECiphertext(mp)
		must(t, "mktfhe.FFTGLWECiphertext.CopyFromSubKey", rank == 1, func() { c.CopyFromSubKey(tfhe.NewFFTGLWECiphertextCustom[T](rank, N), i) })
	default:
		n := rapid.IntRange(1, 12).Draw(t, "n")
		D := rapid.IntRange(1, 4).Draw(t, "times")*n + rapid.SampledFrom([]int{0, 0, 1, n - 1}).Draw(t, "rest")
		c := mktfhe.NewLWECiphertextCustom[T](D)
		must(t, fmt.Sprintf("mktfhe.LWECiphertext.CopyFromSubKey(%d of %d)", n, D), D%n == 0, func() { c.CopyFromSubKey(tfhe.NewLWECiphertextCustom[T](n), 0) })
	}
}

// bfvCase: automorphisms need their keys.
func bfvCase[T tfhe.TorusInt](t *rapid.T) {
	p := small[T](t, -1).Compile()
	kg := xtfhe.NewBFVKeyGenerator(p, tfhe.NewEncryptor(p).SecretKey)
	g := tfhe.GadgetParametersLiteral[T]{Base: 1 << 5, Level: 3}.Compile()
	odd := rapid.Custom(func(t *rapid.T) int { return 2*rapid.IntRange(0, p.PolyRank()-1).Draw(t, "half") + 1 })
	have := rapid.SliceOfN(odd, 0, 3).Draw(t, "have")
	ev := xtfhe.NewBFVEvaluator(p, kg.GenEvalKey(have, g))
	d := odd.Draw(t, "d")
	if len(have) > 0 && rapid.Bool().Draw(t, "present") {
		d = have[0]
	}
	ok := false
	for _, x := range have {
		ok = ok || x == d
	}
	ct := tfhe.NewGLWECiphertext(p)
	if rapid.Bool().Draw(t, "to") {
		must(t, "xtfhe.BFVEvaluator.PermuteTo", ok, func() { ev.PermuteTo(tfhe.NewGLWECiphertext(p), ct, d) })
	} else {
		must(t, "xtfhe.BFVEvaluator.Permute", ok, func() { ev.Permute(ct, d) })
	}
}

// rankCase: polynomials need powers of two of at least MinRank.
func rankCase[T tfhe.TorusInt](t *rapid.T) {
	N := rapid.IntRange(-20, 300).Draw(t, "N")
	if rapid.Bool().Draw(t, "power") {
		N = 1 << uint(rapid.IntRange(0, 10).Draw(t, "logN"))
	}
	ok := N >= poly.MinRank && N&(N-1) == 0
	switch rapid.IntRange(0, 2).Draw(t, "call") {
	case 0:
		must(t, fmt.Sprintf("poly.NewPoly(%d)", N), ok, func() { poly.NewPoly[T](N) })
	case 1:
		must(t, fmt.Sprintf("poly.NewFFTPoly(%d)", N), ok, func() { poly.NewFFTPoly(N) })
	default:
		must(t, fmt.Sprintf("poly.NewEvaluator(%d)", N), ok, func() { poly.NewEvaluator[T](N) })
	}
}

// gaussCase: deviations are not negative.
func gaussCase[T tfhe.TorusInt](t *rapid.T) {
	s := csprng.NewGaussianSampler[T]()
	sd := rapid.SampledFrom([]float64{0, 1e-300, 0.5, 3.2, 1e6, -1e-300, -0.5, -1, -3.2, -1e6, math.Inf(-1), math.Copysign(0, -1)}).Draw(t, "deviation")
	ok := sd >= 0
	v := make([]T, rapid.IntRange(1, 20).Draw(t, "n"))
	p := poly.NewPoly[T](16)
	switch rapid.IntRange(0, 4).Draw(t, "call") {
	case 0:
		must(t, fmt.Sprintf("csprng.GaussianSampler.Sample(%v)", sd), ok, func() { s.Sample(sd) })
	case 1:
		must(t, fmt.Sprintf("csprng.GaussianSampler.SampleVecTo(%v)", sd), ok, func() { s.SampleVecTo(v, sd) })
	case 2:
		must(t, fmt.Sprintf("csprng.GaussianSampler.SamplePolyTo(%v)", sd), ok, func() { s.SamplePolyTo(p, sd) })
	case 3:
		must(t, fmt.Sprintf("csprng.GaussianSampler.SamplePolyAddTo(%v)", sd), ok, func() { s.SamplePolyAddTo(p, sd) })
	default:
		must(t, fmt.Sprintf("csprng.GaussianSampler.SamplePolySubTo(%v)", sd), ok, func() { s.SamplePolySubTo(p, sd) })
	}
}

func TestPreconditions(t *testing.T) {
	vh.Check(t, "a case calls an operation with arguments inside or outside of its documented precondition and expects a panic exactly outside; non-trivial = outside", 20000, 400000, func(t *rapid.T) {
		switch rapid.IntRange(0, 7).Draw(t, "what") {
		case 0, 1, 2:
			both(t, permuteCase[uint32], permuteCase[uint64])
		case 3:
			both(t, publicCase[uint32], publicCase[uint64])
		case 4:
			both(t, partyCase[uint32], partyCase[uint64])
		case 5:
			both(t, bfvCase[uint32], bfvCase[uint64])
		case 6:
			both(t, rankCase[uint32], rankCase[uint64])
		default:
			both(t, gaussCase[uint32], gaussCase[uint64])
		}
	})
}
