package prec

import (
	"fmt"
	"reflect"
	"strings"
	"testing"

	"github.com/sp301415/tfhe-go/mktfhe"
	"github.com/sp301415/tfhe-go/tfhe"
	"github.com/sp301415/tfhe-go/xtfhe"
	"pgregory.net/rapid"

	"verifharness/tf"
	"verifharness/vh"
)

// shape renders the nesting of an object: lengths, element types and gadget parameters.
func shape[T tfhe.TorusInt](v reflect.Value) string {
	switch v.Kind() {
	case reflect.Struct:
		if v.CanInterface() {
			if g, ok := v.Interface().(tfhe.GadgetParameters[T]); ok {
				return gad(g)
			}
		}
		var s []string
		for i := 0; i < v.NumField(); i++ {
			if f := shape[T](v.Field(i)); f != "" {
				s = append(s, f)
			}
		}
		if len(s) == 1 {
			return s[0]
		}
		return "{" + strings.Join(s, " ") + "}"
	case reflect.Slice:
		if v.Len() == 0 {
			return "0"
		}
		first := shape[T](v.Index(0))
		for i := 1; i < v.Len(); i++ {
			if s := shape[T](v.Index(i)); s != first {
				return fmt.Sprintf("mixed %s and %s", first, s)
			}
		}
		return n(v.Len(), first)
	default:
		return v.Kind().String()
	}
}

func gad[T tfhe.TorusInt](g tfhe.GadgetParameters[T]) string {
	return fmt.Sprintf("%d^%d", g.Base(), g.Level())
}

// n is the shape of a slice.
func n(k int, elem string) string {
	if k == 0 {
		return "0"
	}
	return fmt.Sprintf("%d*%s", k, elem)
}

// with is the shape of a value with gadget parameters.
func with(g, v string) string { return "{" + g + " " + v + "}" }

// zero says whether all scalars besides the parameters are zero, and separate whether
// each can be written without changing another one.
func zero(what string, o any, t *rapid.T) {
	for _, l := range tf.Leaves(o, "GadgetParams") {
		if l.V.IsValid() && l.Bits != 0 {
			t.Fatalf("%s: %s is %#x", what, l.Path, l.Bits)
		}
	}
}

func separate(what string, o any, t *rapid.T) {
	set := func(l tf.Leaf, x int) {
		switch l.V.Kind() {
		case reflect.Float64:
			l.V.SetFloat(float64(x))
		case reflect.Uint32, reflect.Uint64:
			l.V.SetUint(uint64(x))
		default:
			t.Fatalf("%s: %s has kind %v", what, l.Path, l.V.Kind())
		}
	}
	ls := tf.Leaves(o, "GadgetParams")
	for i, l := range ls {
		if l.V.IsValid() {
			set(l, i+1)
		}
	}
	for i, l := range ls {
		if !l.V.IsValid() {
			continue
		}
		got := 0
		if l.V.Kind() == reflect.Float64 {
			got = int(l.V.Float())
		} else {
			got = int(l.V.Uint())
		}
		if got != i+1 {
			t.Fatalf("%s: %s shares memory with %s", what, l.Path, ls[got-1].Path)
		}
	}
}

type made struct {
	name  string
	shape string
	make  func() any // a pointer to the object
}

func ptr[V any](f func() V) func() any { return func() any { v := f(); return &v } }

func shapeCase[T tfhe.TorusInt](t *rapid.T) {
	l := tf.Draw[T](t, tf.Opts{LogN: [2]int{4, 6}, MaxRank: 3, MaxLWE: 12, Order: -1, Extend: []int{1, 2, 4}}).Lit
	p := l.Compile()
	k, N, d := l.GLWERank, l.PolyRank, l.LWEDimension
	D := d
	if l.BootstrapOrder == tfhe.OrderKeySwitchBlindRotate {
		D = k * N
	}
	T0 := "uint32"
	if tf.Bits[T]() == 64 {
		T0 = "uint64"
	}
	lit := func(name string) tfhe.GadgetParameters[T] {
		return tfhe.GadgetParametersLiteral[T]{Base: 1 << uint(rapid.IntRange(1, 4).Draw(t, name+"Base")), Level: rapid.IntRange(1, 5).Draw(t, name+"Level")}.Compile()
	}
	g, h, r := lit("g"), lit("h"), lit("r")
	// Dimensions of their own for the custom constructors.
	k1, N1, d1 := rapid.IntRange(1, 3).Draw(t, "k1"), 1<<rapid.IntRange(4, 6).Draw(t, "logN1"), rapid.IntRange(1, 16).Draw(t, "d1")
	in := rapid.IntRange(1, 5).Draw(t, "in")

	pol := func(N int) string { return n(N, T0) }
	fft := func(N int) string { return n(N, "float64") }
	lwe := func(d int) string { return n(d+1, T0) }
	glwe := func(k, N int) string { return n(k+1, pol(N)) }
	fglwe := func(k, N int) string { return n(k+1, fft(N)) }
	lev := func(g tfhe.GadgetParameters[T], row string) string { return with(gad(g), n(g.Level(), row)) }
	gsw := func(g tfhe.GadgetParameters[T], rows int, row string) string {
		return with(gad(g), n(rows, lev(g, row)))
	}
	sk := func(d, k, N int) string {
		return "{" + strings.Join([]string{n(k*N, T0), n(k, pol(N)), n(k, fft(N)), n(d, T0)}, " ") + "}"
	}
	pub := func(k, N int) string { return n(k, glwe(k, N)) }
	brk := func(g tfhe.GadgetParameters[T], d, k, N int) string {
		return with(gad(g), n(d, gsw(g, k+1, fglwe(k, N))))
	}
	evk := func(b, s tfhe.GadgetParameters[T], d, k, N int) string {
		return "{" + brk(b, d, k, N) + " " + gsw(s, k*N-d, lwe(d)) + "}"
	}
	uni := func(g tfhe.GadgetParameters[T], row string) string { return gsw(g, 2, row) }
	mevk := func(b, s, r tfhe.GadgetParameters[T], d, N int) string {
		return "{" + evk(b, s, d, 1, N) + " " + lev(r, fglwe(1, N)) + " " + uni(r, fglwe(1, N)) + "}"
	}
	list := []made{
		{"NewLWESecretKey", n(D, T0), ptr(func() tfhe.LWESecretKey[T] { return tfhe.NewLWESecretKey(p) })},
		{"NewLWESecretKeyCustom", n(d1, T0), ptr(func() tfhe.LWESecretKey[T] { return tfhe.NewLWESecretKeyCustom[T](d1) })},
		{"NewLWEPublicKeyCustom", pub(k1, N1), ptr(func() tfhe.LWEPublicKey[T] { return tfhe.NewLWEPublicKeyCustom[T](k1, N1) })},
		{"NewLWEPlaintext", T0, ptr(func() tfhe.LWEPlaintext[T] { return tfhe.NewLWEPlaintext[T]() })},
		{"NewLWECiphertext", lwe(D), ptr(func() tfhe.LWECiphertext[T] { return tfhe.NewLWECiphertext(p) })},
		{"NewLWECiphertextCustom", lwe(d1), ptr(func() tfhe.LWECiphertext[T] { return tfhe.NewLWECiphertextCustom[T](d1) })},
		{"NewLevCiphertext", lev(g, lwe(D)), ptr(func() tfhe.LevCiphertext[T] { return tfhe.NewLevCiphertext(p, g) })},
		{"NewLevCiphertextCustom", lev(g, lwe(d1)), ptr(func() tfhe.LevCiphertext[T] { return tfhe.NewLevCiphertextCustom(d1, g) })},
		{"NewGSWCiphertext", gsw(g, D+1, lwe(D)), ptr(func() tfhe.GSWCiphertext[T] { return tfhe.NewGSWCiphertext(p, g) })},
		{"NewGSWCiphertextCustom", gsw(g, d1+1, lwe(d1)), ptr(func() tfhe.GSWCiphertext[T] { return tfhe.NewGSWCiphertextCustom(d1, g) })},
		{"NewGLWESecretKey", n(k, pol(N)), ptr(func() tfhe.GLWESecretKey[T] { return tfhe.NewGLWESecretKey(p) })},
		{"NewGLWESecretKeyCustom", n(k1, pol(N1)), ptr(func() tfhe.GLWESecretKey[T] { return tfhe.NewGLWESecretKeyCustom[T](k1, N1) })},
		{"NewGLWEPublicKey", pub(k, N), ptr(func() tfhe.GLWEPublicKey[T] { return tfhe.NewGLWEPublicKey(p) })},
		{"NewGLWEPublicKeyCustom", pub(k1, N1), ptr(func() tfhe.GLWEPublicKey[T] { return tfhe.NewGLWEPublicKeyCustom[T](k1, N1) })},
		{"NewGLWEPlaintext", pol(N), ptr(func() tfhe.GLWEPlaintext[T] { return tfhe.NewGLWEPlaintext(p) })},
		{"NewGLWEPlaintextCustom", pol(N1), ptr(func() tfhe.GLWEPlaintext[T] { return tfhe.NewGLWEPlaintextCustom[T](N1) })},
		{"NewGLWECiphertext", glwe(k, N), ptr(func() tfhe.GLWECiphertext[T] { return tfhe.NewGLWECiphertext(p) })},
		{"NewGLWECiphertextCustom", glwe(k1, N1), ptr(func() tfhe.GLWECiphertext[T] { return tfhe.NewGLWECiphertextCustom[T](k1, N1) })},
		{"NewGLevCiphertext", lev(g, glwe(k, N)), ptr(func() tfhe.GLevCiphertext[T] { return tfhe.NewGLevCiphertext(p, g) })},
		{"NewGLevCiphertextCustom", lev(g, glwe(k1, N1)), ptr(func() tfhe.GLevCiphertext[T] { return tfhe.NewGLevCiphertextCustom(k1, N1, g) })},
		{"NewGGSWCiphertext", gsw(g, k+1, glwe(k, N)), ptr(func() tfhe.GGSWCiphertext[T] { return tfhe.NewGGSWCiphertext(p, g) })},
		{"NewGGSWCiphertextCustom", gsw(g, k1+1, glwe(k1, N1)), ptr(func() tfhe.GGSWCiphertext[T] { return tfhe.NewGGSWCiphertextCustom(k1, N1, g) })},
		{"NewFFTGLWESecretKey", n(k, fft(N)), ptr(func() tfhe.FFTGLWESecretKey[T] { return tfhe.NewFFTGLWESecretKey(p) })},
		{"NewFFTGLWESecretKeyCustom", n(k1, fft(N1)), ptr(func() tfhe.FFTGLWESecretKey[T] { return tfhe.NewFFTGLWESecretKeyCustom[T](k1, N1) })},
		{"NewFFTGLWECiphertext", fglwe(k, N), ptr(func() tfhe.FFTGLWECiphertext[T] { return tfhe.NewFFTGLWECiphertext(p) })},
		{"NewFFTGLWECiphertextCustom", fglwe(k1, N1), ptr(func() tfhe.FFTGLWECiphertext[T] { return tfhe.NewFFTGLWECiphertextCustom[T](k1, N1) })},
		{"NewFFTGLevCiphertext", lev(g, fglwe(k, N)), ptr(func() tfhe.FFTGLevCiphertext[T] { return tfhe.NewFFTGLevCiphertext(p, g) })},
		{"NewFFTGLevCiphertextCustom", lev(g, fglwe(k1, N1)), ptr(func() tfhe.FFTGLevCiphertext[T] { return tfhe.NewFFTGLevCiphertextCustom(k1, N1, g) })},
		{"NewFFTGGSWCiphertext", gsw(g, k+1, fglwe(k, N)), ptr(func() tfhe.FFTGGSWCiphertext[T] { return tfhe.NewFFTGGSWCiphertext(p, g) })},
		{"NewFFTGGSWCiphertextCustom", gsw(g, k1+1, fglwe(k1, N1)), ptr(func() tfhe.FFTGGSWCiphertext[T] { return tfhe.NewFFTGGSWCiphertextCustom(k1, N1, g) })},
		{"NewLWEKeySwitchKey", gsw(g, in, lwe(D)), ptr(func() tfhe.LWEKeySwitchKey[T] { return tfhe.NewLWEKeySwitchKey(p, in, g) })},
		{"NewLWEKeySwitchKeyCustom", gsw(g, in, lwe(d1)), ptr(func() tfhe.LWEKeySwitchKey[T] { return tfhe.NewLWEKeySwitchKeyCustom(in, d1, g) })},
		{"NewKeySwitchKeyForBootstrap", gsw(p.KeySwitchParams(), k*N-d, lwe(d)), ptr(func() tfhe.LWEKeySwitchKey[T] { return tfhe.NewKeySwitchKeyForBootstrap(p) })},
		{"NewKeySwitchKeyForBootstrapCustom", gsw(g, k1*N1-d1, lwe(d1)), ptr(func() tfhe.LWEKeySwitchKey[T] { return tfhe.NewKeySwitchKeyForBootstrapCustom(d1, k1, N1, g) })},
		{"NewGLWEKeySwitchKey", gsw(g, in, fglwe(k, N)), ptr(func() tfhe.GLWEKeySwitchKey[T] { return tfhe.NewGLWEKeySwitchKey(p, in, g) })},
		{"NewGLWEKeySwitchKeyCustom", gsw(g, in, fglwe(k1, N1)), ptr(func() tfhe.GLWEKeySwitchKey[T] { return tfhe.NewGLWEKeySwitchKeyCustom(in, k1, N1, g) })},
		{"NewBlindRotateKey", brk(p.BlindRotateParams(), d, k, N), ptr(func() tfhe.BlindRotateKey[T] { return tfhe.NewBlindRotateKey(p) })},
		{"NewBlindRotateKeyCustom", brk(g, d1, k1, N1), ptr(func() tfhe.BlindRotateKey[T] { return tfhe.NewBlindRotateKeyCustom(d1, k1, N1, g) })},
		{"NewEvaluationKey", evk(p.BlindRotateParams(), p.KeySwitchParams(), d, k, N), ptr(func() tfhe.EvaluationKey[T] { return tfhe.NewEvaluationKey(p) })},
		{"NewEvaluationKeyCustom", evk(g, h, d1, k1, N1), ptr(func() tfhe.EvaluationKey[T] { return tfhe.NewEvaluationKeyCustom(d1, k1, N1, g, h) })},
		{"NewSecretKey", sk(d, k, N), ptr(func() tfhe.SecretKey[T] { return tfhe.NewSecretKey(p) })},
		{"NewSecretKeyCustom", sk(d1, k1, N1), ptr(func() tfhe.SecretKey[T] { return tfhe.NewSecretKeyCustom[T](d1, k1, N1) })},
		{"NewPublicKeyCustom", "{" + pub(k1, N1) + " " + pub(k1, N1) + "}", ptr(func() tfhe.PublicKey[T] { return tfhe.NewPublicKeyCustom[T](k1, N1) })},
		{"NewLUT", n(l.LUTSize/N, pol(N)), ptr(func() tfhe.LookUpTable[T] { return tfhe.NewLUT(p) })},
		{"NewLUTCustom", n(in, pol(N1)), ptr(func() tfhe.LookUpTable[T] { return tfhe.NewLUTCustom[T](in, N1) })},
	}
	if p.IsPublicKeyEncryptable() {
		list = append(list,
			made{"NewLWEPublicKey", pub(k, N), ptr(func() tfhe.LWEPublicKey[T] { return tfhe.NewLWEPublicKey(p) })},
			made{"NewPublicKey", "{" + pub(k, N) + " " + pub(k, N) + "}", ptr(func() tfhe.PublicKey[T] { return tfhe.NewPublicKey(p) })})
	}
	mp := multi(t, l)
	m, mN, md := mp.PartyCount(), mp.PolyRank(), mp.SubParams().LWEDimension()
	mD := md
	if mp.BootstrapOrder() == tfhe.OrderKeySwitchBlindRotate {
		mD = mN
	}
	list = append(list,
		made{"mktfhe.NewLWECiphertext", lwe(m * mD), ptr(func() mktfhe.LWECiphertext[T] { return mktfhe.NewLWECiphertext(mp) })},
		made{"mktfhe.NewLWECiphertextCustom", lwe(d1), ptr(func() mktfhe.LWECiphertext[T] { return mktfhe.NewLWECiphertextCustom[T](d1) })},
		made{"mktfhe.NewGLWECiphertext", glwe(m, mN), ptr(func() mktfhe.GLWECiphertext[T] { return mktfhe.NewGLWECiphertext(mp) })},
		made{"mktfhe.NewGLWECiphertextCustom", glwe(k1, N1), ptr(func() mktfhe.GLWECiphertext[T] { return mktfhe.NewGLWECiphertextCustom[T](k1, N1) })},
		made{"mktfhe.NewFFTGLWECiphertext", fglwe(m, mN), ptr(func() mktfhe.FFTGLWECiphertext[T] { return mktfhe.NewFFTGLWECiphertext(mp) })},
		made{"mktfhe.NewFFTGLWECiphertextCustom", fglwe(k1, N1), ptr(func() mktfhe.FFTGLWECiphertext[T] { return mktfhe.NewFFTGLWECiphertextCustom[T](k1, N1) })},
		made{"mktfhe.NewUniEncryption", uni(g, glwe(1, mN)), ptr(func() mktfhe.UniEncryption[T] { return mktfhe.NewUniEncryption(mp, g) })},
		made{"mktfhe.NewUniEncryptionCustom", uni(g, glwe(1, N1)), ptr(func() mktfhe.UniEncryption[T] { return mktfhe.NewUniEncryptionCustom(N1, g) })},
		made{"mktfhe.NewFFTUniEncryption", uni(g, fglwe(1, mN)), ptr(func() mktfhe.FFTUniEncryption[T] { return mktfhe.NewFFTUniEncryption(mp, g) })},
		made{"mktfhe.NewFFTUniEncryptionCustom", uni(g, fglwe(1, N1)), ptr(func() mktfhe.FFTUniEncryption[T] { return mktfhe.NewFFTUniEncryptionCustom(N1, g) })},
		made{"mktfhe.NewEvaluationKey", mevk(mp.BlindRotateParams(), mp.KeySwitchParams(), mp.RelinKeyParameters(), md, mN), ptr(func() mktfhe.EvaluationKey[T] { return mktfhe.NewEvaluationKey(mp) })},
		made{"mktfhe.NewEvaluationKeyCustom", mevk(g, h, r, d1, N1), ptr(func() mktfhe.EvaluationKey[T] { return mktfhe.NewEvaluationKeyCustom(d1, N1, g, h, r) })},
	)
	// What operations return has the shape of what the constructors return.
	same := func(what string, a, b any) {
		x, y := shape[T](reflect.ValueOf(a)), shape[T](reflect.ValueOf(b))
		if x != y {
			t.Fatalf("%s has shape %s instead of %s (%v)", what, x, y, p)
		}
		vh.Label("%s", what)
	}
	if rapid.IntRange(0, 9).Draw(t, "generate") == 0 {
		enc := tfhe.NewEncryptor(p)
		same("generated secret key", enc.GenSecretKey(), tfhe.NewSecretKey(p))
		if p.IsPublicKeyEncryptable() {
			same("generated public key", enc.GenPublicKey(), tfhe.NewPublicKey(p))
		}
		same("generated evaluation key", enc.GenEvalKey(), tfhe.NewEvaluationKey(p))
		same("generated evaluation key (parallel)", enc.GenEvalKeyParallel(), tfhe.NewEvaluationKey(p))
		same("LWE ciphertext", enc.EncryptLWE(0), tfhe.NewLWECiphertext(p))
		same("GLWE ciphertext", enc.EncryptGLWE([]int{1}), tfhe.NewGLWECiphertext(p))
		same("Lev ciphertext", enc.EncryptLev(0, g), tfhe.NewLevCiphertext(p, g))
		same("GSW ciphertext", enc.EncryptGSW(0, g), tfhe.NewGSWCiphertext(p, g))
		same("GLev ciphertext", enc.EncryptGLev([]int{1}, g), tfhe.NewGLevCiphertext(p, g))
		same("GGSW ciphertext", enc.EncryptGGSW([]int{1}, g), tfhe.NewGGSWCiphertext(p, g))
		same("FFTGLWE ciphertext", enc.EncryptFFTGLWE([]int{1}), tfhe.NewFFTGLWECiphertext(p))
		same("FFTGLev ciphertext", enc.EncryptFFTGLev([]int{1}, g), tfhe.NewFFTGLevCiphertext(p, g))
		same("FFTGGSW ciphertext", enc.EncryptFFTGGSW([]int{1}, g), tfhe.NewFFTGGSWCiphertext(p, g))
		kg := xtfhe.NewBFVKeyGenerator(p, enc.SecretKey)
		same("relinearization key", kg.GenRelinKey(g), tfhe.NewGLWEKeySwitchKey(p, k*(k+1)/2, g))
		for _, a := range kg.GenGaloisKeys([]int{3}, g) {
			same("automorphism key", a, tfhe.NewGLWEKeySwitchKey(p, k, g))
		}
		me := mktfhe.NewEncryptor(mp, 0, []byte{1})
		same("multi-key evaluation key", me.GenEvalKey(), mktfhe.NewEvaluationKey(mp))
		same("multi-key evaluation key (parallel)", me.GenEvalKeyParallel(), mktfhe.NewEvaluationKey(mp))
		same("multi-key LWE ciphertext", me.EncryptLWE(0), mktfhe.NewLWECiphertext(mp))
		same("multi-key GLWE ciphertext", me.EncryptGLWE([]int{1}), mktfhe.NewGLWECiphertext(mp))
		same("multi-key FFTGLWE ciphertext", me.EncryptFFTGLWE([]int{1}), mktfhe.NewFFTGLWECiphertext(mp))
	}
	for i := 0; i < 12; i++ {
		c := rapid.SampledFrom(list).Draw(t, "constructor")
		if (c.name == "NewKeySwitchKeyForBootstrapCustom" || c.name == "NewEvaluationKeyCustom") && k1*N1 < d1 || c.name == "mktfhe.NewEvaluationKeyCustom" && N1 < d1 {
			continue
		}
		if (c.name == "NewSecretKeyCustom") && k1*N1 < d1 {
			continue
		}
		o := c.make()
		if s := shape[T](reflect.ValueOf(o).Elem()); s != c.shape {
			t.Fatalf("%s has shape %s instead of %s (%+v custom %d %d %d)", c.name, s, c.shape, l, k1, N1, d1)
		}
		zero(c.name, o, t)
		if s, ok := o.(*tfhe.SecretKey[T]); ok {
			// The LWE and GLWE keys are the same key.
			separate(c.name, &s.FFTGLWEKey, t)
			separate(c.name, &s.LWELargeKey, t)
			for j, x := range s.LWELargeKey.Value {
				if N := len(s.GLWEKey.Value[0].Coeffs); s.GLWEKey.Value[j/N].Coeffs[j%N] != x || j < len(s.LWEKey.Value) && s.LWEKey.Value[j] != x {
					t.Fatalf("%s: entry %d of the keys differs", c.name, j)
				}
			}
		} else {
			separate(c.name, o, t)
		}
		vh.Label("%s", c.name)
		vh.Case(true, "%s: %s", c.name, c.shape)
	}
}

func TestShapes(t *testing.T) {
	vh.Check(t, "a case constructs an object from generated parameters or dimensions and compares its nesting with the definition, its scalars with zero, and checks that no two share memory; every case is non-trivial", 800, 20000, func(t *rapid.T) {
		both(t, shapeCase[uint32], shapeCase[uint64])
	})
}
