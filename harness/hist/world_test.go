package hist

import (
	_ "embed"
	"reflect"
	"strings"

	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/mktfhe"
	"github.com/sp301415/tfhe-go/tfhe"
	"github.com/sp301415/tfhe-go/xtfhe"
	"pgregory.net/rapid"

	"verifharness/tf"
	"verifharness/vh"
)

// methods lists the operations whose results are a function of their arguments.
//
//go:embed methods.txt
var methods string

// subject is a type with operations.
type subject struct {
	name  string
	fresh func() any // an unused instance with the same keys
	calls []string
}

// world is a parameter set with everything operations need.
type world[T tfhe.TorusInt] struct {
	tf.Gen[T]
	set   tf.Set[T]
	p     tfhe.Parameters[T]
	mp    mktfhe.Parameters[T]
	in    []int // present parties
	ev    *poly.Evaluator[T]
	auto  []int // automorphisms with keys
	out   tfhe.GadgetParameters[T]
	relin tfhe.GadgetParameters[T]
	cnt   int // number of tables evaluated at once

	// Of the current call:
	g     tfhe.GadgetParameters[T]
	dim   int // input dimension of key switching
	mod   T
	again bool // keep the above
	subs  []*subject
}

var subjectNames = []string{"tfhe.Evaluator", "tfhe.BinaryEvaluator", "tfhe.Encryptor", "tfhe.Decomposer", "tfhe.Encoder", "tfhe.GLWETransformer",
	"mktfhe.Evaluator", "mktfhe.GLWETransformer", "mktfhe.BinaryEvaluator", "mktfhe.Decryptor", "mktfhe.BinaryDecryptor", "mktfhe.Encryptor",
	"xtfhe.BFVEvaluator", "xtfhe.ManyLUTEvaluator", "xtfhe.FHEWEvaluator", "xtfhe.CircuitBootstrapper", "poly.Evaluator"}

func callsOf(name string) []string {
	var out []string
	// Transformers are embedded in evaluators.
	if pkg := strings.TrimSuffix(name, ".GLWETransformer"); pkg != name {
		for _, m := range callsOf(pkg + ".Evaluator") {
			if (strings.HasPrefix(m, "Fwd") || strings.HasPrefix(m, "Inv")) && (strings.Contains(m, "GLWE") || strings.Contains(m, "GLev") || strings.Contains(m, "GGSW") || strings.Contains(m, "Uni")) {
				out = append(out, m)
			}
		}
		return out
	}
	for _, m := range strings.Fields(methods) {
		if strings.HasPrefix(m, name+".") {
			out = append(out, m[len(name)+1:])
		}
	}
	return out
}

func lits[T tfhe.TorusInt](g tfhe.GadgetParameters[T]) tfhe.GadgetParametersLiteral[T] {
	return tfhe.GadgetParametersLiteral[T]{Base: g.Base(), Level: g.Level()}
}

// newWorld draws parameters and builds one subject.
func newWorld[T tfhe.TorusInt](t *rapid.T, name string) (*world[T], *subject) {
	mk := strings.HasPrefix(name, "mktfhe")
	o := tf.Opts{LogN: [2]int{4, 6}, MaxRank: 3, Extend: []int{1, 1, 2, 4}, Order: -1, BlockCount: true, MaxLWE: 12}
	if mk {
		o.MaxRank, o.Extend = 1, nil
	}
	if name == "xtfhe.ManyLUTEvaluator" || name == "xtfhe.CircuitBootstrapper" {
		o.Extend = nil
	}
	if name == "mktfhe.Encryptor" {
		o.Order = int(tfhe.OrderKeySwitchBlindRotate)
	}
	w := &world[T]{set: tf.Draw[T](t, o)}
	l := w.set.Lit
	if name == "xtfhe.FHEWEvaluator" {
		l.BlockSize = 1
		l.LUTSize = l.PolyRank
	}
	w.p = l.Compile()
	w.T, w.P, w.N = t, vh.NewPRNG(rapid.Uint64().Draw(t, "data")), w.p.PolyRank()
	w.On = w.set.String
	w.ev = poly.NewEvaluator[T](w.N)
	gad := func(name string) tfhe.GadgetParameters[T] { return tf.DrawGadgetFor[T](t, name, tf.Bits[T]()/3, 4) }
	s := &subject{name: name, calls: callsOf(name)}
	enc := tfhe.NewEncryptor(w.p)
	sk := enc.SecretKey

	if mk {
		k := rapid.IntRange(1, 3).Draw(t, "parties")
		mlit := mktfhe.ParametersLiteral[T]{SubParams: l, PartyCount: k, AccumulatorParams: lits(gad("acc")), RelinKeyParams: lits(gad("relin"))}
		w.mp = mlit.Compile()
		w.relin = mlit.RelinKeyParams.Compile()
		w.p = w.mp.SubParams()
		seed := []byte{byte(w.P.U64())}
		evks := map[int]mktfhe.EvaluationKey[T]{}
		sks := map[int]tfhe.SecretKey[T]{}
		var e0 *mktfhe.Encryptor[T]
		for i := 0; i < k; i++ {
			if i > 0 && w.P.N(4) == 0 {
				continue
			}
			e := mktfhe.NewEncryptor(w.mp, i, seed)
			w.in = append(w.in, i)
			sks[i] = e.SecretKey
			evks[i] = e.GenEvalKey()
			if e0 == nil {
				e0 = e
			}
		}
		switch name {
		case "mktfhe.Evaluator":
			s.fresh = func() any { return mktfhe.NewEvaluator(w.mp, evks) }
		case "mktfhe.BinaryEvaluator":
			s.fresh = func() any { return mktfhe.NewBinaryEvaluator(w.mp, evks) }
		case "mktfhe.GLWETransformer":
			s.fresh = func() any { return mktfhe.NewGLWETransformer[T](w.N) }
		case "mktfhe.Decryptor":
			s.fresh = func() any { return mktfhe.NewDecryptor(w.mp, sks) }
		case "mktfhe.BinaryDecryptor":
			s.fresh = func() any { return mktfhe.NewBinaryDecryptor(w.mp, sks) }
		case "mktfhe.Encryptor":
			s.fresh = func() any { return mktfhe.NewEncryptorWithKey(w.mp, w.in[0], seed, sks[w.in[0]]) }
		}
		return w, s
	}
	switch name {
	case "tfhe.Evaluator":
		evk := enc.GenEvalKey()
		s.fresh = func() any { return tfhe.NewEvaluator(w.p, evk) }
	case "tfhe.BinaryEvaluator":
		evk := enc.GenEvalKey()
		s.fresh = func() any { return tfhe.NewBinaryEvaluator(w.p, evk) }
	case "tfhe.Encryptor":
		s.fresh = func() any { return tfhe.NewEncryptorWithKey(w.p, sk) }
	case "tfhe.Decomposer":
		s.fresh = func() any { return tfhe.NewDecomposer[T](w.N) }
	case "tfhe.Encoder":
		s.fresh = func() any { return tfhe.NewEncoder(w.p) }
	case "tfhe.GLWETransformer":
		s.fresh = func() any { return tfhe.NewGLWETransformer[T](w.N) }
	case "poly.Evaluator":
		s.fresh = func() any { return poly.NewEvaluator[T](w.N) }
	case "xtfhe.BFVEvaluator":
		for i := 0; i < 3; i++ {
			w.auto = append(w.auto, 2*w.P.N(w.N)+1)
		}
		kg := xtfhe.NewBFVKeyGenerator(w.p, sk)
		g := gad("ksk")
		evk := xtfhe.BFVEvaluationKey[T]{RelinKey: kg.GenRelinKey(g), GaloisKeys: kg.GenGaloisKeysForPack(g)}
		for d, k := range kg.GenGaloisKeys(w.auto, g) {
			evk.GaloisKeys[d] = k
		}
		s.fresh = func() any { return xtfhe.NewBFVEvaluator(w.p, evk) }
	case "xtfhe.ManyLUTEvaluator", "xtfhe.CircuitBootstrapper":
		w.cnt = 1 << uint(rapid.IntRange(0, 3).Draw(t, "tables"))
		for int(l.MessageModulus)*w.cnt*2 > l.PolyRank && l.MessageModulus > 1 {
			l.MessageModulus--
		}
		ml := xtfhe.ManyLUTParametersLiteral[T]{BaseParams: l, LUTCount: w.cnt}
		w.p = l.Compile()
		evk := tfhe.NewEncryptorWithKey(w.p, sk).GenEvalKey()
		if name == "xtfhe.ManyLUTEvaluator" {
			s.fresh = func() any { return xtfhe.NewManyLUTEvaluator(ml.Compile(), evk) }
			break
		}
		cp := xtfhe.CircuitBootstrapParametersLiteral[T]{ManyLUTParams: ml, SchemeSwitchParams: lits(gad("scheme")),
			TraceKeySwitchParams: lits(gad("trace")), OutputParams: lits(gad("out"))}.Compile()
		w.out = cp.OutputParams()
		cbk := xtfhe.NewCircuitBootstrapKeyGenerator(cp, sk).GenCircuitBootstrapKey()
		s.fresh = func() any { return xtfhe.NewCircuitBootstrapper(cp, evk, cbk) }
	case "xtfhe.FHEWEvaluator":
		fp := xtfhe.FHEWParametersLiteral[T]{BaseParams: l, SecretKeyStdDev: 3 / tf.Q[T](), WindowSize: 1 + w.P.N(6)}.Compile()
		evk := xtfhe.NewFHEWEncryptor(fp).GenEvalKey()
		s.fresh = func() any { return xtfhe.NewFHEWEvaluator(fp, evk) }
	}
	return w, s
}

func (w *world[T]) lweK(n int) tfhe.LWECiphertext[T] {
	return tfhe.LWECiphertext[T]{Value: w.Vec(n + 1)}
}

func (w *world[T]) rank(k int) tfhe.GLWECiphertext[T] {
	var c tfhe.GLWECiphertext[T]
	for i := 0; i <= k; i++ {
		c.Value = append(c.Value, w.Poly())
	}
	return c
}

func (w *world[T]) fpoly() poly.FFTPoly { return w.ev.FwdFFT(w.Poly()) }

// fourier overwrites a transformed object with the transform of arbitrary polynomials.
func (w *world[T]) fourier(v any) any {
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		if f, ok := v.Interface().(poly.FFTPoly); ok {
			w.ev.FwdFFTTo(f, w.Poly())
			return
		}
		switch v.Kind() {
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if v.Type().Field(i).IsExported() {
					walk(v.Field(i))
				}
			}
		case reflect.Slice:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		}
	}
	walk(reflect.ValueOf(v))
	return v
}

// coeffs overwrites an object with arbitrary values.
func (w *world[T]) coeffs(v any) any {
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if v.Type().Field(i).IsExported() {
					walk(v.Field(i))
				}
			}
		case reflect.Slice:
			if s, ok := v.Interface().([]T); ok {
				copy(s, w.Vec(len(s)))
				return
			}
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		}
	}
	walk(reflect.ValueOf(v))
	return v
}

func (w *world[T]) msgs() []int {
	m := make([]int, []int{w.N, w.N, w.N - 1, 1}[w.P.N(4)])
	for i := range m {
		m[i] = w.P.N(40) - 10
	}
	return m
}

// begin draws what the arguments of one call have in common.
func (w *world[T]) begin(name string) {
	w.g = tf.Lit[T](tf.Gadget{LogBase: 1 + w.P.N(tf.Bits[T]()/4), Level: 1 + w.P.N(4)}).Compile()
	w.dim = 1 + w.P.N(9)
	w.mod = T(1 + w.P.N(9))
	if name == "xtfhe.ManyLUTEvaluator" || name == "xtfhe.CircuitBootstrapper" {
		for int(w.mod)*w.cnt > w.N {
			w.mod--
		}
	}
}

// arg makes argument i of a method.
func (w *world[T]) arg(m string, i int, t reflect.Type, out bool) (any, bool) {
	p, k, N := w.p, w.p.GLWERank(), w.N
	has := func(s string) bool { return strings.HasPrefix(m, s) }
	switch reflect.Zero(t).Interface().(type) {
	case T:
		switch {
		case strings.Contains(m, "Custom") && (i == 1 || i == 2 && strings.HasSuffix(m, "To")):
			return w.mod, true
		case strings.Contains(m, "Custom"):
			return T(w.P.U64()>>uint(1+w.P.N(12))) | 1, true
		}
		return w.Val(), true
	case int:
		switch {
		case has("HybridProd"), has("ExternalProd"):
			return w.in[w.P.N(len(w.in))], true
		case m == "Permute" || m == "PermuteTo":
			return w.auto[w.P.N(len(w.auto))], true
		case has("Permute"):
			return 2*w.P.Range(-2*N, 2*N) + 1, true
		}
		return w.P.Range(-4*N, 4*N), true
	case bool:
		return w.P.N(2) == 0, true
	case float64:
		return (w.P.F() - 0.5) * 64, true
	case complex128:
		return complex((w.P.F()-0.5)*64, (w.P.F()-0.5)*64), true
	case []int:
		if out {
			return make([]int, N), true
		}
		return w.msgs(), true
	case []T:
		return w.Vec(w.g.Level()), true
	case poly.Poly[T]:
		return w.Poly(), true
	case poly.FFTPoly:
		return w.fpoly(), true
	case []poly.Poly[T]:
		var v []poly.Poly[T]
		for j := 0; j < w.g.Level(); j++ {
			v = append(v, w.Poly())
		}
		return v, true
	case []poly.FFTPoly:
		var v []poly.FFTPoly
		for j := 0; j < w.g.Level(); j++ {
			v = append(v, w.fpoly())
		}
		return v, true
	case [][]poly.FFTPoly:
		v := make([][]poly.FFTPoly, k+1)
		for r := range v {
			for j := 0; j < w.g.Level(); j++ {
				v[r] = append(v[r], w.fpoly())
			}
		}
		return v, true
	case tfhe.GadgetParameters[T]:
		return w.g, true
	case tfhe.LWECiphertext[T]:
		n := p.DefaultLWEDimension()
		switch {
		case has("BlindRotate"):
			n = p.LWEDimension()
		case has("DefaultKeySwitch"):
			if n = p.GLWEDimension(); out {
				n = p.LWEDimension()
			}
		case has("KeySwitchLWE") && !out:
			n = w.dim
		case has("Pack"):
			n = p.GLWEDimension()
		}
		return w.lweK(n), true
	case tfhe.GLWECiphertext[T]:
		r := k
		switch {
		case has("KeySwitchGLWE") && !out:
			r = 1 + w.dim%3
		case has("Tensor") && out, has("Relinearize") && !out:
			r = k * (k + 3) / 2
		}
		return w.rank(r), true
	case []tfhe.LWECiphertext[T]:
		var v []tfhe.LWECiphertext[T]
		for j := 0; j < w.cnt; j++ {
			v = append(v, w.lweK(p.DefaultLWEDimension()))
		}
		return v, true
	case tfhe.LevCiphertext[T]:
		return w.coeffs(tfhe.NewLevCiphertext(p, w.g)), true
	case tfhe.GSWCiphertext[T]:
		return w.coeffs(tfhe.NewGSWCiphertext(p, w.g)), true
	case tfhe.GLevCiphertext[T]:
		return w.coeffs(tfhe.NewGLevCiphertext(p, w.g)), true
	case tfhe.GGSWCiphertext[T]:
		return w.coeffs(tfhe.NewGGSWCiphertext(p, w.g)), true
	case tfhe.FFTGLWECiphertext[T]:
		return w.fourier(tfhe.NewFFTGLWECiphertext(p)), true
	case tfhe.FFTGLevCiphertext[T]:
		return w.fourier(tfhe.NewFFTGLevCiphertext(p, w.g)), true
	case tfhe.FFTGGSWCiphertext[T]:
		g := w.g
		if has("CircuitBootstrap") {
			g = w.out
		}
		return w.fourier(tfhe.NewFFTGGSWCiphertext(p, g)), true
	case tfhe.GLWESecretKey[T]:
		return w.coeffs(tfhe.NewGLWESecretKey(p)), true
	case tfhe.FFTGLWESecretKey[T]:
		return w.fourier(tfhe.NewFFTGLWESecretKey(p)), true
	case tfhe.LWEKeySwitchKey[T]:
		return w.coeffs(tfhe.NewLWEKeySwitchKey(p, w.dim, w.g)), true
	case tfhe.GLWEKeySwitchKey[T]:
		return w.fourier(tfhe.NewGLWEKeySwitchKey(p, 1+w.dim%3, w.g)), true
	case tfhe.LWEPlaintext[T]:
		return tfhe.LWEPlaintext[T]{Value: w.Val()}, true
	case tfhe.GLWEPlaintext[T]:
		return tfhe.GLWEPlaintext[T]{Value: w.Poly()}, true
	case tfhe.LookUpTable[T]:
		return w.coeffs(tfhe.NewLUT(p)), true
	case func(int) int:
		return w.fn(), true
	case func(int) T:
		return w.full(), true
	case []func(int) int:
		var v []func(int) int
		for j := 0; j < w.cnt; j++ {
			v = append(v, w.fn())
		}
		return v, true
	case []func(int) T:
		var v []func(int) T
		for j := 0; j < w.cnt; j++ {
			v = append(v, w.full())
		}
		return v, true
	case mktfhe.LWECiphertext[T]:
		n := w.mp.DefaultLWEDimension()
		switch {
		case has("BlindRotate"):
			n = w.mp.LWEDimension()
		case has("DefaultKeySwitch"):
			if n = w.mp.GLWEDimension(); out {
				n = w.mp.LWEDimension()
			}
		}
		return mktfhe.LWECiphertext[T]{Value: w.Vec(n + 1)}, true
	case []mktfhe.LWECiphertext[T]:
		var v []mktfhe.LWECiphertext[T]
		for j := 0; j < 1+w.dim; j++ {
			v = append(v, mktfhe.LWECiphertext[T]{Value: w.Vec(w.mp.DefaultLWEDimension() + 1)})
		}
		return v, true
	case mktfhe.GLWECiphertext[T]:
		return w.coeffs(mktfhe.NewGLWECiphertext(w.mp)), true
	case mktfhe.FFTGLWECiphertext[T]:
		return w.fourier(mktfhe.NewFFTGLWECiphertext(w.mp)), true
	case mktfhe.UniEncryption[T]:
		return w.coeffs(mktfhe.NewUniEncryption(w.mp, w.crs())), true
	case mktfhe.FFTUniEncryption[T]:
		return w.fourier(mktfhe.NewFFTUniEncryption(w.mp, w.crs())), true
	}
	return nil, false
}

// crs is the gadget of uni-encryptions.
func (w *world[T]) crs() tfhe.GadgetParameters[T] { return w.relin }

func (w *world[T]) fn() func(int) int {
	a, b := w.P.N(50), w.P.N(50)
	return func(x int) int { return (a*x + b) % 16 }
}

func (w *world[T]) full() func(int) T {
	a, b := T(w.P.U64()), T(w.P.U64())
	return func(x int) T { return a*T(x) + b }
}

// outArg is the position of the output argument, -1 without one.
func outArg(name, m string, n int) int {
	switch {
	case strings.HasSuffix(m, "InPlace"):
		return 0
	case !strings.HasSuffix(m, "To") && !strings.HasSuffix(m, "ToUnsafe"):
		return -1
	case strings.HasPrefix(name, "mktfhe") && (strings.HasPrefix(m, "HybridProd") || strings.HasPrefix(m, "ExternalProd")):
		return n - 1
	case m == "DecryptFFTGGSWTo" || m == "DecryptFFTGGSWPolyTo":
		return 1
	}
	return 0
}

// accumulates tells whether the output's old value matters.
func accumulates(m string) bool {
	for _, s := range []string{"MulAdd", "MulSub", "PermuteAdd", "PermuteSub", "ProdAdd", "ProdSub", "FFTAddTo", "FFTSubTo", "InPlace"} {
		if strings.Contains(m, s) {
			return true
		}
	}
	return false
}

// consumes tells whether the operation is documented to destroy its input.
func consumes(m string) bool { return strings.HasSuffix(m, "Unsafe") }
