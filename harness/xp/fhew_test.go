package xp

import (
	"fmt"
	"math"
	"testing"

	"github.com/sp301415/tfhe-go/tfhe"
	"github.com/sp301415/tfhe-go/xtfhe"
	"pgregory.net/rapid"

	"verifharness/tf"
	"verifharness/vh"
)

// fhew is a FHEW party: its secret key is Gaussian.
type fhew[T tfhe.TorusInt] struct {
	*env[T]
	lit xtfhe.FHEWParametersLiteral[T]
	fp  xtfhe.FHEWParameters[T]
	fe  *xtfhe.FHEWEncryptor[T]
	ss  float64 // standard deviation of the key
}

func newFHEW[T tfhe.TorusInt](t *rapid.T, o tf.Opts, fix func(*tfhe.ParametersLiteral[T])) *fhew[T] {
	l := tf.Draw[T](t, o).Lit
	l.BlockSize = 1
	if fix != nil {
		fix(&l)
	}
	f := &fhew[T]{ss: rapid.Float64Range(0.3, 21).Draw(t, "keyStdDev")}
	if rapid.Bool().Draw(t, "shortKey") {
		f.ss = rapid.Float64Range(0.3, 4).Draw(t, "shortKeyStdDev")
	}
	w := rapid.IntRange(1, l.PolyRank).Draw(t, "window")
	if rapid.Bool().Draw(t, "narrow") {
		w = rapid.IntRange(1, 6).Draw(t, "narrowWindow")
	}
	f.lit = xtfhe.FHEWParametersLiteral[T]{BaseParams: l, SecretKeyStdDev: f.ss / tf.Q[T](), WindowSize: w}
	f.fp = f.lit.Compile()
	if f.fp.WindowSize() != w || math.Abs(f.fp.SecretKeyStdDevQ()-f.ss) > 1e-9*f.ss || f.fp.SecretKeyStdDev() != f.lit.SecretKeyStdDev {
		t.Fatalf("compiled window %d, key deviation %g of %d, %g", f.fp.WindowSize(), f.fp.SecretKeyStdDevQ(), w, f.ss)
	}
	f.env = envOf(t, l)
	f.fe = xtfhe.NewFHEWEncryptor(f.fp)
	switch f.P.N(4) {
	case 0:
		f.fe = xtfhe.NewFHEWEncryptorWithKey(f.fp, f.fe.GenSecretKey())
	case 1:
		f.fe = f.fe.SafeCopy()
	}
	f.enc, f.sk = f.fe.Encryptor, f.fe.SecretKey
	return f
}

func (f *fhew[T]) norms() (m2, m1 float64) {
	for _, s := range f.sk.GLWEKey.Value {
		m2 += tf.Norm2(s.Coeffs)
		m1 += tf.Norm1(s.Coeffs)
	}
	return
}

// ksVar and extVar bound the variance (in units of the torus) of one automorphism
// and of one external product by a monomial.
func (f *fhew[T]) steps() (ks, ext float64) {
	q := tf.Q[T]()
	m2, _ := f.norms()
	K, N := float64(f.K), float64(f.N)
	g := f.p.BlindRotateParams()
	b, l := float64(g.Base()), float64(g.Level())
	s := f.sigma() + 1
	last := tf.Last(g)
	row := l * N * tf.DigitVar(b) * s * s
	fft := 24 * q * math.Exp2(-53) * b * math.Sqrt(l*N*(m2+1))
	ks = 2*K*row + last*last/12*m2 + K*fft*fft + 1 + m2
	ext = 2*(K+1)*row + last*last/12*(1+m2) + (K+1)*fft*fft + 1 + m2
	return
}

// rotateVar bounds the variance of a blind rotation.
func (f *fhew[T]) rotateVar() float64 {
	ks, ext := f.steps()
	auts := math.Min(float64(f.N-1), 2*(float64(f.p.LWEDimension())+float64(f.N)/2/float64(f.lit.WindowSize)+1)+1)
	return auts*ks + float64(f.p.LWEDimension())*ext
}

func (f *fhew[T]) switchVar() float64 {
	q := tf.Q[T]()
	g := f.p.KeySwitchParams()
	m := float64(f.K*f.N - f.p.LWEDimension())
	b, l := float64(g.Base()), float64(g.Level())
	s := f.l.LWEStdDev*q + 1
	last := tf.Last(g)
	m2, _ := f.norms()
	return m*l*tf.DigitVar(b)*2*s*s + last*last/12*m2 + m
}

// checkKey checks the law and consistency of a secret key.
func (f *fhew[T]) checkKey(sk tfhe.SecretKey[T]) {
	t := f.T
	n := f.K * f.N
	if len(sk.LWELargeKey.Value) != n || len(sk.LWEKey.Value) != f.p.LWEDimension() || len(sk.GLWEKey.Value) != f.K {
		t.Fatalf("a key of dimensions %d, %d, %d (%v)", len(sk.LWELargeKey.Value), len(sk.LWEKey.Value), len(sk.GLWEKey.Value), f.set)
	}
	f.Exact("LWE key", sk.LWEKey.Value, sk.LWELargeKey.Value[:f.p.LWEDimension()])
	var sum, sq float64
	distinct := map[T]bool{}
	for i, x := range sk.LWELargeKey.Value {
		if sk.GLWEKey.Value[i/f.N].Coeffs[i%f.N] != x {
			t.Fatalf("coefficient %d of the GLWE key differs from the LWE key (%v)", i, f.set)
		}
		s := float64(tf.Signed(x))
		if math.Abs(s) > 12*f.ss+1 {
			t.Fatalf("key coefficient %g with standard deviation %g", s, f.ss)
		}
		sum, sq = sum+s, sq+s*s
		distinct[x] = true
	}
	va := f.ss*f.ss + 1.0/12
	if f.ss < 1 { // rounding a narrow Gaussian
		va = 0
		for k := -12; k <= 12; k++ {
			x := float64(k)
			pr := 0.5 * (math.Erf((x+0.5)/f.ss/math.Sqrt2) - math.Erf((x-0.5)/f.ss/math.Sqrt2))
			va += pr * x * x
		}
	}
	nf := float64(n)
	// The fourth moment of a rounded narrow Gaussian is larger.
	dev := 9 * math.Sqrt((2*va*va+va)/nf)
	if n >= 64 && math.Abs(sq/nf-va) > dev+4/nf {
		t.Fatalf("%d key coefficients of variance %g instead of %g (%v)", n, sq/nf, va, f.set)
	}
	if math.Abs(sum) > 9*math.Sqrt(va*nf)+4 {
		t.Fatalf("%d key coefficients of mean %g with standard deviation %g (%v)", n, sum/nf, f.ss, f.set)
	}
	inv := f.enc.InvFFTGLWESecretKey(sk.FFTGLWEKey)
	for i := range inv.Value {
		f.Exact("FFT key", inv.Value[i].Coeffs, sk.GLWEKey.Value[i].Coeffs)
	}
}

func (f *fhew[T]) genEvk() xtfhe.FHEWEvaluationKey[T] {
	if rapid.Bool().Draw(f.T, "parallelKeys") {
		vh.Label("parallel keys")
		return f.fe.GenEvalKeyParallel()
	}
	return f.fe.GenEvalKey()
}

// keyRows checks every row of an evaluation key.
func (f *fhew[T]) keyRows(evk xtfhe.FHEWEvaluationKey[T]) {
	t := f.T
	g := f.p.BlindRotateParams()
	if len(evk.BlindRotateKey.Value) != f.p.LWEDimension() || len(evk.GaloisKey) != f.lit.WindowSize+1 {
		t.Fatalf("an evaluation key of %d and %d (%v)", len(evk.BlindRotateKey.Value), len(evk.GaloisKey), f.set)
	}
	for i, ggsw := range evk.BlindRotateKey.Value {
		s := int(tf.Signed(f.sk.LWEKey.Value[i]))
		for r := 0; r <= f.K; r++ {
			m := mono(f.N, T(1), 0).Coeffs
			if r > 0 {
				m = f.sk.GLWEKey.Value[r-1].Coeffs
			}
			m = tf.Mono(m, s)
			for j := 0; j < g.Level(); j++ {
				f.row(fmt.Sprintf("blind rotation key row %d", r), ggsw.Value[r].Value[j], tf.Times(m, g.BaseQ(j)))
			}
		}
	}
	d := 1
	for i, k := range evk.GaloisKey {
		a := d
		if i == 0 {
			a = -5
		}
		d = d * 5 % (2 * f.N)
		if len(k.Value) != f.K || k.GadgetParams != g {
			t.Fatalf("Galois key %d has %d rows with %v (%v)", i, len(k.Value), k.GadgetParams, f.set)
		}
		for r := range k.Value {
			m := tf.Permute(f.sk.GLWEKey.Value[r].Coeffs, a)
			for j := 0; j < g.Level(); j++ {
				f.row("Galois key", k.Value[r].Value[j], tf.Times(m, g.BaseQ(j)))
			}
		}
	}
	ks := f.p.KeySwitchParams()
	ltol := tf.Sigmas*(f.l.LWEStdDev*tf.Q[T]()+1) + 2
	n := f.p.LWEDimension()
	if len(evk.KeySwitchKey.Value) != f.K*f.N-n {
		t.Fatalf("a key switching key of %d (%v)", len(evk.KeySwitchKey.Value), f.set)
	}
	for i, lev := range evk.KeySwitchKey.Value {
		for j := 0; j < ks.Level(); j++ {
			ph, want := tf.One(tf.Phase(lev.Value[j], f.sk.LWEKey)), tf.One(f.sk.LWELargeKey.Value[n+i]*ks.BaseQ(j))
			f.Near("key switching key", ph, want, ltol)
			tf.Law(t, &f.laws, fmt.Sprintf("key switching key level %d", j), ph, want, f.l.LWEStdDev*tf.Q[T](), 0)
		}
	}
}

func fhewKeyCase[T tfhe.TorusInt](t *rapid.T) {
	f := newFHEW[T](t, tf.Opts{Noisy: true, LogN: [2]int{4, 7}, Order: -1, MaxLWE: 16, MaxRank: 2}, nil)
	f.checkKey(f.sk)
	other := f.fe.GenSecretKey()
	f.checkKey(other)
	same := 0.0 // probability that two coefficients agree
	for k := -300; k <= 300; k++ {
		x := float64(k)
		pr := 0.5 * (math.Erf((x+0.5)/f.ss/math.Sqrt2) - math.Erf((x-0.5)/f.ss/math.Sqrt2))
		same += pr * pr
	}
	if -math.Log2(same)*float64(f.K*f.N) > 60 && tf.Same(other.LWELargeKey.Value, f.sk.LWELargeKey.Value) {
		t.Fatalf("two secret keys are equal (%v)", f.set)
	}
	f.Exact("key after another was made", f.fe.SecretKey.LWELargeKey.Value, f.sk.LWELargeKey.Value)
	f.keyRows(f.genEvk())
	f.Exact("key after key generation", f.fe.SecretKey.LWELargeKey.Value, f.sk.LWELargeKey.Value)
	f.laws.Check(t)
	vh.Case(true, "%v key deviation %.3g window %d seed %x", f.set, f.ss, f.lit.WindowSize, f.P.U64())
}

func TestFHEWKeys(t *testing.T) {
	vh.Check(t, "a case draws secret keys, tests their Gaussian law and consistency, and decrypts every row of the evaluation key; every case is non-trivial", 600, 20000, func(t *rapid.T) {
		both(t, fhewKeyCase[uint32], fhewKeyCase[uint64])
	})
}

func fhewRotateCase[T tfhe.TorusInt](t *rapid.T) {
	f := newFHEW[T](t, tf.Opts{LogN: [2]int{4, 7}, Order: -1, MaxLWE: 20, MaxRank: 2}, nil)
	e := xtfhe.NewFHEWEvaluator(f.fp, f.genEvk())
	if rapid.Bool().Draw(t, "copy") {
		e = e.SafeCopy()
	}
	tol := tf.Sigmas*math.Sqrt(f.rotateVar()) + 4
	rots := rapid.IntRange(1, 3).Draw(t, "rotations")
	for r := 0; r < rots; r++ {
		lut := tfhe.NewLUT(f.p)
		tf.Dirty(f.P, lut.Value[0].Coeffs)
		full := append([]T{}, lut.Value[0].Coeffs...)
		ct := tfhe.NewLWECiphertextCustom[T](f.p.LWEDimension())
		kind := f.P.N(4)
		one := f.Angle(f.N)
		for j := range ct.Value {
			switch {
			case kind == 0 && f.P.N(4) > 0: // repeated exponents
				ct.Value[j] = one
			case kind == 1: // near plus and minus one, whose exponents are special
				ct.Value[j] = T(f.P.Range(-2, 1)) << uint(tf.Bits[T]()-f.p.LogPolyRank()-1)
			default:
				ct.Value[j] = f.Angle(f.N)
			}
		}
		for _, x := range ct.Value {
			// The nearest odd integer; anything else is biased, and the error is multiplied by the sum of the key.
			v := float64(x) * float64(2*f.N) / tf.Q[T]()
			if got := e.ModSwitch(x); got < 0 || got >= 2*f.N || got%2 == 0 || math.Abs(float64(got)-v) > 1+1e-9 {
				t.Fatalf("ModSwitch(%#x) = %d, which is not the odd integer nearest to %v of %d", x, got, v, 2*f.N)
			}
		}
		E := e.ModSwitch(-ct.Value[0])
		for j, s := range f.sk.LWEKey.Value {
			E += e.ModSwitch(-ct.Value[j+1]) * int(tf.Signed(s))
		}
		c0 := ct.Copy()
		out := f.glwe()
		if f.P.N(2) == 0 {
			out = e.BlindRotate(ct, lut)
		} else {
			e.BlindRotateTo(out, ct, lut)
		}
		f.Near("FHEW BlindRotate", f.gphase(out), tf.Mono(full, E), tol)
		f.Exact("FHEW BlindRotate input", ct.Value, c0.Value)
		f.Exact("FHEW BlindRotate table", lut.Value[0].Coeffs, full)
	}
	vh.Label("rank %d", f.K)
	vh.Case(tol < tf.Q[T]()/8, "%v key deviation %.3g window %d rotations %d tol %.3g seed %x", f.set, f.ss, f.lit.WindowSize, rots, tol/tf.Q[T](), f.P.U64())
}

func TestFHEWRotate(t *testing.T) {
	vh.Check(t, "a case rotates arbitrary tables by arbitrary ciphertexts under Gaussian keys and compares all coefficients with the exact rotation by odd exponents; non-trivial when the noise bound is below 1/8 of the torus", 800, 25000, func(t *rapid.T) {
		both(t, fhewRotateCase[uint32], fhewRotateCase[uint64])
	})
}

func fhewBootCase[T tfhe.TorusInt](t *rapid.T) {
	f := newFHEW[T](t, tf.Opts{LogN: [2]int{7, 9}, Order: -1, MaxLWE: 16, MaxRank: 2, MaxLogP: 3}, func(l *tfhe.ParametersLiteral[T]) {
		b := tf.Bits[T]()
		l.GLWEStdDev = math.Min(l.GLWEStdDev, math.Exp2(1.5-float64(b)))
		l.LWEStdDev = math.Min(l.LWEStdDev, math.Exp2(float64(b)/8-float64(b)))
		l.BlindRotateParams = tfhe.GadgetParametersLiteral[T]{Base: 1 << uint(b/6), Level: 3 + f2(b)}
	})
	q := tf.Q[T]()
	n := f.p.LWEDimension()
	out := f.rotateVar()
	if f.l.BootstrapOrder == tfhe.OrderBlindRotateKeySwitch {
		out += f.switchVar()
	}
	outTol := tf.Sigmas*math.Sqrt(out) + 4
	// Rounding to odd exponents moves the phase by at most this many steps.
	sq, abs := 0.0, 0.0
	for _, s := range f.sk.LWEKey.Value[:n] {
		x := float64(tf.Signed(s))
		sq, abs = sq+x*x, abs+math.Abs(x)
	}
	move := math.Min(abs, tf.Sigmas*math.Sqrt(sq/3)) + 1
	margin := func(p float64) float64 {
		m := (float64(f.N)/(2*p) - move - 1.5) / (2 * float64(f.N)) * q
		if f.l.BootstrapOrder == tfhe.OrderKeySwitchBlindRotate {
			m -= tf.Sigmas * math.Sqrt(f.switchVar())
		}
		return m - 2*p
	}
	p := int(f.p.MessageModulus())
	custom := false
	for p > 2 && (margin(float64(p)) < 0 || outTol > q/(4*float64(p))) {
		p--
		custom = true
	}
	if margin(float64(p)) < 0 || outTol > q/(4*float64(p)) {
		vh.Label("too noisy")
		vh.Case(false, "too noisy")
		return
	}
	e := xtfhe.NewFHEWEvaluator(f.fp, f.genEvk())
	if rapid.Bool().Draw(t, "copy") {
		e = e.SafeCopy()
	}
	scale := f.p.Scale()
	if custom {
		scale = T(q / float64(2*p))
	}
	boots := rapid.IntRange(1, 3).Draw(t, "boots")
	for b := 0; b < boots; b++ {
		x := f.P.N(p)
		tab := make([]int, p)
		for i := range tab {
			tab[i] = f.P.N(p)
		}
		fn := func(i int) int { return tab[i] }
		ct := f.exactly(T(x)*scale + f.delta(margin(float64(p))))
		if f.P.N(4) == 0 && !custom && tf.Sigmas*tf.DefaultStdDev(f.l)*q < margin(float64(p)) {
			ct = f.fe.EncryptLWE(x)
		}
		c0 := ct.Copy()
		o := tfhe.NewLWECiphertext(f.p)
		tf.Dirty(f.P, o.Value)
		mode := rapid.SampledFrom([]string{"ret", "to", "inplace"}).Draw(t, "mode")
		if mode == "inplace" {
			o = ct
		}
		lut := f.dirtyLUT()
		e.GenLUTCustomTo(lut, fn, T(p), scale)
		switch {
		case custom && mode == "ret":
			o = e.BootstrapLUT(ct, lut)
		case custom:
			e.BootstrapLUTTo(o, ct, lut)
		case mode == "ret":
			o = e.BootstrapFunc(ct, fn)
		default:
			e.BootstrapFuncTo(o, ct, fn)
		}
		f.Near("FHEW bootstrap", tf.One(tf.Phase(o, f.dkey())), tf.One(T(tab[x])*scale), outTol)
		if !custom {
			if got := f.fe.DecryptLWE(o); got != tab[x] {
				t.Fatalf("FHEW bootstrap of %d of %d decrypts to %d instead of %d (%v)", x, p, got, tab[x], f.set)
			}
		}
		if mode != "inplace" {
			f.Exact("FHEW bootstrap input", ct.Value, c0.Value)
		}
	}
	vh.Label("order %d custom %v", int(f.l.BootstrapOrder), custom)
	vh.Case(true, "%v key deviation %.3g window %d boots %d modulus %d seed %x", f.set, f.ss, f.lit.WindowSize, boots, p, f.P.U64())
}

func f2(b int) int { return b / 64 }

func (v *env[T]) dirtyLUT() tfhe.LookUpTable[T] {
	lut := tfhe.NewLUT(v.p)
	tf.Dirty(v.P, lut.Value[0].Coeffs)
	return lut
}

func TestFHEWBootstrap(t *testing.T) {
	vh.Check(t, "a case bootstraps messages under Gaussian keys with generated functions at input errors up to the limit; non-trivial when the parameters have room for a message", 300, 10000, func(t *rapid.T) {
		both(t, fhewBootCase[uint32], fhewBootCase[uint64])
	})
}
