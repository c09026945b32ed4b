package tfhep

import (
	"math"
	"testing"

	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/tfhe"
	"pgregory.net/rapid"

	"verifharness/tf"
	"verifharness/vh"
)

// digitVar is the variance of a balanced digit.
func digitVar(g float64) float64 { return g*g/12 + g/4 + 1 }

// gadgetErrLWE bounds the error of a gadget product with a Lev encryption of c:
// l fresh errors times digits, and the decomposition error times c.
func (v *env[T]) levTol(g tfhe.GadgetParameters[T], sigma, c float64) float64 {
	b := float64(g.Base())
	noise := freshSigmas * sigma * math.Sqrt(float64(g.Level())) * b / 2
	last := 0.5 * math.Exp2(float64(g.LogLastBaseQ()))
	if g.LogLastBaseQ() == 0 {
		last = 0
	}
	return noise + last*c
}

func signedAbs[T tfhe.TorusInt](x T) float64 { return math.Abs(float64(tf.Signed(x))) }

func prodLWE[T tfhe.TorusInt](v *env[T]) {
	t, e := v.t, v.eval
	g := v.gadget(1)
	switch v.pr.N(2) {
	case 0: // gadget product: c*x for a Lev encryption of x
		x := T(v.pr.Range(-30, 30))
		if v.pr.N(3) == 0 {
			x = v.val()
		}
		lev := v.enc.EncryptLevScalar(x, g)
		c := v.val()
		out := v.lwe()
		p0 := v.phase(out)
		// The error of the decomposition is multiplied by the message.
		tol := v.levTol(g, v.lweSigma(), signedAbs(x))
		var want T
		op := rapid.SampledFrom([]string{"ret", "to", "add", "sub"}).Draw(t, "mode")
		switch op {
		case "ret":
			out, want = e.GadgetProdLWE(lev, c), x*c
		case "to":
			want = x * c
			e.GadgetProdLWETo(out, lev, c)
		case "add":
			want = p0 + x*c
			e.GadgetProdAddLWETo(out, lev, c)
		case "sub":
			want = p0 - x*c
			e.GadgetProdSubLWETo(out, lev, c)
		}
		v.near("GadgetProdLWE/"+op, one(v.phase(out)), one(want), tol)
		vh.Label("GadgetProdLWE/%s", op)
	case 1: // external product
		n := v.p.DefaultLWEDimension()
		x := T(v.pr.Range(-8, 8))
		gsw := v.enc.EncryptGSWScalar(x, g)
		m := v.val()
		ct := v.enc.EncryptLWEPlaintext(tfhe.LWEPlaintext[T]{Value: m})
		if v.pr.N(4) == 0 {
			ct.Clear()
			ct.Value[0] = m // trivial
		}
		ph := v.phase(ct)
		ct0 := ct.Copy()
		out := v.lwe()
		op := rapid.SampledFrom([]string{"ret", "to", "add", "sub", "inplace"}).Draw(t, "mode")
		if op == "inplace" {
			out = ct
		}
		p0 := v.phase(out)
		b := float64(g.Base())
		last := math.Exp2(float64(g.LogLastBaseQ()))
		// (n+1)*l errors times digits; n+1 rounding errors times a key bit.
		tol := freshSigmas*v.lweSigma()*math.Sqrt(float64((n+1)*g.Level())*digitVar(b)) +
			signedAbs(x)*math.Min(9*last*math.Sqrt(float64(n+1)/12)+last/2, last*float64(n+1)/2) + 1
		var want T
		switch op {
		case "ret":
			out, want = e.ExternalProdLWE(gsw, ct), x*ph
		case "to", "inplace":
			want = x * ph
			e.ExternalProdLWETo(out, gsw, ct)
		case "add":
			want = p0 + x*ph
			e.ExternalProdAddLWETo(out, gsw, ct)
		case "sub":
			want = p0 - x*ph
			e.ExternalProdSubLWETo(out, gsw, ct)
		}
		v.near("ExternalProdLWE/"+op, one(v.phase(out)), one(want), tol)
		if op != "inplace" && !tf.Same(ct.Value, ct0.Value) {
			t.Fatalf("ExternalProdLWE/%s modified its input", op)
		}
		vh.Label("ExternalProdLWE/%s", op)
	}
}

// glevTol bounds the error of the gadget product of rows polynomials with
// encryptions of a message of 2-norm m2 and 1-norm m1, through rank k.
func (v *env[T]) glevTol(g tfhe.GadgetParameters[T], rows int, sigma, m2, m1 float64, worst bool) float64 {
	b, l, N := float64(g.Base()), float64(g.Level()), float64(v.N)
	terms := float64(rows) * l * N
	noise := freshSigmas * sigma * math.Sqrt(terms*digitVar(b))
	last := math.Exp2(float64(g.LogLastBaseQ()))
	if g.LogLastBaseQ() == 0 {
		last = 0
	}
	round := 9 * last * math.Sqrt(m2*(1+float64(v.K)*N)/12)
	if w := m1 * last / 2 * (1 + float64(v.K)*N); w < round || worst {
		round = w
	}
	fft := 12 * tf.Q[T]() * math.Exp2(-53) * math.Sqrt(terms*digitVar(b)*float64(v.K*v.N+1)) * 3
	return noise + round + fft + 2*math.Sqrt(float64(v.K)*N) + 2
}

func prodGLWE[T tfhe.TorusInt](v *env[T]) {
	t, e := v.t, v.eval
	g := v.gadget(1)
	if tf.Bits[T]() == 64 && g.LogBase() > 28 {
		g = tf.Lit[T](tf.Gadget{LogBase: 20, Level: 1 + v.pr.N(3)}).Compile()
	}
	out := v.glwe()
	p0 := v.gphase(out)
	x := v.small(1 << uint(v.pr.N(4)))
	var want []T
	fft := func(p poly.Poly[T]) []poly.FFTPoly { return e.Decomposer.FourierDecomposePoly(p, g) }
	invAdd := func(f tfhe.FFTGLWECiphertext[T]) tfhe.GLWECiphertext[T] { return v.enc.InvFFTGLWECiphertext(f) }
	op := rapid.SampledFrom([]string{"ret", "to", "add", "sub", "fft", "fftadd", "fftsub"}).Draw(t, "mode")
	// Fourier accumulators start from an arbitrary ciphertext.
	acc := v.enc.FwdFFTGLWECiphertext(out)
	switch kind := v.pr.N(3); kind {
	case 0:
		lev := v.enc.EncryptFFTGLevPoly(x, g)
		p := v.poly(v.N)
		pc := append([]T{}, p.Coeffs...)
		xp := tf.NegMul(p.Coeffs, x.Coeffs)
		worst := true // p is arbitrary
		tol := v.glevTol(g, 1, v.glweSigma()+1, 0, norm1(x), false) + norm1(x)*math.Exp2(float64(g.LogLastBaseQ()))/2
		_ = worst
		switch op {
		case "ret":
			out, want = e.GadgetProdGLWE(lev, p), xp
		case "to":
			want = xp
			e.GadgetProdGLWETo(out, lev, p)
		case "add":
			want = plus(p0, xp)
			e.GadgetProdAddGLWETo(out, lev, p)
		case "sub":
			want = minus(p0, xp)
			e.GadgetProdSubGLWETo(out, lev, p)
		case "fft":
			want = xp
			e.GadgetProdFFTGLWETo(acc, lev, fft(p))
			out = invAdd(acc)
		case "fftadd":
			want = plus(p0, xp)
			e.GadgetProdAddFFTGLWETo(acc, lev, fft(p))
			out = invAdd(acc)
		case "fftsub":
			want = minus(p0, xp)
			e.GadgetProdSubFFTGLWETo(acc, lev, fft(p))
			out = invAdd(acc)
		}
		// Adversarial digits can align with the noise: bound them by their maximum.
		tol += freshSigmas*(v.glweSigma()+1)*float64(g.Base())/2*math.Sqrt(float64(g.Level()*v.N)) + v.mulErr(2)
		tol += 12 * tf.Q[T]() * math.Exp2(-53) * float64(g.Base()) * math.Sqrt(float64(g.Level()*v.N)*float64(v.K*v.N+1))
		v.near("GadgetProdGLWE/"+op, v.gphase(out), want, tol)
		if !tf.Same(p.Coeffs, pc) {
			t.Fatalf("GadgetProdGLWE/%s modified its input", op)
		}
		vh.Label("GadgetProdGLWE/%s", op)
	case 1, 2:
		gg := v.enc.EncryptFFTGGSWPoly(x, g)
		ct := v.enc.EncryptGLWEPlaintext(tfhe.GLWEPlaintext[T]{Value: tf.DirtyPoly[T](v.pr, v.N)})
		ph := v.gphase(ct)
		ct0 := ct.Copy()
		m2, m1 := norm2(x), norm1(x)
		if kind == 2 { // CMux
			bit := T(v.pr.N(2))
			b := poly.NewPoly[T](v.N)
			b.Coeffs[0] = bit
			gg = v.enc.EncryptFFTGGSWPoly(b, g)
			ct1 := v.enc.EncryptGLWEPlaintext(tfhe.GLWEPlaintext[T]{Value: tf.DirtyPoly[T](v.pr, v.N)})
			c1 := ct1.Copy()
			ph1 := v.gphase(ct1)
			want = ph
			if bit == 1 {
				want = ph1
			}
			tol := v.glevTol(g, v.K+1, v.glweSigma()+1, 1, 1, false)
			switch op = rapid.SampledFrom([]string{"ret", "to", "out=ct0", "out=ct1"}).Draw(t, "cmux"); op {
			case "ret":
				out = e.CMux(gg, ct, ct1)
			case "to":
				e.CMuxTo(out, gg, ct, ct1)
			case "out=ct0":
				e.CMuxTo(ct, gg, ct, ct1)
				out, ct = ct, ct0
			case "out=ct1":
				e.CMuxTo(ct1, gg, ct, ct1)
				out, ct1 = ct1, c1
			}
			v.near("CMux/"+op, v.gphase(out), want, tol)
			v.exact("CMux input", v.gphase(ct), ph)
			v.exact("CMux input", v.gphase(ct1), ph1)
			vh.Label("CMux/%s", op)
			return
		}
		xp := tf.NegMul(ph, x.Coeffs)
		tol := v.glevTol(g, v.K+1, v.glweSigma()+1, m2, m1, false)
		dc := func() [][]poly.FFTPoly {
			var d [][]poly.FFTPoly
			for _, p := range ct.Value {
				d = append(d, fft(p))
			}
			return d
		}
		if op == "to" && v.pr.N(2) == 0 {
			op = "inplace"
		}
		switch op {
		case "ret":
			out, want = e.ExternalProdGLWE(gg, ct), xp
		case "to":
			want = xp
			e.ExternalProdGLWETo(out, gg, ct)
		case "inplace":
			want = xp
			e.ExternalProdGLWETo(ct, gg, ct)
			out = ct
		case "add":
			want = plus(p0, xp)
			e.ExternalProdAddGLWETo(out, gg, ct)
		case "sub":
			want = minus(p0, xp)
			e.ExternalProdSubGLWETo(out, gg, ct)
		case "fft":
			want = xp
			e.ExternalProdFFTGLWETo(acc, gg, dc())
			out = invAdd(acc)
		case "fftadd":
			want = plus(p0, xp)
			e.ExternalProdAddFFTGLWETo(acc, gg, dc())
			out = invAdd(acc)
		case "fftsub":
			want = minus(p0, xp)
			e.ExternalProdSubFFTGLWETo(acc, gg, dc())
			out = invAdd(acc)
		}
		v.near("ExternalProdGLWE/"+op, v.gphase(out), want, tol+v.mulErr(2))
		for i := range ct.Value {
			if op != "inplace" && !tf.Same(ct.Value[i].Coeffs, ct0.Value[i].Coeffs) {
				t.Fatalf("ExternalProdGLWE/%s modified its input", op)
			}
		}
		vh.Label("ExternalProdGLWE/%s", op)
	}
}

func prodCase[T tfhe.TorusInt](t *rapid.T) {
	v := newEnv[T](t, tf.Opts{Extend: extends, LogN: [2]int{4, 7}, Big: 12, BigLWE: 1000, Order: -1, BlockCount: true})
	if rapid.Bool().Draw(t, "copy") {
		v.eval = v.eval.SafeCopy()
	}
	n := rapid.IntRange(2, 8).Draw(t, "ops")
	for i := 0; i < n; i++ {
		if v.pr.N(3) == 0 && v.p.DefaultLWEDimension() <= 64 {
			prodLWE(v)
		} else {
			prodGLWE(v)
		}
	}
	vh.Case(true, "%v ops %d seed %x", v.set, n, v.pr.U64())
}

func TestProduct(t *testing.T) {
	vh.Check(t, "a case applies several gadget products, external products and CMuxes with drawn gadgets and messages and compares phases within the noise bound; every case is non-trivial", 1500, 50000, func(t *rapid.T) {
		both(t, prodCase[uint32], prodCase[uint64])
	})
}

func switchCase[T tfhe.TorusInt](t *rapid.T) {
	v := newEnv[T](t, tf.Opts{Extend: extends, LogN: [2]int{4, 7}, Big: 11, BigLWE: 1000, Order: -1, BlockCount: true, MaxLWE: 80})
	if rapid.Bool().Draw(t, "copy") {
		v.eval = v.eval.SafeCopy()
	}
	n := rapid.IntRange(2, 5).Draw(t, "ops")
	for i := 0; i < n; i++ {
		g := v.gadget(1)
		b, l := float64(g.Base()), float64(g.Level())
		last := math.Exp2(float64(g.LogLastBaseQ()))
		if g.LogLastBaseQ() == 0 {
			last = 0
		}
		switch op := rapid.SampledFrom([]string{"lwe", "glwe", "default"}).Draw(t, "op"); op {
		case "lwe":
			in := rapid.IntRange(1, 120).Draw(t, "in")
			sk := tfhe.NewLWESecretKeyCustom[T](in)
			for j := range sk.Value {
				sk.Value[j] = T(v.pr.N(2))
			}
			ksk := v.enc.GenLWEKeySwitchKey(sk, g)
			if ksk.InputLWEDimension() != in {
				t.Fatalf("key switching key for %d inputs instead of %d", ksk.InputLWEDimension(), in)
			}
			for j := range ksk.Value {
				v.checkLev("key switching key", ksk.Value[j], g, sk.Value[j])
			}
			ct := tfhe.NewLWECiphertextCustom[T](in)
			tf.Dirty(v.pr, ct.Value)
			ct0 := ct.Copy()
			out := v.lwe()
			if v.pr.N(2) == 0 {
				out = v.eval.KeySwitchLWE(ct, ksk)
			} else {
				v.eval.KeySwitchLWETo(out, ct, ksk)
			}
			tol := freshSigmas*v.lweSigma()*math.Sqrt(float64(in)*l*digitVar(b)) + math.Min(9*last*math.Sqrt(float64(in)/12)+last/2, last/2*float64(in)) + 1
			v.near("KeySwitchLWE", one(v.phase(out)), one(tf.Phase(ct, sk)), tol)
			if !tf.Same(ct.Value, ct0.Value) {
				t.Fatalf("KeySwitchLWE modified its input")
			}
		case "glwe":
			in := rapid.IntRange(1, 4).Draw(t, "inRank")
			if tf.Bits[T]() == 64 && g.LogBase() > 28 {
				continue
			}
			sk := tfhe.NewGLWESecretKeyCustom[T](in, v.N)
			for j := range sk.Value {
				for k := range sk.Value[j].Coeffs {
					sk.Value[j].Coeffs[k] = T(v.pr.N(2))
				}
			}
			ksk := v.enc.GenGLWEKeySwitchKey(sk, g)
			if ksk.InputGLWERank() != in {
				t.Fatalf("key switching key for rank %d instead of %d", ksk.InputGLWERank(), in)
			}
			for j := range ksk.Value {
				v.checkGLev("GLWE key switching key", v.enc.InvFFTGLevCiphertext(ksk.Value[j]), g, sk.Value[j].Coeffs, v.fftErr(v.K))
			}
			ct := tfhe.NewGLWECiphertextCustom[T](in, v.N)
			for j := range ct.Value {
				tf.Dirty(v.pr, ct.Value[j].Coeffs)
			}
			ct0 := ct.Copy()
			out := v.glwe()
			if v.pr.N(2) == 0 {
				out = v.eval.KeySwitchGLWE(ct, ksk)
			} else {
				v.eval.KeySwitchGLWETo(out, ct, ksk)
			}
			terms := float64(in) * l * float64(v.N)
			tol := freshSigmas*(v.glweSigma()+1)*math.Sqrt(terms*digitVar(b)) + 9*last*math.Sqrt(float64(in*v.N)/12) + last/2 + 2
			tol += 36*tf.Q[T]()*math.Exp2(-53)*math.Sqrt(terms*digitVar(b)*float64(v.K*v.N+1)) + v.mulErr(2)
			v.near("KeySwitchGLWE", v.gphase(out), tf.GPhase(ct, sk), tol)
			for j := range ct.Value {
				if !tf.Same(ct.Value[j].Coeffs, ct0.Value[j].Coeffs) {
					t.Fatalf("KeySwitchGLWE modified its input")
				}
			}
		case "default":
			var ksk tfhe.LWEKeySwitchKey[T]
			if v.pr.N(2) == 0 {
				ksk = v.enc.GenDefaultKeySwitchKey()
			} else {
				ksk = v.enc.GenDefaultKeySwitchKeyParallel()
			}
			g := v.p.KeySwitchParams()
			b, l := float64(g.Base()), float64(g.Level())
			last := math.Exp2(float64(g.LogLastBaseQ()))
			if g.LogLastBaseQ() == 0 {
				last = 0
			}
			ev := tfhe.NewEvaluator(v.p, tfhe.EvaluationKey[T]{KeySwitchKey: ksk})
			m := v.K*v.N - v.p.LWEDimension()
			sigma := v.set.Lit.LWEStdDev*tf.Q[T]() + 0.5
			for j := range ksk.Value {
				for k, r := range ksk.Value[j].Value {
					want := v.sk.LWELargeKey.Value[v.p.LWEDimension()+j] << uint(tf.Bits[T]()-(k+1)*g.LogBase())
					v.near("default key switching key", one(tf.Phase(r, v.sk.LWEKey)), one(want), freshSigmas*sigma)
				}
			}
			if len(ksk.Value) != m {
				t.Fatalf("default key switching key for %d inputs instead of %d", len(ksk.Value), m)
			}
			ct := tfhe.NewLWECiphertextCustom[T](v.K * v.N)
			tf.Dirty(v.pr, ct.Value)
			ct0 := ct.Copy()
			out := tfhe.NewLWECiphertextCustom[T](v.p.LWEDimension())
			tf.Dirty(v.pr, out.Value)
			if v.pr.N(2) == 0 {
				out = ev.DefaultKeySwitch(ct)
			} else {
				ev.DefaultKeySwitchTo(out, ct)
			}
			tol := freshSigmas*sigma*math.Sqrt(float64(m)*l*digitVar(b)) + 9*last*math.Sqrt(float64(m)/12) + last/2 + 1
			v.near("DefaultKeySwitch", one(tf.Phase(out, v.sk.LWEKey)), one(tf.Phase(ct, v.sk.LWELargeKey)), tol)
			if !tf.Same(ct.Value, ct0.Value) {
				t.Fatalf("DefaultKeySwitch modified its input")
			}
			vh.Label("default m=0:%v", m == 0)
		}
	}
	v.laws.Check(t)
	vh.Case(true, "%v ops %d seed %x", v.set, n, v.pr.U64())
}

func TestKeySwitch(t *testing.T) {
	vh.Check(t, "a case generates key switching keys between drawn dimensions and switches arbitrary ciphertexts, comparing phases within the noise bound; every case is non-trivial", 1200, 40000, func(t *rapid.T) {
		both(t, switchCase[uint32], switchCase[uint64])
	})
}
