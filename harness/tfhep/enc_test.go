package tfhep

import (
	"math"
	"testing"

	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/tfhe"
	"pgregory.net/rapid"

	"verifharness/tf"
	"verifharness/vh"
)

const freshSigmas = 9

// noiseStat accumulates normalized errors.
type noiseStat struct {
	n        int
	s, s2    float64
	variance float64
}

func (s *noiseStat) add(err float64) { s.n++; s.s += err; s.s2 += err * err }

// check compares the empirical law of fresh errors with the stated deviation.
func (s *noiseStat) check(t *rapid.T, what string, sigma float64) {
	if s.n < 500 || sigma < 4 {
		return
	}
	n := float64(s.n)
	mean, va := s.s/n, s.s2/n
	if r := va / (sigma*sigma + 1.0/12); r < 1-8*math.Sqrt(2/n) || r > 1+8*math.Sqrt(2/n) {
		t.Fatalf("%s: the errors of %d fresh encryptions have standard deviation %g instead of %g", what, s.n, math.Sqrt(va), sigma)
	}
	if math.Abs(mean) > 8*sigma/math.Sqrt(n)+0.6 {
		t.Fatalf("%s: the errors of %d fresh encryptions have mean %g, standard deviation %g", what, s.n, mean, sigma)
	}
	vh.Label("noise law checked")
}

// scalars used as Lev and GSW messages.
func (v *env[T]) scalar() T { return v.val() }

func (v *env[T]) checkLev(what string, ct tfhe.LevCiphertext[T], g tfhe.GadgetParameters[T], c T) {
	v.t.Helper()
	if len(ct.Value) != g.Level() {
		v.t.Fatalf("%s: %d rows at level %d", what, len(ct.Value), g.Level())
	}
	for j, r := range ct.Value {
		ph, want := v.phase(r), c<<uint(tf.Bits[T]()-(j+1)*g.LogBase())
		v.near(what, one(ph), one(want), freshSigmas*v.lweSigma())
		tf.Law(v.t, &v.laws, what, one(ph), one(want), tf.DefaultStdDev(v.set.Lit)*tf.Q[T](), 0)
	}
}

func (v *env[T]) checkGLev(what string, ct tfhe.GLevCiphertext[T], g tfhe.GadgetParameters[T], p []T, extra float64) {
	v.t.Helper()
	if len(ct.Value) != g.Level() {
		v.t.Fatalf("%s: %d rows at level %d", what, len(ct.Value), g.Level())
	}
	for j, r := range ct.Value {
		ph, want := v.gphase(r), scaled(p, tf.Bits[T]()-(j+1)*g.LogBase())
		v.near(what, ph, want, freshSigmas*v.glweSigma()+extra)
		tf.Law(v.t, &v.laws, what, ph, want, v.set.Lit.GLWEStdDev*tf.Q[T](), extra)
	}
}

// mask returns the mask part of a ciphertext.
func gmask[T tfhe.TorusInt](c tfhe.GLWECiphertext[T]) []T {
	var m []T
	for _, p := range c.Value[1:] {
		m = append(m, p.Coeffs...)
	}
	return m
}

func (v *env[T]) fresh(what string, a, b []T) {
	v.t.Helper()
	if len(a)*tf.Bits[T]() >= 64 && tf.Same(a, b) {
		v.t.Fatalf("%s: two encryptions share their mask (%v)", what, v.set)
	}
}

func encCase[T tfhe.TorusInt](t *rapid.T) {
	v := newEnv[T](t, tf.Opts{Noisy: true, Extend: extends, LogN: [2]int{4, 7}, Big: 12, BigLWE: 1000, Order: -1, BlockCount: true, MaxLogP: 8})
	e := v.enc
	if rapid.Bool().Draw(t, "withKey") {
		e = tfhe.NewEncryptorWithKey(v.p, v.sk)
	}
	if rapid.Bool().Draw(t, "copy") {
		e = e.SafeCopy()
	}
	p := v.p.MessageModulus()
	q := tf.Q[T]()
	var ls, gs noiseStat
	decodes := func(sigma float64) bool {
		return freshSigmas*sigma+float64(p)+4+q*math.Exp2(-48) < float64(v.p.Scale())/2
	}
	n := rapid.IntRange(3, 9).Draw(t, "ops")
	for i := 0; i < n; i++ {
		switch op := rapid.SampledFrom([]string{"lwe", "lwe", "glwe", "glwe", "fglwe", "lev", "gsw", "glev", "ggsw", "fglev", "fggsw"}).Draw(t, "op"); op {
		case "lwe":
			m := v.pr.N(4 * int(p))
			pt := e.EncodeLWE(m)
			how := v.pr.N(5)
			if how == 4 {
				pt.Value = v.val() // any plaintext
			}
			enc := func() tfhe.LWECiphertext[T] {
				switch how {
				case 0:
					return e.EncryptLWE(m)
				case 1:
					c := v.lwe()
					e.EncryptLWETo(c, m)
					return c
				case 2:
					return e.EncryptLWEPlaintext(pt)
				case 3:
					c := v.lwe()
					e.EncryptLWEPlaintextTo(c, pt)
					return c
				}
				c := v.lwe()
				c.Value[0] = pt.Value
				e.EncryptLWEBody(c)
				return c
			}
			c, c2 := enc(), enc()
			v.fresh("LWE", c.Value[1:], c2.Value[1:])
			ph := v.phase(c)
			v.near("LWE encryption", one(ph), one(pt.Value), freshSigmas*v.lweSigma())
			v.exact("LWE phase", one(e.DecryptLWEPhase(c).Value), one(ph))
			if how < 4 && decodes(v.lweSigma()) {
				if got := e.DecryptLWE(c); got != m%int(p) {
					t.Fatalf("LWE: %d decrypts to %d (%v)", m, got, v.set)
				}
			}
			for j := 0; j < 600; j++ {
				c := enc()
				ls.add(float64(tf.Signed(v.phase(c) - pt.Value)))
			}
			vh.Label("lwe")
		case "glwe", "fglwe":
			ms := v.msgs()
			pt := e.EncodeGLWE(ms)
			how := v.pr.N(5)
			if how == 4 {
				pt.Value = v.poly(v.N)
			}
			in := append([]T{}, pt.Value.Coeffs...)
			var c, c2 tfhe.GLWECiphertext[T]
			tol := freshSigmas * v.glweSigma()
			var dec, decTo []int
			var ph []T
			out := tfhe.GLWEPlaintext[T]{Value: tf.DirtyPoly[T](v.pr, v.N)}
			decTo = make([]int, []int{0, 1, v.N, v.N + 2}[v.pr.N(4)])
			if op == "glwe" {
				enc := func() tfhe.GLWECiphertext[T] {
					switch how {
					case 0:
						return e.EncryptGLWE(ms)
					case 1:
						c := v.glwe()
						e.EncryptGLWETo(c, ms)
						return c
					case 2:
						return e.EncryptGLWEPlaintext(pt)
					case 3:
						c := v.glwe()
						e.EncryptGLWEPlaintextTo(c, pt)
						return c
					}
					c := v.glwe()
					c.Value[0].CopyFrom(pt.Value)
					e.EncryptGLWEBody(c)
					return c
				}
				c, c2 = enc(), enc()
				ph = v.gphase(c)
				e.DecryptGLWEPhaseTo(out, c)
				v.near("GLWE phase", e.DecryptGLWEPhase(c).Value.Coeffs, ph, 0)
				dec = e.DecryptGLWE(c)
				e.DecryptGLWETo(decTo, c)
				// Errors for the law: one encryption of a batch.
				for j := 0; j < 1+500/v.N; j++ {
					for k, x := range v.gphase(enc()) {
						gs.add(float64(tf.Signed(x - pt.Value.Coeffs[k])))
					}
				}
			} else {
				tol += v.fftErr(v.K)
				enc := func() tfhe.FFTGLWECiphertext[T] {
					switch how {
					case 0:
						return e.EncryptFFTGLWE(ms)
					case 1:
						c := v.fglwe()
						e.EncryptFFTGLWETo(c, ms)
						return c
					case 2, 4:
						return e.EncryptFFTGLWEPlaintext(pt)
					}
					c := v.fglwe()
					e.EncryptFFTGLWEPlaintextTo(c, pt)
					return c
				}
				f := enc()
				c, c2 = e.InvFFTGLWECiphertext(f), e.InvFFTGLWECiphertext(enc())
				ph = v.gphase(c)
				e.DecryptFFTGLWEPhaseTo(out, f)
				v.near("FFTGLWE phase", e.DecryptFFTGLWEPhase(f).Value.Coeffs, ph, v.fftErr(v.K))
				dec = e.DecryptFFTGLWE(f)
				e.DecryptFFTGLWETo(decTo, f)
			}
			v.fresh(op, gmask(c), gmask(c2))
			v.near(op+" encryption", ph, pt.Value.Coeffs, tol)
			tf.Law(t, &v.laws, op, ph, pt.Value.Coeffs, v.set.Lit.GLWEStdDev*q, tol-freshSigmas*v.glweSigma())
			v.near(op+" phaseTo", out.Value.Coeffs, ph, v.fftErr(v.K)*float64(len(op)-4))
			if !tf.Same(in, pt.Value.Coeffs) {
				t.Fatalf("%s: encryption modified the plaintext", op)
			}
			if how < 4 && decodes(v.glweSigma()+v.fftErr(v.K)) {
				for j := range dec {
					want := 0
					if j < len(ms) {
						want = ms[j] % int(p)
					}
					if dec[j] != want || (j < len(decTo) && decTo[j] != want) {
						t.Fatalf("%s: message %d of %v decrypts to %v, %v (%v)", op, j, ms, dec, decTo, v.set)
					}
				}
			}
			vh.Label(op)
		case "lev", "gsw":
			g := tf.DrawGadget[T](t, "gadget")
			c := v.scalar()
			m := v.pr.N(3 * int(p))
			how := v.pr.N(4)
			if how < 2 {
				c = T(m) % p
			}
			var rows []tfhe.LevCiphertext[T]
			var got T
			var gotM int
			if op == "lev" {
				ct := tfhe.NewLevCiphertext(v.p, g)
				for j := range ct.Value {
					tf.Dirty(v.pr, ct.Value[j].Value)
				}
				switch how {
				case 0:
					ct = e.EncryptLev(m, g)
				case 1:
					e.EncryptLevTo(ct, m)
				case 2:
					ct = e.EncryptLevScalar(c, g)
				case 3:
					e.EncryptLevScalarTo(ct, c)
				}
				rows = []tfhe.LevCiphertext[T]{ct}
				got, gotM = e.DecryptLevScalar(ct), e.DecryptLev(ct)
			} else {
				if v.p.DefaultLWEDimension() > 100 && v.pr.N(3) > 0 {
					continue
				}
				ct := tfhe.NewGSWCiphertext(v.p, g)
				for i := range ct.Value {
					for j := range ct.Value[i].Value {
						tf.Dirty(v.pr, ct.Value[i].Value[j].Value)
					}
				}
				switch how {
				case 0:
					ct = e.EncryptGSW(m, g)
				case 1:
					e.EncryptGSWTo(ct, m)
				case 2:
					ct = e.EncryptGSWScalar(c, g)
				case 3:
					e.EncryptGSWScalarTo(ct, c)
				}
				rows = ct.Value
				got, gotM = e.DecryptGSWScalar(ct), e.DecryptGSW(ct)
				if len(rows) != v.p.DefaultLWEDimension()+1 {
					t.Fatalf("GSW of %d rows for dimension %d", len(rows), v.p.DefaultLWEDimension())
				}
			}
			for i, r := range rows {
				k := T(1)
				if i > 0 {
					k = v.dsk.Value[i-1]
				}
				v.checkLev(op, r, g, k*c)
			}
			if len(rows)*g.Level() > 1 {
				v.fresh(op, rows[0].Value[0].Value[1:], rows[len(rows)-1].Value[g.Level()-1].Value[1:])
			}
			if freshSigmas*v.lweSigma() < float64(g.FirstBaseQ())/2 {
				want := c % g.Base()
				if got != want || gotM != int(want%p) {
					t.Fatalf("%s: %d (base %d) decrypts to %d, as a message to %d (%v)", op, c, g.Base(), got, gotM, v.set)
				}
			}
			vh.Label(op)
		default: // glev ggsw fglev fggsw
			g := tf.DrawGadget[T](t, "gadget")
			ms := v.msgs()
			pp := v.poly(v.N)
			how := v.pr.N(4)
			if op == "fggsw" || op == "ggsw" {
				// The key product is exact for short polynomials only by contract of ShortFFTPolyMul,
				// whose short operand is the key: any message works.
				pp = v.poly(v.N)
			}
			if how < 2 {
				pp.Coeffs = modT(ms, v.N, p)
			}
			in := append([]T{}, pp.Coeffs...)
			var rows []tfhe.GLevCiphertext[T]
			var got, gotTo poly.Poly[T]
			gotTo = tf.DirtyPoly[T](v.pr, v.N)
			var gotM []int
			gotMTo := make([]int, []int{0, 1, v.N, v.N + 2}[v.pr.N(4)])
			extra := 0.0
			dirtyF := func(c []tfhe.FFTGLWECiphertext[T]) {
				for i := range c {
					c[i] = v.fglwe()
				}
			}
			dirty := func(c []tfhe.GLWECiphertext[T]) {
				for i := range c {
					c[i] = v.glwe()
				}
			}
			switch op {
			case "glev":
				ct := tfhe.NewGLevCiphertext(v.p, g)
				dirty(ct.Value)
				switch how {
				case 0:
					ct = e.EncryptGLev(ms, g)
				case 1:
					e.EncryptGLevTo(ct, ms)
				case 2:
					ct = e.EncryptGLevPoly(pp, g)
				case 3:
					e.EncryptGLevPolyTo(ct, pp)
				}
				rows = []tfhe.GLevCiphertext[T]{ct}
				got, gotM = e.DecryptGLevPoly(ct), e.DecryptGLev(ct)
				e.DecryptGLevPolyTo(gotTo, ct)
				e.DecryptGLevTo(gotMTo, ct)
			case "ggsw":
				ct := tfhe.NewGGSWCiphertext(v.p, g)
				for i := range ct.Value {
					dirty(ct.Value[i].Value)
				}
				switch how {
				case 0:
					ct = e.EncryptGGSW(ms, g)
				case 1:
					e.EncryptGGSWTo(ct, ms)
				case 2:
					ct = e.EncryptGGSWPoly(pp, g)
				case 3:
					e.EncryptGGSWPolyTo(ct, pp)
				}
				rows = ct.Value
				got, gotM = e.DecryptGGSWPoly(ct), e.DecryptGGSW(ct)
				e.DecryptGGSWPolyTo(gotTo, ct)
				e.DecryptGGSWTo(gotMTo, ct)
			case "fglev":
				ct := tfhe.NewFFTGLevCiphertext(v.p, g)
				dirtyF(ct.Value)
				switch how {
				case 0:
					ct = e.EncryptFFTGLev(ms, g)
				case 1:
					e.EncryptFFTGLevTo(ct, ms)
				case 2:
					ct = e.EncryptFFTGLevPoly(pp, g)
				case 3:
					e.EncryptFFTGLevPolyTo(ct, pp)
				}
				rows = []tfhe.GLevCiphertext[T]{e.InvFFTGLevCiphertext(ct)}
				extra = v.fftErr(v.K)
				got, gotM = e.DecryptFFTGLevPoly(ct), e.DecryptFFTGLev(ct)
				e.DecryptFFTGLevPolyTo(gotTo, ct)
				e.DecryptFFTGLevTo(gotMTo, ct)
			case "fggsw":
				ct := tfhe.NewFFTGGSWCiphertext(v.p, g)
				for i := range ct.Value {
					dirtyF(ct.Value[i].Value)
				}
				switch how {
				case 0:
					ct = e.EncryptFFTGGSW(ms, g)
				case 1:
					e.EncryptFFTGGSWTo(ct, ms)
				case 2:
					ct = e.EncryptFFTGGSWPoly(pp, g)
				case 3:
					e.EncryptFFTGGSWPolyTo(ct, pp)
				}
				rows = e.InvFFTGGSWCiphertext(ct).Value
				extra = v.fftErr(v.K)
				got, gotM = e.DecryptFFTGGSWPoly(ct), e.DecryptFFTGGSW(ct)
				e.DecryptFFTGGSWPolyTo(ct, gotTo)
				e.DecryptFFTGGSWTo(ct, gotMTo)
			}
			if !tf.Same(in, pp.Coeffs) {
				t.Fatalf("%s: encryption modified the message", op)
			}
			for i, r := range rows {
				want := pp.Coeffs
				if i > 0 {
					want = tf.NegMul(pp.Coeffs, v.sk.GLWEKey.Value[i-1].Coeffs)
				}
				v.checkGLev(op, r, g, want, extra)
			}
			if len(rows)*g.Level() > 1 {
				v.fresh(op, gmask(rows[0].Value[0]), gmask(rows[len(rows)-1].Value[g.Level()-1]))
			}
			if freshSigmas*v.glweSigma()+2*extra < float64(g.FirstBaseQ())/2 {
				for j := range pp.Coeffs {
					want := pp.Coeffs[j] % g.Base()
					if got.Coeffs[j] != want || gotTo.Coeffs[j] != want || gotM[j] != int(want%p) || (j < len(gotMTo) && gotMTo[j] != int(want%p)) {
						t.Fatalf("%s: coefficient %d is %d (base %d), decrypts to %d, %d, as a message to %d (%v)", op, j, pp.Coeffs[j], g.Base(), got.Coeffs[j], gotTo.Coeffs[j], gotM[j], v.set)
					}
				}
			}
			vh.Label(op)
		}
	}
	v.laws.Check(t)
	ls.check(t, "LWE", tf.DefaultStdDev(v.set.Lit)*q)
	gs.check(t, "GLWE", v.set.Lit.GLWEStdDev*q)
	vh.Case(true, "%v seed %x", v.set, v.pr.U64())
}

func TestEncrypt(t *testing.T) {
	vh.Check(t, "a case runs several encryption entry points under a generated parameter set and decrypts by the definition; every case is non-trivial", 1200, 40000, func(t *rapid.T) {
		both(t, encCase[uint32], encCase[uint64])
	})
}

func pubCase[T tfhe.TorusInt](t *rapid.T) {
	v := newEnv[T](t, tf.Opts{Noisy: true, Extend: extends, LogN: [2]int{4, 8}, Big: 12, BigLWE: 1000, Order: int(tfhe.OrderKeySwitchBlindRotate), BlockCount: true, MaxLogP: 8})
	pk := v.enc.GenPublicKey()
	sg := v.glweSigma()
	// The public key encrypts zero under the key and under the reversed key.
	rev := tfhe.GLWESecretKey[T]{}
	for _, s := range v.sk.GLWEKey.Value {
		r := poly.NewPoly[T](v.N)
		for i := range r.Coeffs {
			r.Coeffs[i] = s.Coeffs[v.N-1-i]
		}
		rev.Value = append(rev.Value, r)
	}
	zero := make([]T, v.N)
	if len(pk.GLWEKey.Value) != v.K || len(pk.LWEKey.Value) != v.K {
		t.Fatalf("public key of %d, %d rows for rank %d", len(pk.LWEKey.Value), len(pk.GLWEKey.Value), v.K)
	}
	for i := 0; i < v.K; i++ {
		v.near("GLWE public key", tf.GPhase(pk.GLWEKey.Value[i], v.sk.GLWEKey), zero, freshSigmas*sg)
		v.near("LWE public key", tf.GPhase(pk.LWEKey.Value[i], rev), zero, freshSigmas*sg)
		for j := 0; j < i; j++ {
			v.fresh("public key", gmask(pk.GLWEKey.Value[i]), gmask(pk.GLWEKey.Value[j]))
			v.fresh("public key", gmask(pk.LWEKey.Value[i]), gmask(pk.LWEKey.Value[j]))
		}
	}
	e := tfhe.NewPublicEncryptor(v.p, pk)
	if rapid.Bool().Draw(t, "copy") {
		e = e.SafeCopy()
	}
	be := tfhe.NewBinaryPublicEncryptor(v.p, pk)
	if rapid.Bool().Draw(t, "copyBinary") {
		be = be.SafeCopy()
	}
	sec := tfhe.NewBinaryEncryptorWithKey(v.p, v.sk)
	p := v.p.MessageModulus()
	sigma := sg * math.Sqrt(1+float64(2*v.K*v.N))
	tol := freshSigmas * sigma
	decodes := tol+v.fftErr(v.K)+float64(p)+4+tf.Q[T]()*math.Exp2(-48) < float64(v.p.Scale())/2
	n := rapid.IntRange(2, 8).Draw(t, "ops")
	var prevL, prevG []T
	for i := 0; i < n; i++ {
		switch op := rapid.SampledFrom([]string{"lwe", "glwe", "fglwe", "bool", "bits"}).Draw(t, "op"); op {
		case "lwe":
			m := v.pr.N(3 * int(p))
			pt := e.EncodeLWE(m)
			c := v.lwe()
			switch v.pr.N(5) {
			case 0:
				c = e.EncryptLWE(m)
			case 1:
				e.EncryptLWETo(c, m)
			case 2:
				c = e.EncryptLWEPlaintext(pt)
			case 3:
				e.EncryptLWEPlaintextTo(c, pt)
			case 4:
				c.Value[0] = pt.Value
				e.EncryptLWEBody(c)
			}
			v.near("public LWE encryption", one(v.phase(c)), one(pt.Value), tol)
			if prevL != nil {
				v.fresh("public LWE", prevL, c.Value[1:])
			}
			prevL = append([]T{}, c.Value[1:]...)
			if decodes && v.enc.DecryptLWE(c) != m%int(p) {
				t.Fatalf("public LWE: %d decrypts to %d (%v)", m, v.enc.DecryptLWE(c), v.set)
			}
		case "glwe", "fglwe":
			ms := v.msgs()
			pt := e.EncodeGLWE(ms)
			c := v.glwe()
			f := v.fglwe()
			tl := tol
			var dec []int
			how := v.pr.N(5)
			if op == "glwe" {
				switch how {
				case 0:
					c = e.EncryptGLWE(ms)
				case 1:
					e.EncryptGLWETo(c, ms)
				case 2:
					c = e.EncryptGLWEPlaintext(pt)
				case 3:
					e.EncryptGLWEPlaintextTo(c, pt)
				case 4:
					c.Value[0].CopyFrom(pt.Value)
					e.EncryptGLWEBody(c)
				}
				dec = v.enc.DecryptGLWE(c)
			} else {
				switch how {
				case 0:
					f = e.EncryptFFTGLWE(ms)
				case 1:
					e.EncryptFFTGLWETo(f, ms)
				case 2, 4:
					f = e.EncryptFFTGLWEPlaintext(pt)
				case 3:
					e.EncryptFFTGLWEPlaintextTo(f, pt)
				}
				c = v.enc.InvFFTGLWECiphertext(f)
				tl += v.fftErr(v.K)
				dec = v.enc.DecryptFFTGLWE(f)
			}
			v.near("public "+op+" encryption", v.gphase(c), pt.Value.Coeffs, tl)
			if prevG != nil {
				v.fresh("public GLWE", prevG, gmask(c))
			}
			prevG = gmask(c)
			if decodes {
				for j, w := range modT(ms, v.N, p) {
					if dec[j] != int(w) {
						t.Fatalf("public %s: message %d is %d, decrypts to %d (%v)", op, j, w, dec[j], v.set)
					}
				}
			}
		case "bool":
			b := v.pr.N(2) == 1
			c := v.lwe()
			if v.pr.N(2) == 0 {
				c = be.EncryptLWEBool(b)
			} else {
				be.EncryptLWEBoolTo(c, b)
			}
			if tol < tf.Q[T]()/8 && sec.DecryptLWEBool(c) != b {
				t.Fatalf("public boolean %v decrypts to %v (%v)", b, !b, v.set)
			}
		case "bits":
			nb := v.pr.N(9)
			m := v.pr.N(1 << 10)
			cs := be.EncryptLWEBits(m, nb)
			if len(cs) != nb || tol < tf.Q[T]()/8 && sec.DecryptLWEBits(cs) != m%(1<<uint(nb)) {
				t.Fatalf("public bits: %d in %d bits decrypts to %d in %d (%v)", m, nb, sec.DecryptLWEBits(cs), len(cs), v.set)
			}
		}
	}
	vh.Label("decodes=%v", decodes)
	vh.Case(n > 1, "%v ops %d seed %x", v.set, n, v.pr.U64())
}

func TestPublic(t *testing.T) {
	vh.Check(t, "a case encrypts repeatedly under one public key through every entry point, into fresh and used outputs; non-trivial = more than one encryption", 1500, 50000, func(t *rapid.T) {
		both(t, pubCase[uint32], pubCase[uint64])
	})
}
