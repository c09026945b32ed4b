package mkp

import (
	"math"
	"testing"

	"github.com/sp301415/tfhe-go/math/csprng"
	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/mktfhe"
	"github.com/sp301415/tfhe-go/tfhe"
	"pgregory.net/rapid"

	"verifharness/tf"
	"verifharness/vh"
)

// onlyParty checks that a ciphertext involves no party but i.
func (v *env[T]) onlyParty(what string, i int, masks [][]T) {
	v.T.Helper()
	for j, m := range masks {
		zero := true
		for _, x := range m {
			zero = zero && x == 0
		}
		if j != i && !zero {
			v.T.Fatalf("%s of party %d has a mask for party %d (%v)", what, i, j, v)
		}
		if j == i && zero && len(m) > 3 {
			v.T.Fatalf("%s of party %d has no mask (%v)", what, i, v)
		}
	}
}

func (v *env[T]) lmasks(c lwe[T]) (m [][]T) {
	for i := 0; i < v.k; i++ {
		m = append(m, c.Value[1+i*v.D:1+(i+1)*v.D])
	}
	return
}

func (v *env[T]) gmasks(c glwe[T]) (m [][]T) {
	for i := 0; i < v.k; i++ {
		m = append(m, c.Value[1+i].Coeffs)
	}
	return
}

func (v *env[T]) decodes(sigma float64) bool {
	return freshSigmas*sigma+float64(v.l.MessageModulus)+4+v.fftErr() < float64(v.p.Scale())/2
}

// encryptor is what secret and public encryptors share.
type encryptor[T tfhe.TorusInt] interface {
	EncodeLWE(int) tfhe.LWEPlaintext[T]
	EncodeGLWE([]int) tfhe.GLWEPlaintext[T]
	EncryptLWE(int) lwe[T]
	EncryptLWETo(lwe[T], int)
	EncryptLWEPlaintext(tfhe.LWEPlaintext[T]) lwe[T]
	EncryptLWEPlaintextTo(lwe[T], tfhe.LWEPlaintext[T])
	EncryptLWEBody(lwe[T])
	EncryptGLWE([]int) glwe[T]
	EncryptGLWETo(glwe[T], []int)
	EncryptGLWEPlaintext(tfhe.GLWEPlaintext[T]) glwe[T]
	EncryptGLWEPlaintextTo(glwe[T], tfhe.GLWEPlaintext[T])
	EncryptGLWEBody(glwe[T])
	EncryptFFTGLWE([]int) fft[T]
	EncryptFFTGLWETo(fft[T], []int)
	EncryptFFTGLWEPlaintext(tfhe.GLWEPlaintext[T]) fft[T]
	EncryptFFTGLWEPlaintextTo(fft[T], tfhe.GLWEPlaintext[T])
}

type boolEncryptor[T tfhe.TorusInt] interface {
	EncryptLWEBool(bool) lwe[T]
	EncryptLWEBoolTo(lwe[T], bool)
	EncryptLWEBits(int, int) []lwe[T]
	EncryptLWEBitsTo([]lwe[T], int)
}

// encrypts checks one encryption of party i through a drawn entry point.
func (v *env[T]) encrypts(what string, i int, e encryptor[T], be boolEncryptor[T], d *mktfhe.Decryptor[T], bd *mktfhe.BinaryDecryptor[T], sl, sg float64, ls, gs *tf.NoiseStat) {
	t, p := v.T, v.l.MessageModulus
	q := tf.Q[T]()
	op := rapid.SampledFrom([]string{"lwe", "glwe", "fglwe", "bool", "bits"}).Draw(t, "op")
	what += " " + op
	switch op {
	case "lwe":
		m := v.P.N(3 * int(p))
		pt := e.EncodeLWE(m)
		c := v.lwe()
		switch v.P.N(5) {
		case 0:
			c = e.EncryptLWE(m)
		case 1:
			e.EncryptLWETo(c, m)
		case 2:
			c = e.EncryptLWEPlaintext(pt)
		case 3:
			e.EncryptLWEPlaintextTo(c, pt)
		case 4:
			c.Value[0] = pt.Value
			e.EncryptLWEBody(c)
		}
		v.onlyParty(what, i, v.lmasks(c))
		ph := v.phase(c)
		v.Near(what, tf.One(ph), tf.One(pt.Value), freshSigmas*sl)
		ls.Add(float64(tf.Signed(ph - pt.Value)))
		if got := d.DecryptLWEPlaintext(c); got.Value != ph {
			t.Fatalf("%s: decrypts to the plaintext %#x instead of %#x (%v)", what, got.Value, ph, v)
		}
		if v.decodes(sl) && d.DecryptLWE(c) != m%int(p) {
			t.Fatalf("%s: %d decrypts to %d (%v)", what, m, d.DecryptLWE(c), v)
		}
	case "glwe", "fglwe":
		ms := v.msgs()
		pt := e.EncodeGLWE(ms)
		c, f := v.glwe(), v.fglwe()
		tol := freshSigmas * sg
		how := v.P.N(5)
		if op == "glwe" {
			switch how {
			case 0:
				c = e.EncryptGLWE(ms)
			case 1:
				e.EncryptGLWETo(c, ms)
			case 2:
				c = e.EncryptGLWEPlaintext(pt)
			case 3:
				e.EncryptGLWEPlaintextTo(c, pt)
			case 4:
				c.Value[0].CopyFrom(pt.Value)
				e.EncryptGLWEBody(c)
			}
		} else {
			switch how {
			case 0:
				f = e.EncryptFFTGLWE(ms)
			case 1:
				e.EncryptFFTGLWETo(f, ms)
			case 2:
				f = e.EncryptFFTGLWEPlaintext(pt)
			default:
				e.EncryptFFTGLWEPlaintextTo(f, pt)
			}
			c = v.inv(f)
			tol += v.fftErr()
		}
		v.onlyParty(what, i, v.gmasks(c))
		ph := v.gphase(c)
		v.Near(what, ph, pt.Value.Coeffs, tol)
		if op == "glwe" {
			gs.AddAll(tf.Minus(ph, pt.Value.Coeffs))
		}
		got := tfhe.GLWEPlaintext[T]{Value: tf.DirtyPoly[T](v.P, v.N)}
		var dec []int
		to := make([]int, v.N+2)
		for j := range to {
			to[j] = -1
		}
		if op == "glwe" {
			if v.P.N(2) == 0 {
				got = d.DecryptGLWEPhase(c)
			} else {
				d.DecryptGLWEPhaseTo(got, c)
			}
			dec = d.DecryptGLWE(c)
			d.DecryptGLWETo(to, c)
		} else {
			if v.P.N(2) == 0 {
				got = d.DecryptFFTGLWEPhase(f)
			} else {
				d.DecryptFFTGLWEPhaseTo(got, f)
			}
			dec = d.DecryptFFTGLWE(f)
			d.DecryptFFTGLWETo(to, f)
		}
		// Decryption multiplies by the key in floating point as well.
		v.Near(what+" phase", got.Value.Coeffs, ph, v.fftErr()*float64(v.k)+q*math.Exp2(-50)*float64(v.N))
		if v.decodes(sg + v.fftErr()) {
			for j := 0; j < v.N; j++ {
				w := 0
				if j < len(ms) {
					w = ms[j] % int(p)
				}
				if dec[j] != w || to[j] != w {
					t.Fatalf("%s: message %d is %d, decrypts to %d, %d (%v)", what, j, w, dec[j], to[j], v)
				}
			}
		}
	case "bool", "bits":
		if freshSigmas*sl+4 > q/8 {
			return
		}
		b := v.P.N(2) == 1
		c := v.lwe()
		if v.P.N(2) == 0 {
			c = be.EncryptLWEBool(b)
		} else {
			be.EncryptLWEBoolTo(c, b)
		}
		v.onlyParty(what, i, v.lmasks(c))
		if bd.DecryptLWEBool(c) != b {
			t.Fatalf("%s: %v decrypts to %v (%v)", what, b, !b, v)
		}
		nb := v.P.N(12)
		m := int(v.P.U64() >> 1)
		cs := be.EncryptLWEBits(m, nb)
		if v.P.N(2) == 0 {
			for j := range cs {
				cs[j] = v.lwe()
			}
			be.EncryptLWEBitsTo(cs, m)
		}
		if got := bd.DecryptLWEBits(cs); got != m&(1<<uint(nb)-1) || len(cs) != nb {
			t.Fatalf("%s: %d in %d bits decrypts to %d (%v)", what, m, nb, got, v)
		}
	}
	vh.Label("%s", what)
}

func encCase[T tfhe.TorusInt](t *rapid.T) {
	v := newEnv[T](t, opts{Opts: tf.Opts{LogN: [2]int{4, 7}, Big: 11, BigLWE: 1000, Order: -1, BlockCount: true, MaxLogP: 6}, parties: 5})
	d := v.decryptor()
	bd := mktfhe.NewBinaryDecryptor(v.p, v.sks)
	if v.P.N(2) == 0 {
		bd = bd.SafeCopy()
	}
	n := rapid.IntRange(3, 9).Draw(t, "ops")
	var ls, gs tf.NoiseStat
	for j := 0; j < n; j++ {
		i := v.party()
		e := v.encs[i]
		if v.P.N(4) == 0 {
			e = mktfhe.NewEncryptorWithKey(v.p, i, v.seed, v.sks[i])
		}
		if v.P.N(4) == 0 {
			e = e.SafeCopy()
		}
		be := mktfhe.NewBinaryEncryptorWithKey(v.p, i, v.seed, v.sks[i])
		if v.P.N(3) == 0 {
			be = be.SafeCopy()
		}
		if v.P.N(5) == 0 && v.p.BootstrapOrder() == tfhe.OrderKeySwitchBlindRotate {
			pk := e.GenPublicKey()
			pe := mktfhe.NewPublicEncryptor(v.p, i, pk)
			bp := mktfhe.NewBinaryPublicEncryptor(v.p, i, pk)
			if v.P.N(2) == 0 {
				pe, bp = pe.SafeCopy(), bp.SafeCopy()
			}
			sg := v.glweSigma() * math.Sqrt(1+float64(2*v.N))
			var s1, s2 tf.NoiseStat
			v.encrypts("public", i, pe, bp, d, bd, sg, sg, &s1, &s2)
			continue
		}
		v.encrypts("secret", i, e, be, d, bd, v.lweSigma(), v.glweSigma(), &ls, &gs)
	}
	ls.Check(t, "LWE", tf.DefaultStdDev(v.l)*tf.Q[T]())
	gs.Check(t, "GLWE", v.l.GLWEStdDev*tf.Q[T]())
	// A party outside the decryptor's knowledge stays hidden.
	if len(v.in) > 1 {
		i := v.in[0]
		c := v.encs[i].EncryptLWEPlaintext(tfhe.LWEPlaintext[T]{})
		d := mktfhe.NewDecryptor(v.p, map[int]tfhe.SecretKey[T]{v.in[1]: v.sks[v.in[1]]})
		if got := d.DecryptLWEPlaintext(c).Value; got != c.Value[0] {
			t.Fatalf("a decryptor without party %d uses its mask (%v)", i, v)
		}
		if d.AddSecretKey(i, v.sks[i]); d.DecryptLWEPlaintext(c).Value != v.phase(c) {
			t.Fatalf("a decryptor that learns party %d does not decrypt for it (%v)", i, v)
		}
	}
	vh.Case(true, "%v seed %x", v, v.P.U64())
}

func TestEncrypt(t *testing.T) {
	vh.Check(t, "a case encrypts under several parties through drawn entry points and decrypts by the definition and with a decryptor built in a drawn order; every case is non-trivial", 1200, 40000, func(t *rapid.T) {
		both(t, encCase[uint32], encCase[uint64])
	})
}

// uniRows checks a uni-encryption row by row.
func (v *env[T]) uniRows(what string, i int, u mktfhe.UniEncryption[T], m []T, g tfhe.GadgetParameters[T], fft bool) poly.Poly[T] {
	t, e := v.T, v.encs[i]
	if tf.Diff(&u.GadgetParams, &g) != "" || len(u.Value) != 2 || len(u.Value[0].Value) != g.Level() || len(u.Value[1].Value) != g.Level() {
		t.Fatalf("%s: wrong shape (%v)", what, v)
	}
	crsTol, tol := 0.0, freshSigmas*v.glweSigma()+4*tf.Q[T]()*math.Exp2(-50)*math.Sqrt(float64(v.N))+1
	if fft {
		crsTol = v.fftErr()
		tol += 2 * v.fftErr()
	}
	// The auxiliary key is what the second part encrypts; it must be binary.
	aux := poly.NewPoly[T](v.N)
	for l := 0; l < g.Level(); l++ {
		sh := uint(tf.Bits[T]() - (l+1)*g.LogBase())
		ph := tf.GPhase(u.Value[1].Value[l], v.sks[i].GLWEKey)
		if l == 0 {
			for j, x := range ph {
				aux.Coeffs[j] = (x + T(1)<<(sh-1+b2u(sh == 0))) >> sh & 1
				if sh == 0 {
					aux.Coeffs[j] = x & 1
				}
			}
		}
		want := tf.Times(aux.Coeffs, T(1)<<sh)
		if l == 0 && tol >= math.Exp2(float64(sh))/2 {
			return aux // too noisy to tell the key
		}
		v.Near(what+" auxiliary key", ph, want, tol)
		tf.Law(t, &v.laws, "auxiliary key row", ph, want, v.l.GLWEStdDev*tf.Q[T](), tol-freshSigmas*v.glweSigma())
	}
	for l := 0; l < g.Level(); l++ {
		r := u.Value[0].Value[l]
		v.Near(what+" mask", r.Value[1].Coeffs, e.CRS[l].Coeffs, crsTol)
		sh := uint(tf.Bits[T]() - (l+1)*g.LogBase())
		want := tf.Plus(tf.Times(m, T(1)<<sh), tf.NegMul(e.CRS[l].Coeffs, aux.Coeffs))
		v.Near(what+" body", r.Value[0].Coeffs, want, tol)
		tf.Law(t, &v.laws, "uni-encryption body", r.Value[0].Coeffs, want, v.l.GLWEStdDev*tf.Q[T](), tol-freshSigmas*v.glweSigma())
	}
	return aux
}

// noisy checks a fresh encryption under the polynomial key of an error of at most
// extra besides its noise, and the law of the noise.
func (v *env[T]) noisy(what string, got, want []T, extra float64) {
	v.T.Helper()
	v.Near(what, got, want, freshSigmas*v.glweSigma()+extra)
	tf.Law(v.T, &v.laws, what, got, want, v.l.GLWEStdDev*tf.Q[T](), extra)
}

func b2u(b bool) uint {
	if b {
		return 1
	}
	return 0
}

func uniCase[T tfhe.TorusInt](t *rapid.T) {
	v := newEnv[T](t, opts{Opts: tf.Opts{Noisy: true, LogN: [2]int{4, 7}, Big: 11, Order: -1, BlockCount: true, MaxLogP: 6}})
	// The common reference string is a function of the seed alone.
	s := csprng.NewUniformSamplerWithSeed[T](v.seed)
	for l := 0; l < v.p.RelinKeyParameters().Level(); l++ {
		want := poly.NewPoly[T](v.N)
		s.SamplePolyTo(want)
		for _, i := range v.in {
			v.Exact("common reference string", v.encs[i].CRS[l].Coeffs, want.Coeffs)
		}
	}
	n := rapid.IntRange(1, 4).Draw(t, "ops")
	var prev poly.Poly[T]
	for j := 0; j < n; j++ {
		i := v.party()
		e := v.encs[i]
		if v.P.N(3) == 0 {
			e = e.SafeCopy()
		}
		g := v.p.RelinKeyParameters()
		if v.P.N(3) > 0 {
			lb := 1 + v.P.N(tf.Bits[T]()/2)
			lv := 1 + v.P.N(g.Level())
			for lb*lv > tf.Bits[T]() {
				lv--
			}
			g = tf.Lit[T](tf.Gadget{LogBase: lb, Level: lv}).Compile()
		}
		b, p := g.Base(), v.l.MessageModulus
		fits := freshSigmas*v.glweSigma()+4*v.fftErr() < math.Exp2(float64(tf.Bits[T]()-g.LogBase()))/2
		raw := rapid.Bool().Draw(t, "poly")
		fft := rapid.Bool().Draw(t, "fft")
		to := rapid.Bool().Draw(t, "to")
		m := make([]T, v.N)
		ms := v.msgs()
		pp := poly.Poly[T]{Coeffs: m}
		for x := range m {
			if raw {
				m[x] = v.Val() % b
			} else if x < len(ms) {
				m[x] = T(ms[x]) % p
			}
		}
		u := mktfhe.NewUniEncryption(v.p, g)
		f := mktfhe.NewFFTUniEncryption(v.p, g)
		for x := range u.Value {
			for y := range u.Value[x].Value {
				for z := range u.Value[x].Value[y].Value {
					tf.Dirty(v.P, u.Value[x].Value[y].Value[z].Coeffs)
					for w := range f.Value[x].Value[y].Value[z].Coeffs {
						f.Value[x].Value[y].Value[z].Coeffs[w] = v.P.F()
					}
				}
			}
		}
		switch {
		case !fft && raw && !to:
			u = e.UniEncryptPoly(pp, g)
		case !fft && raw:
			e.UniEncryptPolyTo(u, pp)
		case !fft && !to:
			u = e.UniEncrypt(ms, g)
		case !fft:
			e.UniEncryptTo(u, ms, g)
		case raw && !to:
			f = e.FFTUniEncryptPoly(pp, g)
		case raw:
			e.FFTUniEncryptPolyTo(f, pp)
		case !to:
			f = e.FFTUniEncrypt(ms, g)
		default:
			e.FFTUniEncryptTo(f, ms, g)
		}
		if fft {
			u = e.InvFFTUniEncryption(f)
		} else {
			f = e.FwdFFTUniEncryption(u)
		}
		aux := v.uniRows("uni-encryption", i, u, m, g, fft)
		if prev.Coeffs != nil && v.N >= 64 && fits && tf.Same(prev.Coeffs, aux.Coeffs) {
			t.Fatalf("two uni-encryptions share their auxiliary key (%v)", v)
		}
		if fits {
			prev = aux
		}
		// Decryption recovers the message modulo the base.
		if fits {
			want := make([]T, v.N)
			wantM := make([]int, v.N)
			for x := range want {
				want[x] = m[x] % b
				wantM[x] = int(want[x] % p)
			}
			got := tf.DirtyPoly[T](v.P, v.N)
			gotM := make([]int, v.N)
			for x := range gotM {
				gotM[x] = -1
			}
			form := v.P.N(4)
			switch form {
			case 0:
				got, gotM = e.UniDecryptPoly(u), e.UniDecrypt(u)
			case 1:
				e.UniDecryptPolyTo(got, u)
				e.UniDecryptTo(gotM, u)
			case 2:
				got, gotM = e.FFTUniDecryptPoly(f), e.FFTUniDecrypt(f)
			case 3:
				e.FFTUniDecryptPolyTo(got, f)
				e.FFTUniDecryptTo(gotM, f)
			}
			v.Exact("uni-decryption", got.Coeffs, want)
			for x := range gotM {
				if gotM[x] != wantM[x] {
					t.Fatalf("uni-decryption (form %d): message %d is %d instead of %d (%v)", form, x, gotM[x], wantM[x], v)
				}
			}
			vh.Label("decrypted form %d", form)
		}
		vh.Label("fft=%v raw=%v to=%v", fft, raw, to)
	}
	// Public keys.
	i := v.party()
	pk := v.encs[i].GenCRSPublicKey()
	g := v.p.RelinKeyParameters()
	if tf.Diff(&pk.GadgetParams, &g) != "" || len(pk.Value) != g.Level() {
		t.Fatalf("public key of the wrong shape (%v)", v)
	}
	var st tf.NoiseStat
	for l := range pk.Value {
		ct := v.encs[i].SubEncryptor.InvFFTGLWECiphertext(pk.Value[l])
		v.Near("public key mask", ct.Value[1].Coeffs, v.encs[i].CRS[l].Coeffs, v.fftErr())
		ph := tf.GPhase(ct, v.sks[i].GLWEKey)
		v.noisy("public key", ph, make([]T, v.N), 3*v.fftErr())
		if v.fftErr() < v.glweSigma()/100 {
			st.AddAll(ph)
		}
	}
	st.Check(t, "public key", v.l.GLWEStdDev*tf.Q[T]())
	v.uniRows("relinearization key", i, v.encs[i].InvFFTUniEncryption(v.encs[i].GenRelinKey()), v.sks[i].GLWEKey.Value[0].Coeffs, g, true)
	v.laws.Check(t)
	vh.Case(true, "%v seed %x", v, v.P.U64())
}

func TestUni(t *testing.T) {
	vh.Check(t, "a case uni-encrypts several messages with drawn gadgets and checks every row against the common reference string and the auxiliary key, and the decryptions; every case is non-trivial", 1200, 40000, func(t *rapid.T) {
		both(t, uniCase[uint32], uniCase[uint64])
	})
}
