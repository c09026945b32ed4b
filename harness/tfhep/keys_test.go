package tfhep

import (
	"fmt"
	"math"
	"testing"

	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/tfhe"
	"pgregory.net/rapid"

	"verifharness/tf"
	"verifharness/vh"
)

// unlikely fails when k successes of n at probability p are beyond 8 deviations.
func unlikely(t *rapid.T, what string, k, n int, p float64) {
	t.Helper()
	m, s := float64(n)*p, math.Sqrt(float64(n)*p*(1-p))
	if n*8 < 100 || math.Abs(float64(k)-m) <= 8*s+3 {
		return
	}
	t.Fatalf("%s: %d of %d instead of about %.1f", what, k, n, m)
}

// checkSecret checks the shape and law of a secret key.
func (v *env[T]) checkSecret(what string, sk tfhe.SecretKey[T]) {
	t, l := v.t, v.set.Lit
	n, dim, b := l.LWEDimension, l.GLWERank*l.PolyRank, l.BlockSize
	if len(sk.LWELargeKey.Value) != dim || len(sk.LWEKey.Value) != n || len(sk.GLWEKey.Value) != v.K || len(sk.FFTGLWEKey.Value) != v.K {
		t.Fatalf("%s: key of the wrong shape (%v)", what, v.set)
	}
	ones := 0
	for i, x := range sk.LWELargeKey.Value {
		if x > 1 {
			t.Fatalf("%s: key coefficient %d is %#x (%v)", what, i, x, v.set)
		}
		if i < n && x != sk.LWEKey.Value[i] {
			t.Fatalf("%s: the small key is not the prefix of the large one at %d (%v)", what, i, v.set)
		}
		if x != sk.GLWEKey.Value[i/v.N].Coeffs[i%v.N] {
			t.Fatalf("%s: the polynomial key differs from the flat one at %d (%v)", what, i, v.set)
		}
		if i >= n {
			ones += int(x)
		}
	}
	unlikely(t, what+": ones beyond the small key", ones, dim-n, 0.5)
	set := 0
	for i := 0; i+b <= n; i += b {
		w := 0
		for _, x := range sk.LWEKey.Value[i : i+b] {
			w += int(x)
		}
		if b > 1 && w > 1 {
			t.Fatalf("%s: block %d of %d has %d ones (%v)", what, i/b, b, w, v.set)
		}
		set += w
	}
	unlikely(t, what+": ones in the small key", set, n/b, float64(b)/float64(b+1))
	ev := poly.NewEvaluator[T](v.N)
	for i, p := range sk.GLWEKey.Value {
		f := ev.FwdFFT(p)
		if !f.Approx(sk.FFTGLWEKey.Value[i], 1e-6) {
			t.Fatalf("%s: the Fourier key is not the transform of polynomial %d (%v)", what, i, v.set)
		}
	}
}

// masks collects masks to find repetitions.
type masks map[string]string

func (m masks) add(t *rapid.T, what string, body []byte) {
	t.Helper()
	if len(body) < 16 {
		return
	}
	if old, ok := m[string(body)]; ok {
		t.Fatalf("%s uses the same mask as %s", what, old)
	}
	m[string(body)] = what
}

// checkBRK checks every row of a blind rotation key.
func (v *env[T]) checkBRK(what string, k tfhe.BlindRotateKey[T], sk tfhe.SecretKey[T], ms masks) {
	t, g := v.t, v.p.BlindRotateParams()
	if len(k.Value) != v.set.Lit.LWEDimension || tf.Diff(&k.GadgetParams, &g) != "" {
		t.Fatalf("%s: wrong shape", what)
	}
	tol := freshSigmas*v.glweSigma() + 2*v.fftErr(v.K)
	for i, gsw := range k.Value {
		s := sk.LWEKey.Value[i]
		if len(gsw.Value) != v.K+1 || tf.Diff(&gsw.GadgetParams, &g) != "" {
			t.Fatalf("%s: entry %d has the wrong shape", what, i)
		}
		for j, lev := range gsw.Value {
			if len(lev.Value) != g.Level() || tf.Diff(&lev.GadgetParams, &g) != "" {
				t.Fatalf("%s: entry %d row %d has the wrong shape", what, i, j)
			}
			m := make([]T, v.N)
			if j == 0 {
				m[0] = s
			} else {
				m = times(sk.GLWEKey.Value[j-1].Coeffs, s)
			}
			for l, c := range lev.Value {
				ct := v.enc.InvFFTGLWECiphertext(c)
				ph, want := tf.GPhase(ct, sk.GLWEKey), scaled(m, tf.Bits[T]()-(l+1)*g.LogBase())
				v.near(what, ph, want, tol)
				tf.Law(t, &v.laws, fmt.Sprintf("%s row %d", what, j), ph, want, v.set.Lit.GLWEStdDev*tf.Q[T](), 2*v.fftErr(v.K))
				b := ct.Value[1:]
				ms.add(t, what, tf.Body(&b))
			}
		}
	}
}

func (v *env[T]) checkKSK(what string, k tfhe.LWEKeySwitchKey[T], sk tfhe.SecretKey[T], ms masks) {
	t, g, n := v.t, v.p.KeySwitchParams(), v.set.Lit.LWEDimension
	if len(k.Value) != v.K*v.N-n || tf.Diff(&k.GadgetParams, &g) != "" {
		t.Fatalf("%s: wrong shape: %d entries", what, len(k.Value))
	}
	sigma := v.set.Lit.LWEStdDev*tf.Q[T]() + 0.5
	var st noiseStat
	for i, lev := range k.Value {
		if len(lev.Value) != g.Level() || tf.Diff(&lev.GadgetParams, &g) != "" {
			t.Fatalf("%s: entry %d has the wrong shape", what, i)
		}
		for l, c := range lev.Value {
			if len(c.Value) != n+1 {
				t.Fatalf("%s: entry %d has dimension %d", what, i, len(c.Value)-1)
			}
			want := sk.LWELargeKey.Value[n+i] << uint(tf.Bits[T]()-(l+1)*g.LogBase())
			ph := tf.Phase(c, sk.LWEKey)
			v.near(what, one(ph), one(want), freshSigmas*sigma)
			st.add(float64(tf.Signed(ph - want)))
			tf.Law(t, &v.laws, fmt.Sprintf("%s level %d", what, l), one(ph), one(want), v.set.Lit.LWEStdDev*tf.Q[T](), 0)
			b := c.Value[1:]
			ms.add(t, what, tf.Body(&b))
		}
	}
	st.check(t, what, v.set.Lit.LWEStdDev*tf.Q[T]())
}

func keyCase[T tfhe.TorusInt](t *rapid.T) {
	v := newEnv[T](t, tf.Opts{Noisy: true, Extend: extends, LogN: [2]int{4, 8}, Big: 10, BigLWE: 8, Order: -1, BlockCount: true, MaxLogP: 5, MaxLWE: 60})
	v.checkSecret("sampled key", v.sk)
	before := tf.Leaves(&v.sk)
	other := v.enc.GenSecretKey()
	v.checkSecret("generated key", other)
	if v.K*v.N >= 128 && tf.Diff(&v.sk.LWELargeKey, &other.LWELargeKey) == "" {
		t.Fatalf("two generated keys are equal")
	}
	third := tfhe.NewEncryptor(v.p)
	v.checkSecret("key of another encryptor", third.SecretKey)
	if v.K*v.N >= 128 && tf.Diff(&v.sk.LWELargeKey, &third.SecretKey.LWELargeKey) == "" {
		t.Fatalf("two encryptors have the same key")
	}
	enc, sk := v.enc, v.sk
	if rapid.Bool().Draw(t, "givenKey") {
		enc, sk = tfhe.NewEncryptorWithKey(v.p, other), other
	}
	if rapid.Bool().Draw(t, "copy") {
		enc = enc.SafeCopy()
	}
	if d := tf.Diff(&enc.SecretKey, &sk); d != "" {
		t.Fatalf("the encryptor does not hold the given key: %s", d)
	}
	want := sk.LWEKey
	if v.p.BootstrapOrder() == tfhe.OrderKeySwitchBlindRotate {
		want = sk.LWELargeKey
	}
	if k := enc.DefaultLWESecretKey(); tf.Diff(&k, &want) != "" {
		t.Fatalf("wrong default key (%v)", v.set)
	}
	ms := masks{}
	kinds := []string{"eval", "evalParallel", "blindRotate", "blindRotateParallel", "keySwitch", "keySwitchParallel"}
	if v.p.IsPublicKeyEncryptable() {
		kinds = append(kinds, "public", "public")
	}
	var kind string
	for i := rapid.IntRange(1, 3).Draw(t, "keys"); i > 0; i-- {
		kind = rapid.SampledFrom(kinds).Draw(t, "key")
		vh.Label("%s", kind)
		switch kind {
		case "eval", "evalParallel":
			k := enc.GenEvalKey
			if kind == "evalParallel" {
				k = enc.GenEvalKeyParallel
			}
			evk := k()
			v.checkBRK(kind+": blind rotation key", evk.BlindRotateKey, sk, ms)
			v.checkKSK(kind+": key switching key", evk.KeySwitchKey, sk, ms)
		case "blindRotate":
			v.checkBRK(kind, enc.GenBlindRotateKey(), sk, ms)
		case "blindRotateParallel":
			v.checkBRK(kind, enc.GenBlindRotateKeyParallel(), sk, ms)
		case "keySwitch":
			v.checkKSK(kind, enc.GenDefaultKeySwitchKey(), sk, ms)
		case "keySwitchParallel":
			v.checkKSK(kind, enc.GenDefaultKeySwitchKeyParallel(), sk, ms)
		case "public":
			pk := enc.GenPublicKey()
			if len(pk.GLWEKey.Value) != v.K || len(pk.LWEKey.Value) != v.K {
				t.Fatalf("public key of the wrong shape")
			}
			rev := tfhe.NewGLWESecretKey(v.p)
			for i := range rev.Value {
				for j := 0; j < v.N; j++ {
					rev.Value[i].Coeffs[j] = sk.GLWEKey.Value[i].Coeffs[v.N-1-j]
				}
			}
			zero := make([]T, v.N)
			for i := 0; i < v.K; i++ {
				tol := freshSigmas*v.glweSigma() + v.fftErr(v.K)
				gp, lp := tf.GPhase(pk.GLWEKey.Value[i], sk.GLWEKey), tf.GPhase(pk.LWEKey.Value[i], rev)
				v.near("public polynomial key", gp, zero, tol)
				// The vector part is encrypted under the reversed key.
				v.near("public vector key", lp, zero, tol)
				tf.Law(t, &v.laws, "public polynomial key", gp, zero, v.set.Lit.GLWEStdDev*tf.Q[T](), 0)
				tf.Law(t, &v.laws, "public vector key", lp, zero, v.set.Lit.GLWEStdDev*tf.Q[T](), 0)
				a, b := pk.GLWEKey.Value[i].Value[1:], pk.LWEKey.Value[i].Value[1:]
				ms.add(t, "public key", tf.Body(&a))
				ms.add(t, "public key", tf.Body(&b))
			}
		}
	}
	v.laws.Check(t)
	if d := tf.DiffLeaves(tf.Leaves(&v.sk), before); d != "" {
		t.Fatalf("key generation changed the secret key: %s", d)
	}
	vh.Case(v.K*v.N > 64, "%s given=%v %s", kind, enc != v.enc, v.set)
}

func TestKeys(t *testing.T) {
	vh.Check(t, "a case generates secret, public and evaluation keys (serially and in parallel) and checks every row by the definition, with all masks distinct; non-trivial = the secret key has more than 64 coefficients", 800, 30000, func(t *rapid.T) {
		both(t, keyCase[uint32], keyCase[uint64])
	})
}
