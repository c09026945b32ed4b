package xp

import (
	"math"
	"math/big"
	"testing"

	"github.com/sp301415/tfhe-go/tfhe"
	"github.com/sp301415/tfhe-go/xtfhe"
	"pgregory.net/rapid"

	"verifharness/tf"
	"verifharness/vh"
)

// bfv is an evaluator with its keys.
type bfv[T tfhe.TorusInt] struct {
	*env[T]
	g  tfhe.GadgetParameters[T]
	kg *xtfhe.BFVKeyGenerator[T]
	ss [][]T // s_i*s_j for i <= j
}

func newBFV[T tfhe.TorusInt](t *rapid.T, o tf.Opts, minBits int) *bfv[T] {
	b := &bfv[T]{env: newEnv[T](t, o)}
	b.g = tf.DrawGadgetFor[T](t, "ksk", tf.Bits[T]()/3, minBits)
	b.kg = xtfhe.NewBFVKeyGenerator(b.p, b.sk)
	if b.P.N(3) == 0 {
		b.kg = b.kg.SafeCopy()
	}
	for i := 0; i < b.K; i++ {
		for j := i; j < b.K; j++ {
			b.ss = append(b.ss, tf.NegMul(b.sk.GLWEKey.Value[i].Coeffs, b.sk.GLWEKey.Value[j].Coeffs))
		}
	}
	return b
}

// tphase is the phase of a tensored ciphertext.
func (b *bfv[T]) tphase(c tfhe.GLWECiphertext[T]) []T {
	out := b.gphase(tfhe.GLWECiphertext[T]{Value: c.Value[:b.K+1]})
	for i, s := range b.ss {
		out = tf.Plus(out, tf.NegMul(c.Value[b.K+1+i].Coeffs, s))
	}
	return out
}

// negBig is the product of two signed polynomials over the integers.
func negBig[T tfhe.TorusInt](x, y []T, acc []*big.Int) {
	n := len(x)
	a, c, m := new(big.Int), new(big.Int), new(big.Int)
	for i := range x {
		if x[i] == 0 {
			continue
		}
		a.SetInt64(tf.Signed(x[i]))
		for j := range y {
			m.Mul(a, c.SetInt64(tf.Signed(y[j])))
			if i+j < n {
				acc[i+j].Add(acc[i+j], m)
			} else {
				acc[i+j-n].Sub(acc[i+j-n], m)
			}
		}
	}
}

// tensor is the exact tensor product divided by the scale.
func (b *bfv[T]) tensor(c0, c1 tfhe.GLWECiphertext[T]) [][]T {
	var out [][]T
	scale := new(big.Int).SetUint64(uint64(b.p.Scale()))
	half := new(big.Int).Rsh(scale, 1)
	mask := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(tf.Bits[T]())), big.NewInt(1))
	for i := 0; i <= b.K; i++ {
		for j := i; j <= b.K; j++ {
			acc := make([]*big.Int, b.N)
			for l := range acc {
				acc[l] = new(big.Int)
			}
			negBig(c0.Value[i].Coeffs, c1.Value[j].Coeffs, acc)
			if i != j {
				negBig(c0.Value[j].Coeffs, c1.Value[i].Coeffs, acc)
			}
			p := make([]T, b.N)
			q, r := new(big.Int), new(big.Int)
			for l := range acc {
				q.DivMod(acc[l].Add(acc[l], half), scale, r)
				p[l] = T(q.And(q, mask).Uint64())
			}
			out = append(out, p)
		}
	}
	return out
}

// tensorTol bounds the floating point error of one tensor component.
func (b *bfv[T]) tensorTol(c0, c1 tfhe.GLWECiphertext[T]) float64 {
	n0, n1 := 0.0, 0.0
	for i := range c0.Value {
		n0 = math.Max(n0, tf.Norm2(c0.Value[i].Coeffs))
		n1 = math.Max(n1, tf.Norm2(c1.Value[i].Coeffs))
	}
	return 2*math.Exp2(-48.5)*math.Sqrt(n0*n1)/float64(b.p.Scale()) + 2
}

func bfvMulCase[T tfhe.TorusInt](t *rapid.T) {
	b := newBFV[T](t, tf.Opts{LogN: [2]int{4, 6}, Big: 10, Order: -1, BlockCount: true, MaxLogP: 5}, 1+rapid.IntRange(1, 24).Draw(t, "prec"))
	e := xtfhe.NewBFVEvaluator(b.p, xtfhe.BFVEvaluationKey[T]{RelinKey: b.kg.GenRelinKey(b.g)})
	if b.P.N(3) == 0 {
		e = e.SafeCopy()
	}
	if got, want := len(e.EvalKey.RelinKey.Value), len(b.ss); got != want {
		t.Fatalf("the relinearization key has %d rows instead of %d (%v)", got, want, b.set)
	}
	_, m1 := norms(b.ss...)
	rtol := b.ksTol(b.g, len(b.ss), 0, m1)
	K := b.K
	tr := K * (K + 3) / 2
	var sSum float64 = 1
	for _, s := range b.sk.GLWEKey.Value {
		sSum += tf.Norm2(s.Coeffs)
	}
	for _, s := range b.ss {
		sSum += tf.Norm2(s)
	}
	kinds := map[string]bool{}
	for ops := rapid.IntRange(1, 4).Draw(t, "ops"); ops > 0; ops-- {
		c0, c1 := b.rawGLWE(K), b.rawGLWE(K)
		if b.P.N(3) == 0 {
			c0 = b.glwe()
		}
		if b.P.N(4) == 0 {
			c1 = c0
		}
		i0, i1 := c0.Copy(), c1.Copy()
		ttol := b.tensorTol(c0, c1)
		op := rapid.SampledFrom([]string{"Tensor", "TensorTo", "Relinearize", "RelinearizeTo", "Mul", "MulTo", "MulIn0", "MulIn1"}).Draw(t, "op")
		kinds[op] = true
		mtol := rtol + 3*ttol*math.Sqrt(sSum) + ttol
		switch op {
		case "Tensor", "TensorTo":
			want := b.tensor(c0, c1)
			var out tfhe.GLWECiphertext[T]
			if op == "Tensor" {
				out = e.Tensor(c0, c1)
			} else {
				out = b.rawGLWE(tr)
				e.TensorTo(out, c0, c1)
			}
			if len(out.Value) != tr+1 {
				t.Fatalf("%s returned %d components instead of %d (%v)", op, len(out.Value), tr+1, b.set)
			}
			for i := range want {
				b.Near(op, out.Value[i].Coeffs, want[i], ttol)
			}
		case "Relinearize", "RelinearizeTo":
			ct := b.rawGLWE(tr)
			ct0 := ct.Copy()
			var out tfhe.GLWECiphertext[T]
			if op == "Relinearize" {
				out = e.Relinearize(ct)
			} else {
				out = b.glwe()
				e.RelinearizeTo(out, ct)
			}
			b.Near(op, b.gphase(out), b.tphase(ct), rtol)
			for i := range ct.Value {
				b.Exact(op+" input", ct.Value[i].Coeffs, ct0.Value[i].Coeffs)
			}
		default:
			ct := tfhe.GLWECiphertext[T]{}
			for _, p := range b.tensor(c0, c1) {
				q := b.Poly()
				copy(q.Coeffs, p)
				ct.Value = append(ct.Value, q)
			}
			want := b.tphase(ct)
			out := b.glwe()
			switch op {
			case "Mul":
				out = e.Mul(c0, c1)
			case "MulTo":
				e.MulTo(out, c0, c1)
			case "MulIn0":
				e.MulTo(c0, c0, c1)
				out = c0
			case "MulIn1":
				e.MulTo(c1, c0, c1)
				out = c1
			}
			b.Near(op, b.gphase(out), want, mtol)
		}
		if op != "MulIn0" && op != "MulIn1" {
			for i := range c0.Value {
				b.Exact(op+" input", c0.Value[i].Coeffs, i0.Value[i].Coeffs)
				b.Exact(op+" input", c1.Value[i].Coeffs, i1.Value[i].Coeffs)
			}
		}
		if mtol < tf.Q[T]()/16 {
			vh.Label("%s", op)
		} else {
			vh.Label("%s (noise fills the torus)", op)
		}
	}
	// Products decrypt when the noise fits.
	p := float64(b.p.MessageModulus())
	u := math.Sqrt(float64(K*b.N)/24 + 1)
	room := tf.Q[T]()/(4*p) - rtol - 2*p*3*math.Exp2(-48)*tf.Q[T]()*float64(b.N)*math.Sqrt(sSum)
	sigma := room / (2 * math.Sqrt(float64(b.N)) * (p*2 + 2*p*u) * 8)
	dec := sigma >= 1
	if dec {
		nz := math.Min(sigma, tf.Q[T]()/(8*p))
		enc := func() ([]int, tfhe.GLWECiphertext[T]) {
			m := make([]int, b.N)
			for i := range m {
				m[i] = b.P.N(int(p))
				if b.P.N(2) == 0 {
					m[i] = b.P.N(2)
				}
			}
			return m, b.around(b.enc.EncodeGLWE(m).Value.Coeffs, nz)
		}
		m0, c0 := enc()
		m1, c1 := enc()
		if b.P.N(3) == 0 {
			m1, c1 = m0, c0
		}
		// The masks may wrap around more often than assumed above, so the exact error decides.
		var ct tfhe.GLWECiphertext[T]
		for _, x := range b.tensor(c0, c1) {
			q := b.Poly()
			copy(q.Coeffs, x)
			ct.Value = append(ct.Value, q)
		}
		ph := b.tphase(ct)
		ttol := b.tensorTol(c0, c1)
		tol := rtol + 3*ttol*math.Sqrt(sSum) + ttol
		msg := make([]int, b.N)
		for i := range msg {
			for j := range m0 {
				if j <= i {
					msg[i] += m0[j] * m1[i-j]
				} else {
					msg[i] -= m0[j] * m1[b.N+i-j]
				}
			}
			msg[i] = (msg[i]%int(p) + int(p)) % int(p)
			d := float64(tf.Signed(ph[i] - T(msg[i])*b.p.Scale()))
			if d = math.Abs(d - math.Round(2*d/tf.Q[T]())*tf.Q[T]()/2); d+tol > tf.Q[T]()/(4*p)-p {
				dec = false
			}
		}
		got := b.enc.DecryptGLWE(e.Mul(c0, c1))
		for i := range got {
			if dec && got[i] != msg[i] {
				t.Fatalf("the product decrypts to %d instead of %d at %d (%v)", got[i], msg[i], i, b.set)
			}
		}
	}
	if dec {
		vh.Label("product decrypted")
	}
	vh.Case(true, "%v ksk %d^%d ops %v decrypts %v seed %x", b.set, b.g.Base(), b.g.Level(), kinds, dec, b.P.U64())
}

func TestBFVMul(t *testing.T) {
	vh.Check(t, "a case tensors, relinearizes and multiplies arbitrary ciphertexts and compares with the exact integer tensor product under the key and its products, and decrypts products of messages where the noise fits; every case is non-trivial", 1500, 60000, func(t *rapid.T) {
		both(t, bfvMulCase[uint32], bfvMulCase[uint64])
	})
}

func bfvPermCase[T tfhe.TorusInt](t *rapid.T) {
	b := newBFV[T](t, tf.Opts{LogN: [2]int{4, 7}, Big: 11, Order: -1, BlockCount: true}, 1+rapid.IntRange(1, 24).Draw(t, "prec"))
	var idx []int
	for n := rapid.IntRange(0, 4).Draw(t, "keys"); n > 0; n-- {
		d := 2*rapid.IntRange(0, b.N-1).Draw(t, "d") + 1
		switch b.P.N(8) {
		case 0:
			d -= 2 * b.N
		case 1:
			d += 2 * b.N
		}
		idx = append(idx, d)
	}
	pack := rapid.Bool().Draw(t, "pack")
	evk := xtfhe.BFVEvaluationKey[T]{}
	switch rapid.IntRange(0, 3).Draw(t, "gen") {
	case 0:
		evk = b.kg.GenEvalKey(idx, b.g)
		if pack {
			b.kg.GenGaloisKeysForPackTo(evk.GaloisKeys, b.g)
		}
	case 1:
		evk.GaloisKeys = b.kg.GenGaloisKeys(idx, b.g)
		if pack {
			b.kg.GenGaloisKeysForPackTo(evk.GaloisKeys, b.g)
		}
	case 2:
		evk.GaloisKeys = map[int]tfhe.GLWEKeySwitchKey[T]{}
		if pack {
			evk.GaloisKeys = b.kg.GenGaloisKeysForPack(b.g)
		}
		b.kg.GenGaloisKeysTo(evk.GaloisKeys, idx, b.g)
	case 3:
		// The map holds the keys of another secret, which get replaced.
		enc := tfhe.NewEncryptor(b.p)
		old := xtfhe.NewBFVKeyGenerator(b.p, enc.SecretKey)
		evk.GaloisKeys = old.GenGaloisKeys(idx, b.g)
		if pack {
			old.GenGaloisKeysForPackTo(evk.GaloisKeys, b.g)
			b.kg.GenGaloisKeysForPackTo(evk.GaloisKeys, b.g)
		}
		b.kg.GenGaloisKeysTo(evk.GaloisKeys, idx, b.g)
		vh.Label("replaced keys")
	}
	e := xtfhe.NewBFVEvaluator(b.p, evk)
	if b.P.N(3) == 0 {
		e = e.SafeCopy()
	}
	m1 := 0.0
	for _, s := range b.sk.GLWEKey.Value {
		m1 += tf.Norm1(s.Coeffs)
	}
	tol := b.ksTol(b.g, b.K, 0, m1)
	have := map[int]bool{}
	for _, d := range idx {
		have[d] = true
	}
	if pack {
		for i := 1; i <= b.p.LogPolyRank(); i++ {
			have[1<<i+1] = true
			idx = append(idx, 1<<i+1)
		}
	}
	for d := range have {
		if _, ok := evk.GaloisKeys[d]; !ok {
			t.Fatalf("no Galois key for %d of %v (%v)", d, idx, b.set)
		}
	}
	kinds := map[string]bool{}
	for ops := rapid.IntRange(1, 4).Draw(t, "ops"); ops > 0; ops-- {
		if pack && b.P.N(2) == 0 {
			ct := tfhe.LWECiphertext[T]{Value: b.Vec(b.K*b.N + 1)}
			c0 := ct.Copy()
			want := make([]T, b.N)
			want[0] = tf.Phase(ct, b.sk.LWELargeKey)
			out := b.glwe()
			if b.P.N(2) == 0 {
				out = e.Pack(ct)
			} else {
				e.PackTo(out, ct)
			}
			pt := float64(b.p.LogPolyRank()) * (tol + float64(b.K*b.N) + 2)
			b.Near("Pack", b.gphase(out), want, pt)
			b.Exact("Pack input", ct.Value, c0.Value)
			kinds["Pack"] = true
			if pt < tf.Q[T]()/16 {
				vh.Label("Pack")
			}
			continue
		}
		d := 2*b.P.N(b.N) + 1
		if len(idx) > 0 && b.P.N(8) > 0 {
			d = idx[b.P.N(len(idx))]
		}
		ct := b.rawGLWE(b.K)
		c0 := ct.Copy()
		if !have[d] {
			if !vh.Panics(func() { e.Permute(ct, d) }) {
				t.Fatalf("Permute by %d without its key does not panic (%v)", d, b.set)
			}
			vh.Label("missing key")
			continue
		}
		want := tf.Permute(b.gphase(ct), d)
		out := b.glwe()
		how := b.P.N(3)
		switch how {
		case 0:
			out = e.Permute(ct, d)
		case 1:
			e.PermuteTo(out, ct, d)
		case 2:
			e.PermuteTo(ct, ct, d)
			out = ct
		}
		b.Near("Permute", b.gphase(out), want, tol)
		if how != 2 {
			for i := range ct.Value {
				b.Exact("Permute input", ct.Value[i].Coeffs, c0.Value[i].Coeffs)
			}
		}
		kinds["Permute"] = true
		if tol < tf.Q[T]()/16 {
			vh.Label("Permute")
		}
	}
	vh.Case(len(kinds) > 0, "%v ksk %d^%d keys %v pack %v ops %v seed %x", b.set, b.g.Base(), b.g.Level(), idx, pack, kinds, b.P.U64())
}

func TestBFVPermute(t *testing.T) {
	vh.Check(t, "a case generates Galois keys in one of the offered ways, permutes and packs arbitrary ciphertexts and compares phases with the exact automorphism or the packed constant; non-trivial when something was permuted or packed", 1500, 60000, func(t *rapid.T) {
		both(t, bfvPermCase[uint32], bfvPermCase[uint64])
	})
}
