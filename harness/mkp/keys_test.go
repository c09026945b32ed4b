package mkp

import (
	"fmt"
	"testing"

	"github.com/sp301415/tfhe-go/mktfhe"
	"github.com/sp301415/tfhe-go/tfhe"
	"pgregory.net/rapid"

	"verifharness/tf"
	"verifharness/vh"
)

// keyRows checks an evaluation key of party i by the definition.
func (v *env[T]) keyRows(what string, i int, k mktfhe.EvaluationKey[T], seen map[string]string) {
	t, sk := v.T, v.sks[i]
	br, ks, g := v.p.BlindRotateParams(), v.p.KeySwitchParams(), v.p.RelinKeyParameters()
	n := v.l.LWEDimension
	if len(k.BlindRotateKey.Value) != n || len(k.KeySwitchKey.Value) != v.N-n || len(k.CRSPublicKey.Value) != g.Level() {
		t.Fatalf("%s: wrong shape (%v)", what, v)
	}
	add := func(row string, body []byte) {
		if len(body) < 16 {
			return
		}
		if old, ok := seen[string(body)]; ok {
			t.Fatalf("%s: %s uses the mask of %s (%v)", what, row, old, v)
		}
		seen[string(body)] = what + " " + row
	}
	inv := v.encs[i].SubEncryptor
	for j, gsw := range k.BlindRotateKey.Value {
		for r, lev := range gsw.Value {
			m := make([]T, v.N)
			m[0] = sk.LWEKey.Value[j]
			if r == 1 {
				m = tf.Times(sk.GLWEKey.Value[0].Coeffs, sk.LWEKey.Value[j])
			}
			for l, c := range lev.Value {
				ct := inv.InvFFTGLWECiphertext(c)
				v.noisy(fmt.Sprintf("blind rotation key row %d", r), tf.GPhase(ct, sk.GLWEKey), tf.Times(m, T(1)<<uint(tf.Bits[T]()-(l+1)*br.LogBase())), 3*v.fftErr())
				b := ct.Value[1:]
				add("blind rotation key", tf.Body(&b))
			}
		}
	}
	for j, lev := range k.KeySwitchKey.Value {
		for l, c := range lev.Value {
			want := sk.LWELargeKey.Value[n+j] << uint(tf.Bits[T]()-(l+1)*ks.LogBase())
			ph := tf.Phase(c, sk.LWEKey)
			v.Near(what+": key switching key", tf.One(ph), tf.One(want), freshSigmas*(v.l.LWEStdDev*tf.Q[T]()+0.5))
			tf.Law(t, &v.laws, fmt.Sprintf("key switching key level %d", l), tf.One(ph), tf.One(want), v.l.LWEStdDev*tf.Q[T](), 0)
			b := c.Value[1:]
			add("key switching key", tf.Body(&b))
		}
	}
	for l := range k.CRSPublicKey.Value {
		ct := inv.InvFFTGLWECiphertext(k.CRSPublicKey.Value[l])
		v.Near(what+": public key mask", ct.Value[1].Coeffs, v.encs[i].CRS[l].Coeffs, v.fftErr())
		v.noisy("public key", tf.GPhase(ct, sk.GLWEKey), make([]T, v.N), 3*v.fftErr())
	}
	u := v.encs[i].InvFFTUniEncryption(k.RelinKey)
	v.uniRows(what+": relinearization key", i, u, sk.GLWEKey.Value[0].Coeffs, g, true)
	b := u.Value[1].Value[0].Value[1:]
	add("relinearization key", tf.Body(&b))
}

func keyCase[T tfhe.TorusInt](t *rapid.T) {
	v := newEnv[T](t, opts{Opts: tf.Opts{Noisy: true, LogN: [2]int{4, 6}, Order: -1, BlockCount: true, MaxLWE: 8}, parties: 4})
	seen := map[string]string{}
	// Several generations of keys per party.
	pool := map[int][]mktfhe.EvaluationKey[T]{}
	for _, i := range v.in {
		e := v.encs[i]
		if v.P.N(3) == 0 {
			e = e.SafeCopy()
		}
		if v.P.N(3) == 0 {
			e = mktfhe.NewEncryptorWithKey(v.p, i, v.seed, v.sks[i])
		}
		if d := tf.Diff(&e.SecretKey, &e.SubEncryptor.SecretKey); d != "" {
			t.Fatalf("the encryptor has two keys: %s", d)
		}
		for j := 0; j < 2; j++ {
			var k mktfhe.EvaluationKey[T]
			if v.P.N(2) == 0 {
				k = e.GenEvalKeyParallel()
			} else {
				k = e.GenEvalKey()
			}
			v.keyRows("evaluation key", i, k, seen)
			pool[i] = append(pool[i], k)
		}
	}
	v.laws.Check(t)
	// Another common reference string.
	other := mktfhe.NewEncryptor(v.p, v.k-1, append(append([]byte{}, v.seed...), 1))
	if tf.Same(other.CRS[0].Coeffs, v.encs[v.in[0]].CRS[0].Coeffs) {
		t.Fatalf("two seeds give one common reference string (%v)", v)
	}
	if v.N >= 64 {
		for a, i := range v.in {
			for _, j := range v.in[:a] {
				if tf.Same(v.sks[i].LWELargeKey.Value, v.sks[j].LWELargeKey.Value) {
					t.Fatalf("parties %d and %d have the same key (%v)", i, j, v)
				}
			}
		}
	}

	// Histories of evaluators and decryptors.
	type eval struct {
		e    *mktfhe.Evaluator[T]
		d    *mktfhe.Decryptor[T]
		keys map[int]mktfhe.EvaluationKey[T]
		sks  map[int]tfhe.SecretKey[T]
	}
	clone := func(m map[int]mktfhe.EvaluationKey[T]) map[int]mktfhe.EvaluationKey[T] {
		o := map[int]mktfhe.EvaluationKey[T]{}
		for i, k := range m {
			o[i] = k
		}
		return o
	}
	cloneS := func(m map[int]tfhe.SecretKey[T]) map[int]tfhe.SecretKey[T] {
		o := map[int]tfhe.SecretKey[T]{}
		for i, k := range m {
			o[i] = k
		}
		return o
	}
	first := eval{keys: map[int]mktfhe.EvaluationKey[T]{}, sks: map[int]tfhe.SecretKey[T]{}}
	for _, i := range v.in {
		if v.P.N(2) == 0 {
			first.keys[i], first.sks[i] = pool[i][v.P.N(2)], v.sks[i]
		}
	}
	km, sm := clone(first.keys), cloneS(first.sks)
	first.e, first.d = mktfhe.NewEvaluator(v.p, km), mktfhe.NewDecryptor(v.p, sm)
	evs := []eval{first}
	var before [][]tf.Leaf
	for _, i := range v.in {
		for j := range pool[i] {
			before = append(before, tf.Leaves(&pool[i][j]))
		}
	}
	steps := rapid.IntRange(2, 14).Draw(t, "steps")
	shared := 0
	for s := 0; s < steps; s++ {
		a := rapid.IntRange(0, len(evs)-1).Draw(t, "evaluator")
		ev := &evs[a]
		op := rapid.SampledFrom([]string{"add", "copy", "use", "use", "decrypt"}).Draw(t, "op")
		switch op {
		case "add":
			i := v.party()
			k := pool[i][v.P.N(2)]
			ev.e.AddEvaluationKey(i, k)
			ev.keys[i] = k
			ev.d.AddSecretKey(i, v.sks[i])
			ev.sks[i] = v.sks[i]
		case "copy":
			if len(evs) < 4 {
				evs = append(evs, eval{ev.e.SafeCopy(), ev.d.SafeCopy(), clone(ev.keys), cloneS(ev.sks)})
			}
		case "decrypt":
			c, g := v.lwe(), v.glwe()
			ref := mktfhe.NewDecryptor(v.p, ev.sks)
			v.Exact("phase after a history", tf.One(ev.d.DecryptLWEPlaintext(c).Value), tf.One(ref.DecryptLWEPlaintext(c).Value))
			v.Exact("polynomial phase after a history", ev.d.DecryptGLWEPhase(g).Value.Coeffs, ref.DecryptGLWEPhase(g).Value.Coeffs)
		case "use":
			ref := mktfhe.NewEvaluator(v.p, ev.keys)
			vh.Label("evaluator knows %d", len(ev.keys))
			if len(evs) > 1 {
				shared++
			}
			var got, want [][]T
			polys := func(g glwe[T]) (o [][]T) {
				for _, p := range g.Value {
					o = append(o, p.Coeffs)
				}
				return
			}
			// The evaluator with the history writes over used outputs.
			form := v.P.N(4)
			switch k := v.P.N(5); k {
			case 0, 1:
				for _, i := range v.in { // needs a known party
					if _, ok := ev.keys[i]; !ok {
						continue
					}
					c := v.glwe()
					out := v.glwe()
					acc := out.Copy()
					if k == 0 {
						u := v.encs[i].FFTUniEncryptPoly(v.Small(3), v.p.RelinKeyParameters())
						switch form {
						case 0:
							out, acc = ev.e.HybridProdGLWE(i, u, c), ref.HybridProdGLWE(i, u, c)
						case 1:
							ev.e.HybridProdGLWETo(i, u, c, out)
							acc = mktfhe.NewGLWECiphertext(v.p)
							ref.HybridProdGLWETo(i, u, c, acc)
						case 2:
							ev.e.HybridProdAddGLWETo(i, u, c, out)
							ref.HybridProdAddGLWETo(i, u, c, acc)
						case 3:
							ev.e.HybridProdSubGLWETo(i, u, c, out)
							ref.HybridProdSubGLWETo(i, u, c, acc)
						}
					} else {
						x := v.encs[i].SubEncryptor.EncryptFFTGLevPoly(v.Small(3), v.p.AccumulatorParameters())
						switch form {
						case 0:
							out, acc = ev.e.ExternalProdGLWE(i, x, c), ref.ExternalProdGLWE(i, x, c)
						case 1:
							ev.e.ExternalProdGLWETo(i, x, c, out)
							acc = mktfhe.NewGLWECiphertext(v.p)
							ref.ExternalProdGLWETo(i, x, c, acc)
						case 2:
							ev.e.ExternalProdAddGLWETo(i, x, c, out)
							ref.ExternalProdAddGLWETo(i, x, c, acc)
						case 3:
							ev.e.ExternalProdSubGLWETo(i, x, c, out)
							ref.ExternalProdSubGLWETo(i, x, c, acc)
						}
					}
					got, want = polys(out), polys(acc)
					break
				}
			case 2, 3:
				lut := tfhe.NewLUT(v.p.SubParams())
				tf.Dirty(v.P, lut.Value[0].Coeffs)
				if k == 2 {
					c := mktfhe.NewLWECiphertextCustom[T](v.p.LWEDimension())
					tf.Dirty(v.P, c.Value)
					out, o := v.glwe(), mktfhe.NewGLWECiphertext(v.p)
					switch form {
					case 0:
						out, o = ev.e.BlindRotate(c, lut), ref.BlindRotate(c, lut)
					case 1:
						ev.e.BlindRotateTo(out, c, lut)
						ref.BlindRotateTo(o, c, lut)
					case 2:
						out, o = ev.e.BlindRotateParallel(c, lut), ref.BlindRotateParallel(c, lut)
					case 3:
						ev.e.BlindRotateParallelTo(out, c, lut)
						ref.BlindRotateParallelTo(o, c, lut)
					}
					got, want = polys(out), polys(o)
				} else {
					c := v.lwe()
					out, o := v.lwe(), mktfhe.NewLWECiphertext(v.p)
					switch form {
					case 0:
						out, o = ev.e.BootstrapLUT(c, lut), ref.BootstrapLUT(c, lut)
					case 1:
						ev.e.BootstrapLUTTo(out, c, lut)
						ref.BootstrapLUTTo(o, c, lut)
					case 2:
						out, o = ev.e.BootstrapLUTParallel(c, lut), ref.BootstrapLUTParallel(c, lut)
					case 3:
						ev.e.BootstrapLUTParallelTo(out, c, lut)
						ref.BootstrapLUTParallelTo(o, c, lut)
					}
					got, want = [][]T{out.Value}, [][]T{o.Value}
				}
			case 4:
				c := mktfhe.NewLWECiphertextCustom[T](v.p.GLWEDimension())
				tf.Dirty(v.P, c.Value)
				out := mktfhe.NewLWECiphertextCustom[T](v.p.LWEDimension())
				tf.Dirty(v.P, out.Value)
				if form == 0 {
					out = ev.e.DefaultKeySwitch(c)
				} else {
					ev.e.DefaultKeySwitchTo(out, c)
				}
				got, want = [][]T{out.Value}, [][]T{ref.DefaultKeySwitch(c).Value}
				vh.Label("key switch after a history")
			}
			for j := range want {
				v.Exact("result after a history", got[j], want[j])
			}
		}
	}
	for _, ev := range evs {
		for i := 0; i < v.k; i++ {
			_, in := ev.keys[i]
			if ev.e.PartyBitMap[i] != in || (ev.e.SubEvaluators[i] != nil) != in {
				t.Fatalf("evaluator knows party %d: %v instead of %v (%v)", i, ev.e.PartyBitMap[i], in, v)
			}
			if _, in := ev.sks[i]; ev.d.PartyBitMap[i] != in {
				t.Fatalf("decryptor knows party %d: %v instead of %v (%v)", i, ev.d.PartyBitMap[i], in, v)
			}
		}
	}
	x := 0
	for _, i := range v.in {
		for j := range pool[i] {
			if d := tf.DiffLeaves(tf.Leaves(&pool[i][j]), before[x]); d != "" {
				t.Fatalf("evaluation changed a key: %s", d)
			}
			x++
		}
	}
	vh.Case(shared > 0, "%v steps %d evaluators %d seed %x", v, steps, len(evs), v.P.U64())
}

func TestKeys(t *testing.T) {
	vh.Check(t, "a case checks every row of the generated evaluation keys and then runs a history of key additions, replacements, copies and evaluations, comparing each result with an evaluator built at once; non-trivial = evaluated while copies exist", 400, 15000, func(t *rapid.T) {
		both(t, keyCase[uint32], keyCase[uint64])
	})
}
