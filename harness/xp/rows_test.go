package xp

import (
	"fmt"
	"math"
	"sync"
	"testing"

	"github.com/sp301415/tfhe-go/tfhe"
	"github.com/sp301415/tfhe-go/xtfhe"
	"pgregory.net/rapid"

	"verifharness/tf"
	"verifharness/vh"
)

// row checks one Fourier encryption of a key row, its noise and its mask.
func (v *env[T]) row(what string, c tfhe.FFTGLWECiphertext[T], want []T) {
	v.T.Helper()
	ct := v.enc.InvFFTGLWECiphertext(c)
	m2, _ := norms(v.keyPolys()...)
	fft := tf.Q[T]()*math.Exp2(-48)*math.Sqrt(m2+1) + 2
	ph := v.gphase(ct)
	v.Near(what, ph, want, tf.Sigmas*v.sigma()+fft)
	if v.again {
		return
	}
	tf.Law(v.T, &v.laws, what, ph, want, v.l.GLWEStdDev*tf.Q[T](), fft)
	if v.seen == nil {
		v.seen = map[string]string{}
	}
	b := ct.Value[1:]
	k := string(tf.Body(&b))
	if o, ok := v.seen[k]; ok {
		v.T.Fatalf("%s uses the mask of a %s (%v)", what, o, v.set)
	}
	v.seen[k] = what
}

// ksk checks a key switching key from the given polynomials, which may be known
// only up to an error.
func (v *env[T]) ksk(what string, k tfhe.GLWEKeySwitchKey[T], g tfhe.GadgetParameters[T], from [][]T) {
	v.T.Helper()
	if len(k.Value) != len(from) || tf.Diff(&k.GadgetParams, &g) != "" {
		v.T.Fatalf("%s: %d rows instead of %d, or the wrong gadget (%v)", what, len(k.Value), len(from), v.set)
	}
	for i, lev := range k.Value {
		if len(lev.Value) != g.Level() || tf.Diff(&lev.GadgetParams, &g) != "" {
			v.T.Fatalf("%s: row %d has the wrong shape (%v)", what, i, v.set)
		}
		for j, c := range lev.Value {
			v.row(what, c, tf.Times(from[i], g.BaseQ(j)))
		}
	}
}

func (v *env[T]) keyPolys() (out [][]T) {
	for _, s := range v.sk.GLWEKey.Value {
		out = append(out, s.Coeffs)
	}
	return
}

// permuted is s(X^d).
func (v *env[T]) permuted(s []T, d int) []T {
	out := make([]T, v.N)
	for i, x := range s {
		e := i * d % (2 * v.N)
		if e < 0 {
			e += 2 * v.N
		}
		if e < v.N {
			out[e] += x
		} else {
			out[e-v.N] -= x
		}
	}
	return out
}

func (v *env[T]) galois(what string, keys map[int]tfhe.GLWEKeySwitchKey[T], idx []int, g tfhe.GadgetParameters[T]) {
	v.T.Helper()
	done := map[int]bool{}
	for _, d := range idx {
		if done[d] {
			continue
		}
		done[d] = true
		k, ok := keys[d]
		if !ok {
			v.T.Fatalf("%s: no key for %d (%v)", what, d, v.set)
		}
		var from [][]T
		for _, s := range v.keyPolys() {
			from = append(from, v.permuted(s, d))
		}
		v.ksk(what, k, g, from)
	}
}

// circuitRows checks a circuit bootstrapping key.
func (m *env[T]) circuitRows(k xtfhe.CircuitBootstrapKey[T], ss, tr tfhe.GadgetParameters[T]) {
	t := m.T
	if len(k.SchemeSwitchKey) != m.K || len(k.TraceKeys) != m.p.LogPolyRank() {
		t.Fatalf("a circuit bootstrapping key of %d and %d parts (%v)", len(k.SchemeSwitchKey), len(k.TraceKeys), m.set)
	}
	for i, s := range m.keyPolys() {
		gg := k.SchemeSwitchKey[i]
		if len(gg.Value) != m.K+1 || tf.Diff(&gg.GadgetParams, &ss) != "" {
			t.Fatalf("a scheme switching key of the wrong shape (%v)", m.set)
		}
		for j, lev := range gg.Value {
			x := s
			if j > 0 {
				x = tf.NegMul(s, m.sk.GLWEKey.Value[j-1].Coeffs)
			}
			if len(lev.Value) != ss.Level() {
				t.Fatalf("a scheme switching key of %d levels instead of %d (%v)", len(lev.Value), ss.Level(), m.set)
			}
			for l, c := range lev.Value {
				m.row(fmt.Sprintf("scheme switching key row %d", j), c, tf.Times(x, ss.BaseQ(l)))
			}
		}
	}
	var idx []int
	for l := m.p.LogPolyRank(); l >= 1; l-- {
		idx = append(idx, 1<<l+1)
	}
	m.galois("trace key", k.TraceKeys, idx, tr)
}

// together runs f on all objects at once.
func together[O, R any](objs []O, f func(O) R) []R {
	out := make([]R, len(objs))
	var wg sync.WaitGroup
	for i := range objs {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			out[i] = f(objs[i])
		}(i)
	}
	wg.Wait()
	return out
}

func rowCase[T tfhe.TorusInt](t *rapid.T) {
	bits := tf.Bits[T]()
	kind := rapid.SampledFrom([]string{"bfv", "circuit", "fhew"}).Draw(t, "keys")
	vh.Label("%s", kind)
	switch kind {
	case "bfv":
		b := newBFV[T](t, tf.Opts{Noisy: true, LogN: [2]int{4, 7}, Order: -1, BlockCount: true}, 1+rapid.IntRange(0, bits/2).Draw(t, "prec"))
		pack := make([]int, 0)
		for l := b.p.LogPolyRank(); l >= 1; l-- {
			pack = append(pack, 1<<l+1)
		}
		old := []int{}
		keys := map[int]tfhe.GLWEKeySwitchKey[T]{}
		for ops := rapid.IntRange(1, 4).Draw(t, "ops"); ops > 0; ops-- {
			var idx []int
			for i := rapid.IntRange(0, 3).Draw(t, "count"); i > 0; i-- {
				idx = append(idx, 2*b.P.Range(-b.N, b.N)+1)
			}
			switch op := rapid.SampledFrom([]string{"eval", "relin", "galois", "galoisTo", "pack", "packTo", "copies"}).Draw(t, "op"); op {
			case "eval":
				k := b.kg.GenEvalKey(idx, b.g)
				b.ksk("relinearization key", k.RelinKey, b.g, b.ss)
				b.galois("automorphism key", k.GaloisKeys, idx, b.g)
			case "relin":
				b.ksk("relinearization key", b.kg.GenRelinKey(b.g), b.g, b.ss)
			case "galois":
				b.galois("automorphism key", b.kg.GenGaloisKeys(idx, b.g), idx, b.g)
			case "galoisTo":
				b.kg.GenGaloisKeysTo(keys, idx, b.g)
				b.galois("automorphism key", keys, idx, b.g)
				// Keys generated before stay.
				b.again = true
				b.galois("older automorphism key", keys, old, b.g)
				b.again = false
				old = append(old, idx...)
			case "pack":
				b.galois("packing key", b.kg.GenGaloisKeysForPack(b.g), pack, b.g)
			case "copies":
				gen := []*xtfhe.BFVKeyGenerator[T]{b.kg}
				for len(gen) < 3 {
					gen = append(gen, gen[b.P.N(len(gen))].SafeCopy())
				}
				for _, k := range together(gen, func(kg *xtfhe.BFVKeyGenerator[T]) xtfhe.BFVEvaluationKey[T] { return kg.GenEvalKey(idx, b.g) }) {
					b.ksk("relinearization key", k.RelinKey, b.g, b.ss)
					b.galois("automorphism key", k.GaloisKeys, idx, b.g)
				}
			case "packTo":
				b.kg.GenGaloisKeysForPackTo(keys, b.g)
				b.galois("packing key", keys, pack, b.g)
				old = append(old, pack...)
			}
		}
		b.laws.Check(t)
		vh.Case(b.K*b.N >= 32, "%s %v gadget %d^%d seed %x", kind, b.set, b.g.Base(), b.g.Level(), b.P.U64())
	case "circuit":
		m := newMany[T](t, tf.Opts{Noisy: true, LogN: [2]int{4, 7}, Order: -1, BlockCount: true, MaxLWE: 24, MaxLogP: 3}, 3)
		ss := tf.DrawGadgetFor[T](t, "scheme", bits/3, 1+rapid.IntRange(0, bits/2).Draw(t, "schemePrec"))
		tr := tf.DrawGadgetFor[T](t, "trace", bits/3, 1+rapid.IntRange(0, bits/2).Draw(t, "tracePrec"))
		cl := xtfhe.CircuitBootstrapParametersLiteral[T]{ManyLUTParams: m.lit,
			SchemeSwitchParams: gadgetLit(ss), TraceKeySwitchParams: gadgetLit(tr), OutputParams: gadgetLit(tf.DrawGadgetFor[T](t, "out", bits/4, 2))}
		kg := xtfhe.NewCircuitBootstrapKeyGenerator(cl.Compile(), m.sk)
		par := rapid.SampledFrom([]int{1, 1, 2, 3}).Draw(t, "copies")
		for gens := rapid.IntRange(1, 2).Draw(t, "generations"); gens > 0; gens-- {
			gen := []*xtfhe.CircuitBootstrapKeyGenerator[T]{kg}
			for len(gen) < par {
				gen = append(gen, gen[m.P.N(len(gen))].SafeCopy())
			}
			keys := together(gen, func(kg *xtfhe.CircuitBootstrapKeyGenerator[T]) xtfhe.CircuitBootstrapKey[T] {
				return kg.GenCircuitBootstrapKey()
			})
			for _, k := range keys {
				m.circuitRows(k, ss, tr)
			}
			if m.P.N(2) == 0 {
				kg = kg.SafeCopy()
			}
		}
		m.laws.Check(t)
		vh.Case(m.K*m.N >= 32, "%s %v scheme %d^%d trace %d^%d seed %x", kind, m.set, ss.Base(), ss.Level(), tr.Base(), tr.Level(), m.P.U64())
	case "fhew":
		f := newFHEW[T](t, tf.Opts{Noisy: true, LogN: [2]int{4, 7}, Order: -1, MaxLWE: 40, MaxRank: 3}, nil)
		for gens := rapid.IntRange(1, 2).Draw(t, "generations"); gens > 0; gens-- {
			k := f.genEvk()
			f.keyRows(k)
		}
		f.laws.Check(t)
		vh.Case(f.K*f.N >= 32, "%s %v key deviation %.3g seed %x", kind, f.set, f.ss, f.P.U64())
	}
}

func TestRows(t *testing.T) {
	vh.Check(t, "a case generates relinearization, automorphism, packing, circuit bootstrapping and FHEW keys, decrypts every row by the definition, and checks the law of each row's noise and that no mask is used twice; non-trivial = the secret key has at least 32 coefficients", 600, 20000, func(t *rapid.T) {
		both(t, rowCase[uint32], rowCase[uint64])
	})
}
