package hist

import (
	"fmt"
	"reflect"
	"strings"
	"sync"
	"testing"

	"github.com/sp301415/tfhe-go/mktfhe"
	"github.com/sp301415/tfhe-go/tfhe"
	"github.com/sp301415/tfhe-go/xtfhe"
	"pgregory.net/rapid"

	"verifharness/tf"
	"verifharness/vh"
)

// concCase runs operations on SafeCopies in parallel, on shared inputs and keys; the
// results must be those of fresh objects.
func concCase[T tfhe.TorusInt](t *rapid.T, name string) {
	w, s := newWorld[T](t, name)
	vh.Label(name)
	base := s.fresh()
	type job struct {
		c    *call
		in   []reflect.Value // arguments before any call
		res  []reflect.Value // expected results
		args []reflect.Value // expected arguments after the call
	}
	var jobs []*job
	var hist []string
	for i, n := 0, rapid.IntRange(3, 12).Draw(t, "calls"); i < n; i++ {
		m := w.heavy(s)
		if w.P.N(3) == 0 {
			m = s.calls[w.P.N(len(s.calls))]
		}
		c := w.draw(s, base, m)
		if c == nil {
			continue
		}
		j := &job{c: c, in: clone(c.args), args: clone(c.args)}
		var p string
		j.res, p = c.outcome(s.fresh(), j.args)
		if p != "" {
			t.Fatalf("%s.%s panics with %q (%s)", name, m, p, w.set)
		}
		jobs = append(jobs, j)
		hist = append(hist, m)
	}
	if len(jobs) == 0 {
		t.Skip("no calls")
	}
	// The object may have a past.
	for i := w.P.N(3); i > 0; i-- {
		j := jobs[w.P.N(len(jobs))]
		j.c.outcome(base, clone(j.in))
	}
	workers := rapid.IntRange(2, 6).Draw(t, "workers")
	rounds := rapid.IntRange(1, 4).Draw(t, "rounds")
	late := rapid.Bool().Draw(t, "copyInWorker")
	objs := make([]any, workers)
	for i := range objs {
		switch {
		case i == 0 && !late:
			objs[i] = base
		case late:
		case w.P.N(3) == 0:
			objs[i] = copied(objs[i-1])
		default:
			objs[i] = copied(base)
		}
	}
	errs := make([]string, workers)
	plans := make([][]int, workers)
	seeds := make([]uint64, workers)
	for i := range plans {
		for r := 0; r < rounds*len(jobs); r++ {
			plans[i] = append(plans[i], w.P.N(len(jobs)))
		}
		seeds[i] = w.P.U64()
	}
	var start, done sync.WaitGroup
	start.Add(1)
	for i := 0; i < workers; i++ {
		done.Add(1)
		go func(i int) {
			defer done.Done()
			prng := vh.NewPRNG(seeds[i])
			start.Wait()
			o := objs[i]
			if o == nil {
				o = copied(base)
			}
			for _, x := range plans[i] {
				j := jobs[x]
				args := append([]reflect.Value{}, j.c.args...)
				if consumes(j.c.m) {
					args = clone(j.in)
				}
				if j.c.out >= 0 {
					args[j.c.out] = deep(j.in[j.c.out])
				}
				j.c.dirty(prng, args)
				res, p := j.c.outcome(o, args)
				if p != "" {
					errs[i] = fmt.Sprintf("%s panics with %q", j.c.m, p)
					return
				}
				for r := range res {
					if d := same(res[r], j.res[r]); d != "" {
						errs[i] = fmt.Sprintf("%s returns another result (%s)", j.c.m, d)
						return
					}
				}
				if j.c.out >= 0 {
					if d := same(args[j.c.out], j.args[j.c.out]); d != "" {
						errs[i] = fmt.Sprintf("%s writes another result (%s)", j.c.m, d)
						return
					}
				}
			}
		}(i)
	}
	start.Done()
	done.Wait()
	for i, e := range errs {
		if e != "" {
			t.Fatalf("worker %d of %d: %s.%s than alone, with %v running (%s)", i, workers, name, e, hist, w.set)
		}
	}
	for _, j := range jobs {
		for a := range j.in {
			if a != j.c.out {
				if d := same(j.c.args[a], j.in[a]); d != "" {
					t.Fatalf("%s.%s modified shared argument %d (%s) (%s)", name, j.c.m, a, d, w.set)
				}
			}
		}
	}
	vh.Case(len(jobs) >= 3, "%s with %d workers, late=%v, %s: %v", name, workers, late, w.set, hist)
}

var concNames = []string{"tfhe.Evaluator", "tfhe.BinaryEvaluator", "tfhe.Encryptor", "tfhe.Decomposer",
	"mktfhe.Evaluator", "mktfhe.Evaluator", "mktfhe.BinaryEvaluator", "mktfhe.Decryptor", "mktfhe.BinaryDecryptor", "mktfhe.Encryptor",
	"xtfhe.BFVEvaluator", "xtfhe.ManyLUTEvaluator", "xtfhe.FHEWEvaluator", "xtfhe.CircuitBootstrapper", "poly.Evaluator", "tfhe.GLWETransformer", "mktfhe.GLWETransformer"}

const concRule = "a case is 2 to 6 goroutines with SafeCopies of one object, each running drawn operations on shared inputs and keys; non-trivial with at least 3 different calls"

// TestConcurrent checks SafeCopies used in parallel.
func TestConcurrent(t *testing.T) {
	vh.Check(t, concRule, 600, 6000, func(t *rapid.T) {
		name := rapid.SampledFrom(concNames).Draw(t, "subject")
		both(t, func(t *rapid.T) { concCase[uint32](t, name) }, func(t *rapid.T) { concCase[uint64](t, name) })
	})
}

// viaBool is an encryption of plaintexts by means of an encryption of booleans.
func viaBool[T tfhe.TorusInt, C any](encrypt func(bool) C, value func(C) []T) func(tfhe.LWEPlaintext[T]) C {
	return func(m tfhe.LWEPlaintext[T]) C {
		b := m.Value&1 == 1
		c := encrypt(b)
		eighth := T(1) << (tf.Bits[T]() - 3)
		if b {
			eighth = -eighth
		}
		value(c)[0] += m.Value + eighth
		return c
	}
}

func lweValue[T tfhe.TorusInt](c tfhe.LWECiphertext[T]) []T { return c.Value }

// encCase encrypts in parallel with SafeCopies of one encryptor.
func encCase[T tfhe.TorusInt](t *rapid.T, kind string) {
	vh.Label(kind)
	kind, binary := strings.TrimSuffix(kind, " binary"), strings.HasSuffix(kind, " binary")
	o := tf.Opts{LogN: [2]int{4, 6}, MaxRank: 3, Order: -1, BlockCount: true, MaxLWE: 20}
	if kind == "public" || kind == "multi-key public" {
		o.Order = int(tfhe.OrderKeySwitchBlindRotate)
	}
	mk := kind == "multi-key" || kind == "multi-key public"
	if mk {
		o.MaxRank = 1
	}
	set := tf.Draw[T](t, o)
	l, p := set.Lit, set.Params
	prng := vh.NewPRNG(rapid.Uint64().Draw(t, "data"))
	g := tf.DrawGadgetFor[T](t, "gadget", tf.Bits[T]()/3, 4)

	type ops struct {
		lwe    func(m tfhe.LWEPlaintext[T]) ([]T, T)    // mask and phase
		glwe   func(m tfhe.GLWEPlaintext[T]) ([]T, []T) // mask and phase
		glev   func(m []T) [][]T                        // phases of the rows
		copies func() ops                               // of a SafeCopy
	}
	lweTol := 9*tf.DefaultStdDev(l)*tf.Q[T]() + 2
	glweTol := 9*l.GLWEStdDev*tf.Q[T]() + 2

	var mkOps func(e any) ops
	switch kind {
	case "secret", "FHEW":
		mkOps = func(x any) ops {
			var e *tfhe.Encryptor[T]
			var encrypt func(tfhe.LWEPlaintext[T]) tfhe.LWECiphertext[T]
			var again func() any
			switch x := x.(type) {
			case *xtfhe.FHEWEncryptor[T]:
				e, encrypt, again = x.Encryptor, x.EncryptLWEPlaintext, func() any { return x.SafeCopy() }
			case *tfhe.BinaryEncryptor[T]:
				e, encrypt, again = x.Encryptor, viaBool[T](x.EncryptLWEBool, lweValue[T]), func() any { return x.SafeCopy() }
			case *tfhe.Encryptor[T]:
				e, encrypt, again = x, x.EncryptLWEPlaintext, func() any { return x.SafeCopy() }
			}
			key := e.DefaultLWESecretKey()
			sk := e.SecretKey
			r := ops{
				lwe: func(m tfhe.LWEPlaintext[T]) ([]T, T) {
					c := encrypt(m)
					return c.Value[1:], tf.Phase(c, key)
				},
				glwe: func(m tfhe.GLWEPlaintext[T]) ([]T, []T) {
					c := e.EncryptGLWEPlaintext(m)
					return mask(c), tf.GPhase(c, sk.GLWEKey)
				},
				glev: func(m []T) [][]T {
					pm := tfhe.NewGLWEPlaintext(p).Value
					copy(pm.Coeffs, m)
					c := e.EncryptGLevPoly(pm, g)
					var out [][]T
					for _, r := range c.Value {
						out = append(out, tf.GPhase(r, sk.GLWEKey))
					}
					return out
				},
			}
			r.copies = func() ops {
				return mkOps(again())
			}
			return r
		}
	}
	var first ops
	switch kind {
	case "secret":
		if binary {
			first = mkOps(tfhe.NewBinaryEncryptor(p))
		} else {
			first = mkOps(tfhe.NewEncryptor(p))
		}
	case "FHEW":
		l.BlockSize, l.LUTSize = 1, l.PolyRank
		fp := xtfhe.FHEWParametersLiteral[T]{BaseParams: l, SecretKeyStdDev: 3 / tf.Q[T](), WindowSize: 2}.Compile()
		p = fp.BaseParams()
		first = mkOps(xtfhe.NewFHEWEncryptor(fp))
	case "public":
		e := tfhe.NewEncryptor(p)
		sk := e.SecretKey
		s1 := 0.0
		for _, s := range sk.GLWEKey.Value {
			s1 += tf.Norm2(s.Coeffs)
		}
		// u*e + e0 + <e1, s> with ternary or Gaussian ephemeral keys.
		k := float64(p.GLWERank())
		sg := l.GLWEStdDev*tf.Q[T]() + 0.5
		glweTol = 12*sg*(2+float64(p.PolyRank()))*(k+1)*4 + 4
		_ = s1
		lweTol = glweTol
		var mkp func(x any) ops
		mkp = func(x any) ops {
			var e *tfhe.PublicEncryptor[T]
			var encrypt func(tfhe.LWEPlaintext[T]) tfhe.LWECiphertext[T]
			var again func() any
			switch x := x.(type) {
			case *tfhe.BinaryPublicEncryptor[T]:
				e, encrypt, again = x.Encryptor, viaBool[T](x.EncryptLWEBool, lweValue[T]), func() any { return x.SafeCopy() }
			case *tfhe.PublicEncryptor[T]:
				e, encrypt, again = x, x.EncryptLWEPlaintext, func() any { return x.SafeCopy() }
			}
			return ops{
				lwe: func(m tfhe.LWEPlaintext[T]) ([]T, T) {
					c := encrypt(m)
					return c.Value[1:], tf.Phase(c, sk.LWELargeKey)
				},
				glwe: func(m tfhe.GLWEPlaintext[T]) ([]T, []T) {
					c := e.EncryptGLWEPlaintext(m)
					return mask(c), tf.GPhase(c, sk.GLWEKey)
				},
				copies: func() ops { return mkp(again()) },
			}
		}
		if binary {
			first = mkp(tfhe.NewBinaryPublicEncryptor(p, e.GenPublicKey()))
		} else {
			first = mkp(tfhe.NewPublicEncryptor(p, e.GenPublicKey()))
		}
	case "multi-key", "multi-key public":
		lit := mktfhe.ParametersLiteral[T]{SubParams: l, PartyCount: 2, AccumulatorParams: lits(g), RelinKeyParams: lits(g)}
		mp := lit.Compile()
		e := mktfhe.NewEncryptor(mp, 1, []byte{1})
		sk := e.SecretKey
		D, N := mp.SubParams().DefaultLWEDimension(), p.PolyRank()
		key := sk.LWEKey
		if p.BootstrapOrder() == tfhe.OrderKeySwitchBlindRotate {
			key = sk.LWELargeKey
		}
		type enc interface {
			EncryptGLWEPlaintext(tfhe.GLWEPlaintext[T]) mktfhe.GLWECiphertext[T]
		}
		var mk func(x any) ops
		mk = func(x any) ops {
			var e enc
			var encrypt func(tfhe.LWEPlaintext[T]) mktfhe.LWECiphertext[T]
			var again func() any
			value := func(c mktfhe.LWECiphertext[T]) []T { return c.Value }
			switch x := x.(type) {
			case *mktfhe.Encryptor[T]:
				e, encrypt, again = x, x.EncryptLWEPlaintext, func() any { return x.SafeCopy() }
			case *mktfhe.PublicEncryptor[T]:
				e, encrypt, again = x, x.EncryptLWEPlaintext, func() any { return x.SafeCopy() }
			case *mktfhe.BinaryEncryptor[T]:
				e, encrypt, again = x.Encryptor, viaBool[T](x.EncryptLWEBool, value), func() any { return x.SafeCopy() }
			case *mktfhe.BinaryPublicEncryptor[T]:
				e, encrypt, again = x.Encryptor, viaBool[T](x.EncryptLWEBool, value), func() any { return x.SafeCopy() }
			}
			return ops{
				lwe: func(m tfhe.LWEPlaintext[T]) ([]T, T) {
					c := encrypt(m)
					return c.Value[1+D:], c.Value[0] + tf.Dot(c.Value[1+D:1+2*D], key.Value)
				},
				glwe: func(m tfhe.GLWEPlaintext[T]) ([]T, []T) {
					c := e.EncryptGLWEPlaintext(m)
					return c.Value[2].Coeffs, tf.Plus(c.Value[0].Coeffs, tf.NegMul(c.Value[2].Coeffs, sk.GLWEKey.Value[0].Coeffs))
				},
				copies: func() ops { return mk(again()) },
			}
		}
		var x any = e
		if binary {
			x = mktfhe.NewBinaryEncryptorWithKey(mp, 1, []byte{1}, sk)
		}
		if kind == "multi-key public" {
			if pk := e.GenPublicKey(); binary {
				x = mktfhe.NewBinaryPublicEncryptor(mp, 1, pk)
			} else {
				x = mktfhe.NewPublicEncryptor(mp, 1, pk)
			}
			glweTol = 12*(l.GLWEStdDev*tf.Q[T]()+0.5)*(2+float64(N))*8 + 4
			lweTol = glweTol
		}
		first = mk(x)
	}

	workers := rapid.IntRange(2, 6).Draw(t, "workers")
	late := rapid.Bool().Draw(t, "copyInWorker")
	objs := make([]*ops, workers)
	for i := range objs {
		if !late {
			c := first
			if i > 0 {
				c = first.copies()
			}
			objs[i] = &c
		}
	}
	per := rapid.IntRange(1, 6).Draw(t, "each")
	masks := make([][]string, workers)
	errs := make([]string, workers)
	seeds := make([]uint64, workers)
	for i := range seeds {
		seeds[i] = prng.U64()
	}
	var start, done sync.WaitGroup
	start.Add(1)
	for i := 0; i < workers; i++ {
		done.Add(1)
		go func(i int) {
			defer done.Done()
			r := vh.NewPRNG(seeds[i])
			start.Wait()
			o := objs[i]
			if o == nil {
				c := first.copies()
				o = &c
			}
			for j := 0; j < per; j++ {
				m := T(r.U64())
				a, ph := o.lwe(tfhe.LWEPlaintext[T]{Value: m})
				if d := tf.Dist(ph, m); !(d <= lweTol) {
					errs[i] = fmt.Sprintf("an LWE encryption is off by %g of at most %g", d, lweTol)
					return
				}
				masks[i] = append(masks[i], fmt.Sprint(a))
				pt := tfhe.NewGLWEPlaintext(p)
				tf.Dirty(r, pt.Value.Coeffs)
				ga, gp := o.glwe(pt)
				if d, _ := tf.MaxDist(gp, pt.Value.Coeffs); !(d <= glweTol) {
					errs[i] = fmt.Sprintf("a GLWE encryption is off by %g of at most %g", d, glweTol)
					return
				}
				masks[i] = append(masks[i], fmt.Sprint(ga))
				if o.glev != nil {
					for lv, row := range o.glev(pt.Value.Coeffs) {
						want := tf.Times(pt.Value.Coeffs, g.BaseQ(lv))
						if d, _ := tf.MaxDist(row, want); !(d <= glweTol) {
							errs[i] = fmt.Sprintf("GLev row %d is off by %g of at most %g", lv, d, glweTol)
							return
						}
					}
				}
			}
		}(i)
	}
	start.Done()
	done.Wait()
	seen := map[string]int{}
	for i := range errs {
		if errs[i] != "" {
			t.Fatalf("worker %d of %d, %s: %s (%s)", i, workers, kind, errs[i], set)
		}
		for _, m := range masks[i] {
			if len(m) < 60 {
				continue // short masks repeat
			}
			if j, ok := seen[m]; ok {
				t.Fatalf("copies %d and %d of one %s encryptor use the same mask (%s)", j, i, kind, set)
			}
			seen[m] = i
		}
	}
	vh.Case(len(seen) > 0, "%s, %d workers with %d encryptions each, late=%v (%s)", kind, workers, 2*per, late, set)
}

func mask[T tfhe.TorusInt](c tfhe.GLWECiphertext[T]) []T {
	var out []T
	for _, p := range c.Value[1:] {
		out = append(out, p.Coeffs...)
	}
	return out
}

const concEncRule = "a case is 2 to 6 goroutines encrypting with SafeCopies of one encryptor; non-trivial if some mask was long enough to tell copies apart"

// TestConcurrentEncrypt checks parallel encryption with SafeCopies.
func TestConcurrentEncrypt(t *testing.T) {
	vh.Check(t, concEncRule, 900, 10000, func(t *rapid.T) {
		kind := rapid.SampledFrom([]string{"secret", "public", "FHEW", "multi-key", "multi-key public", "secret binary", "public binary", "multi-key binary", "multi-key public binary"}).Draw(t, "encryptor")
		both(t, func(t *rapid.T) { encCase[uint32](t, kind) }, func(t *rapid.T) { encCase[uint64](t, kind) })
	})
}
