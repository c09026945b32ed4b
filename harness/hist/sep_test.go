package hist

import (
	"bytes"
	"encoding"
	"fmt"
	"math"
	"reflect"
	"sync"
	"testing"

	"github.com/sp301415/tfhe-go/math/csprng"
	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/math/vec"
	"github.com/sp301415/tfhe-go/mktfhe"
	"github.com/sp301415/tfhe-go/tfhe"
	"github.com/sp301415/tfhe-go/xtfhe"
	"pgregory.net/rapid"

	"verifharness/tf"
	"verifharness/vh"
)

// errand is the work of one goroutine: it builds everything it uses and returns a
// check to be run when all are done, which repeats the deterministic part alone.
type errand func(t *rapid.T, seed uint64) (again func() string, err string)

// callErrand builds one subject with keys of its own and runs drawn operations.
func callErrand[T tfhe.TorusInt](name string) errand {
	return func(t *rapid.T, _ uint64) (func() string, string) {
		w, s := newWorld[T](t, name)
		o := s.fresh()
		type rec struct {
			c         *call
			in, after []reflect.Value
			res       []reflect.Value
		}
		var recs []rec
		for i := 0; i < 6; i++ {
			m := w.heavy(s)
			if w.P.N(2) == 0 {
				m = s.calls[w.P.N(len(s.calls))]
			}
			c := w.draw(s, o, m)
			if c == nil {
				continue
			}
			r := rec{c: c, in: clone(c.args), after: clone(c.args)}
			var p string
			if r.res, p = c.outcome(o, r.after); p != "" {
				return nil, fmt.Sprintf("%s.%s panics with %q (%s)", name, m, p, w.set)
			}
			recs = append(recs, r)
		}
		return func() string {
			o := s.fresh()
			for _, r := range recs {
				args := clone(r.in)
				res, p := r.c.outcome(o, args)
				if p != "" {
					return fmt.Sprintf("%s.%s panics with %q when alone (%s)", name, r.c.m, p, w.set)
				}
				for i := range res {
					if d := same(r.res[i], res[i]); d != "" {
						return fmt.Sprintf("%s.%s returned another result than alone (%s) (%s)", name, r.c.m, d, w.set)
					}
				}
				if i := r.c.out; i >= 0 {
					if d := same(r.after[i], args[i]); d != "" {
						return fmt.Sprintf("%s.%s wrote another result than alone (%s) (%s)", name, r.c.m, d, w.set)
					}
				}
			}
			return ""
		}, ""
	}
}

// keyErrand makes keys, sends them through their binary form and computes with them.
func keyErrand[T tfhe.TorusInt](t *rapid.T, seed uint64) (func() string, string) {
	prng := vh.NewPRNG(seed)
	set := tf.Draw[T](t, tf.Opts{LogN: [2]int{4, 6}, MaxRank: 3, Extend: []int{1, 1, 2}, Order: -1, BlockCount: true, MaxLWE: 12})
	p := set.Params
	enc := tfhe.NewEncryptor(p)
	sk := enc.SecretKey
	var evk tfhe.EvaluationKey[T]
	if prng.N(2) == 0 {
		evk = enc.GenEvalKeyParallel()
	} else {
		evk = enc.GenEvalKey()
	}
	// The rows of a key encrypt the key.
	row := tf.GPhase(enc.InvFFTGLWECiphertext(evk.BlindRotateKey.Value[0].Value[0].Value[0]), sk.GLWEKey)
	want := make([]T, p.PolyRank())
	want[0] = sk.LWEKey.Value[0] * p.BlindRotateParams().BaseQ(0)
	tol := 10*set.Lit.GLWEStdDev*tf.Q[T]() + math.Exp2(float64(tf.Bits[T]()-44)) + 4
	if d, _ := tf.MaxDist(row, want); !(d <= tol) {
		return nil, fmt.Sprintf("a bootstrapping key is off by %g of at most %g (%s)", d, tol, set)
	}
	for i := 0; i < 3; i++ {
		pt := tfhe.NewGLWEPlaintext(p)
		tf.Dirty(prng, pt.Value.Coeffs)
		c := enc.EncryptGLWEPlaintext(pt)
		if d, _ := tf.MaxDist(tf.GPhase(c, sk.GLWEKey), pt.Value.Coeffs); !(d <= tol) {
			return nil, fmt.Sprintf("an encryption is off by %g of at most %g (%s)", d, tol, set)
		}
	}
	var b bytes.Buffer
	if _, err := evk.WriteTo(&b); err != nil {
		return nil, err.Error()
	}
	var got tfhe.EvaluationKey[T]
	if _, err := got.ReadFrom(&b); err != nil {
		return nil, err.Error()
	}
	if d := tf.Diff(&got, &evk); d != "" {
		return nil, fmt.Sprintf("an evaluation key differs after reading (%s) (%s)", d, set)
	}
	ev := tfhe.NewEvaluator(p, got)
	lut := ev.GenLUT(func(x int) int { return 3*x + 1 })
	ct := tfhe.LWECiphertext[T]{Value: make([]T, p.DefaultLWEDimension()+1)}
	tf.Dirty(prng, ct.Value)
	out := ev.BootstrapLUT(ct, lut)
	return func() string {
		ev := tfhe.NewEvaluator(p, evk)
		if d := tf.Diff(ptr(reflect.ValueOf(ev.BootstrapLUT(ct, ev.GenLUT(func(x int) int { return 3*x + 1 })))), ptr(reflect.ValueOf(out))); d != "" {
			return fmt.Sprintf("bootstrapping gave another result than alone (%s) (%s)", d, set)
		}
		return ""
	}, ""
}

// otherErrand makes objects of the other schemes.
func otherErrand[T tfhe.TorusInt](t *rapid.T, seed uint64) (func() string, string) {
	prng := vh.NewPRNG(seed)
	set := tf.Draw[T](t, tf.Opts{LogN: [2]int{4, 6}, MaxRank: 1, Order: int(tfhe.OrderKeySwitchBlindRotate), BlockCount: true, MaxLWE: 8})
	l := set.Lit
	g := lits(set.Params.BlindRotateParams())
	crsSeed := []byte{byte(prng.N(4))}
	mp := mktfhe.ParametersLiteral[T]{SubParams: l, PartyCount: 2, AccumulatorParams: g, RelinKeyParams: g}.Compile()
	e := mktfhe.NewEncryptor(mp, prng.N(2), crsSeed)
	pe := tfhe.NewPublicEncryptor(set.Params, e.SubEncryptor.GenPublicKey())
	pt := tfhe.NewGLWEPlaintext(set.Params)
	c := pe.EncryptGLWEPlaintext(pt)
	tol := 12*(l.GLWEStdDev*tf.Q[T]()+0.5)*(2+float64(l.PolyRank))*8 + 4
	if d, _ := tf.MaxDist(tf.GPhase(c, e.SecretKey.GLWEKey), pt.Value.Coeffs); !(d <= tol) {
		return nil, fmt.Sprintf("a public encryption is off by %g of at most %g (%s)", d, tol, set)
	}
	sigma, center := 0.5+prng.F()*20, prng.F()*8-4
	s := xtfhe.NewCDTSampler[T](center, sigma)
	sum, n := 0.0, 200
	for i := 0; i < n; i++ {
		x := float64(int64(s.Sample()))
		if tf.Bits[T]() == 32 {
			x = float64(int32(uint32(int64(x))))
		}
		sum += x
	}
	if d := math.Abs(sum/float64(n) - center); d > 9*sigma/math.Sqrt(float64(n)) {
		return nil, fmt.Sprintf("samples around %g of deviation %g have mean %g", center, sigma, sum/float64(n))
	}
	kg := xtfhe.NewBFVKeyGenerator(set.Params, e.SecretKey)
	kg.GenRelinKey(g.Compile())
	return func() string {
		if d := tf.Diff(ptr(reflect.ValueOf(mktfhe.NewEncryptor(mp, 0, crsSeed).CRS)), ptr(reflect.ValueOf(e.CRS))); d != "" {
			return fmt.Sprintf("the common reference string is another one than alone (%s)", d)
		}
		return ""
	}, ""
}

// binErrand writes and reads objects of every kind.
func binErrand[T tfhe.TorusInt](t *rapid.T, seed uint64) (func() string, string) {
	w, _ := newWorld[T](t, "mktfhe.Decryptor")
	w.begin("")
	p, g := w.p, w.g
	enc := tfhe.NewEncryptor(p)
	objs := []any{w.p, w.g, w.mp, enc.SecretKey, enc.GenEvalKey(), w.lweK(1 + w.P.N(20)), w.rank(1 + w.P.N(3)),
		w.coeffs(tfhe.NewLevCiphertext(p, g)), w.coeffs(tfhe.NewGSWCiphertext(p, g)), w.coeffs(tfhe.NewGLevCiphertext(p, g)), w.coeffs(tfhe.NewGGSWCiphertext(p, g)),
		w.fourier(tfhe.NewFFTGLWECiphertext(p)), w.fourier(tfhe.NewFFTGLevCiphertext(p, g)), w.fourier(tfhe.NewFFTGGSWCiphertext(p, g)),
		w.coeffs(tfhe.NewGLWESecretKey(p)), w.fourier(tfhe.NewFFTGLWESecretKey(p)), w.coeffs(tfhe.NewLWESecretKey(p)), w.coeffs(tfhe.NewLWEKeySwitchKey(p, w.dim, g)),
		tfhe.LWEPlaintext[T]{Value: w.Val()}, tfhe.GLWEPlaintext[T]{Value: w.Poly()},
		mktfhe.LWECiphertext[T]{Value: w.Vec(9)}, w.coeffs(mktfhe.NewGLWECiphertext(w.mp)), w.fourier(mktfhe.NewFFTGLWECiphertext(w.mp)),
		w.coeffs(mktfhe.NewUniEncryption(w.mp, w.crs())), w.fourier(mktfhe.NewFFTUniEncryption(w.mp, w.crs()))}
	var bin [][]byte
	for _, o := range objs {
		b, err := o.(encoding.BinaryMarshaler).MarshalBinary()
		if err != nil {
			return nil, err.Error()
		}
		x := reflect.New(reflect.TypeOf(o))
		if err := x.Interface().(encoding.BinaryUnmarshaler).UnmarshalBinary(b); err != nil {
			return nil, fmt.Sprintf("reading %T: %v", o, err)
		}
		if d := same(x.Elem(), reflect.ValueOf(o)); d != "" {
			return nil, fmt.Sprintf("%T differs after reading: %s", o, d)
		}
		bin = append(bin, b)
	}
	return func() string {
		for i, o := range objs {
			if b, err := o.(encoding.BinaryMarshaler).MarshalBinary(); err != nil || !bytes.Equal(b, bin[i]) {
				return fmt.Sprintf("%T was written otherwise than alone", o)
			}
		}
		return ""
	}, ""
}

// mathErrand uses the mathematical packages at many sizes.
func mathErrand[T tfhe.TorusInt](t *rapid.T, seed uint64) (func() string, string) {
	run := func() []any {
		p := vh.NewPRNG(seed)
		var out []any
		for i := 0; i < 4; i++ {
			n := 1 << uint(4+p.N(9))
			a, b := make([]T, n), make([]T, n)
			tf.Dirty(p, a)
			tf.Dirty(p, b)
			ev := poly.NewEvaluator[T](n)
			x, y := poly.Poly[T]{Coeffs: a}, poly.Poly[T]{Coeffs: b}
			f := ev.FwdFFT(y)
			out = append(out, ev.MulPoly(x, y), ev.ShortFFTPolyMulPoly(x, f), ev.InvFFT(ev.MonomialFwdFFT(p.N(4*n))), ev.MonomialMulPoly(x, p.N(4*n)), ev.PermutePoly(x, 2*p.N(n)+1), f)
			k := p.Range(-2*n, 2*n)
			out = append(out, vec.Rotate(a, k), vec.Reverse(b), vec.Dot(a, b), vec.Mul(a, b), vec.Add(a, b), vec.ScalarMul(a, b[0]), vec.Cast[float64](a))
			r := vec.Copy(a)
			vec.RotateInPlace(r, k)
			q := vec.Copy(b)
			vec.BitReverseInPlace(q)
			out = append(out, r, q)
			key := make([]byte, 1+p.N(40))
			for j := range key {
				key[j] = byte(p.U64())
			}
			u := csprng.NewUniformSamplerWithSeed[T](key)
			u.SampleVecTo(r)
			csprng.NewBinarySamplerWithSeed[T](key).SampleVecTo(q)
			gs := make([]T, 40)
			csprng.NewGaussianSamplerWithSeed[T](key, 1).SampleVecTo(gs, 100)
			out = append(out, vec.Copy(r), vec.Copy(q), gs, u.SampleN(T(1+p.N(1000))))
			z := make([]complex128, n)
			for j := range z {
				z[j] = complex(p.F(), p.F())
			}
			z4 := vec.CmplxToFloat4(z)
			z = vec.Float4ToCmplx(z4)
			out = append(out, z4, vec.CmplxToFloat4(z))
		}
		return out
	}
	got := run()
	return func() string {
		want := run()
		for i := range want {
			if d := same(reflect.ValueOf(got[i]), reflect.ValueOf(want[i])); d != "" {
				return fmt.Sprintf("result %d of %d of the mathematical packages differs from that alone: %s", i, len(want), d)
			}
		}
		return ""
	}, ""
}

// separateCase builds and uses unrelated objects in parallel.
func separateCase(t *rapid.T) {
	n := rapid.IntRange(2, 8).Draw(t, "goroutines")
	sameKind := rapid.Bool().Draw(t, "same kind")
	names := append([]string{"keys", "others", "math", "math", "keys", "binary", "binary"}, subjectNames...)
	type job struct {
		name, typ string
		e         errand
		seed      uint64
		again     func() string
		err       string
	}
	jobs := make([]*job, n)
	var hist []string
	for i := range jobs {
		j := &job{name: rapid.SampledFrom(names).Draw(t, "work"), typ: tf.DrawType(t), seed: rapid.Uint64().Draw(t, "seed") >> 1}
		if sameKind && i > 0 {
			j.name = jobs[0].name
		}
		if j.typ == "uint32" {
			j.e = pick[uint32](j.name)
		} else {
			j.e = pick[uint64](j.name)
		}
		jobs[i] = j
		vh.Label(j.name)
		hist = append(hist, j.name+" "+j.typ)
	}
	var start, done sync.WaitGroup
	start.Add(1)
	for _, j := range jobs {
		done.Add(1)
		go func(j *job) {
			defer done.Done()
			defer func() {
				if r := recover(); r != nil {
					j.err = fmt.Sprint("panic: ", r)
				}
			}()
			start.Wait()
			rapid.Custom(func(t *rapid.T) int {
				j.again, j.err = j.e(t, j.seed)
				return rapid.Int().Draw(t, "end")
			}).Example(int(j.seed))
		}(j)
	}
	start.Done()
	done.Wait()
	for i, j := range jobs {
		if j.err != "" {
			t.Fatalf("goroutine %d of %v: %s", i, hist, j.err)
		}
	}
	for i, j := range jobs {
		if d := j.again(); d != "" {
			t.Fatalf("goroutine %d of %v: %s", i, hist, d)
		}
	}
	vh.Case(n >= 3, "%v", hist)
}

func pick[T tfhe.TorusInt](name string) errand {
	switch name {
	case "keys":
		return keyErrand[T]
	case "others":
		return otherErrand[T]
	case "binary":
		return binErrand[T]
	case "math":
		return mathErrand[T]
	}
	return callErrand[T](name)
}

const sepRule = "a case is 2 to 8 goroutines that each build and use objects of their own; non-trivial with at least 3"

// TestSeparate checks that unrelated objects do not affect each other.
func TestSeparate(t *testing.T) {
	vh.Check(t, sepRule, 400, 4000, separateCase)
}
