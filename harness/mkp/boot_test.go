package mkp

import (
	"math"
	"testing"

	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/mktfhe"
	"github.com/sp301415/tfhe-go/tfhe"
	"pgregory.net/rapid"

	"verifharness/tf"
	"verifharness/vh"
)

func extractCase[T tfhe.TorusInt](t *rapid.T) {
	v := newEnv[T](t, opts{Opts: tf.Opts{LogN: [2]int{4, 7}, Big: 11, BigLWE: 1000, Order: int(tfhe.OrderKeySwitchBlindRotate)}, parties: 5})
	c := v.rawGLWE()
	ref := c.Copy()
	k := v.wideKeys()
	flat := keys[T]{}
	for _, p := range k.g {
		flat.l = append(flat.l, p.Coeffs...)
	}
	ph := k.glwe(c)
	for _, idx := range []int{0, v.N - 1, v.P.N(v.N), v.P.N(v.N)} {
		m := v.lwe()
		if v.P.N(2) == 0 {
			m = c.AsLWECiphertext(idx)
		} else {
			c.AsLWECiphertextTo(m, idx)
		}
		v.Exact("extraction", tf.One(flat.lwe(m)), tf.One(ph[idx]))
	}
	for i := range c.Value {
		v.Exact("extracted ciphertext", c.Value[i].Coeffs, ref.Value[i].Coeffs)
	}
	// Ciphertexts of one party become ciphertexts of all.
	i := v.P.N(v.k)
	sub := v.p.SubParams()
	sl, sg := tfhe.NewLWECiphertext(sub), tfhe.NewGLWECiphertext(sub)
	tf.Dirty(v.P, sl.Value)
	for j := range sg.Value {
		tf.Dirty(v.P, sg.Value[j].Coeffs)
	}
	l, g := v.lwe(), v.glwe()
	l.CopyFromSubKey(sl, i)
	g.CopyFromSubKey(sg, i)
	for j, m := range v.lmasks(l) {
		want := make([]T, v.D)
		if j == i {
			want = sl.Value[1:]
		}
		v.Exact("LWE of one party", m, want)
	}
	for j, m := range v.gmasks(g) {
		want := make([]T, v.N)
		if j == i {
			want = sg.Value[1].Coeffs
		}
		v.Exact("GLWE of one party", m, want)
	}
	v.Exact("LWE of one party", l.Value[:1], sl.Value[:1])
	v.Exact("GLWE of one party", g.Value[0].Coeffs, sg.Value[0].Coeffs)
	// The transform and back.
	f := v.fglwe()
	tr := mktfhe.NewGLWETransformer[T](v.N)
	if v.P.N(2) == 0 {
		tr = tr.SafeCopy()
	}
	b := v.glwe()
	if v.P.N(2) == 0 {
		f = tr.FwdFFTGLWECiphertext(c)
		b = tr.InvGLWECiphertext(f)
	} else {
		tr.FwdFFTGLWECiphertextTo(f, c)
		tr.InvGLWECiphertextTo(b, f)
	}
	ev := poly.NewEvaluator[T](v.N)
	for j := range c.Value {
		v.Near("transform and back", b.Value[j].Coeffs, c.Value[j].Coeffs, v.fftErr())
		if want := ev.FwdFFT(c.Value[j]); !want.Approx(f.Value[j], tf.Q[T]()*1e-6) {
			t.Fatalf("the transform of component %d differs (%v)", j, v)
		}
	}
	vh.Case(true, "%v seed %x", v, v.P.U64())
}

func TestExtract(t *testing.T) {
	vh.Check(t, "a case extracts several coefficients, embeds single-key ciphertexts and transforms an arbitrary ciphertext of all parties; every case is non-trivial", 1500, 60000, func(t *rapid.T) {
		both(t, extractCase[uint32], extractCase[uint64])
	})
}

func at[T tfhe.TorusInt](full []T, e int) T {
	L := len(full)
	e = ((e % (2 * L)) + 2*L) % (2 * L)
	if e < L {
		return full[e]
	}
	return -full[e-L]
}

func rotateCase[T tfhe.TorusInt](t *rapid.T) {
	v := newEnv[T](t, opts{Opts: tf.Opts{LogN: [2]int{4, 7}, Big: 10, Order: -1, BlockCount: true, MaxLWE: 16}, parties: 3})
	v.boot()
	n := v.l.LWEDimension
	h := 0.0
	for _, i := range v.in {
		s := 0.0
		for _, x := range v.sks[i].LWEKey.Value {
			s += float64(x)
		}
		h = math.Max(h, s)
	}
	// The noise of adjacent blocks as in the single-key bound.
	extra := func() float64 {
		B, s := float64(v.l.BlindRotateParams.Base), v.l.GLWEStdDev
		return float64(v.l.BlockSize*v.l.BlindRotateParams.Level*v.N) * B * B / 3 * (s*s + math.Exp2(-2*float64(tf.Bits[T]()))/4)
	}()
	k := float64(len(v.in))
	acc := v.p.AccumulatorParameters()
	va := k * externalVar(v.l, acc, v.p.RelinKeyParameters(), k, tf.BlindRotateVar(v.l, h)+extra+math.Exp2(-2*float64(tf.Bits[T]())), 1)
	tol := tolOf(2*va, tf.Q[T]())
	rots := rapid.IntRange(1, 3).Draw(t, "rotations")
	for j := 0; j < rots; j++ {
		lut := tfhe.NewLUT(v.p.SubParams())
		tf.Dirty(v.P, lut.Value[0].Coeffs)
		lut0 := lut.Copy()
		ct := mktfhe.NewLWECiphertextCustom[T](v.k * n)
		sparse := v.P.N(4) == 0
		for x := range ct.Value {
			if !sparse || v.P.N(6) == 0 {
				ct.Value[x] = v.Angle(v.N)
			}
		}
		ct0 := ct.Copy()
		e, _ := tf.ModSwitch(ct.Value[0], v.N)
		for _, i := range v.in {
			for x, s := range v.sks[i].LWEKey.Value {
				if s == 1 {
					a, _ := tf.ModSwitch(ct.Value[1+i*n+x], v.N)
					e += a
				}
			}
		}
		out := v.glwe()
		form := v.P.N(4)
		switch form {
		case 0:
			out = v.eval.BlindRotate(ct, lut)
		case 1:
			v.eval.BlindRotateTo(out, ct, lut)
		case 2:
			out = v.eval.BlindRotateParallel(ct, lut)
		case 3:
			v.eval.BlindRotateParallelTo(out, ct, lut)
		}
		want := make([]T, v.N)
		for x := range want {
			want[x] = at(lut.Value[0].Coeffs, x+e)
		}
		v.Near("blind rotation", v.gphase(out), want, tol)
		v.Exact("input", ct.Value, ct0.Value)
		v.Exact("table", lut.Value[0].Coeffs, lut0.Value[0].Coeffs)
		for a := 0; a < v.k; a++ {
			if v.encs[a] == nil {
				v.Exact("mask of an absent party", out.Value[a+1].Coeffs, make([]T, v.N))
			}
		}
		if tol < tf.Q[T]()/8 {
			vh.Label("form %d with %d of %d parties", form, len(v.in), v.k)
		}
	}
	vh.Case(tol < tf.Q[T]()/8, "%v rotations %d seed %x", v, rots, v.P.U64())
}

func TestBlindRotate(t *testing.T) {
	vh.Check(t, "a case blind-rotates arbitrary tables by arbitrary ciphertexts of several parties and compares every coefficient with the exact rotation; non-trivial = the noise bound is below an eighth of the torus", 400, 15000, func(t *rapid.T) {
		both(t, rotateCase[uint32], rotateCase[uint64])
	})
}

func bootCase[T tfhe.TorusInt](t *rapid.T) {
	v := newEnv[T](t, opts{Opts: tf.Opts{LogN: [2]int{5, 9}, Order: -1, BlockCount: true, MaxLWE: 10, MaxLogP: 4}, parties: 3, boot: true})
	v.boot()
	d := v.decryptor()
	p := int(v.l.MessageModulus)
	q := tf.Q[T]()
	tol := tolOf(outVar(v.lit), q)
	// How large a sum of ciphertexts still bootstraps.
	sum := 1
	for sum < 4 && fits(v.lit, float64(p), float64(sum+1)) {
		sum++
	}
	type wire struct {
		ct lwe[T]
		m  int
	}
	var ws []wire
	for j := 0; j < 4; j++ {
		m := v.P.N(p)
		ws = append(ws, wire{v.encs[v.party()].EncryptLWE(m), m})
	}
	ops := rapid.IntRange(1, 6).Draw(t, "ops")
	for j := 0; j < ops; j++ {
		// A sum of ciphertexts of several parties.
		ct, m := v.rawLWE(), 0
		ct.Clear()
		c := 1 + v.P.N(sum)
		for x := 0; x < c; x++ {
			w := ws[v.P.N(len(ws))]
			if v.P.N(3) > 0 {
				v.eval.AddLWETo(ct, ct, w.ct)
				m += w.m
			} else {
				v.eval.SubLWETo(ct, ct, w.ct)
				m += 2*p - w.m
			}
		}
		// Reduce to where the table is not negated, exactly: the sum may be anywhere.
		neg := false
		r := m % (2 * p)
		if r >= p {
			r, neg = r-p, true
		}
		// Masks of absent parties carry no meaning.
		for a := 0; a < v.k; a++ {
			if v.encs[a] == nil && v.P.N(2) == 0 {
				tf.Dirty(v.P, ct.Value[1+a*v.D:1+(a+1)*v.D])
			}
		}
		tab := make([]int, p)
		for x := range tab {
			tab[x] = v.P.N(p)
		}
		f := func(x int) int { return tab[x] }
		lut := tfhe.NewEvaluator(v.p.SubParams(), tfhe.EvaluationKey[T]{}).GenLUT(f)
		ct0 := ct.Copy()
		out := v.lwe()
		form := v.P.N(9)
		switch form {
		case 0:
			out = v.eval.BootstrapFunc(ct, f)
		case 1:
			v.eval.BootstrapFuncTo(out, ct, f)
		case 2:
			out = v.eval.BootstrapLUT(ct, lut)
		case 3:
			v.eval.BootstrapLUTTo(out, ct, lut)
		case 4:
			out = v.eval.BootstrapFuncParallel(ct, f)
		case 5:
			v.eval.BootstrapFuncParallelTo(out, ct, f)
		case 6:
			out = v.eval.BootstrapLUTParallel(ct, lut)
		case 7:
			v.eval.BootstrapLUTParallelTo(out, ct, lut)
		case 8:
			out = ct.Copy()
			v.eval.BootstrapLUTTo(out, out, lut)
		}
		want := T(tab[r]) * v.p.Scale()
		if neg {
			want = -want
		}
		v.Near("bootstrap", tf.One(v.phase(out)), tf.One(want), tol)
		v.Exact("bootstrap input", ct.Value, ct0.Value)
		if !neg {
			if got := d.DecryptLWE(out); got != tab[r] {
				t.Fatalf("bootstrap form %d of %d: %d instead of %d (%v)", form, r, got, tab[r], v)
			}
			ws[v.P.N(len(ws))] = wire{out, tab[r]}
		}
		vh.Label("form %d with %d of %d parties", form, len(v.in), v.k)
	}
	vh.Case(true, "%v ops %d sum %d seed %x", v, ops, sum, v.P.U64())
}

func TestBootstrap(t *testing.T) {
	vh.Check(t, "a case bootstraps sums of ciphertexts of several parties with generated functions, feeding results back; every case is non-trivial", 300, 12000, func(t *rapid.T) {
		both(t, bootCase[uint32], bootCase[uint64])
	})
}

func switchCase[T tfhe.TorusInt](t *rapid.T) {
	v := newEnv[T](t, opts{Opts: tf.Opts{LogN: [2]int{4, 7}, Big: 10, BigLWE: 600, Order: -1, BlockCount: true, MaxLWE: 80}, parties: 4})
	evks := map[int]mktfhe.EvaluationKey[T]{}
	for _, i := range v.in {
		ek := mktfhe.EvaluationKey[T]{}
		if v.P.N(3) == 0 {
			ek.KeySwitchKey = v.encs[i].GenDefaultKeySwitchKeyParallel()
		} else {
			ek.KeySwitchKey = v.encs[i].GenDefaultKeySwitchKey()
		}
		evks[i] = ek
	}
	e := mktfhe.NewEvaluator(v.p, evks)
	if v.P.N(3) == 0 {
		e = e.SafeCopy()
	}
	n := v.l.LWEDimension
	for j := 0; j < 3; j++ {
		ct := mktfhe.NewLWECiphertextCustom[T](v.p.GLWEDimension())
		tf.Dirty(v.P, ct.Value)
		ct0 := ct.Copy()
		out := mktfhe.NewLWECiphertextCustom[T](v.p.LWEDimension())
		tf.Dirty(v.P, out.Value)
		if v.P.N(2) == 0 {
			out = e.DefaultKeySwitch(ct)
		} else {
			e.DefaultKeySwitchTo(out, ct)
		}
		got, want := out.Value[0], ct.Value[0]
		for i := 0; i < v.k; i++ {
			m := out.Value[1+i*n : 1+(i+1)*n]
			if v.encs[i] == nil {
				v.Exact("mask of an absent party", m, make([]T, n))
				continue
			}
			got += tf.Dot(m, v.sks[i].LWEKey.Value)
			want += tf.Dot(ct.Value[1+i*v.N:1+(i+1)*v.N], v.sks[i].LWELargeKey.Value)
		}
		g := v.p.KeySwitchParams()
		m := float64((v.N - n) * len(v.in))
		sigma := v.l.LWEStdDev*tf.Q[T]() + 0.5
		last := tf.Last(g)
		tol := freshSigmas*sigma*math.Sqrt(m*float64(g.Level())*tf.DigitVar(float64(g.Base()))) + 9*last*math.Sqrt(m/12) + last/2 + 1
		v.Near("default key switching", tf.One(got), tf.One(want), tol)
		v.Exact("input", ct.Value, ct0.Value)
	}
	vh.Case(v.N > n, "%v seed %x", v, v.P.U64())
}

func TestKeySwitch(t *testing.T) {
	vh.Check(t, "a case switches arbitrary ciphertexts of several parties to the small keys and compares phases; non-trivial = the dimensions differ", 1000, 30000, func(t *rapid.T) {
		both(t, switchCase[uint32], switchCase[uint64])
	})
}
