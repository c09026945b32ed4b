package xp

import (
	"math"
	"testing"

	"github.com/sp301415/tfhe-go/tfhe"
	"github.com/sp301415/tfhe-go/xtfhe"
	"pgregory.net/rapid"

	"verifharness/tf"
	"verifharness/vh"
)

// many is an evaluator of several tables at once.
type many[T tfhe.TorusInt] struct {
	*env[T]
	c   int
	lit xtfhe.ManyLUTParametersLiteral[T]
	mp  xtfhe.ManyLUTParameters[T]
	e   *xtfhe.ManyLUTEvaluator[T]
}

// shrunk is a literal whose table has the resolution of c interleaved tables.
func shrunk[T tfhe.TorusInt](l tfhe.ParametersLiteral[T], c int) tfhe.ParametersLiteral[T] {
	l.LUTSize /= c
	return l
}

// newMany draws parameters; when boot is set, bootstrapping must be correct.
func newMany[T tfhe.TorusInt](t *rapid.T, o tf.Opts, maxC int) *many[T] {
	l := tf.Draw[T](t, o).Lit
	m := &many[T]{c: 1 << uint(rapid.IntRange(0, maxC).Draw(t, "logCount"))}
	if o.Boot {
		p := float64(l.MessageModulus)
		for ; m.c > 1; m.c /= 2 {
			q := p
			for q > 2 && !tf.Fits(shrunk(l, m.c), q, 1) {
				q--
			}
			if tf.Fits(shrunk(l, m.c), q, 1) {
				l.MessageModulus = T(q)
				break
			}
		}
	} else {
		for int(l.MessageModulus)*m.c*2 > l.PolyRank && l.MessageModulus > 1 {
			l.MessageModulus--
		}
	}
	m.env = envOf(t, l)
	m.lit = xtfhe.ManyLUTParametersLiteral[T]{BaseParams: l, LUTCount: m.c}
	m.mp = m.lit.Compile()
	if m.mp.LUTCount() != m.c || 1<<uint(m.mp.LogLUTCount()) != m.c {
		t.Fatalf("LUTCount %d, log %d, compiled from %d", m.mp.LUTCount(), m.mp.LogLUTCount(), m.c)
	}
	return m
}

func (m *many[T]) evk() tfhe.EvaluationKey[T] {
	if rapid.Bool().Draw(m.T, "parallelKeys") {
		return m.enc.GenEvalKeyParallel()
	}
	return m.enc.GenEvalKey()
}

func at[T tfhe.TorusInt](full []T, e int) T {
	L := len(full)
	e = ((e % (2 * L)) + 2*L) % (2 * L)
	if e < L {
		return full[e]
	}
	return -full[e-L]
}

func (m *many[T]) fns(p, n int) ([]func(int) int, [][]int) {
	tabs := make([][]int, n)
	fs := make([]func(int) int, n)
	for i := range fs {
		tab := make([]int, p)
		for x := range tab {
			tab[x] = m.P.N(p)
			if m.P.N(8) == 0 {
				tab[x] += p * m.P.N(3)
			}
		}
		tabs[i] = tab
		fs[i] = func(x int) int { return tab[x] }
	}
	return fs, tabs
}

// checkTable reads every aligned slot around every message.
func (m *many[T]) checkTable(what string, lut tfhe.LookUpTable[T], p, n int, want func(i, x int) T) {
	m.T.Helper()
	full := lut.Value[0].Coeffs
	c := m.c
	L := m.N / c
	for x := 0; x < p; x++ {
		lo, hi := (2*x-1)*L+4*p, (2*x+1)*L-4*p
		if L%(2*p) == 0 {
			lo, hi = (2*x-1)*L, (2*x+1)*L-2*p
		}
		for e := -L; e < L; e++ {
			if 2*p*e < lo || 2*p*e > hi {
				continue
			}
			for i := 0; i < n; i++ {
				if got := at(full, e*c+i); got != want(i, x) {
					m.T.Fatalf("%s: function %d of %d at %d, near message %d of %d, is %#x instead of %#x (%v, %d tables)", what, i, n, e*c+i, x, p, got, want(i, x), m.set, c)
				}
			}
		}
	}
}

func manyLUTCase[T tfhe.TorusInt](t *rapid.T) {
	m := newMany[T](t, tf.Opts{LogN: [2]int{4, 9}, Big: 12, Order: -1, BlockCount: true, MaxLWE: 8, MaxLogP: 6}, 4)
	m.e = xtfhe.NewManyLUTEvaluator(m.mp, tfhe.EvaluationKey[T]{})
	if rapid.Bool().Draw(t, "copy") {
		m.e = m.e.SafeCopy()
	}
	luts := rapid.IntRange(1, 6).Draw(t, "luts")
	real := false
	for j := 0; j < luts; j++ {
		n := rapid.IntRange(1, m.c).Draw(t, "functions")
		p := int(m.p.MessageModulus())
		scale := m.p.Scale()
		custom := rapid.Bool().Draw(t, "custom")
		if custom {
			top := m.N / m.c / 2
			if top < 1 {
				top = 1
			}
			p = rapid.IntRange(1, top).Draw(t, "mm")
			if rapid.Bool().Draw(t, "pow2") {
				for p&(p-1) != 0 {
					p &= p - 1
				}
			}
			scale = m.Val()
		}
		fs, tabs := m.fns(p, n)
		raw := make([][]T, n)
		fr := make([]func(int) T, n)
		for i := range raw {
			tab := m.Vec(p)
			raw[i] = tab
			fr[i] = func(x int) T { return tab[x] }
		}
		lut := m.dirtyLUT()
		full := rapid.Bool().Draw(t, "full")
		to := rapid.Bool().Draw(t, "to")
		want := func(i, x int) T { return T(tabs[i][x]%p) * scale }
		if full {
			want = func(i, x int) T { return raw[i][x] }
		}
		switch {
		case full && custom && to:
			m.e.GenLUTCustomFullTo(lut, fr, T(p))
		case full && custom:
			lut = m.e.GenLUTCustomFull(fr, T(p))
		case full && to:
			m.e.GenLUTFullTo(lut, fr)
		case full:
			lut = m.e.GenLUTFull(fr)
		case custom && to:
			m.e.GenLUTCustomTo(lut, fs, T(p), scale)
		case custom:
			lut = m.e.GenLUTCustom(fs, T(p), scale)
		case to:
			m.e.GenLUTTo(lut, fs)
		default:
			lut = m.e.GenLUT(fs)
		}
		m.checkTable("ManyLUT table", lut, p, n, want)
		vh.Label("full=%v custom=%v pow2=%v", full, custom, p&(p-1) == 0)
		real = real || p > 1
		if !vh.Panics(func() { m.e.GenLUTTo(lut, make([]func(int) int, m.c+1)) }) {
			t.Fatalf("a table of %d functions with LUTCount %d does not panic", m.c+1, m.c)
		}
	}
	vh.Case(real, "%v count %d luts %d seed %x", m.set, m.c, luts, m.P.U64())
}

func TestManyLUTTable(t *testing.T) {
	vh.Check(t, "a case builds interleaved tables of generated functions, moduli and scales and reads every aligned slot; non-trivial when some modulus exceeds one", 3000, 100000, func(t *rapid.T) {
		both(t, manyLUTCase[uint32], manyLUTCase[uint64])
	})
}

func manyRotateCase[T tfhe.TorusInt](t *rapid.T) {
	m := newMany[T](t, tf.Opts{LogN: [2]int{4, 8}, Order: -1, BlockCount: true, MaxLWE: 24}, 3)
	m.e = xtfhe.NewManyLUTEvaluator(m.mp, m.evk())
	if rapid.Bool().Draw(t, "copy") {
		m.e = m.e.SafeCopy()
	}
	L := m.N / m.c
	n := m.p.LWEDimension()
	h := 0.0
	for _, s := range m.sk.LWEKey.Value {
		h += float64(s)
	}
	B, s := float64(m.p.BlindRotateParams().Base()), m.l.GLWEStdDev
	va := tf.BlindRotateVar(m.l, h) + float64(m.l.BlockSize*m.p.BlindRotateParams().Level()*m.N)*B*B/3*(s*s+math.Exp2(-2*float64(tf.Bits[T]()))/4)
	tol := tf.Sigmas*math.Sqrt(va)*tf.Q[T]() + 2
	rots := rapid.IntRange(1, 4).Draw(t, "rotations")
	for r := 0; r < rots; r++ {
		lut := m.dirtyLUT()
		full := append([]T{}, lut.Value[0].Coeffs...)
		ct := tfhe.NewLWECiphertextCustom[T](n)
		sparse := m.P.N(4) == 0
		for j := range ct.Value {
			if !sparse || m.P.N(6) == 0 {
				ct.Value[j] = m.Angle(L)
			}
		}
		step := func(x T) int { w, _ := tf.ModSwitch(x, L); return w * m.c }
		e := step(ct.Value[0])
		for j, k := range m.sk.LWEKey.Value {
			if k == 1 {
				e += step(ct.Value[j+1])
			}
		}
		for _, x := range ct.Value {
			if got := m.e.ModSwitch(x); (got-step(x))%(2*m.N) != 0 {
				t.Fatalf("ModSwitch(%#x) = %d instead of %d of %d by %d", x, got, step(x), 2*m.N, m.c)
			}
		}
		c0 := ct.Copy()
		out := m.glwe()
		if m.P.N(2) == 0 {
			out = m.e.BlindRotate(ct, lut)
		} else {
			m.e.BlindRotateTo(out, ct, lut)
		}
		want := make([]T, m.N)
		for j := range want {
			want[j] = at(full, j+e)
		}
		m.Near("ManyLUT BlindRotate", m.gphase(out), want, tol)
		m.Exact("ManyLUT BlindRotate input", ct.Value, c0.Value)
		m.Exact("ManyLUT BlindRotate table", lut.Value[0].Coeffs, full)
	}
	vh.Label("count %d block %v", m.c, m.l.BlockSize > 1)
	vh.Case(tol < tf.Q[T]()/8, "%v count %d rotations %d tol %.3g seed %x", m.set, m.c, rots, tol/tf.Q[T](), m.P.U64())
}

func TestManyLUTRotate(t *testing.T) {
	vh.Check(t, "a case rotates arbitrary tables by arbitrary ciphertexts at the resolution of the interleaved tables and compares all coefficients; non-trivial when the noise bound is below 1/8 of the torus", 1200, 40000, func(t *rapid.T) {
		both(t, manyRotateCase[uint32], manyRotateCase[uint64])
	})
}

// dphase is the phase under the default LWE key.
func (v *env[T]) dkey() tfhe.LWESecretKey[T] {
	if v.p.BootstrapOrder() == tfhe.OrderKeySwitchBlindRotate {
		return v.sk.LWELargeKey
	}
	return v.sk.LWEKey
}

func (v *env[T]) exactly(ph T) tfhe.LWECiphertext[T] {
	c := v.enc.EncryptLWEPlaintext(tfhe.LWEPlaintext[T]{})
	c.Value[0] += ph - tf.Phase(c, v.dkey())
	return c
}

// jitter is the largest input error the parameters take at modulus p and count c.
func (v *env[T]) jitter(p float64, c int) float64 {
	m := tf.RotateMargin(shrunk(v.l, c), p)
	if v.l.BootstrapOrder == tfhe.OrderKeySwitchBlindRotate {
		m -= tf.Sigmas * math.Sqrt(tf.KeySwitchVar(v.l))
	}
	return m*tf.Q[T]() - 2*p
}

func (v *env[T]) delta(jit float64) T {
	switch v.P.N(4) {
	case 0:
		return T(int64(jit))
	case 1:
		return T(int64(-jit))
	}
	return T(int64((2*v.P.F() - 1) * jit))
}

func manyBootCase[T tfhe.TorusInt](t *rapid.T) {
	m := newMany[T](t, tf.Opts{LogN: [2]int{5, 10}, MaxRank: 2, Boot: true, Order: -1, BlockCount: true, MaxLWE: 32}, 4)
	m.e = xtfhe.NewManyLUTEvaluator(m.mp, m.evk())
	if rapid.Bool().Draw(t, "copy") {
		m.e = m.e.SafeCopy()
	}
	tol := tf.Sigmas*math.Sqrt(tf.OutVar(m.l))*tf.Q[T]() + 2
	boots := rapid.IntRange(1, 6).Draw(t, "boots")
	for b := 0; b < boots; b++ {
		p := int(m.p.MessageModulus())
		scale := m.p.Scale()
		custom := rapid.IntRange(0, 2).Draw(t, "custom") == 0
		if custom {
			p = rapid.IntRange(2, p).Draw(t, "mm")
			scale = T(tf.Q[T]() / float64(2*p))
		}
		n := rapid.IntRange(1, m.c).Draw(t, "functions")
		if m.P.N(2) == 0 {
			n = m.c
		}
		x := m.P.N(p)
		ct := m.exactly(T(x)*scale + m.delta(m.jitter(float64(p), m.c)))
		fs, tabs := m.fns(p, n)
		c0 := ct.Copy()
		extra := m.P.N(3)
		outs := make([]tfhe.LWECiphertext[T], m.c+extra)
		for i := range outs {
			outs[i] = tfhe.NewLWECiphertext(m.p)
			tf.Dirty(m.P, outs[i].Value)
		}
		mode := rapid.SampledFrom([]string{"ret", "to", "inplace"}).Draw(t, "mode")
		if mode == "inplace" {
			outs[m.P.N(m.c)] = ct
		}
		keep := make([]tfhe.LWECiphertext[T], extra)
		for i := range keep {
			keep[i] = outs[m.c+i].Copy()
		}
		if custom {
			lut := m.e.GenLUTCustom(fs, T(p), scale)
			tab := append([]T{}, lut.Value[0].Coeffs...)
			if mode == "ret" {
				outs = m.e.BootstrapLUT(ct, lut)
			} else {
				m.e.BootstrapLUTTo(outs, ct, lut)
			}
			m.Exact("ManyLUT bootstrap table", lut.Value[0].Coeffs, tab)
		} else if mode == "ret" {
			outs = m.e.BootstrapFunc(ct, fs)
		} else {
			m.e.BootstrapFuncTo(outs, ct, fs)
		}
		if mode == "ret" && len(outs) != m.c {
			t.Fatalf("%d outputs of %d tables", len(outs), m.c)
		}
		for i := 0; i < n; i++ {
			want := T(tabs[i][x]%p) * scale
			m.Near("ManyLUT bootstrap", tf.One(tf.Phase(outs[i], m.dkey())), tf.One(want), tol)
			if !custom {
				if got := m.enc.DecryptLWE(outs[i]); got != tabs[i][x]%p {
					t.Fatalf("ManyLUT: function %d of message %d of %d decrypts to %d instead of %d (%v)", i, x, p, got, tabs[i][x]%p, m.set)
				}
			}
		}
		if mode != "ret" {
			for i := range keep {
				m.Exact("output beyond LUTCount", outs[m.c+i].Value, keep[i].Value)
			}
		}
		if mode != "inplace" {
			m.Exact("ManyLUT bootstrap input", ct.Value, c0.Value)
		}
		if m.P.N(4) == 0 {
			short := make([]tfhe.LWECiphertext[T], m.c-1)
			for i := range short {
				short[i] = tfhe.NewLWECiphertext(m.p)
			}
			if !vh.Panics(func() { m.e.BootstrapFuncTo(short, m.exactly(0), fs) }) {
				t.Fatalf("%d outputs of %d tables do not panic", m.c-1, m.c)
			}
		}
	}
	vh.Label("count %d order %d", m.c, int(m.l.BootstrapOrder))
	vh.Case(m.c > 1, "%v count %d boots %d seed %x", m.set, m.c, boots, m.P.U64())
}

func TestManyLUTBootstrap(t *testing.T) {
	vh.Check(t, "a case bootstraps messages with several generated functions at once at input errors up to the limit; non-trivial with more than one table", 800, 30000, func(t *rapid.T) {
		both(t, manyBootCase[uint32], manyBootCase[uint64])
	})
}
