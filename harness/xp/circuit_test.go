package xp

import (
	"math"
	"testing"

	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/tfhe"
	"github.com/sp301415/tfhe-go/xtfhe"
	"pgregory.net/rapid"

	"verifharness/tf"
	"verifharness/vh"
)

func gadgetLit[T tfhe.TorusInt](g tfhe.GadgetParameters[T]) tfhe.GadgetParametersLiteral[T] {
	return tfhe.GadgetParametersLiteral[T]{Base: g.Base(), Level: g.Level()}
}

func circuitCase[T tfhe.TorusInt](t *rapid.T) {
	bits := tf.Bits[T]()
	m := newMany[T](t, tf.Opts{LogN: [2]int{5, 8}, MaxRank: 2, Boot: true, Order: -1, BlockCount: true, MaxLWE: 24, MaxLogP: 3}, 3)
	top := bits / 3
	ss := tf.DrawGadgetFor[T](t, "scheme", top, bits/3+rapid.IntRange(0, bits/3).Draw(t, "schemePrec"))
	tr := tf.DrawGadgetFor[T](t, "trace", top, bits/2+rapid.IntRange(0, bits/3).Draw(t, "tracePrec"))
	out := tf.DrawGadgetFor[T](t, "out", bits/4, 1+rapid.IntRange(0, bits/4).Draw(t, "outPrec"))
	if rapid.Bool().Draw(t, "quiet") { // leave room for the rows
		out = tf.Lit[T](tf.Gadget{LogBase: 1 + m.P.N(bits/10), Level: 1 + m.P.N(6)}).Compile()
	}
	cl := xtfhe.CircuitBootstrapParametersLiteral[T]{ManyLUTParams: m.lit,
		SchemeSwitchParams: gadgetLit(ss), TraceKeySwitchParams: gadgetLit(tr), OutputParams: gadgetLit(out)}
	cp := cl.Compile()
	if cp.OutputParams() != out || cp.SchemeSwitchParams() != ss || cp.TraceKeySwitchParams() != tr {
		t.Fatalf("compiled gadget parameters differ from the literal (%v)", m.set)
	}
	kg := xtfhe.NewCircuitBootstrapKeyGenerator(cp, m.sk)
	if m.P.N(3) == 0 {
		kg = kg.SafeCopy()
	}
	e := xtfhe.NewCircuitBootstrapper(cp, m.evk(), kg.GenCircuitBootstrapKey())
	if m.P.N(3) == 0 {
		e = e.SafeCopy()
	}

	q := tf.Q[T]()
	N, K := float64(m.N), float64(m.K)
	sig := m.sigma() / q
	kn, s1 := 0.0, 0.0
	m1 := 0.0
	for _, s := range m.sk.GLWEKey.Value {
		kn += tf.Norm2(s.Coeffs)
		m1 = math.Max(m1, tf.Norm1(s.Coeffs))
		s1 += tf.Norm1(s.Coeffs)
	}
	sq := 0.0 // products of two key polynomials are not random
	for _, a := range m.sk.GLWEKey.Value {
		x := 0.0
		for _, b := range m.sk.GLWEKey.Value {
			x += tf.Norm2(tf.NegMul(a.Coeffs, b.Coeffs))
		}
		sq = math.Max(sq, x)
	}
	// Errors of the constant row: rotation, division by N and the trace.
	rot := tf.Sigmas*math.Sqrt(tf.BlindRotateVar(m.l, float64(tf.MaxOnes(m.l))))*q + 2
	div := N * math.Min(1+s1/2, 2+tf.Sigmas*math.Sqrt((1+kn)/12))
	tb, tl := float64(tr.Base()), float64(tr.Level())
	// A few wild digits are possible, the rest is uniform.
	ks := tf.Sigmas*math.Sqrt(K*tl*N*tf.DigitVar(tb)*sig*sig)*q*1.8 +
		math.Min(s1*tf.Last(tr)/2, tf.Sigmas*tf.Last(tr)*math.Sqrt(kn/12)+tf.Last(tr)) +
		24*q*math.Exp2(-53)*tb*math.Sqrt(K*tl*N*(K*N+1)) + K*N + 4
	row0 := rot + div + N*ks
	// The other rows are external products with encryptions of the key.
	sb, sl := float64(ss.Base()), float64(ss.Level())
	ext := tf.Sigmas*math.Sqrt((K+1)*sl*N*tf.DigitVar(sb))*sig*q*1.8 +
		math.Min(m1*(1+s1)*tf.Last(ss)/2, tf.Sigmas*tf.Last(ss)*math.Sqrt((m1+sq)/12)+tf.Last(ss)*m1) +
		24*q*math.Exp2(-53)*sb*math.Sqrt((K+1)*sl*N*(K*N+1)) + 2*K*N + 4
	rowS := row0*m1 + ext
	fft := q*math.Exp2(-48)*math.Sqrt(K*N+1) + 2

	fed := e
	boots := rapid.IntRange(1, 3).Draw(t, "boots")
	fine, used := false, false
	for b := 0; b < boots; b++ {
		p := int(m.p.MessageModulus())
		x := m.P.N(p)
		if m.P.N(3) > 0 {
			x = m.P.N(2)
		}
		ct := m.exactly(T(x)*m.p.Scale() + m.delta(m.jitter(float64(p), m.c)))
		c0 := ct.Copy()
		var gg tfhe.FFTGGSWCiphertext[T]
		if m.P.N(2) == 0 {
			gg = fed.CircuitBootstrap(ct)
		} else {
			gg = tfhe.NewFFTGGSWCiphertext(m.p, out)
			for i := range gg.Value {
				for j := range gg.Value[i].Value {
					for l := range gg.Value[i].Value[j].Value {
						c := gg.Value[i].Value[j].Value[l].Coeffs
						for a := range c {
							c[a] = m.P.F() * q
						}
					}
				}
			}
			fed.CircuitBootstrapTo(gg, ct)
		}
		m.Exact("circuit bootstrap input", ct.Value, c0.Value)
		if len(gg.Value) != m.K+1 || len(gg.Value[0].Value) != out.Level() || gg.GadgetParams != out {
			t.Fatalf("the result has %d rows of %d with %v (%v)", len(gg.Value), len(gg.Value[0].Value), gg.GadgetParams, m.set)
		}
		gsw := m.enc.InvFFTGGSWCiphertext(gg)
		for j := 0; j < out.Level(); j++ {
			for i := 0; i <= m.K; i++ {
				want, tol := make([]T, m.N), row0+fft
				c := T(x) << uint(out.LogBaseQ(j))
				if i == 0 {
					want[0] = c
				} else {
					want = tf.Times(m.sk.GLWEKey.Value[i-1].Coeffs, c)
					tol = rowS + fft
				}
				m.Near("circuit bootstrapped row", m.gphase(gsw.Value[i].Value[j]), want, tol)
				fine = fine || i > 0 && tol < math.Exp2(float64(out.LogBaseQ(j)))/2
			}
		}
		// It selects and multiplies.
		prod := tf.Sigmas*0 + rowS*math.Sqrt((K+1)*float64(out.Level())*N*tf.DigitVar(float64(out.Base())))*2 +
			float64(x)*(1+s1)*tf.Last(out)/2 + fft
		if prod < q/8 {
			used = true
			a := m.around(m.Vec(m.N), 0)
			ph := m.gphase(a)
			got := m.glwe()
			if x < 2 && m.P.N(2) == 0 {
				a1 := m.around(m.Vec(m.N), 0)
				want := ph
				if x == 1 {
					want = m.gphase(a1)
				}
				e.CMuxTo(got, gg, a, a1)
				m.Near("CMux with a circuit bootstrapped bit", m.gphase(got), want, 2*prod)
			} else {
				e.ExternalProdGLWETo(got, gg, a)
				m.Near("product with a circuit bootstrapped message", m.gphase(got), tf.Times(ph, T(x)), prod)
			}
		}
		if m.P.N(3) == 0 {
			fed = fed.SafeCopy()
		}
	}
	vh.Label("count %d groups %d order %d", m.c, (out.Level()+m.c-1)/m.c, int(m.l.BootstrapOrder))
	if used {
		vh.Label("used in a product")
	}
	vh.Case(fine, "%v count %d scheme %d^%d trace %d^%d out %d^%d boots %d row error 2^%.1f seed %x", m.set, m.c, ss.Base(), ss.Level(), tr.Base(), tr.Level(), out.Base(), out.Level(), boots, math.Log2(rowS), m.P.U64())
}

func TestCircuit(t *testing.T) {
	vh.Check(t, "a case circuit bootstraps messages at input errors up to the limit, reads every row of the GGSW encryption and uses it; non-trivial when the noise bound resolves some key row", 600, 25000, func(t *rapid.T) {
		both(t, circuitCase[uint32], circuitCase[uint64])
	})
}

var _ = poly.NewPoly[uint32]
