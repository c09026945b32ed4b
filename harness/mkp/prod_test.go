package mkp

import (
	"math"
	"testing"

	"github.com/sp301415/tfhe-go/tfhe"
	"pgregory.net/rapid"

	"verifharness/tf"
	"verifharness/vh"
)

// masked draws an arbitrary ciphertext whose present parties' masks are uniform.
func (v *env[T]) masked() glwe[T] {
	c := v.glwe()
	if v.P.N(4) == 0 {
		c = v.rawGLWE()
		for _, i := range v.in {
			tf.Dirty(v.P, c.Value[i+1].Coeffs)
		}
		tf.Dirty(v.P, c.Value[0].Coeffs)
	}
	return c
}

func tolOf(va, q float64) float64 { return tf.Sigmas*math.Sqrt(va)*q + 4 }

func prodCase[T tfhe.TorusInt](t *rapid.T) {
	v := newEnv[T](t, opts{Opts: tf.Opts{LogN: [2]int{4, 7}, Big: 11, BigLWE: 1000, Order: -1, BlockCount: true}})
	v.light()
	if v.P.N(3) == 0 {
		v.eval = v.eval.SafeCopy()
	}
	q := tf.Q[T]()
	k := float64(len(v.in))
	n := rapid.IntRange(1, 6).Draw(t, "ops")
	for j := 0; j < n; j++ {
		i := v.party()
		x := v.Small(1 << uint(v.P.N(4)))
		m2 := tf.Norm2(x.Coeffs)
		ct := v.masked()
		ct0 := ct.Copy()
		out := v.glwe()
		before := out.Copy()
		p0 := v.gphase(out)
		xp := tf.NegMul(v.gphase(ct), x.Coeffs)
		op := rapid.SampledFrom([]string{"ret", "to", "inplace", "add", "sub"}).Draw(t, "mode")
		var tol float64
		what := "HybridProd/" + op
		if v.P.N(2) == 0 {
			g := v.p.RelinKeyParameters()
			if v.P.N(2) == 0 {
				lb := 1 + v.P.N(g.LogBase()+4)
				lv := 1 + v.P.N(g.Level())
				for lb*lv > tf.Bits[T]() || lb > 24 {
					lb--
				}
				if lb < 1 {
					lb = 1
				}
				g = tf.Lit[T](tf.Gadget{LogBase: lb, Level: lv}).Compile()
			}
			// The common reference string serves every gadget, but the public keys
			// were made for rows of the string, which do not depend on it.
			u := v.encs[i].FFTUniEncryptPoly(x, g)
			tol = tolOf(2*hybridVar(v.l, g, k, m2), q)
			switch op {
			case "ret":
				out = v.eval.HybridProdGLWE(i, u, ct)
			case "to":
				v.eval.HybridProdGLWETo(i, u, ct, out)
			case "inplace":
				v.eval.HybridProdGLWETo(i, u, ct, ct)
				out = ct
			case "add":
				v.eval.HybridProdAddGLWETo(i, u, ct, out)
			case "sub":
				v.eval.HybridProdSubGLWETo(i, u, ct, out)
			}
		} else {
			what = "ExternalProd/" + op
			g := tf.DrawGadgetFor[T](t, "gadget", 20, 1+v.P.N(16))
			lev := v.encs[i].SubEncryptor.EncryptFFTGLevPoly(x, g)
			s := v.l.GLWEStdDev
			tol = tolOf(2*externalVar(v.l, g, v.p.RelinKeyParameters(), k, s*s+1/q/q, m2), q)
			switch op {
			case "ret":
				out = v.eval.ExternalProdGLWE(i, lev, ct)
			case "to":
				v.eval.ExternalProdGLWETo(i, lev, ct, out)
			case "inplace":
				v.eval.ExternalProdGLWETo(i, lev, ct, ct)
				out = ct
			case "add":
				v.eval.ExternalProdAddGLWETo(i, lev, ct, out)
			case "sub":
				v.eval.ExternalProdSubGLWETo(i, lev, ct, out)
			}
		}
		want := xp
		switch op {
		case "add":
			want = tf.Plus(p0, xp)
		case "sub":
			want = tf.Minus(p0, xp)
		}
		if tol < q/4 {
			vh.Label("%s", what)
		}
		v.Near(what, v.gphase(out), want, tol)
		for a := 0; a < v.k; a++ {
			if v.encs[a] != nil {
				continue
			}
			ref := make([]T, v.N)
			if op == "add" || op == "sub" {
				ref = before.Value[a+1].Coeffs
			}
			v.Exact(what+": mask of an absent party", out.Value[a+1].Coeffs, ref)
		}
		if op != "inplace" {
			for a := range ct.Value {
				v.Exact(what+" input", ct.Value[a].Coeffs, ct0.Value[a].Coeffs)
			}
		}
	}
	vh.Case(true, "%v ops %d seed %x", v, n, v.P.U64())
}

func TestProduct(t *testing.T) {
	vh.Check(t, "a case applies hybrid and external products of several parties in every form and compares phases under the present parties' keys within the noise bound; every case is non-trivial", 1200, 40000, func(t *rapid.T) {
		both(t, prodCase[uint32], prodCase[uint64])
	})
}
