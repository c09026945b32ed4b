package npar

import (
	"fmt"
	"math"
	"os"
	"testing"

	"github.com/sp301415/tfhe-go/tfhe"
	"pgregory.net/rapid"

	"verifharness/tf"
	"verifharness/vh"
)

// lutAt reads entry e of a negacyclic table that is spread over polynomials.
func lutAt[T tfhe.TorusInt](lut tfhe.LookUpTable[T], e int) T {
	ext := len(lut.Value)
	L := ext * len(lut.Value[0].Coeffs)
	e = ((e % (2 * L)) + 2*L) % (2 * L)
	if e < L {
		return lut.Value[e%ext].Coeffs[e/ext]
	}
	e -= L
	return -lut.Value[e%ext].Coeffs[e/ext]
}

// ms is the sum of the squares of errors.
type ms struct{ n, s2 float64 }

func (m *ms) add(x float64) { m.n++; m.s2 += x * x }

// drawNoisy draws a parameter set whose noise is large enough to see and which
// has enough key blocks for the estimates to be averages.
func drawNoisy[T tfhe.TorusInt](t *rapid.T) tfhe.ParametersLiteral[T] {
	bits := tf.Bits[T]()
	var l tfhe.ParametersLiteral[T]
	l.PolyRank = 1 << uint(rapid.IntRange(6, 9).Draw(t, "logN"))
	l.GLWERank = rapid.IntRange(1, 3).Draw(t, "rank")
	l.LUTSize = l.PolyRank * rapid.SampledFrom([]int{1, 1, 1, 2, 4}).Draw(t, "extend")
	l.BlockSize = rapid.SampledFrom([]int{1, 2, 3, 4, 7}).Draw(t, "block")
	max := l.GLWERank * l.PolyRank / l.BlockSize
	if m := 256 / l.BlockSize; m < max {
		max = m
	}
	lo := 32
	if max < lo {
		lo = max
	}
	l.LWEDimension = l.BlockSize * rapid.IntRange(lo, max).Draw(t, "blocks")
	l.MessageModulus = T(1) << uint(rapid.IntRange(1, 5).Draw(t, "logP"))
	if rapid.IntRange(0, 3).Draw(t, "oddP") == 0 {
		l.MessageModulus = T(rapid.IntRange(2, 40).Draw(t, "p"))
	}
	l.GLWEStdDev = math.Exp2(rapid.Float64Range(2, float64(bits)/3).Draw(t, "logSigmaGLWE") - float64(bits))
	l.LWEStdDev = math.Exp2(rapid.Float64Range(2, float64(bits)/2).Draw(t, "logSigmaLWE") - float64(bits))
	bb := rapid.IntRange(4, bits/3).Draw(t, "br.logBase")
	kb := rapid.IntRange(4, bits/3).Draw(t, "ks.logBase")
	l.BlindRotateParams = tfhe.GadgetParametersLiteral[T]{Base: 1 << uint(bb), Level: rapid.IntRange(1, (bits-2)/bb).Draw(t, "br.level")}
	l.KeySwitchParams = tfhe.GadgetParametersLiteral[T]{Base: 1 << uint(kb), Level: rapid.IntRange(1, (bits-2)/kb).Draw(t, "ks.level")}
	l.BootstrapOrder = tfhe.BootstrapOrder(rapid.IntRange(0, 1).Draw(t, "order"))
	return l
}

// terms splits the estimated variance of a blind rotation: dropped digits, key
// noise, and the rest, the rounding of the transforms.
func terms[T tfhe.TorusInt](l tfhe.ParametersLiteral[T]) (v1, v2 float64) {
	q := tf.Q[T]()
	n, k, N := float64(l.LWEDimension), float64(l.GLWERank), float64(l.PolyRank)
	h := n / float64(l.BlockSize+1)
	B, lv := float64(l.BlindRotateParams.Base), float64(l.BlindRotateParams.Level)
	v1 = h * (h + (k*N-n)/2 + 1) * q * q / 6 / math.Pow(B, 2*lv)
	v2 = n * lv * (k + 1) * N * l.GLWEStdDev * l.GLWEStdDev * q * q * B * B / 6
	return
}

func noiseCase[T tfhe.TorusInt](t *rapid.T) {
	pr := vh.NewPRNG(rapid.Uint64().Draw(t, "data"))
	l := drawNoisy[T](t)
	p := l.Compile()
	n, k, N, L := p.LWEDimension(), p.GLWERank(), p.PolyRank(), p.LUTSize()
	q := tf.Q[T]()
	// within fails when a measured variance strays from the estimated one.
	within := func(what string, m ms, est, lo, hi float64) {
		r := m.s2 / m.n / (est * est)
		if os.Getenv("VH_RATIO") != "" {
			v1, v2 := terms(l)
			fmt.Printf("%s %.2f [%.2f %.2f] dropped %.2f noise %.2f %+v\n", what, r, lo, hi, v1/est/est, v2/est/est, l)
		}
		if !(r >= lo && r <= hi) {
			t.Fatalf("%s: %v errors have standard deviation %g where %g is estimated (%+v)", what, m.n, math.Sqrt(m.s2/m.n), est, l)
		}
		vh.Label("%s measured", what)
	}

	// The modulus switch, over many keys.
	ev0 := tfhe.NewEvaluator(p, tfhe.EvaluationKey[T]{})
	var sw, br, ks ms
	enc := tfhe.NewEncryptor(p)
	for i := 0; i < 200; i++ {
		sk := enc.GenSecretKey()
		for j := 0; j < 12; j++ {
			round := func(x T) float64 { // rounding error of one entry, in units of the torus
				r := float64(ev0.ModSwitch(x))*q/float64(2*L) - float64(x)
				return r - q*math.Round(r/q)
			}
			err := round(T(pr.U64()))
			for _, s := range sk.LWEKey.Value {
				if s == 1 {
					err += round(T(pr.U64()))
				}
			}
			sw.add(err)
		}
	}
	estSw, estBr, estKs := p.EstimateModSwitchStdDev(), p.EstimateBlindRotateStdDev(), p.EstimateDefaultKeySwitchStdDev()
	within("modulus switch", sw, estSw, 0.8, 1.22)

	rots := 12
	if N < 128 {
		rots = 24
	}
	for i := 0; i < 3; i++ {
		enc := tfhe.NewEncryptor(p)
		sk := enc.SecretKey
		ev := tfhe.NewEvaluator(p, enc.GenEvalKeyParallel())
		for r := 0; r < rots; r++ {
			lut := tfhe.NewLUT(p)
			for i := range lut.Value {
				tf.Dirty(pr, lut.Value[i].Coeffs)
			}
			ct := tfhe.NewLWECiphertextCustom[T](n)
			tf.Dirty(pr, ct.Value)
			e := ev.ModSwitch(ct.Value[0])
			for j, s := range sk.LWEKey.Value {
				if s == 1 {
					e += ev.ModSwitch(ct.Value[j+1])
				}
			}
			out := tfhe.NewGLWECiphertext(p)
			ev.BlindRotateTo(out, ct, lut)
			for j, x := range tf.GPhase(out, sk.GLWEKey) {
				br.add(float64(tf.Signed(x - lutAt(lut, j*len(lut.Value)+e))))
			}
		}
		if k*N >= n+64 {
			for r := 0; r < 200; r++ {
				ct := tfhe.NewLWECiphertextCustom[T](k * N)
				tf.Dirty(pr, ct.Value)
				out := ev.DefaultKeySwitch(ct)
				ks.add(float64(tf.Signed(tf.Phase(out, sk.LWEKey) - tf.Phase(ct, sk.LWELargeKey))))
			}
		}
	}
	if estBr < q/16 {
		if v1, v2 := terms(l); v1+v2 > estBr*estBr/2 {
			within("blind rotation", br, estBr, 0.5, 1.7)
		} else {
			within("transforms", br, estBr, 1.0/64, 3)
		}
	}
	if ks.n > 0 && estKs < q/16 {
		within("key switch", ks, estKs, 0.55, 1.7)
	}
	est := math.Sqrt(estSw*estSw + estBr*estBr + estKs*estKs)
	if r := p.EstimateMaxErrorStdDev() / est; math.Abs(r-1) > 1e-9 {
		t.Fatalf("EstimateMaxErrorStdDev is %g where its parts make %g (%+v)", p.EstimateMaxErrorStdDev(), est, l)
	}
	fail := math.Erfc(q / (4 * float64(p.MessageModulus())) / (math.Sqrt2 * est))
	if g := p.EstimateFailureProbability(); math.Abs(g-fail) > 1e-6*fail+1e-300 {
		t.Fatalf("EstimateFailureProbability is %g instead of %g (%+v)", g, fail, l)
	}
	vh.Case(estBr < q/16, "%+v", l)
}

func TestNoise(t *testing.T) {
	vh.Check(t, "the noise stays below a sixteenth of the torus, so that errors can be told", 40, 400, func(t *rapid.T) { both(t, noiseCase[uint32], noiseCase[uint64]) })
}
