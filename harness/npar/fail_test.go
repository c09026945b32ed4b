package npar

import (
	"math"
	"testing"

	"github.com/sp301415/tfhe-go/tfhe"
	"pgregory.net/rapid"

	"verifharness/tf"
	"verifharness/vh"
)

// failCase counts how often a bootstrapped ciphertext bootstraps to the entry of
// another message, at parameters where that is likely.
func failCase[T tfhe.TorusInt](t *rapid.T) {
	pr := vh.NewPRNG(rapid.Uint64().Draw(t, "data"))
	bits := tf.Bits[T]()
	q := tf.Q[T]()
	var l tfhe.ParametersLiteral[T]
	var p tfhe.Parameters[T]
	want := 0.0
	for try := 0; ; try++ {
		if try == 200 {
			t.Skip("no parameters")
		}
		l = tfhe.ParametersLiteral[T]{}
		l.PolyRank = 1 << uint(rapid.IntRange(6, 8).Draw(t, "logN"))
		l.GLWERank = rapid.IntRange(1, 2).Draw(t, "rank")
		l.LUTSize = l.PolyRank * rapid.SampledFrom([]int{1, 1, 2, 4}).Draw(t, "extend")
		l.BlockSize = rapid.SampledFrom([]int{1, 1, 2, 3}).Draw(t, "block")
		max := l.GLWERank * l.PolyRank / l.BlockSize
		if m := 128 / l.BlockSize; m < max {
			max = m
		}
		lo := 40
		if max < lo {
			lo = max
		}
		l.LWEDimension = l.BlockSize * rapid.IntRange(lo, max).Draw(t, "blocks")
		l.MessageModulus = T(rapid.IntRange(4, 40).Draw(t, "p"))
		sg := rapid.Float64Range(2, float64(bits)/3).Draw(t, "logSigmaGLWE")
		sl := rapid.Float64Range(2, float64(bits)*0.7).Draw(t, "logSigmaLWE")
		l.GLWEStdDev = math.Exp2(sg - float64(bits))
		l.LWEStdDev = math.Exp2(sl - float64(bits))
		bb := rapid.IntRange(4, bits/3).Draw(t, "br.logBase")
		kb := rapid.IntRange(4, bits/3).Draw(t, "ks.logBase")
		l.BlindRotateParams = tfhe.GadgetParametersLiteral[T]{Base: 1 << uint(bb), Level: rapid.IntRange(1, (bits-2)/bb).Draw(t, "br.level")}
		l.KeySwitchParams = tfhe.GadgetParametersLiteral[T]{Base: 1 << uint(kb), Level: rapid.IntRange(1, (bits-2)/kb).Draw(t, "ks.level")}
		l.BootstrapOrder = tfhe.BootstrapOrder(rapid.IntRange(0, 1).Draw(t, "order"))
		p = l.Compile()
		want = p.EstimateFailureProbability()
		// Outputs must stay recognizable, and the estimate exact enough.
		out := math.Hypot(p.EstimateBlindRotateStdDev(), p.EstimateDefaultKeySwitchStdDev())
		v1, v2 := terms(l)
		if want > 0.04 && want < 0.5 && out < q/64 && v1+v2 > 0.8*math.Pow(p.EstimateBlindRotateStdDev(), 2) {
			break
		}
	}
	m := int(l.MessageModulus)
	step := q / float64(2*m)
	runs, fails := 0.0, 0.0
	for i := 0; i < 4; i++ {
		enc := tfhe.NewEncryptor(p)
		dsk := enc.SecretKey.LWEKey
		if l.BootstrapOrder == tfhe.OrderKeySwitchBlindRotate {
			dsk = enc.SecretKey.LWELargeKey
		}
		ev := tfhe.NewEvaluator(p, enc.GenEvalKeyParallel())
		for j := 0; j < 120; j++ {
			x := pr.N(m)
			// A ciphertext of x as bootstrapping leaves it.
			ct := ev.BootstrapFunc(enc.EncryptLWE(m/2), func(int) int { return x })
			if math.Abs(float64(tf.Signed(tf.Phase(ct, dsk)-T(math.Round(float64(x)*step))))) > q/6 {
				continue // the middle of the table was missed by far
			}
			out := ev.BootstrapFunc(ct, func(y int) int {
				if y == x {
					return 0
				}
				return m / 2
			})
			runs++
			if math.Abs(float64(tf.Signed(tf.Phase(out, dsk)))) > float64(m/2)*step/2 {
				fails++
			}
		}
	}
	exp := want * runs
	vh.Label("rate/estimate %.0f%%", 25*math.Round(4*fails/exp)*1)
	if fails < 0.5*exp-6*math.Sqrt(exp) || fails > 1.6*exp+6*math.Sqrt(exp) {
		t.Fatalf("%v of %v bootstrappings failed where a rate of %g is estimated (%+v)", fails, runs, want, l)
	}
	vh.Case(runs > 400, "%v of %v failed, estimated %.3g: %+v", fails, runs, want, l)
}

func TestFailure(t *testing.T) {
	vh.Check(t, "over 400 bootstrappings counted", 24, 300, func(t *rapid.T) { both(t, failCase[uint32], failCase[uint64]) })
}
