package mkp

import (
	"testing"

	"github.com/sp301415/tfhe-go/mktfhe"
	"github.com/sp301415/tfhe-go/tfhe"
	"pgregory.net/rapid"

	"verifharness/tf"
	"verifharness/vh"
)

func wireUni[T tfhe.TorusInt](x mktfhe.FFTUniEncryption[T]) []byte {
	return tf.Join(tf.GadHdr(x.GadgetParams), tf.Header(x.Value[0].Value[0].Value[0].Rank()), tf.Body(&x))
}

// kinds lists every serializable multi-key type.
func kinds[T tfhe.TorusInt]() []tf.Kind {
	ks := []tf.Kind{
		tf.K("LWECiphertext", func(t *rapid.T) mktfhe.LWECiphertext[T] {
			n, k, _ := tf.Dims(t)
			return mktfhe.NewLWECiphertextCustom[T](n * k)
		}, func(x mktfhe.LWECiphertext[T]) []byte { return tf.Join(tf.Header(len(x.Value)-1), tf.Body(&x)) }),
		tf.K("GLWECiphertext", func(t *rapid.T) mktfhe.GLWECiphertext[T] {
			_, k, N := tf.Dims(t)
			return mktfhe.NewGLWECiphertextCustom[T](k, N)
		}, func(x mktfhe.GLWECiphertext[T]) []byte {
			return tf.Join(tf.Header(len(x.Value)-1, x.Value[0].Rank()), tf.Body(&x))
		}),
		tf.K("FFTGLWECiphertext", func(t *rapid.T) mktfhe.FFTGLWECiphertext[T] {
			_, k, N := tf.Dims(t)
			return mktfhe.NewFFTGLWECiphertextCustom[T](k, N)
		}, func(x mktfhe.FFTGLWECiphertext[T]) []byte {
			return tf.Join(tf.Header(len(x.Value)-1, x.Value[0].Rank()), tf.Body(&x))
		}),
		tf.K("UniEncryption", func(t *rapid.T) mktfhe.UniEncryption[T] {
			_, _, N := tf.Dims(t)
			return mktfhe.NewUniEncryptionCustom(N, tf.Gad[T](t))
		}, func(x mktfhe.UniEncryption[T]) []byte {
			return tf.Join(tf.GadHdr(x.GadgetParams), tf.Header(x.Value[0].Value[0].Value[0].Rank()), tf.Body(&x))
		}),
		tf.K("FFTUniEncryption", func(t *rapid.T) mktfhe.FFTUniEncryption[T] {
			_, _, N := tf.Dims(t)
			return mktfhe.NewFFTUniEncryptionCustom(N, tf.Gad[T](t))
		}, wireUni[T]),
		tf.K("EvaluationKey", func(t *rapid.T) mktfhe.EvaluationKey[T] {
			n, _, N := tf.Dims(t)
			e := mktfhe.NewEvaluationKeyCustom(1+n%4, N, tf.Gad[T](t), tf.Gad[T](t), tf.Gad[T](t))
			if rapid.IntRange(0, 2).Draw(t, "noKeySwitch") == 0 {
				e.KeySwitchKey = tfhe.NewLWEKeySwitchKeyCustom(0, 0, tf.Gad[T](t))
			}
			return e
		}, func(x mktfhe.EvaluationKey[T]) []byte {
			c := x.CRSPublicKey
			return tf.Join(tf.WireEVK(x.EvaluationKey), tf.GadHdr(c.GadgetParams), tf.FShapeHdr(c.Value[0]), tf.Body(&c), wireUni(x.RelinKey))
		}),
	}
	ps := tf.K("Parameters", func(t *rapid.T) mktfhe.Parameters[T] {
		s := tf.Draw[T](t, tf.Opts{LogN: [2]int{4, 11}, MaxRank: 1, BlockCount: true, Order: -1, MaxLWE: 600, MaxLogP: 7})
		l := mktfhe.ParametersLiteral[T]{SubParams: s.Lit, PartyCount: rapid.IntRange(1, 1000).Draw(t, "parties")}
		l.AccumulatorParams, l.RelinKeyParams = gadgetLit(tf.Gad[T](t)), gadgetLit(tf.Gad[T](t))
		return l.Compile()
	}, func(p mktfhe.Parameters[T]) []byte {
		return tf.Join(tf.WireParams(p.SubParams()), tf.Header(p.PartyCount()), tf.GadHdr(p.AccumulatorParameters()), tf.GadHdr(p.RelinKeyParameters()))
	})
	ps.Fixed = true
	return append(ks, ps)
}

func pick(t *rapid.T, fixed bool, ks []tf.Kind) tf.Kind {
	for !fixed && ks[len(ks)-1].Fixed {
		ks = ks[:len(ks)-1]
	}
	k := ks[rapid.IntRange(0, len(ks)-1).Draw(t, "kind")]
	vh.Label("%s", k.Name)
	return k
}

func serialCase[T tfhe.TorusInt](t *rapid.T) {
	k := pick(t, true, kinds[T]())
	n := tf.RoundTrip(t, k, vh.NewPRNG(rapid.Uint64().Draw(t, "data")))
	vh.Case(n > 100, "%s, q=2^%d, %d bytes", k.Name, tf.Bits[T](), n)
}

func TestSerial(t *testing.T) {
	vh.Check(t, "a case writes one to three multi-key objects of a drawn type and shape with arbitrary contents to one stream and reads them into new and used receivers through short reads; non-trivial = more than 100 bytes", 3000, 80000, func(t *rapid.T) {
		both(t, serialCase[uint32], serialCase[uint64])
	})
}

func faultCase[T tfhe.TorusInt](t *rapid.T) {
	k := pick(t, true, kinds[T]())
	n := tf.Faults(t, k, vh.NewPRNG(rapid.Uint64().Draw(t, "data")))
	vh.Case(n > 8, "%s, q=2^%d, %d cuts", k.Name, tf.Bits[T](), n)
}

func TestSerialFaults(t *testing.T) {
	vh.Check(t, "a case cuts the encoding of a drawn multi-key object at every byte (large objects: at sampled bytes and field boundaries) for reading and writing; non-trivial = more than 8 cuts", 1200, 40000, func(t *rapid.T) {
		both(t, faultCase[uint32], faultCase[uint64])
	})
}

func copyCase[T tfhe.TorusInt](t *rapid.T) {
	k := pick(t, false, kinds[T]())
	seed := rapid.Uint64().Draw(t, "data")
	tf.Independence(t, k, vh.NewPRNG(seed))
	vh.Case(true, "%s, q=2^%d, %x", k.Name, tf.Bits[T](), seed)
}

func TestCopy(t *testing.T) {
	vh.Check(t, "a case copies, overwrites and clears multi-key objects of a drawn type and shape in turn, comparing every scalar of all objects after each step; every case is non-trivial", 2500, 60000, func(t *rapid.T) {
		both(t, copyCase[uint32], copyCase[uint64])
	})
}
