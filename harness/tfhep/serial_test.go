package tfhep

import (
	"testing"

	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/tfhe"
	"pgregory.net/rapid"

	"verifharness/tf"
	"verifharness/vh"
)

// kinds lists every serializable type of the package.
func kinds[T tfhe.TorusInt]() []tf.Kind {
	ks := []tf.Kind{
		tf.K("LWESecretKey", func(t *rapid.T) tfhe.LWESecretKey[T] { n, _, _ := tf.Dims(t); return tfhe.NewLWESecretKeyCustom[T](n) },
			func(x tfhe.LWESecretKey[T]) []byte { return tf.Join(tf.Header(len(x.Value)), tf.Body(&x)) }),
		tf.K("LWEPublicKey", func(t *rapid.T) tfhe.LWEPublicKey[T] {
			_, k, N := tf.Dims(t)
			return tfhe.NewLWEPublicKeyCustom[T](k, N)
		},
			func(x tfhe.LWEPublicKey[T]) []byte {
				return tf.Join(tf.Header(len(x.Value), x.Value[0].Value[0].Rank()), tf.Body(&x))
			}),
		tf.K("LWEPlaintext", func(t *rapid.T) tfhe.LWEPlaintext[T] { return tfhe.NewLWEPlaintext[T]() },
			func(x tfhe.LWEPlaintext[T]) []byte { return tf.Body(&x) }),
		tf.K("LWECiphertext", func(t *rapid.T) tfhe.LWECiphertext[T] {
			n, _, _ := tf.Dims(t)
			return tfhe.NewLWECiphertextCustom[T](n)
		},
			func(x tfhe.LWECiphertext[T]) []byte { return tf.Join(tf.Header(len(x.Value)-1), tf.Body(&x)) }),
		tf.K("LevCiphertext", func(t *rapid.T) tfhe.LevCiphertext[T] {
			n, _, _ := tf.Dims(t)
			return tfhe.NewLevCiphertextCustom(n, tf.Gad[T](t))
		}, func(x tfhe.LevCiphertext[T]) []byte {
			return tf.Join(tf.GadHdr(x.GadgetParams), tf.Header(len(x.Value[0].Value)-1), tf.Body(&x))
		}),
		tf.K("GSWCiphertext", func(t *rapid.T) tfhe.GSWCiphertext[T] {
			n, _, _ := tf.Dims(t)
			return tfhe.NewGSWCiphertextCustom(n, tf.Gad[T](t))
		}, func(x tfhe.GSWCiphertext[T]) []byte {
			return tf.Join(tf.GadHdr(x.GadgetParams), tf.Header(len(x.Value)-1), tf.Body(&x))
		}),
		tf.K("GLWESecretKey", func(t *rapid.T) tfhe.GLWESecretKey[T] {
			_, k, N := tf.Dims(t)
			return tfhe.NewGLWESecretKeyCustom[T](k, N)
		},
			func(x tfhe.GLWESecretKey[T]) []byte {
				return tf.Join(tf.Header(len(x.Value), x.Value[0].Rank()), tf.Body(&x))
			}),
		tf.K("GLWEPublicKey", func(t *rapid.T) tfhe.GLWEPublicKey[T] {
			_, k, N := tf.Dims(t)
			return tfhe.NewGLWEPublicKeyCustom[T](k, N)
		},
			func(x tfhe.GLWEPublicKey[T]) []byte {
				return tf.Join(tf.Header(len(x.Value), x.Value[0].Value[0].Rank()), tf.Body(&x))
			}),
		tf.K("GLWEPlaintext", func(t *rapid.T) tfhe.GLWEPlaintext[T] {
			_, _, N := tf.Dims(t)
			return tfhe.NewGLWEPlaintextCustom[T](N)
		},
			func(x tfhe.GLWEPlaintext[T]) []byte { return tf.Join(tf.Header(x.Value.Rank()), tf.Body(&x)) }),
		tf.K("GLWECiphertext", func(t *rapid.T) tfhe.GLWECiphertext[T] {
			_, k, N := tf.Dims(t)
			return tfhe.NewGLWECiphertextCustom[T](k, N)
		},
			func(x tfhe.GLWECiphertext[T]) []byte { return tf.Join(tf.ShapeHdr(x), tf.Body(&x)) }),
		tf.K("GLevCiphertext", func(t *rapid.T) tfhe.GLevCiphertext[T] {
			_, k, N := tf.Dims(t)
			return tfhe.NewGLevCiphertextCustom(k, N, tf.Gad[T](t))
		}, func(x tfhe.GLevCiphertext[T]) []byte {
			return tf.Join(tf.GadHdr(x.GadgetParams), tf.ShapeHdr(x.Value[0]), tf.Body(&x))
		}),
		tf.K("GGSWCiphertext", func(t *rapid.T) tfhe.GGSWCiphertext[T] {
			_, k, N := tf.Dims(t)
			return tfhe.NewGGSWCiphertextCustom(k, N, tf.Gad[T](t))
		}, func(x tfhe.GGSWCiphertext[T]) []byte {
			return tf.Join(tf.GadHdr(x.GadgetParams), tf.ShapeHdr(x.Value[0].Value[0]), tf.Body(&x))
		}),
		tf.K("FFTGLWESecretKey", func(t *rapid.T) tfhe.FFTGLWESecretKey[T] {
			_, k, N := tf.Dims(t)
			return tfhe.NewFFTGLWESecretKeyCustom[T](k, N)
		}, func(x tfhe.FFTGLWESecretKey[T]) []byte {
			return tf.Join(tf.Header(len(x.Value), x.Value[0].Rank()), tf.Body(&x))
		}),
		tf.K("FFTGLWECiphertext", func(t *rapid.T) tfhe.FFTGLWECiphertext[T] {
			_, k, N := tf.Dims(t)
			return tfhe.NewFFTGLWECiphertextCustom[T](k, N)
		}, func(x tfhe.FFTGLWECiphertext[T]) []byte { return tf.Join(tf.FShapeHdr(x), tf.Body(&x)) }),
		tf.K("FFTGLevCiphertext", func(t *rapid.T) tfhe.FFTGLevCiphertext[T] {
			_, k, N := tf.Dims(t)
			return tfhe.NewFFTGLevCiphertextCustom(k, N, tf.Gad[T](t))
		}, func(x tfhe.FFTGLevCiphertext[T]) []byte {
			return tf.Join(tf.GadHdr(x.GadgetParams), tf.FShapeHdr(x.Value[0]), tf.Body(&x))
		}),
		tf.K("FFTGGSWCiphertext", func(t *rapid.T) tfhe.FFTGGSWCiphertext[T] {
			_, k, N := tf.Dims(t)
			return tfhe.NewFFTGGSWCiphertextCustom(k, N, tf.Gad[T](t))
		}, func(x tfhe.FFTGGSWCiphertext[T]) []byte {
			return tf.Join(tf.GadHdr(x.GadgetParams), tf.FShapeHdr(x.Value[0].Value[0]), tf.Body(&x))
		}),
		tf.K("LWEKeySwitchKey", func(t *rapid.T) tfhe.LWEKeySwitchKey[T] {
			n, k, _ := tf.Dims(t)
			return tfhe.NewLWEKeySwitchKeyCustom(n, k*2, tf.Gad[T](t))
		}, tf.WireKSK[T]),
		tf.K("GLWEKeySwitchKey", func(t *rapid.T) tfhe.GLWEKeySwitchKey[T] {
			n, k, N := tf.Dims(t)
			return tfhe.NewGLWEKeySwitchKeyCustom(1+n%3, k, N, tf.Gad[T](t))
		}, func(x tfhe.GLWEKeySwitchKey[T]) []byte {
			return tf.Join(tf.GadHdr(x.GadgetParams), tf.Header(len(x.Value)), tf.FShapeHdr(x.Value[0].Value[0]), tf.Body(&x))
		}),
		tf.K("BlindRotateKey", func(t *rapid.T) tfhe.BlindRotateKey[T] {
			n, k, N := tf.Dims(t)
			return tfhe.NewBlindRotateKeyCustom(1+n%4, k, N, tf.Gad[T](t))
		}, tf.WireBRK[T]),
		tf.K("EvaluationKey", func(t *rapid.T) tfhe.EvaluationKey[T] {
			n, k, N := tf.Dims(t)
			e := tfhe.NewEvaluationKeyCustom(1+n%4, k, N, tf.Gad[T](t), tf.Gad[T](t))
			if rapid.IntRange(0, 2).Draw(t, "noKeySwitch") == 0 {
				e.KeySwitchKey = tfhe.NewLWEKeySwitchKeyCustom(0, 0, tf.Gad[T](t))
			}
			return e
		}, tf.WireEVK[T]),
		tf.K("SecretKey", func(t *rapid.T) tfhe.SecretKey[T] {
			n, k, N := tf.Dims(t)
			return tfhe.NewSecretKeyCustom[T](n, k, N)
		}, func(x tfhe.SecretKey[T]) []byte {
			return tf.Join(tf.Header(len(x.LWEKey.Value), len(x.GLWEKey.Value), x.GLWEKey.Value[0].Rank()), tf.Body(&x.LWELargeKey), tf.Body(&x.FFTGLWEKey))
		}),
		tf.K("PublicKey", func(t *rapid.T) tfhe.PublicKey[T] {
			_, k, N := tf.Dims(t)
			return tfhe.NewPublicKeyCustom[T](k, N)
		}, func(x tfhe.PublicKey[T]) []byte {
			h := tf.Header(len(x.GLWEKey.Value), x.GLWEKey.Value[0].Value[0].Rank())
			return tf.Join(h, tf.Body(&x.LWEKey), h, tf.Body(&x.GLWEKey))
		}),
	}
	g := tf.K("GadgetParameters", func(t *rapid.T) tfhe.GadgetParameters[T] { return tf.Gad[T](t) }, tf.GadHdr[T])
	g.Fixed = true
	ps := tf.K("Parameters", func(t *rapid.T) tfhe.Parameters[T] {
		return tf.Draw[T](t, tf.Opts{LogN: [2]int{4, 11}, Extend: []int{1, 2, 4, 8}, BlockCount: true, Order: -1, MaxLWE: 600, MaxLogP: 7}).Params
	}, tf.WireParams[T])
	ps.Fixed = true
	return append(ks, g, ps)
}

// copyKinds lists every type with Copy, CopyFrom and Clear.
func copyKinds[T tfhe.TorusInt]() []tf.Kind {
	var out []tf.Kind
	for _, k := range kinds[T]() {
		if !k.Fixed {
			out = append(out, k)
		}
	}
	return append(out,
		tf.K("LookUpTable", func(t *rapid.T) tfhe.LookUpTable[T] { _, k, N := tf.Dims(t); return tfhe.NewLUTCustom[T](k, N) }, nil),
		tf.K("Poly", func(t *rapid.T) poly.Poly[T] { _, _, N := tf.Dims(t); return poly.NewPoly[T](N) }, nil),
		tf.K("FFTPoly", func(t *rapid.T) poly.FFTPoly { _, _, N := tf.Dims(t); return poly.NewFFTPoly(N) }, nil))
}

func pick(t *rapid.T, ks []tf.Kind) tf.Kind {
	k := ks[rapid.IntRange(0, len(ks)-1).Draw(t, "kind")]
	vh.Label("%s", k.Name)
	return k
}

func TestSerial(t *testing.T) {
	vh.Check(t, "a case writes one to three objects of a drawn type and shape with arbitrary contents to one stream and reads them into new and used receivers through short reads; non-trivial = more than 100 bytes", 8000, 200000, func(t *rapid.T) {
		both(t, serialCase[uint32], serialCase[uint64])
	})
}

func serialCase[T tfhe.TorusInt](t *rapid.T) {
	k := pick(t, kinds[T]())
	p := vh.NewPRNG(rapid.Uint64().Draw(t, "data"))
	n := tf.RoundTrip(t, k, p)
	vh.Case(n > 100, "%s, q=2^%d, %d bytes", k.Name, tf.Bits[T](), n)
}

func TestSerialFaults(t *testing.T) {
	vh.Check(t, "a case cuts the encoding of a drawn object at every byte (large objects: at sampled bytes and field boundaries) for reading and writing; non-trivial = more than 8 cuts", 3000, 100000, func(t *rapid.T) {
		both(t, faultCase[uint32], faultCase[uint64])
	})
}

func faultCase[T tfhe.TorusInt](t *rapid.T) {
	k := pick(t, kinds[T]())
	p := vh.NewPRNG(rapid.Uint64().Draw(t, "data"))
	n := tf.Faults(t, k, p)
	vh.Case(n > 8, "%s, q=2^%d, %d cuts", k.Name, tf.Bits[T](), n)
}

func TestCopy(t *testing.T) {
	vh.Check(t, "a case copies, overwrites and clears objects of a drawn type and shape in turn, comparing every scalar of all objects after each step; every case is non-trivial", 6000, 150000, func(t *rapid.T) {
		both(t, copyCase[uint32], copyCase[uint64])
	})
}

func copyCase[T tfhe.TorusInt](t *rapid.T) {
	k := pick(t, copyKinds[T]())
	seed := rapid.Uint64().Draw(t, "data")
	tf.Independence(t, k, vh.NewPRNG(seed))
	vh.Case(true, "%s, q=2^%d, %x", k.Name, tf.Bits[T](), seed)
}
