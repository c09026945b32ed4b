package tf

import (
	"github.com/sp301415/tfhe-go/tfhe"
	"pgregory.net/rapid"
)

// Dims draws small shapes.
func Dims(t *rapid.T) (n, k, N int) {
	return rapid.IntRange(1, 9).Draw(t, "n"), rapid.IntRange(1, 3).Draw(t, "k"), 16 << uint(rapid.IntRange(0, 2).Draw(t, "logN"))
}

func Gad[T tfhe.TorusInt](t *rapid.T) tfhe.GadgetParameters[T] { return DrawGadget[T](t, "gadget") }

func Join(bs ...[]byte) []byte {
	var out []byte
	for _, b := range bs {
		out = append(out, b...)
	}
	return out
}

func GadHdr[T tfhe.TorusInt](g tfhe.GadgetParameters[T]) []byte {
	return Header(int(uint64(g.Base())), g.Level())
}

// ShapeHdr is the rank and degree of a polynomial ciphertext.
func ShapeHdr[T tfhe.TorusInt](c tfhe.GLWECiphertext[T]) []byte {
	return Header(len(c.Value)-1, c.Value[0].Rank())
}

func FShapeHdr[T tfhe.TorusInt](c tfhe.FFTGLWECiphertext[T]) []byte {
	return Header(len(c.Value)-1, c.Value[0].Rank())
}

func WireBRK[T tfhe.TorusInt](k tfhe.BlindRotateKey[T]) []byte {
	return Join(GadHdr(k.GadgetParams), Header(len(k.Value)), FShapeHdr(k.Value[0].Value[0].Value[0]), Body(&k))
}

func WireKSK[T tfhe.TorusInt](k tfhe.LWEKeySwitchKey[T]) []byte {
	return Join(GadHdr(k.GadgetParams), Header(len(k.Value), len(k.Value[0].Value[0].Value)-1), Body(&k))
}

func WireEVK[T tfhe.TorusInt](k tfhe.EvaluationKey[T]) []byte {
	if len(k.KeySwitchKey.Value) == 0 {
		return Join([]byte{0}, WireBRK(k.BlindRotateKey), GadHdr(k.KeySwitchKey.GadgetParams))
	}
	return Join([]byte{1}, WireBRK(k.BlindRotateKey), WireKSK(k.KeySwitchKey))
}

func WireParams[T tfhe.TorusInt](p tfhe.Parameters[T]) []byte {
	l := p.Literal()
	var f []byte
	type two struct{ A, B float64 }
	f = Body(&two{l.LWEStdDev, l.GLWEStdDev})
	return Join(Header(l.LWEDimension, l.GLWERank, l.PolyRank, l.LUTSize), f, Header(l.BlockSize, int(uint64(l.MessageModulus))),
		GadHdr(p.BlindRotateParams()), GadHdr(p.KeySwitchParams()), []byte{byte(l.BootstrapOrder)})
}
