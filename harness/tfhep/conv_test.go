package tfhep

import (
	"math"
	"reflect"
	"testing"

	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/tfhe"
	"pgregory.net/rapid"

	"verifharness/tf"
	"verifharness/vh"
)

// polys lists the polynomials of type P inside an object.
func polys[P any](v any) []P {
	var out []P
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		if p, ok := v.Interface().(P); ok {
			out = append(out, p)
			return
		}
		switch v.Kind() {
		case reflect.Pointer:
			walk(v.Elem())
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if v.Type().Field(i).Name != "GadgetParams" {
					walk(v.Field(i))
				}
			}
		case reflect.Slice:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		}
	}
	walk(reflect.ValueOf(v))
	return out
}

// convCase transforms one object of every form to the Fourier domain and back.
func convCase[T tfhe.TorusInt](t *rapid.T) {
	k, N := rapid.IntRange(1, 3).Draw(t, "k"), 16<<uint(rapid.IntRange(0, 5).Draw(t, "logN"))
	g := tf.DrawGadget[T](t, "gadget")
	p := vh.NewPRNG(rapid.Uint64().Draw(t, "data"))
	tr := tfhe.NewGLWETransformer[T](N)
	if rapid.Bool().Draw(t, "copy") {
		tr = tr.SafeCopy()
	}
	form := rapid.SampledFrom([]string{"GLWESecretKey", "GLWECiphertext", "GLevCiphertext", "GGSWCiphertext"}).Draw(t, "form")
	var x, back any
	var f, dirtyF any
	switch form {
	case "GLWESecretKey":
		a, b, c := tfhe.NewGLWESecretKeyCustom[T](k, N), tfhe.NewGLWESecretKeyCustom[T](k, N), tfhe.NewFFTGLWESecretKeyCustom[T](k, N)
		x, back, dirtyF = &a, &b, &c
	case "GLWECiphertext":
		a, b, c := tfhe.NewGLWECiphertextCustom[T](k, N), tfhe.NewGLWECiphertextCustom[T](k, N), tfhe.NewFFTGLWECiphertextCustom[T](k, N)
		x, back, dirtyF = &a, &b, &c
	case "GLevCiphertext":
		a, b, c := tfhe.NewGLevCiphertextCustom(k, N, g), tfhe.NewGLevCiphertextCustom(k, N, g), tfhe.NewFFTGLevCiphertextCustom(k, N, g)
		x, back, dirtyF = &a, &b, &c
	case "GGSWCiphertext":
		a, b, c := tfhe.NewGGSWCiphertextCustom(k, N, g), tfhe.NewGGSWCiphertextCustom(k, N, g), tfhe.NewFFTGGSWCiphertextCustom(k, N, g)
		x, back, dirtyF = &a, &b, &c
	}
	tf.Fill(p, x)
	tf.Fill(p, back)
	tf.Fill(p, dirtyF)
	before := tf.Leaves(x)
	call := func(name string, args ...any) reflect.Value {
		var in []reflect.Value
		for _, a := range args {
			in = append(in, reflect.ValueOf(a).Elem())
		}
		out := reflect.ValueOf(tr).MethodByName(name).Call(in)
		if len(out) == 0 {
			return reflect.Value{}
		}
		c := reflect.New(out[0].Type())
		c.Elem().Set(out[0])
		return c
	}
	f = call("FwdFFT"+form, x).Interface()
	call("FwdFFT"+form+"To", dirtyF, x)
	if d := tf.Diff(f, dirtyF); d != "" {
		t.Fatalf("%s: the two forward forms differ: %s", form, d)
	}
	ev := poly.NewEvaluator[T](N)
	ps, fs := polys[poly.Poly[T]](x), polys[poly.FFTPoly](f)
	if len(ps) != len(fs) || len(ps) == 0 {
		t.Fatalf("%s: %d polynomials became %d", form, len(ps), len(fs))
	}
	tol := tf.Q[T]()*math.Exp2(-50)*float64(N) + 1
	for i := range ps {
		if !ev.FwdFFT(ps[i]).Approx(fs[i], tol) {
			t.Fatalf("%s: polynomial %d has another transform", form, i)
		}
	}
	fb := tf.Leaves(f)
	inv := "InvFFT" + form
	got := call(inv, f).Interface()
	call(inv+"To", back, f)
	if d := tf.Diff(got, back); d != "" {
		t.Fatalf("%s: the two inverse forms differ: %s", form, d)
	}
	for i, q := range polys[poly.Poly[T]](got) {
		if d, at := tf.MaxDist(q.Coeffs, ps[i].Coeffs); !(d <= tol) {
			t.Fatalf("%s: polynomial %d comes back off by %g at %d (N=%d)", form, i, d, at, N)
		}
	}
	if d := tf.DiffLeaves(tf.Leaves(x), before) + tf.DiffLeaves(tf.Leaves(f), fb); d != "" {
		t.Fatalf("%s: transforming changed its input: %s", form, d)
	}
	vh.Label("%s", form)
	vh.Case(len(ps) > 1, "%s q=2^%d k=%d N=%d gadget %d^%d", form, tf.Bits[T](), k, N, g.Base(), g.Level())
}

func TestConvert(t *testing.T) {
	vh.Check(t, "a case transforms an object of arbitrary contents into the Fourier form and back, in both call forms, against the transform of each polynomial; non-trivial = more than one polynomial", 1500, 60000, func(t *rapid.T) {
		both(t, convCase[uint32], convCase[uint64])
	})
}
