package mkp

import (
	"math"
	"testing"

	"github.com/sp301415/tfhe-go/mktfhe"
	"github.com/sp301415/tfhe-go/tfhe"
	"pgregory.net/rapid"

	"verifharness/tf"
	"verifharness/vh"
)

type gate struct {
	name string
	ref  func(a, b bool) bool
}

var gates = []gate{
	{"NOT", func(a, b bool) bool { return !a }},
	{"AND", func(a, b bool) bool { return a && b }},
	{"NAND", func(a, b bool) bool { return !(a && b) }},
	{"OR", func(a, b bool) bool { return a || b }},
	{"NOR", func(a, b bool) bool { return !(a || b) }},
	{"XOR", func(a, b bool) bool { return a != b }},
	{"XNOR", func(a, b bool) bool { return a == b }},
}

// evalGate evaluates a gate: to writes into out, par runs in parallel.
func evalGate[T tfhe.TorusInt](e *mktfhe.BinaryEvaluator[T], g string, out *lwe[T], a, b lwe[T], to, par bool) {
	type f2 = func(a, b lwe[T]) lwe[T]
	type f3 = func(o, a, b lwe[T])
	if g == "NOT" {
		if to {
			e.NOTTo(*out, a)
		} else {
			*out = e.NOT(a)
		}
		return
	}
	switch {
	case to && par:
		map[string]f3{"AND": e.ANDParallelTo, "NAND": e.NANDParallelTo, "OR": e.ORParallelTo, "NOR": e.NORParallelTo, "XOR": e.XORParallelTo, "XNOR": e.XNORParallelTo}[g](*out, a, b)
	case to:
		map[string]f3{"AND": e.ANDTo, "NAND": e.NANDTo, "OR": e.ORTo, "NOR": e.NORTo, "XOR": e.XORTo, "XNOR": e.XNORTo}[g](*out, a, b)
	case par:
		*out = map[string]f2{"AND": e.ANDParallel, "NAND": e.NANDParallel, "OR": e.ORParallel, "NOR": e.NORParallel, "XOR": e.XORParallel, "XNOR": e.XNORParallel}[g](a, b)
	default:
		*out = map[string]f2{"AND": e.AND, "NAND": e.NAND, "OR": e.OR, "NOR": e.NOR, "XOR": e.XOR, "XNOR": e.XNOR}[g](a, b)
	}
}

func gateCase[T tfhe.TorusInt](t *rapid.T) {
	v := newEnv[T](t, opts{Opts: tf.Opts{LogN: [2]int{5, 9}, Order: -1, BlockCount: true, MaxLWE: 10, MaxLogP: 1}, parties: 3, boot: true, sum: 2})
	v.boot()
	be := mktfhe.NewBinaryEvaluator(v.p, v.evks)
	if rapid.Bool().Draw(t, "copy") {
		be = be.SafeCopy()
	}
	bd := mktfhe.NewBinaryDecryptor(v.p, v.sks)
	if rapid.Bool().Draw(t, "decCopy") {
		bd = bd.SafeCopy()
	}
	bes := map[int]*mktfhe.BinaryEncryptor[T]{}
	pub := map[int]*mktfhe.BinaryPublicEncryptor[T]{}
	for _, i := range v.in {
		bes[i] = mktfhe.NewBinaryEncryptorWithKey(v.p, i, v.seed, v.sks[i])
		if v.P.N(3) == 0 {
			bes[i] = bes[i].SafeCopy()
		}
		// Public encryptions are far noisier than the lookup noise budget covers, so
		// they are only decrypted below.
		if v.p.SubParams().IsPublicKeyEncryptable() {
			pub[i] = bes[i].PublicEncryptor()
			if v.P.N(3) == 0 {
				pub[i] = pub[i].SafeCopy()
			}
		}
	}
	type wire struct {
		ct lwe[T]
		b  bool
	}
	var ws []wire
	for i := 0; i < 5; i++ {
		w := wire{b: v.P.N(2) == 1}
		e := bes[v.party()]
		if v.P.N(2) == 0 {
			w.ct = e.EncryptLWEBool(w.b)
		} else {
			w.ct = v.lwe()
			e.EncryptLWEBoolTo(w.ct, w.b)
		}
		ws = append(ws, w)
	}
	q := tf.Q[T]()
	room := slack(v.lit, 2, 2)*q - 2
	noise := func() float64 {
		r := room * (2*v.P.F() - 1)
		if v.P.N(2) == 0 {
			r = math.Copysign(room, r)
		}
		return r
	}
	n := rapid.IntRange(4, 24).Draw(t, "gates")
	tol := tf.Sigmas*math.Sqrt(inVar(v.lit))*q + 2
	for i := 0; i < n; i++ {
		g := gates[rapid.IntRange(0, len(gates)-1).Draw(t, "gate")]
		a, b, d := v.P.N(len(ws)), v.P.N(len(ws)), v.P.N(len(ws))
		x, y := ws[a], ws[b]
		if g.name != "NOT" && v.P.N(2) == 0 {
			// The inputs may be as far off as the lookup allows, together.
			x.ct, y.ct = x.ct.Copy(), y.ct.Copy()
			far := noise()
			part := far * v.P.F()
			if a != b {
				x.ct.Value[0] += T(int64(part))
				y.ct.Value[0] += T(int64(far - part))
			} else {
				x.ct.Value[0] += T(int64(far / 2))
				y.ct = x.ct
			}
			vh.Label("%s of noisy inputs", g.name)
		}
		ax, by := x.ct.Copy(), y.ct.Copy()
		want := g.ref(x.b, y.b)
		var out lwe[T]
		to, par := v.P.N(3) > 0, v.P.N(2) == 0
		if to {
			out = ws[d].ct // may be one of the inputs
		}
		evalGate(be, g.name, &out, x.ct, y.ct, to, par)
		if !to || d != a {
			v.Exact(g.name+" input", x.ct.Value, ax.Value)
		}
		if !to || d != b {
			v.Exact(g.name+" input", y.ct.Value, by.Value)
		}
		ws[d] = wire{out, want}
		for j, w := range ws {
			if got := bd.DecryptLWEBool(w.ct); got != w.b {
				t.Fatalf("gate %d (%s of wires %d=%v and %d=%v to %d, parallel=%v): wire %d is %v instead of %v (%v)", i, g.name, a, x.b, b, y.b, d, par, j, got, w.b, v)
			}
		}
		ph := T(1) << uint(tf.Bits[T]()-3)
		if !want {
			ph = -ph
		}
		v.Near(g.name, tf.One(v.phase(out)), tf.One(ph), tol)
		vh.Label("%s", g.name)
	}
	// Integers as bits, of one party or a public key.
	bits := rapid.IntRange(0, 40).Draw(t, "bits")
	m := int(v.P.U64() >> 1)
	i := v.party()
	cts := bes[i].EncryptLWEBits(m, bits)
	if len(cts) != bits {
		t.Fatalf("EncryptLWEBits: %d ciphertexts for %d bits", len(cts), bits)
	}
	if v.P.N(2) == 0 {
		bes[i].EncryptLWEBitsTo(cts, m)
	}
	// A public encryption's noise is a few dozen deviations times the degree's root.
	far := freshSigmas * 2 * math.Sqrt(2*float64(v.N)) * v.glweSigma()
	if pub[i] != nil && far < q/8 && v.P.N(2) == 0 {
		vh.Label("public bits")
		if v.P.N(2) == 0 {
			cts = pub[i].EncryptLWEBits(m, bits)
		} else {
			pub[i].EncryptLWEBitsTo(cts, m)
		}
		if bits > 0 {
			cts[0] = pub[i].EncryptLWEBool(m&1 == 1)
			pub[i].EncryptLWEBoolTo(cts[bits-1], m>>uint(bits-1)&1 == 1)
		}
	}
	for j, c := range cts {
		if got := bd.DecryptLWEBool(c); got != (m>>uint(j)&1 == 1) {
			t.Fatalf("EncryptLWEBits(%#x): bit %d is %v (%v)", m, j, got, v)
		}
	}
	if got, want := bd.DecryptLWEBits(cts), m&(1<<uint(bits)-1); got != want {
		t.Fatalf("DecryptLWEBits: %#x instead of %#x", got, want)
	}
	vh.Case(len(v.in) > 1, "%v gates %d bits %d seed %x", v, n, bits, v.P.U64())
}

func TestGates(t *testing.T) {
	vh.Check(t, "a case runs a random circuit of serial and parallel gates over wires of several parties, some as noisy as the lookup allows, and checks every wire after every gate; non-trivial = several parties", 250, 8000, func(t *rapid.T) {
		both(t, gateCase[uint32], gateCase[uint64])
	})
}
