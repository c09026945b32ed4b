package npar

import (
	"fmt"
	"math"
	"os"
	"testing"

	"github.com/sp301415/tfhe-go/mktfhe"
	"github.com/sp301415/tfhe-go/tfhe"
	"github.com/sp301415/tfhe-go/xtfhe"
	"pgregory.net/rapid"

	"verifharness/tf"
	"verifharness/vh"
)

// The error deviation a torus LWE instance of a dimension needs for about 128 bits,
// as a line through published estimates, less a slack in bits. It tells parameter
// sets that lost their security, not one bit from another.
func secure(t *rapid.T, name, part string, dim int, sigma, slack float64) {
	t.Helper()
	if line := -0.0266*float64(dim) + 2.98 - slack; math.Log2(sigma) < line {
		t.Fatalf("%s: %s of dimension %d has noise 2^%.2f where 128 bits of security take about 2^%.2f", name, part, dim, math.Log2(sigma), line+slack)
	}
}

// rate64 is the number of deviations that are exceeded with probability 2^-64.
const rate64 = 9.1

// errs collects errors against the room for them.
type errs struct {
	ms
	worst float64
}

func (e *errs) add(x float64) { e.ms.add(x); e.worst = math.Max(e.worst, math.Abs(x)) }

// room checks that the errors leave room for a failure rate of at most 2^-64 (or
// another number of deviations than 9.1) up to the precision of the measurement.
func (e *errs) room(t *rapid.T, name, what string, margin, devs float64) {
	t.Helper()
	if e.n == 0 {
		return
	}
	sd := math.Sqrt(e.s2 / e.n)
	if os.Getenv("VH_RATIO") != "" {
		fmt.Printf("%s: %s: margin %.1f deviations of %v, worst %.2f deviations\n", name, what, margin/sd, e.n, e.worst/sd)
	}
	if margin < devs*sd*0.93*(1-4/math.Sqrt(2*e.n)) {
		t.Fatalf("%s: %s: %v errors have deviation %g, only %.2f deviations below the margin %g", name, what, e.n, sd, margin/sd, margin)
	}
	if e.worst > 7.5*sd && e.n > 50 {
		t.Fatalf("%s: %s: an error of %g in %v of deviation %g", name, what, e.worst, e.n, sd)
	}
}

// lookups is what a bootstrapping evaluator offers.
type lookups[T tfhe.TorusInt] interface {
	BootstrapFunc(tfhe.LWECiphertext[T], func(int) int) tfhe.LWECiphertext[T]
	BootstrapLUT(tfhe.LWECiphertext[T], tfhe.LookUpTable[T]) tfhe.LWECiphertext[T]
	DefaultKeySwitch(tfhe.LWECiphertext[T]) tfhe.LWECiphertext[T]
	ModSwitch(T) int
}

func randFn(pr *vh.PRNG, p int) func(int) int {
	tab := make([]int, p)
	for i := range tab {
		tab[i] = pr.N(p)
	}
	// The zero table gives ciphertexts without noise.
	if i := pr.N(p); tab[i] == 0 {
		tab[i] = 1 + pr.N(p-1)
	}
	return func(x int) int { return tab[x] }
}

// boots bootstraps messages with generated functions, feeding results back, and
// measures the errors lookups meet; step is the resolution of the table.
func boots[T tfhe.TorusInt](t *rapid.T, pr *vh.PRNG, name string, p tfhe.Parameters[T], enc *tfhe.Encryptor[T], ev lookups[T], L, n int, devs float64) {
	q := tf.Q[T]()
	m := int(p.MessageModulus())
	scale := q / float64(2*m)
	order := p.BootstrapOrder()
	key := enc.SecretKey.LWEKey.Value
	var e errs
	x := pr.N(m)
	wrong := 0
	ct := enc.EncryptLWE(x)
	for i := 0; i < n; i++ {
		f := randFn(pr, m)
		out := ev.BootstrapFunc(ct, f)
		want := f(x)
		if got := enc.DecryptLWE(out); got != want {
			// Sets that promise less may fail, but hardly twice.
			if wrong++; devs >= rate64 || wrong > 1 {
				t.Fatalf("%s: bootstrapping %d of %d gives %d instead of %d", name, x, m, got, want)
			}
			vh.Label("%s: a lookup failed", name)
			want = got
		}
		x, ct = want, out
		// The error when this is looked up next.
		s := ct
		if order == tfhe.OrderKeySwitchBlindRotate {
			s = ev.DefaultKeySwitch(ct)
		}
		c := ev.ModSwitch(s.Value[0])
		for j, k := range key {
			c += ev.ModSwitch(s.Value[j+1]) * int(tf.Signed(k))
		}
		d := float64(((c%(2*L))+2*L)%(2*L))*q/float64(2*L) - float64(x)*scale
		d -= q * math.Round(d/q)
		e.add(d)
	}
	e.room(t, name, "lookups", scale/2, devs)
}

// single is a parameter set of plain TFHE.
func single[T tfhe.TorusInt](name string, l tfhe.ParametersLiteral[T]) func(*rapid.T) {
	return func(t *rapid.T) {
		pr := vh.NewPRNG(rapid.Uint64().Draw(t, "data"))
		p := l.Compile()
		if f := p.EstimateFailureProbability(); !(f < math.Exp2(-64)) {
			t.Fatalf("%s: the estimated failure rate is 2^%.2f", name, math.Log2(f))
		}
		secure(t, name, "LWE", p.LWEDimension(), l.LWEStdDev, 2)
		secure(t, name, "GLWE", p.GLWEDimension(), l.GLWEStdDev, 2)
		n := 24
		if p.PolyRank() < 2048 {
			n = 60
		}
		enc := tfhe.NewEncryptor(p)
		evk := enc.GenEvalKeyParallel()
		boots(t, pr, name, p, enc, tfhe.NewEvaluator(p, evk), p.LUTSize(), n, rate64)
		if p.MessageModulus() == 2 {
			e, be := tfhe.NewBinaryEvaluator(p, evk), tfhe.NewBinaryEncryptorWithKey(p, enc.SecretKey)
			x, y := pr.N(2) == 0, pr.N(2) == 0
			cx, cy := be.EncryptLWEBool(x), be.EncryptLWEBool(y)
			for i := 0; i < n; i++ {
				var c tfhe.LWECiphertext[T]
				var z bool
				g := pr.N(3)
				switch g {
				case 0:
					c, z = e.NAND(cx, cy), !(x && y)
				case 1:
					c, z = e.XOR(cx, cy), x != y
				case 2:
					c, z = e.OR(cx, cy), x || y
				}
				if be.DecryptLWEBool(c) != z {
					t.Fatalf("%s: gate %d of %v, %v is wrong", name, g, x, y)
				}
				x, cx, y, cy = y, cy, z, c
			}
		}
		vh.Label("%s", name)
		vh.Case(true, "%s seed %x", name, pr.U64())
	}
}

func multi(name string, l mktfhe.ParametersLiteral[uint64]) func(*rapid.T) {
	return func(t *rapid.T) {
		pr := vh.NewPRNG(rapid.Uint64().Draw(t, "data"))
		p := l.Compile()
		secure(t, name, "LWE", l.SubParams.LWEDimension, l.SubParams.LWEStdDev, 7)
		secure(t, name, "GLWE", l.SubParams.GLWERank*l.SubParams.PolyRank, l.SubParams.GLWEStdDev, 7)
		k := 2
		if vh.Thorough() {
			k = p.PartyCount()
			if k > 4 {
				k = 4
			}
		}
		seed := []byte(fmt.Sprint(pr.U64()))
		evks, sks := map[int]mktfhe.EvaluationKey[uint64]{}, map[int]tfhe.SecretKey[uint64]{}
		var bes []*mktfhe.BinaryEncryptor[uint64]
		for len(bes) < k {
			i := pr.N(p.PartyCount())
			if _, ok := evks[i]; ok {
				continue
			}
			be := mktfhe.NewBinaryEncryptor(p, i, seed)
			evks[i], sks[i] = be.Encryptor.GenEvalKeyParallel(), be.Encryptor.SecretKey
			bes = append(bes, be)
		}
		ev, dec := mktfhe.NewBinaryEvaluator(p, evks), mktfhe.NewBinaryDecryptor(p, sks)
		bits, cts := []bool{}, []mktfhe.LWECiphertext[uint64]{}
		for _, be := range bes {
			x := pr.N(2) == 0
			bits, cts = append(bits, x), append(cts, be.EncryptLWEBool(x))
		}
		q := math.Exp2(64)
		var e errs
		for i := 0; i < 10; i++ {
			a, b := pr.N(len(bits)), pr.N(len(bits))
			var c mktfhe.LWECiphertext[uint64]
			var z bool
			g := pr.N(2)
			if g == 0 {
				c, z = ev.NANDParallel(cts[a], cts[b]), !(bits[a] && bits[b])
			} else {
				c, z = ev.XORParallel(cts[a], cts[b]), bits[a] != bits[b]
			}
			if dec.DecryptLWEBool(c) != z {
				t.Fatalf("%s: gate %d of %v, %v is wrong", name, g, bits[a], bits[b])
			}
			want := q / 8
			if !z {
				want = -want
			}
			e.add(float64(int64(dec.Decryptor.DecryptLWEPlaintext(c).Value)) - want)
			bits, cts = append(bits, z), append(cts, c)
		}
		if os.Getenv("VH_RATIO") != "" {
			fmt.Printf("%s: gate outputs: a sixteenth of the torus is %.1f deviations\n", name, q/16/math.Sqrt(e.s2/e.n))
		}
		vh.Label("%s", name)
		vh.Case(true, "%s %d parties seed %x", name, k, pr.U64())
	}
}

func fhewSet(name string, l xtfhe.FHEWParametersLiteral[uint64]) func(*rapid.T) {
	return func(t *rapid.T) {
		pr := vh.NewPRNG(rapid.Uint64().Draw(t, "data"))
		p := l.Compile()
		secure(t, name, "LWE", l.BaseParams.LWEDimension, l.BaseParams.LWEStdDev, 5)
		secure(t, name, "GLWE", l.BaseParams.GLWERank*l.BaseParams.PolyRank, l.BaseParams.GLWEStdDev, 5)
		enc := xtfhe.NewFHEWEncryptor(p)
		ev := xtfhe.NewFHEWEvaluator(p, enc.GenEvalKeyParallel())
		boots(t, pr, name, p.BaseParams(), enc.Encryptor, fhewLookups{ev}, p.BaseParams().PolyRank(), 200, 4.6)
		vh.Label("%s", name)
		vh.Case(true, "%s seed %x", name, pr.U64())
	}
}

type fhewLookups struct{ *xtfhe.FHEWEvaluator[uint64] }

// manyLookups sees a many table evaluator as one for a drawn slot.
type manyLookups[T tfhe.TorusInt] struct {
	*xtfhe.ManyLUTEvaluator[T]
	t  *rapid.T
	pr *vh.PRNG
	c  int
	p  int
}

func (m manyLookups[T]) BootstrapFunc(ct tfhe.LWECiphertext[T], f func(int) int) tfhe.LWECiphertext[T] {
	fs := make([]func(int) int, m.c)
	i := m.pr.N(m.c)
	for j := range fs {
		fs[j] = randFn(m.pr, m.p)
	}
	fs[i] = f
	return m.ManyLUTEvaluator.BootstrapFunc(ct, fs)[i]
}

func (m manyLookups[T]) BootstrapLUT(ct tfhe.LWECiphertext[T], lut tfhe.LookUpTable[T]) tfhe.LWECiphertext[T] {
	return m.ManyLUTEvaluator.BootstrapLUT(ct, lut)[0]
}

func (m manyLookups[T]) ModSwitch(x T) int { return m.ManyLUTEvaluator.ModSwitch(x) }

func manySet[T tfhe.TorusInt](name string, l xtfhe.ManyLUTParametersLiteral[T]) func(*rapid.T) {
	return func(t *rapid.T) {
		pr := vh.NewPRNG(rapid.Uint64().Draw(t, "data"))
		mp := l.Compile()
		p := mp.BaseParams()
		secure(t, name, "LWE", p.LWEDimension(), l.BaseParams.LWEStdDev, 2)
		secure(t, name, "GLWE", p.GLWEDimension(), l.BaseParams.GLWEStdDev, 2)
		enc := tfhe.NewEncryptor(p)
		ev := xtfhe.NewManyLUTEvaluator(mp, enc.GenEvalKeyParallel())
		boots(t, pr, name, p, enc, manyLookups[T]{ev, t, pr, mp.LUTCount(), int(p.MessageModulus())}, p.PolyRank(), 24, rate64)
		vh.Label("%s", name)
		vh.Case(true, "%s seed %x", name, pr.U64())
	}
}

type sanitLookups struct{ *xtfhe.Sanitizer[uint64] }

func (s sanitLookups) BootstrapFunc(ct tfhe.LWECiphertext[uint64], f func(int) int) tfhe.LWECiphertext[uint64] {
	return s.Sanitizer.SanitizeFunc(ct, f)
}

func sanitSet(name string, l xtfhe.SanitizationParametersLiteral[uint64]) func(*rapid.T) {
	return func(t *rapid.T) {
		pr := vh.NewPRNG(rapid.Uint64().Draw(t, "data"))
		sp := l.Compile()
		p := sp.BaseParams()
		secure(t, name, "LWE", p.LWEDimension(), l.BaseParams.LWEStdDev, 2)
		secure(t, name, "GLWE", p.GLWEDimension(), l.BaseParams.GLWEStdDev, 2)
		enc := tfhe.NewEncryptor(p)
		s := xtfhe.NewSanitizer(sp, enc.GenPublicKey(), enc.GenEvalKeyParallel())
		boots(t, pr, name, p, enc, sanitLookups{s}, p.LUTSize(), 16, rate64)
		vh.Label("%s", name)
		vh.Case(true, "%s seed %x", name, pr.U64())
	}
}

func circuitSet(name string, l xtfhe.CircuitBootstrapParametersLiteral[uint64]) func(*rapid.T) {
	return func(t *rapid.T) {
		pr := vh.NewPRNG(rapid.Uint64().Draw(t, "data"))
		cp := l.Compile()
		p := cp.BaseParams()
		b := l.ManyLUTParams.BaseParams
		secure(t, name, "LWE", p.LWEDimension(), b.LWEStdDev, 2)
		secure(t, name, "GLWE", p.GLWEDimension(), b.GLWEStdDev, 2)
		enc := tfhe.NewEncryptor(p)
		kg := xtfhe.NewCircuitBootstrapKeyGenerator(cp, enc.SecretKey)
		cb := xtfhe.NewCircuitBootstrapper(cp, enc.GenEvalKeyParallel(), kg.GenCircuitBootstrapKey())
		msg := func() []int {
			m := make([]int, p.PolyRank())
			for i := range m {
				m[i] = pr.N(2)
			}
			return m
		}
		// A chain of selections, as in a lookup tree.
		m := msg()
		acc := enc.EncryptGLWE(m)
		var e errs
		for i := 0; i < 8; i++ {
			x := pr.N(2)
			gg := cb.CircuitBootstrap(enc.EncryptLWE(x))
			m1 := msg()
			other := enc.EncryptGLWE(m1)
			if x == 1 {
				m = m1
			}
			acc = cb.CMux(gg, acc, other)
			if pr.N(2) == 0 && x == 0 {
				// Start over from the chain itself.
				acc = cb.CMux(gg, acc, acc.Copy())
			}
			for k, y := range enc.DecryptGLWEPhase(acc).Value.Coeffs {
				e.add(float64(int64(y - uint64(m[k])<<62)))
			}
			for k, y := range enc.DecryptGLWE(acc) {
				if y != m[k] {
					t.Fatalf("%s: coefficient %d after %d selections is %d instead of %d", name, k, i+1, y, m[k])
				}
			}
		}
		if os.Getenv("VH_RATIO") != "" {
			fmt.Printf("%s: an eighth of the torus is %.1f deviations\n", name, math.Exp2(61)/math.Sqrt(e.s2/e.n))
		}
		if e.worst > math.Exp2(61)/4 {
			t.Fatalf("%s: errors up to %g of the torus after few selections", name, e.worst/math.Exp2(64))
		}
		vh.Label("%s", name)
		vh.Case(true, "%s seed %x", name, pr.U64())
	}
}

var defaults = map[string]func(*rapid.T){}

func init() {
	add := func(n string, f func(*rapid.T)) { defaults[n] = f }
	add("Binary", single("Binary", tfhe.ParamsBinary))
	add("BinaryCompact", single("BinaryCompact", tfhe.ParamsBinaryCompact))
	add("BinaryOriginal", single("BinaryOriginal", tfhe.ParamsBinaryOriginal))
	add("Uint2", single("Uint2", tfhe.ParamsUint2))
	add("Uint3", single("Uint3", tfhe.ParamsUint3))
	add("Uint4", single("Uint4", tfhe.ParamsUint4))
	add("Uint5", single("Uint5", tfhe.ParamsUint5))
	add("Uint6", single("Uint6", tfhe.ParamsUint6))
	add("Uint7", single("Uint7", tfhe.ParamsUint7))
	add("Uint8", single("Uint8", tfhe.ParamsUint8))
	add("Party2", multi("Party2", mktfhe.ParamsBinaryParty2))
	add("Party4", multi("Party4", mktfhe.ParamsBinaryParty4))
	add("Party8", multi("Party8", mktfhe.ParamsBinaryParty8))
	add("Party16", multi("Party16", mktfhe.ParamsBinaryParty16))
	add("Party32", multi("Party32", mktfhe.ParamsBinaryParty32))
	add("FHEW", fhewSet("FHEW", xtfhe.ParamsFHEWBinary))
	add("BinaryLUT2", manySet("BinaryLUT2", xtfhe.ParamsBinaryLUT2))
	add("BinaryCompactLUT2", manySet("BinaryCompactLUT2", xtfhe.ParamsBinaryCompactLUT2))
	add("Uint2LUT4", manySet("Uint2LUT4", xtfhe.ParamsUint2LUT4))
	add("Uint3LUT2", manySet("Uint3LUT2", xtfhe.ParamsUint3LUT2))
	add("Sanitize", sanitSet("Sanitize", xtfhe.ParamsSanitizeBinary))
	add("CircuitMedium", circuitSet("CircuitMedium", xtfhe.ParamsCircuitBootstrapMedium))
	add("CircuitLarge", circuitSet("CircuitLarge", xtfhe.ParamsCircuitBootstrapLarge))
}

func TestDefaults(t *testing.T) {
	names := tf.SortedKeys(defaults)
	if x := os.Getenv("VH_SET"); x != "" { // for looking at one set
		names = []string{x}
	}
	vh.Check(t, "a case takes a default parameter set, generates keys and chains lookups of generated functions, gates or products, comparing every result and the measured errors with the documented failure rate; every case is non-trivial", 36, 300, func(t *rapid.T) {
		defaults[rapid.SampledFrom(names).Draw(t, "set")](t)
	})
}
