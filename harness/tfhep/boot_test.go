package tfhep

import (
	"math"
	"math/big"
	"testing"

	"github.com/sp301415/tfhe-go/tfhe"
	"pgregory.net/rapid"

	"verifharness/tf"
	"verifharness/vh"
)

// fullLUT lists the table in the order of the rotation.
func fullLUT[T tfhe.TorusInt](lut tfhe.LookUpTable[T]) []T {
	ext := len(lut.Value)
	out := make([]T, ext*len(lut.Value[0].Coeffs))
	for i, p := range lut.Value {
		for j, c := range p.Coeffs {
			out[j*ext+i] = c
		}
	}
	return out
}

// at reads a negacyclic table.
func at[T tfhe.TorusInt](full []T, e int) T {
	L := len(full)
	e = ((e % (2 * L)) + 2*L) % (2 * L)
	if e < L {
		return full[e]
	}
	return -full[e-L]
}

// lutFn is a generated function on messages.
type lutFn struct {
	tab []int
	mul int
}

func (f lutFn) at(x int) int { return f.tab[x%len(f.tab)] * f.mul }

func (v *env[T]) fn(p int, wide bool) lutFn {
	f := lutFn{tab: make([]int, p), mul: 1}
	kind := v.pr.N(5)
	for i := range f.tab {
		switch kind {
		case 0:
			f.tab[i] = i
		case 1:
			f.tab[i] = v.pr.N(2) * (p - 1)
		case 2:
			f.tab[i] = p - 1
		default:
			f.tab[i] = v.pr.N(p)
			if wide && v.pr.N(3) == 0 {
				f.tab[i] += p * v.pr.N(4)
			}
		}
	}
	return f
}

func dirtyLUT[T tfhe.TorusInt](v *env[T]) tfhe.LookUpTable[T] {
	lut := tfhe.NewLUT(v.p)
	for i := range lut.Value {
		tf.Dirty(v.pr, lut.Value[i].Coeffs)
	}
	return lut
}

// checkLUT checks the table around every message.
func (v *env[T]) checkLUT(what string, lut tfhe.LookUpTable[T], p int, want func(int) T) {
	v.t.Helper()
	L := v.p.LUTSize()
	if len(lut.Value) != L/v.N {
		v.t.Fatalf("%s: %d polynomials for a table of %d", what, len(lut.Value), L)
	}
	full := fullLUT(lut)
	for x := 0; x < p; x++ {
		// Positions within half a slot of the message, but one for each rounding.
		lo := (2*x-1)*L + 2*p*2
		hi := (2*x+1)*L - 2*p*2
		for e := -((-lo) / (2 * p)); e <= hi/(2*p) && hi >= 0; e++ {
			if 2*p*e < lo || 2*p*e > hi {
				continue
			}
			if got := at(full, e); got != want(x) {
				v.t.Fatalf("%s: the table at %d, near message %d of %d, is %#x instead of %#x (%v)", what, e, x, p, got, want(x), v.set)
			}
		}
		c := int(math.Round(float64(x) * float64(L) / float64(p)))
		if L >= 4*p && L%(2*p) == 0 {
			if got := at(full, c); got != want(x) {
				v.t.Fatalf("%s: the table at the center of message %d of %d is %#x instead of %#x (%v)", what, x, p, got, want(x), v.set)
			}
			// Exact slots: the message owns [c - L/2p, c + L/2p).
			for _, e := range []int{c - L/(2*p), c + L/(2*p) - 1} {
				if got := at(full, e); got != want(x) {
					v.t.Fatalf("%s: the table at %d, at the edge of message %d of %d, is %#x instead of %#x (%v)", what, e, x, p, got, want(x), v.set)
				}
			}
		}
	}
}

var extends = []int{1, 1, 2, 3, 4, 5, 8, 9}

func lutCase[T tfhe.TorusInt](t *rapid.T) {
	v := newEnv[T](t, tf.Opts{LogN: [2]int{4, 9}, Big: 13, Extend: extends, Order: -1, BlockCount: true, MaxLogP: 6, MaxLWE: 12})
	n := rapid.IntRange(1, 6).Draw(t, "luts")
	ev := v.eval
	for i := 0; i < n; i++ {
		p := int(v.p.MessageModulus())
		if p > v.p.LUTSize()/2 {
			p = v.p.LUTSize() / 2
		}
		custom := rapid.Bool().Draw(t, "custom") || p != int(v.p.MessageModulus())
		scale := v.p.Scale()
		if custom {
			p = rapid.IntRange(1, v.p.LUTSize()/2).Draw(t, "mm")
			if rapid.Bool().Draw(t, "small") {
				p = rapid.IntRange(1, 16).Draw(t, "mms")
				if p > v.p.LUTSize()/2 {
					p = 2
				}
			}
			scale = v.val()
		}
		f := v.fn(p, true)
		calls := map[int]int{}
		fi := func(x int) int { calls[x]++; return f.at(x) }
		ff := make([]T, p)
		tf.Dirty(v.pr, ff)
		fu := func(x int) T { return ff[x] }
		lut := dirtyLUT(v)
		enc := func(x int) T { return T(f.at(x)%p) * scale }
		raw := func(x int) T { return ff[x] }
		to := rapid.Bool().Draw(t, "to")
		full := rapid.Bool().Draw(t, "full")
		switch {
		case !custom && !full && to:
			ev.GenLUTTo(lut, fi)
		case !custom && !full:
			lut = ev.GenLUT(fi)
		case !custom && to:
			ev.GenLUTFullTo(lut, fu)
		case !custom:
			lut = ev.GenLUTFull(fu)
		case !full && to:
			ev.GenLUTCustomTo(lut, fi, T(p), scale)
		case !full:
			lut = ev.GenLUTCustom(fi, T(p), scale)
		case to:
			ev.GenLUTCustomFullTo(lut, fu, T(p))
		default:
			lut = ev.GenLUTCustomFull(fu, T(p))
		}
		if full {
			v.checkLUT("GenLUTFull", lut, p, raw)
		} else {
			v.checkLUT("GenLUT", lut, p, enc)
		}
		// Tables are independent copies.
		c := lut.Copy()
		before := append([]T{}, fullLUT(lut)...)
		for j := range c.Value {
			tf.Dirty(v.pr, c.Value[j].Coeffs)
		}
		v.exact("table after its copy changed", fullLUT(lut), before)
		d := dirtyLUT(v)
		d.CopyFrom(lut)
		v.exact("LUT CopyFrom", fullLUT(d), before)
		d.Clear()
		v.exact("LUT Clear", fullLUT(d), make([]T, len(before)))
		v.exact("table after its copy was cleared", fullLUT(lut), before)
		vh.Label("full=%v custom=%v to=%v ext=%d", full, custom, to, len(lut.Value))
	}
	vh.Case(true, "%v luts %d seed %x", v.set, n, v.pr.U64())
}

func TestLUT(t *testing.T) {
	vh.Check(t, "a case builds lookup tables of generated functions, moduli and scales over drawn table sizes and reads every slot; every case is non-trivial", 3000, 100000, func(t *rapid.T) {
		both(t, lutCase[uint32], lutCase[uint64])
	})
}

// modSwitch is the exact rounding of x*2L/Q and whether x is near a tie.
func modSwitch[T tfhe.TorusInt](x T, L int) (int, bool) {
	b := uint(tf.Bits[T]())
	n := new(big.Int).Mul(new(big.Int).SetUint64(uint64(x)), big.NewInt(int64(2*L)))
	half := new(big.Int).Lsh(big.NewInt(1), b-1)
	n.Add(n, half)
	q, r := new(big.Int), new(big.Int)
	q.Rsh(n, b)
	r.Sub(n, new(big.Int).Lsh(q, b))
	// r/2^b is the distance above the tie.
	fr, _ := new(big.Float).SetInt(r).Float64()
	fr = math.Ldexp(fr, -int(b))
	tie := fr < 1.0/256 || fr > 1-1.0/256
	return int(q.Int64()) % (2 * L), tie
}

// angle draws a value whose rounding is not a tie.
func (v *env[T]) angle(L int) T {
	for i := 0; ; i++ {
		var x T
		switch v.pr.N(8) {
		case 0:
			x = 0 - T(v.pr.N(3)) // the top of the range rounds to zero
		case 1:
			x = T(float64(v.pr.N(2*L)) / float64(2*L) * tf.Q[T]()) // multiples of the step
		case 2:
			x = T(v.pr.N(4)) << uint(tf.Bits[T]()-2)
		case 3:
			x = v.val()
		default:
			x = T(v.pr.U64())
		}
		if _, tie := modSwitch(x, L); !tie {
			return x
		}
	}
}

func rotateCase[T tfhe.TorusInt](t *rapid.T) {
	v := newEnv[T](t, tf.Opts{LogN: [2]int{4, 8}, Big: 11, MaxRank: 3, Extend: extends, Order: -1, BlockCount: true, MaxLWE: 30})
	v.boot()
	ev := v.eval
	if rapid.Bool().Draw(t, "copy") {
		ev = ev.SafeCopy()
	}
	L := v.p.LUTSize()
	n := v.p.LWEDimension()
	l := v.set.Lit
	h := 0.0
	for _, s := range v.sk.LWEKey.Value {
		if s == 1 {
			h++
		}
	}
	B, s := float64(v.p.BlindRotateParams().Base()), l.GLWEStdDev
	va := tf.BlindRotateVar(l, h) + float64(l.BlockSize*v.p.BlindRotateParams().Level()*v.N)*B*B/3*(s*s+math.Exp2(-2*float64(tf.Bits[T]()))/4)
	tol := tf.Sigmas*math.Sqrt(va)*tf.Q[T]() + 2
	rots := rapid.IntRange(1, 4).Draw(t, "rotations")
	for i := 0; i < rots; i++ {
		lut := dirtyLUT(v)
		if rapid.IntRange(0, 2).Draw(t, "lut") == 0 {
			lut = ev.GenLUT(v.fn(int(v.p.MessageModulus()), false).at)
		}
		full := fullLUT(lut)
		ct := tfhe.NewLWECiphertextCustom[T](n)
		sparse := v.pr.N(4) == 0
		for j := range ct.Value {
			if !sparse || v.pr.N(6) == 0 {
				ct.Value[j] = v.angle(L)
			}
		}
		e, _ := modSwitch(ct.Value[0], L)
		for j, k := range v.sk.LWEKey.Value {
			if k == 1 {
				a, _ := modSwitch(ct.Value[j+1], L)
				e += a
			}
		}
		for _, x := range ct.Value {
			if want, _ := modSwitch(x, L); ev.ModSwitch(x) != want {
				t.Fatalf("ModSwitch(%#x) = %d instead of %d of %d", x, ev.ModSwitch(x), want, 2*L)
			}
		}
		ct0 := ct.Copy()
		out := v.glwe()
		if v.pr.N(2) == 0 {
			out = ev.BlindRotate(ct, lut)
		} else {
			ev.BlindRotateTo(out, ct, lut)
		}
		want := make([]T, v.N)
		for j := range want {
			want[j] = at(full, j*len(lut.Value)+e)
		}
		v.near("BlindRotate", v.gphase(out), want, tol)
		v.exact("BlindRotate input", ct.Value, ct0.Value)
		v.exact("BlindRotate table", fullLUT(lut), full)
	}
	kind := "original"
	if L > v.N {
		kind = "extended"
	} else if l.BlockSize > 1 {
		kind = "block"
	}
	if l.BlockSize*1 == n {
		kind += " single"
	}
	vh.Label("%s", kind)
	vh.Case(tol < tf.Q[T]()/8, "%v rotations %d tol %.3g seed %x", v.set, rots, tol/tf.Q[T](), v.pr.U64())
}

func TestBlindRotate(t *testing.T) {
	vh.Check(t, "a case rotates arbitrary tables by arbitrary ciphertexts and compares all coefficients; it is non-trivial when the noise bound is below 1/8 of the torus", 1500, 60000, func(t *rapid.T) {
		both(t, rotateCase[uint32], rotateCase[uint64])
	})
}

// at sets a ciphertext to encrypt exactly the given phase.
func (v *env[T]) exactly(ph T) tfhe.LWECiphertext[T] {
	c := v.enc.EncryptLWEPlaintext(tfhe.LWEPlaintext[T]{})
	c.Value[0] += ph - v.phase(c)
	return c
}

// jitter is the largest input error the parameters take at modulus p.
func (v *env[T]) jitter(p float64) float64 {
	l := v.set.Lit
	m := tf.RotateMargin(l, p)
	if l.BootstrapOrder == tfhe.OrderKeySwitchBlindRotate {
		m -= tf.Sigmas * math.Sqrt(tf.KeySwitchVar(l))
	}
	return m * tf.Q[T]()
}

func bootCase[T tfhe.TorusInt](t *rapid.T) {
	v := newEnv[T](t, tf.Opts{LogN: [2]int{5, 10}, MaxRank: 3, Extend: extends, Boot: true, Order: -1, BlockCount: true})
	v.boot()
	ev := v.eval
	if rapid.Bool().Draw(t, "copy") {
		ev = ev.SafeCopy()
	}
	p := int(v.p.MessageModulus())
	scale := v.p.Scale()
	outTol := tf.Sigmas*math.Sqrt(tf.OutVar(v.set.Lit))*tf.Q[T]() + 2
	n := rapid.IntRange(1, 8).Draw(t, "boots")
	for i := 0; i < n; i++ {
		p, scale := p, scale
		custom := rapid.IntRange(0, 3).Draw(t, "custom") == 0
		if custom {
			p = rapid.IntRange(2, p).Draw(t, "mm")
			scale = T(math.Min(tf.Q[T]()/float64(2*p), tf.Q[T]()-1))
		}
		m := v.pr.N(p)
		jit := v.jitter(float64(p)) - float64(2*p)
		var delta float64
		switch v.pr.N(4) {
		case 0:
			delta = jit
		case 1:
			delta = -jit
		default:
			delta = (2*v.pr.F() - 1) * jit
		}
		ph := T(m)*scale + T(int64(delta))
		ct := v.exactly(ph)
		if v.pr.N(5) == 0 {
			ct.Clear() // a trivial ciphertext
			ct.Value[0] = ph
		}
		if !custom && v.pr.N(4) == 0 {
			ct = v.enc.EncryptLWE(m)
		}
		ct0 := ct.Copy()
		f := v.fn(p, !custom)
		out := v.lwe()
		mode := rapid.SampledFrom([]string{"ret", "to", "inplace"}).Draw(t, "mode")
		if mode == "inplace" {
			out = ct
		}
		want := T(f.at(m)%p) * scale
		api := rapid.SampledFrom([]string{"func", "lut", "full"}).Draw(t, "api")
		if custom && api == "func" {
			api = "lut"
		}
		if api == "func" {
			switch mode {
			case "ret":
				out = ev.BootstrapFunc(ct, f.at)
			default:
				ev.BootstrapFuncTo(out, ct, f.at)
			}
		} else {
			var lut tfhe.LookUpTable[T]
			if api == "full" {
				ys := make([]T, p)
				tf.Dirty(v.pr, ys)
				want = ys[m]
				lut = ev.GenLUTCustomFull(func(x int) T { return ys[x] }, T(p))
			} else {
				lut = ev.GenLUTCustom(f.at, T(p), scale)
			}
			full := fullLUT(lut)
			switch mode {
			case "ret":
				out = ev.BootstrapLUT(ct, lut)
			default:
				ev.BootstrapLUTTo(out, ct, lut)
			}
			v.exact("bootstrap table", fullLUT(lut), full)
		}
		what := "Bootstrap " + api + "/" + mode
		v.near(what, one(v.phase(out)), one(want), outTol)
		if api != "full" && !custom {
			if got := v.enc.DecryptLWE(out); got != f.at(m)%p {
				t.Fatalf("%s: f(%d) decrypts to %d instead of %d (%v)", what, m, got, f.at(m)%p, v.set)
			}
		}
		if mode != "inplace" {
			v.exact("bootstrap input", ct.Value, ct0.Value)
		}
		vh.Label("%s/%s", api, mode)
	}
	vh.Label("order %d ext %d block %v", int(v.p.BootstrapOrder()), v.p.LUTSize()/v.N, v.p.BlockSize() > 1)
	vh.Case(true, "%v boots %d seed %x", v.set, n, v.pr.U64())
}

func TestBootstrap(t *testing.T) {
	vh.Check(t, "a case bootstraps messages with generated functions at input errors up to the limit of the parameters; every case is non-trivial", 1200, 50000, func(t *rapid.T) {
		both(t, bootCase[uint32], bootCase[uint64])
	})
}

// chainCase runs a random program of linear operations and bootstraps against
// integer arithmetic modulo 2p.
func chainCase[T tfhe.TorusInt](t *rapid.T) {
	v := newEnv[T](t, tf.Opts{LogN: [2]int{5, 9}, MaxRank: 2, Extend: []int{1, 1, 2, 3}, Boot: true, Order: -1, MaxLWE: 24, MaxLogP: 3})
	l := v.set.Lit
	p := int(v.p.MessageModulus())
	scale := v.p.Scale()
	// The largest weight that fits.
	c := 1.0
	for c < 64 && tf.Fits(l, float64(p), c+1) {
		c++
	}
	v.boot()
	ev := v.eval
	type val struct {
		ct tfhe.LWECiphertext[T]
		m  int     // modulo 2p
		w  float64 // sum of the absolute weights of independent errors
	}
	mod := func(x int) int { return ((x % (2 * p)) + 2*p) % (2 * p) }
	var vs []val
	for i := 0; i < 4; i++ {
		m := v.pr.N(p)
		vs = append(vs, val{v.enc.EncryptLWE(m), m, 1})
	}
	s0 := math.Max(math.Sqrt(tf.OutVar(l)), tf.DefaultStdDev(l)) * tf.Q[T]()
	n := rapid.IntRange(20, 120).Draw(t, "steps")
	boots, depth := 0, 0
	for i := 0; i < n; i++ {
		a, b := v.pr.N(len(vs)), v.pr.N(len(vs))
		op := v.pr.N(7)
		d := v.pr.N(len(vs))
		x, y := vs[a], vs[b]
		switch {
		case op == 0 && x.w+y.w <= c:
			out := v.lwe()
			ev.AddLWETo(out, x.ct, y.ct)
			vs[d] = val{out, mod(x.m + y.m), x.w + y.w}
		case op == 1 && x.w+y.w <= c:
			out := v.lwe()
			ev.SubLWETo(out, x.ct, y.ct)
			vs[d] = val{out, mod(x.m - y.m), x.w + y.w}
		case op == 2:
			k := v.pr.Range(-5, 5)
			if w := math.Abs(float64(k)) * x.w; w <= c && w > 0 {
				out := v.lwe()
				ev.ScalarMulLWETo(out, x.ct, T(k))
				vs[d] = val{out, mod(x.m * k), w}
			}
		case op == 3:
			k := v.pr.N(p)
			out := v.lwe()
			ev.AddPlainLWETo(out, x.ct, ev.EncodeLWE(k))
			vs[d] = val{out, mod(x.m + k), x.w}
		default:
			f := v.fn(p, false)
			var m int
			if x.m < p {
				m = f.at(x.m)
			} else {
				m = mod(-f.at(x.m - p))
			}
			if v.pr.N(2) == 0 {
				ev.BootstrapFuncTo(x.ct, x.ct, f.at)
				vs[a] = val{x.ct, m, 1}
			} else {
				vs[d] = val{ev.BootstrapFunc(x.ct, f.at), m, 1}
			}
			boots++
		}
		if boots > depth {
			depth = boots
		}
		for j, u := range vs {
			want := T(u.m) * scale
			if j != d && j != a {
				continue
			}
			// The scale of a modulus that is not a power of two is rounded.
			v.near("a value of the program", one(v.phase(u.ct)), one(want), tf.Sigmas*u.w*s0+float64(4*p)*u.w*8+2)
			if u.m < p && u.w <= c {
				if got := v.enc.DecryptLWE(u.ct); got != u.m {
					t.Fatalf("step %d: value %d decrypts to %d instead of %d, weight %g of %g (%v)", i, j, got, u.m, u.w, c, v.set)
				}
			}
		}
	}
	vh.Label("weight limit %d", int(math.Log2(c)))
	vh.Case(boots > 5, "%v steps %d boots %d weight %g seed %x", v.set, n, boots, c, v.pr.U64())
}

func TestChain(t *testing.T) {
	vh.Check(t, "a case runs a random program of linear operations and bootstraps against integers; it is non-trivial with more than five bootstraps", 300, 15000, func(t *rapid.T) {
		both(t, chainCase[uint32], chainCase[uint64])
	})
}

type gate struct {
	name string
	ref  func(a, b bool) bool
}

var gates = []gate{
	{"NOT", func(a, b bool) bool { return !a }},
	{"AND", func(a, b bool) bool { return a && b }},
	{"NAND", func(a, b bool) bool { return !(a && b) }},
	{"OR", func(a, b bool) bool { return a || b }},
	{"NOR", func(a, b bool) bool { return !(a || b) }},
	{"XOR", func(a, b bool) bool { return a != b }},
	{"XNOR", func(a, b bool) bool { return a == b }},
}

func evalGate[T tfhe.TorusInt](e *tfhe.BinaryEvaluator[T], g string, out *tfhe.LWECiphertext[T], a, b tfhe.LWECiphertext[T], to bool) {
	type f2 = func(a, b tfhe.LWECiphertext[T]) tfhe.LWECiphertext[T]
	type f3 = func(o, a, b tfhe.LWECiphertext[T])
	if g == "NOT" {
		if to {
			e.NOTTo(*out, a)
		} else {
			*out = e.NOT(a)
		}
		return
	}
	if to {
		map[string]f3{"AND": e.ANDTo, "NAND": e.NANDTo, "OR": e.ORTo, "NOR": e.NORTo, "XOR": e.XORTo, "XNOR": e.XNORTo}[g](*out, a, b)
	} else {
		*out = map[string]f2{"AND": e.AND, "NAND": e.NAND, "OR": e.OR, "NOR": e.NOR, "XOR": e.XOR, "XNOR": e.XNOR}[g](a, b)
	}
}

func gateCase[T tfhe.TorusInt](t *rapid.T) {
	v := newEnv[T](t, tf.Opts{LogN: [2]int{5, 9}, MaxRank: 3, Extend: []int{1, 1, 2, 3}, Boot: true, Order: -1, BlockCount: true, MaxLWE: 24, MaxLogP: 1})
	if !tf.Fits(v.set.Lit, 2, 2) {
		vh.Case(false, "")
		return
	}
	v.boot()
	be := tfhe.NewBinaryEvaluator(v.p, v.eval.EvalKey)
	if rapid.Bool().Draw(t, "copy") {
		be = be.SafeCopy()
	}
	bc := tfhe.NewBinaryEncryptorWithKey(v.p, v.sk)
	if rapid.Bool().Draw(t, "encCopy") {
		bc = bc.SafeCopy()
	}
	type wire struct {
		ct tfhe.LWECiphertext[T]
		b  bool
	}
	var ws []wire
	for i := 0; i < 5; i++ {
		b := v.pr.N(2) == 1
		w := wire{b: b}
		if v.pr.N(2) == 0 {
			w.ct = bc.EncryptLWEBool(b)
		} else {
			w.ct = v.lwe()
			bc.EncryptLWEBoolTo(w.ct, b)
		}
		ws = append(ws, w)
	}
	n := rapid.IntRange(5, 60).Draw(t, "gates")
	tol := tf.Sigmas*math.Max(math.Sqrt(tf.OutVar(v.set.Lit)), tf.DefaultStdDev(v.set.Lit))*tf.Q[T]() + 2
	room := tf.Slack(v.set.Lit, 2, 2)*tf.Q[T]() - 2
	noise := func() float64 {
		r := room * (2*v.pr.F() - 1)
		if v.pr.N(2) == 0 {
			r = math.Copysign(room, r)
		}
		return r
	}
	for i := 0; i < n; i++ {
		g := gates[rapid.IntRange(0, len(gates)-1).Draw(t, "gate")]
		a, b, d := v.pr.N(len(ws)), v.pr.N(len(ws)), v.pr.N(len(ws))
		x, y := ws[a], ws[b]
		if g.name != "NOT" && v.pr.N(2) == 0 {
			// The inputs may be as far off as the lookup allows, together.
			x.ct, y.ct = x.ct.Copy(), y.ct.Copy()
			far := noise()
			part := far * v.pr.F()
			if a != b {
				x.ct.Value[0] += T(int64(part))
				y.ct.Value[0] += T(int64(far - part))
			} else {
				x.ct.Value[0] += T(int64(far / 2))
				y.ct = x.ct
			}
			vh.Label("%s of noisy inputs", g.name)
		}
		ax, by := x.ct.Copy(), y.ct.Copy()
		want := g.ref(x.b, y.b)
		var out tfhe.LWECiphertext[T]
		to := v.pr.N(3) > 0
		if to {
			out = ws[d].ct // may be one of the inputs
		}
		evalGate(be, g.name, &out, x.ct, y.ct, to)
		if !to || d != a {
			v.exact(g.name+" input", x.ct.Value, ax.Value)
		}
		if !to || d != b {
			v.exact(g.name+" input", y.ct.Value, by.Value)
		}
		ws[d] = wire{out, want}
		for j, w := range ws {
			if got := bc.DecryptLWEBool(w.ct); got != w.b {
				t.Fatalf("gate %d (%s of wires %d=%v and %d=%v to %d): wire %d is %v instead of %v (%v)", i, g.name, a, x.b, b, y.b, d, j, got, w.b, v.set)
			}
		}
		ph := T(1) << uint(tf.Bits[T]()-3)
		if !want {
			ph = -ph
		}
		v.near(g.name, one(v.phase(out)), one(ph), tol)
		vh.Label("%s", g.name)
	}
	// Integers as bits.
	bits := rapid.IntRange(0, 40).Draw(t, "bits")
	m := int(v.pr.U64() >> 1)
	cts := bc.EncryptLWEBits(m, bits)
	if len(cts) != bits {
		t.Fatalf("EncryptLWEBits: %d ciphertexts for %d bits", len(cts), bits)
	}
	if v.pr.N(2) == 0 {
		for i := range cts {
			cts[i] = v.lwe()
		}
		bc.EncryptLWEBitsTo(cts, m)
	}
	for i, c := range cts {
		if got := bc.DecryptLWEBool(c); got != (m>>uint(i)&1 == 1) {
			t.Fatalf("EncryptLWEBits(%#x): bit %d is %v", m, i, got)
		}
	}
	if got, want := bc.DecryptLWEBits(cts), m&(1<<uint(bits)-1); got != want {
		t.Fatalf("DecryptLWEBits: %#x instead of %#x", got, want)
	}
	// An adder.
	if w := rapid.IntRange(0, 6).Draw(t, "adder"); w > 0 {
		x, y := v.pr.N(1<<uint(w)), v.pr.N(1<<uint(w))
		cx, cy := bc.EncryptLWEBits(x, w), bc.EncryptLWEBits(y, w)
		carry := bc.EncryptLWEBool(false)
		var sum []tfhe.LWECiphertext[T]
		for i := 0; i < w; i++ {
			h := be.XOR(cx[i], cy[i])
			sum = append(sum, be.XOR(h, carry))
			g := be.AND(cx[i], cy[i])
			be.ANDTo(carry, carry, h)
			be.ORTo(carry, carry, g)
		}
		sum = append(sum, carry)
		if got := bc.DecryptLWEBits(sum); got != x+y {
			t.Fatalf("homomorphic %d+%d = %d (%v)", x, y, got, v.set)
		}
	}
	vh.Case(true, "%v gates %d bits %d seed %x", v.set, n, bits, v.pr.U64())
}

func TestGates(t *testing.T) {
	vh.Check(t, "a case runs a random circuit of gates with overlapping outputs and checks every wire after every gate; it is non-trivial when the drawn parameters support gates", 500, 20000, func(t *rapid.T) {
		both(t, gateCase[uint32], gateCase[uint64])
	})
}
