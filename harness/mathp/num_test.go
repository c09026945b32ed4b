package mathp

import (
	"fmt"
	"math/big"
	"testing"

	"github.com/sp301415/tfhe-go/math/num"
	"pgregory.net/rapid"

	"verifharness/vh"
)

func toBig[T num.Integer](x T) *big.Int {
	if num := any(x); true {
		switch v := num.(type) {
		case uint64:
			return new(big.Int).SetUint64(v)
		case uint:
			return new(big.Int).SetUint64(uint64(v))
		case uintptr:
			return new(big.Int).SetUint64(uint64(v))
		}
	}
	return big.NewInt(int64(x))
}

func floorDivRound(x *big.Int, y *big.Int) (lo, hi *big.Int) {
	// round(x/y), halves either way
	two := big.NewInt(2)
	n := new(big.Int).Mul(x, two)
	n.Add(n, y)
	d := new(big.Int).Mul(y, two)
	if d.Sign() < 0 {
		n.Neg(n)
		d.Neg(d)
	}
	q, r := new(big.Int).DivMod(n, d, new(big.Int)) // floor as d>0
	hi = q
	lo = new(big.Int).Set(q)
	if r.Sign() == 0 {
		lo.Sub(lo, big.NewInt(1))
	}
	return
}

func numCase[T num.Integer](t *rapid.T, typ string, bits int, signed bool) {
	raw := func(name string) T {
		return T(vh.DrawShapeOf(t, name, "uniform", "extreme", "small", "halves", "sparse").Fill(1, bits)[0])
	}
	minT, maxT := new(big.Int), new(big.Int)
	if signed {
		minT.Neg(new(big.Int).Lsh(big.NewInt(1), uint(bits-1)))
		maxT.Sub(new(big.Int).Lsh(big.NewInt(1), uint(bits-1)), big.NewInt(1))
	} else {
		maxT.Sub(new(big.Int).Lsh(big.NewInt(1), uint(bits)), big.NewInt(1))
	}
	if num.SizeT[T]() != bits || num.ByteSizeT[T]()*8 != bits || num.IsSigned[T]() != signed {
		t.Fatalf("%s: SizeT=%d ByteSizeT=%d IsSigned=%v", typ, num.SizeT[T](), num.ByteSizeT[T](), num.IsSigned[T]())
	}
	if new(big.Int).SetUint64(num.MaxT[T]()).Cmp(maxT) != 0 || big.NewInt(num.MinT[T]()).Cmp(minT) != 0 {
		t.Fatalf("%s: MinT=%d MaxT=%d", typ, num.MinT[T](), num.MaxT[T]())
	}
	fits := func(x *big.Int) bool { return x.Cmp(minT) >= 0 && x.Cmp(maxT) <= 0 }
	x, y := raw("x"), raw("y")
	bx, by := toBig(x), toBig(y)
	// Abs, Min, Max
	if ab := new(big.Int).Abs(bx); fits(ab) && toBig(num.Abs(x)).Cmp(ab) != 0 {
		t.Fatalf("Abs[%s](%d)=%d", typ, x, num.Abs(x))
	}
	if bx.Cmp(by) <= 0 {
		if num.Min(x, y) != x || num.Max(x, y) != y {
			t.Fatalf("Min/Max[%s](%d,%d)=%d,%d", typ, x, y, num.Min(x, y), num.Max(x, y))
		}
	} else if num.Min(x, y) != y || num.Max(x, y) != x {
		t.Fatalf("Min/Max[%s](%d,%d)=%d,%d", typ, x, y, num.Min(x, y), num.Max(x, y))
	}
	k := rapid.IntRange(1, 9).Draw(t, "k")
	xs := make([]T, k)
	for i, r := range vh.DrawShape(t, "xs").Fill(k, bits) {
		xs[i] = T(r)
	}
	mn, mx := xs[0], xs[0]
	for _, v := range xs {
		if v < mn {
			mn = v
		}
		if v > mx {
			mx = v
		}
	}
	if num.MinN(xs...) != mn || num.MaxN(xs...) != mx {
		t.Fatalf("MinN/MaxN[%s](%v)=%d,%d", typ, xs, num.MinN(xs...), num.MaxN(xs...))
	}
	// powers of two, logarithm, square root
	pow := rapid.IntRange(0, bits-1).Draw(t, "pow")
	for _, z := range []T{x, T(1) << pow, T(1)<<pow - 1, T(1)<<pow + 1} {
		bz := toBig(z)
		isPow := bz.Sign() > 0 && new(big.Int).And(bz, new(big.Int).Sub(bz, big.NewInt(1))).Sign() == 0
		if num.IsPowerOfTwo(z) != isPow {
			t.Fatalf("IsPowerOfTwo[%s](%d)=%v", typ, z, !isPow)
		}
		if bz.Sign() > 0 {
			if num.Log2(z) != bz.BitLen()-1 {
				t.Fatalf("Log2[%s](%d)=%d", typ, z, num.Log2(z))
			}
		} else if !vh.Panics(func() { num.Log2(z) }) {
			t.Fatalf("Log2[%s](%d) does not panic", typ, z)
		}
		if bz.Sign() >= 0 {
			if r := new(big.Int).Sqrt(bz); toBig(num.Sqrt(z)).Cmp(r) != 0 {
				t.Fatalf("Sqrt[%s](%d)=%d want %d", typ, z, num.Sqrt(z), r)
			}
		} else if !vh.Panics(func() { num.Sqrt(z) }) {
			t.Fatalf("Sqrt[%s](%d) does not panic", typ, z)
		}
	}
	// rounded division
	if by.Sign() != 0 {
		lo, hi := floorDivRound(bx, by)
		if fits(lo) && fits(hi) {
			got := toBig(num.DivRound(x, y))
			ok := got.Cmp(lo) == 0 || got.Cmp(hi) == 0
			if !ok {
				t.Fatalf("DivRound[%s](%d,%d)=%d want %d", typ, x, y, got, hi)
			}
		}
	}
	sh := rapid.IntRange(0, bits-2).Draw(t, "bits")
	if lo, hi := floorDivRound(bx, new(big.Int).Lsh(big.NewInt(1), uint(sh))); fits(hi) {
		got := toBig(num.DivRoundBits(x, sh))
		if got.Cmp(lo) != 0 && got.Cmp(hi) != 0 {
			t.Fatalf("DivRoundBits[%s](%d,%d)=%d want %d", typ, x, sh, got, hi)
		}
	}
	// modular arithmetic
	m := raw("m")
	if rapid.Bool().Draw(t, "smallm") {
		m = T(rapid.IntRange(1, 100).Draw(t, "msmall"))
	}
	bm := toBig(m)
	inv, e := "none", raw("e")
	if rapid.Bool().Draw(t, "smalle") {
		e = T(rapid.IntRange(-20, 100).Draw(t, "esmall"))
	}
	be := toBig(e)
	if bm.Sign() <= 0 {
		if !vh.Panics(func() { num.ModInverse(x, m) }) || !vh.Panics(func() { num.ModExp(x, e, m) }) {
			t.Fatalf("modulus %d of type %s accepted", m, typ)
		}
	} else {
		g := new(big.Int).GCD(nil, nil, new(big.Int).Mod(bx, bm), bm)
		coprime := g.Cmp(big.NewInt(1)) == 0
		if coprime {
			want := new(big.Int).ModInverse(bx, bm)
			if got := toBig(num.ModInverse(x, m)); got.Cmp(want) != 0 {
				t.Fatalf("ModInverse[%s](%d,%d)=%d want %d", typ, x, m, got, want)
			}
			inv = want.String()
		} else if !vh.Panics(func() { num.ModInverse(x, m) }) {
			t.Fatalf("ModInverse[%s](%d,%d) does not panic", typ, x, m)
		}
		if be.Sign() >= 0 || coprime {
			want := new(big.Int).Exp(new(big.Int).Mod(bx, bm), be, bm)
			if got := toBig(num.ModExp(x, e, m)); got.Cmp(want) != 0 {
				t.Fatalf("ModExp[%s](%d,%d,%d)=%d want %d", typ, x, e, m, got, want)
			}
		} else if !vh.Panics(func() { num.ModExp(x, e, m) }) {
			t.Fatalf("ModExp[%s](%d,%d,%d) does not panic", typ, x, e, m)
		}
	}
	vh.Label("type %s", typ)
	vh.Label("inverse exists %v", inv != "none")
	vh.Case(inv != "none" && bm.Cmp(big.NewInt(2)) > 0, "[%s] x=%d y=%d shift=%d; mod %d: x^-1=%s, e=%d", typ, x, y, sh, m, inv, e)
	_ = fmt.Sprint
}

func TestNum(t *testing.T) {
	vh.Check(t, "a case evaluates every helper on generated operands of one integer type against big integers; non-trivial = the modulus is above 2 and the operand is invertible", 20000, 800000, func(t *rapid.T) {
		switch typ := rapid.SampledFrom([]string{"uint64", "uint32", "int", "int64", "int32", "int16", "int8", "uint", "uint8", "uint16", "uintptr"}).Draw(t, "type"); typ {
		case "uint64":
			numCase[uint64](t, typ, 64, false)
		case "uint32":
			numCase[uint32](t, typ, 32, false)
		case "int":
			numCase[int](t, typ, 64, true)
		case "int64":
			numCase[int64](t, typ, 64, true)
		case "int32":
			numCase[int32](t, typ, 32, true)
		case "int16":
			numCase[int16](t, typ, 16, true)
		case "int8":
			numCase[int8](t, typ, 8, true)
		case "uint":
			numCase[uint](t, typ, 64, false)
		case "uint8":
			numCase[uint8](t, typ, 8, false)
		case "uint16":
			numCase[uint16](t, typ, 16, false)
		case "uintptr":
			numCase[uintptr](t, typ, 64, false)
		}
	})
}
