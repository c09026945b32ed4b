package tfhep

import (
	"math"
	"testing"

	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/tfhe"
	"pgregory.net/rapid"

	"verifharness/tf"
	"verifharness/vh"
)

// bitStat counts agreements of bits that should be independent and fair.
type bitStat struct{ n, agree float64 }

func (b *bitStat) add(same bool) {
	b.n++
	if same {
		b.agree++
	}
}

func (b *bitStat) check(t *rapid.T, what string) {
	if b.n < 64 {
		return
	}
	if z := (b.agree - b.n/2) / math.Sqrt(b.n/4); math.Abs(z) > 8 {
		t.Fatalf("%s: %v of %v", what, b.agree, b.n)
	}
}

// pubFreshCase encrypts under a public key whose rows are multiples of unit
// vectors, so that ciphertexts show the randomness they were made with.
func pubFreshCase[T tfhe.TorusInt](t *rapid.T) {
	v := newEnv[T](t, tf.Opts{Extend: extends, LogN: [2]int{4, 9}, Big: 12, MaxRank: 4, Order: int(tfhe.OrderKeySwitchBlindRotate), BlockCount: true, MaxLogP: 8})
	delta := T(1) << uint(tf.Bits[T]()-2)
	pk := v.enc.GenPublicKey()
	glwe := rapid.Bool().Draw(t, "glwe")
	// Row i goes to component cols[i].
	cols := make([]int, v.K)
	free := rapid.IntRange(0, v.K).Draw(t, "free")
	if !glwe {
		free = 0
	}
	shift := v.pr.N(v.K)
	for i := range cols {
		cols[i] = (i + shift) % v.K
		if cols[i] >= free {
			cols[i]++
		}
	}
	for i := 0; i < v.K; i++ {
		for j := 0; j <= v.K; j++ {
			pk.GLWEKey.Value[i].Value[j].Clear()
			pk.LWEKey.Value[i].Value[j].Clear()
		}
		pk.GLWEKey.Value[i].Value[cols[i]].Coeffs[0] = delta
		pk.LWEKey.Value[i].Value[cols[i]].Coeffs[0] = delta
	}
	e := tfhe.NewPublicEncryptor(v.p, pk)
	if rapid.Bool().Draw(t, "copy") {
		e = e.SafeCopy()
	}
	runs := 4 + 4000/(v.N*v.K)
	if runs > 60 {
		runs = 60
	}
	if !glwe && v.N*v.K <= 128 {
		runs = 420
	}
	noise := make([]tf.NoiseStat, v.K+1)
	body := tf.NoiseStat{}
	ones := make([]bitStat, v.K)
	rows, times, near := bitStat{}, bitStat{}, bitStat{}
	var prev [][]bool
	var errs [][]T
	for r := 0; r < runs; r++ {
		var comp []poly.Poly[T]
		if glwe {
			pt := tfhe.NewGLWEPlaintext(v.p)
			tf.Dirty(v.pr, pt.Value.Coeffs)
			c := v.glwe()
			e.EncryptGLWEPlaintextTo(c, pt)
			for j := range pt.Value.Coeffs {
				c.Value[0].Coeffs[j] -= pt.Value.Coeffs[j]
			}
			comp = c.Value
		} else {
			pt := tfhe.LWEPlaintext[T]{Value: T(v.pr.U64())}
			c := v.lwe()
			e.EncryptLWEPlaintextTo(c, pt)
			body.Add(float64(tf.Signed(c.Value[0] - pt.Value)))
			comp = append(comp, poly.Poly[T]{})
			for j := 0; j < v.K; j++ {
				comp = append(comp, poly.Poly[T]{Coeffs: c.Value[1+j*v.N : 1+(j+1)*v.N]})
			}
		}
		bits := make([][]bool, v.K)
		e := make([][]T, v.K+1)
		for j, p := range comp {
			e[j] = append([]T{}, p.Coeffs...)
		}
		for i, c := range cols {
			for j, x := range e[c] {
				b := (x + delta/2) >> uint(tf.Bits[T]()-2)
				if b > 1 {
					t.Fatalf("public encryption: row %d was taken %d times at %d (%v)", i, b, j, v.set)
				}
				bits[i] = append(bits[i], b == 1)
				e[c][j] -= b * delta
				ones[i].add(b == 1)
			}
			for j := 1; j < len(bits[i]); j++ {
				near.add(bits[i][j] == bits[i][j-1])
			}
			for h := 0; h < i; h++ {
				for j := range bits[i] {
					rows.add(bits[i][j] == bits[h][j])
				}
			}
			if prev != nil {
				for j := range bits[i] {
					times.add(bits[i][j] == prev[i][j])
				}
			}
		}
		for j := range e {
			noise[j].AddAll(e[j])
			// The errors of different components and encryptions are fresh.
			if v.set.Lit.GLWEStdDev*tf.Q[T]() > 8 && len(e[j]) > 0 {
				for h := 0; h < j; h++ {
					if tf.Same(e[j], e[h]) {
						t.Fatalf("public encryption: components %d and %d have the same errors (%v)", j, h, v.set)
					}
				}
				if errs != nil && tf.Same(e[j], errs[j]) {
					t.Fatalf("public encryption: component %d has the same errors twice (%v)", j, v.set)
				}
			}
		}
		prev, errs = bits, e
	}
	for i := range ones {
		ones[i].check(t, "public encryption: coefficients that are one")
	}
	rows.check(t, "public encryption: coefficients that agree between rows")
	times.check(t, "public encryption: coefficients that agree between encryptions")
	near.check(t, "public encryption: coefficients that agree with the next")
	for j := range noise {
		noise[j].Check(t, "public encryption", v.set.Lit.GLWEStdDev*tf.Q[T]())
	}
	body.Check(t, "public LWE body", v.set.Lit.GLWEStdDev*tf.Q[T]())
	vh.Label("glwe=%v", glwe)
	vh.Case(v.K > 1, "%v glwe %v runs %d", v.set, glwe, runs)
}

func TestPublicFresh(t *testing.T) {
	vh.Check(t, "a case encrypts repeatedly under a public key of unit vectors, which shows the randomness used; non-trivial = the rank is above one, so that rows can share randomness", 500, 12000, func(t *rapid.T) { both(t, pubFreshCase[uint32], pubFreshCase[uint64]) })
}
