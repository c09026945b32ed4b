package tf

import (
	"math"
	"math/big"
)

type split struct {
	int  uint64
	frac float64
}

// mulAddShift returns (x*y + half)/2^b as integer and fraction.
func mulAddShift(x, y uint64, b uint) split {
	n := new(big.Int).Mul(new(big.Int).SetUint64(x), new(big.Int).SetUint64(y))
	n.Add(n, new(big.Int).Lsh(big.NewInt(1), b-1))
	q, r := new(big.Int), new(big.Int)
	q.Rsh(n, b)
	r.Sub(n, new(big.Int).Lsh(q, b))
	fr, _ := new(big.Float).SetInt(r).Float64()
	return split{q.Uint64(), math.Ldexp(fr, -int(b))}
}
