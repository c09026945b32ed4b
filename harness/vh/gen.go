package vh

import (
	"fmt"

	"pgregory.net/rapid"
)

// Shape is how the bulk values of a case are distributed.
type Shape struct {
	Kind string
	Seed uint64
}

func (s Shape) String() string { return fmt.Sprintf("%s/%x", s.Kind, s.Seed) }

// Shapes are the available value distributions.
var Shapes = []string{"uniform", "extreme", "small", "sparse", "allmax", "allmin", "alt", "halves", "zero", "onehot", "ramp"}

// DrawShape draws a value distribution.
func DrawShape(t *rapid.T, name string) Shape {
	return Shape{Kind: rapid.SampledFrom(Shapes).Draw(t, name+".kind"), Seed: rapid.Uint64().Draw(t, name+".seed")}
}

// DrawShapeOf draws a value distribution among kinds.
func DrawShapeOf(t *rapid.T, name string, kinds ...string) Shape {
	return Shape{Kind: rapid.SampledFrom(kinds).Draw(t, name+".kind"), Seed: rapid.Uint64().Draw(t, name+".seed")}
}

// Fill returns n raw 64-bit patterns; callers truncate them to their type.
// bits is the width of the type, so that extremes land on its boundaries.
func (s Shape) Fill(n, bits int) []uint64 {
	p := NewPRNG(s.Seed)
	v := make([]uint64, n)
	var max uint64 = 1<<uint(bits-1) - 1 + 1<<uint(bits-1)
	half := uint64(1) << uint(bits-1)
	ext := []uint64{0, 1, max, max - 1, half, half - 1, half + 1, 2, 1 << uint(bits/2), 1<<uint(bits/2) - 1, half >> 1, max - half>>1}
	switch s.Kind {
	case "uniform":
		for i := range v {
			v[i] = p.U64()
		}
	case "extreme":
		for i := range v {
			v[i] = ext[p.N(len(ext))]
		}
	case "small":
		for i := range v {
			v[i] = uint64(p.N(17)) - 8
		}
	case "sparse":
		for i := range v {
			if p.N(8) == 0 {
				v[i] = p.U64()
			}
		}
	case "allmax":
		for i := range v {
			v[i] = max
		}
	case "allmin":
		for i := range v {
			v[i] = half
		}
	case "alt":
		for i := range v {
			if i%2 == 0 {
				v[i] = half - 1
			} else {
				v[i] = half
			}
		}
	case "halves":
		for i := range v {
			v[i] = half + uint64(p.N(5)) - 2
		}
	case "onehot":
		if n > 0 {
			v[p.N(n)] = ext[1+p.N(len(ext)-1)]
		}
	case "ramp":
		st := p.U64() | 1
		for i := range v {
			v[i] = uint64(i) * st
		}
	}
	return v
}
