package mathp

import (
	"crypto/rand"
	"encoding/binary"
	"math"
	"sort"
	"testing"
	"unsafe"

	"github.com/sp301415/tfhe-go/math/csprng"
	"github.com/sp301415/tfhe-go/math/num"
	"github.com/sp301415/tfhe-go/math/poly"
	"pgregory.net/rapid"

	"verifharness/vh"
)

type integer = num.Integer

// chi2z returns the approximate standard normal quantile of a chi-squared
// statistic (Wilson-Hilferty), merging bins with a small expectation.
func chi2z(obs []float64, exp []float64) float64 {
	var so, se, x2 float64
	df := -1
	flush := func() {
		if se > 0 {
			x2 += (so - se) * (so - se) / se
			df++
		}
		so, se = 0, 0
	}
	for i := range obs {
		so += obs[i]
		se += exp[i]
		if se >= 40 {
			flush()
		}
	}
	if se > 0 {
		if se < 40 {
			// Fold the remainder in conservatively.
			if so > se+12*math.Sqrt(se)+40 {
				return math.Inf(1)
			}
		} else {
			flush()
		}
	}
	if df < 1 {
		return 0
	}
	d := float64(df)
	return (math.Cbrt(x2/d) - (1 - 2/(9*d))) / math.Sqrt(2/(9*d))
}

// statZ is how many standard deviations a statistic may stray.
const statZ = 7.5

func drawSeed(t *rapid.T, name string) []byte {
	if rapid.IntRange(0, 9).Draw(t, name+"Long") == 9 {
		// All of a long seed counts.
		p := vh.NewPRNG(rapid.Uint64().Draw(t, name+"Data"))
		b := make([]byte, rapid.IntRange(1, 5000).Draw(t, name+"Len"))
		for i := range b {
			b[i] = byte(p.U64())
		}
		return b
	}
	return rapid.SliceOfN(rapid.Byte(), 0, 70).Draw(t, name)
}

// windows returns the consecutive 8-byte windows of a run of samples.
func windows[T integer](v []T) map[uint64]int {
	b := unsafe.Slice((*byte)(unsafe.Pointer(&v[0])), len(v)*int(unsafe.Sizeof(v[0])))
	m := map[uint64]int{}
	for i := 0; i+8 <= len(b); i += 8 {
		m[binary.LittleEndian.Uint64(b[i:])]++
	}
	return m
}

func uniformCase[T integer](t *rapid.T, typ string) {
	sz := int(unsafe.Sizeof(T(0)))
	seed := drawSeed(t, "seed")
	a, b := csprng.NewUniformSamplerWithSeed[T](seed), csprng.NewUniformSamplerWithSeed[T](seed)
	pr := vh.NewPRNG(rapid.Uint64().Draw(t, "plan"))
	total := 30000 / sz
	var out []T
	dirty := func(n int) []T {
		v := make([]T, n)
		for i := range v {
			v[i] = T(pr.U64())
		}
		return v
	}
	for len(out) < total {
		switch pr.N(4) {
		case 0:
			x, y := a.Sample(), b.Sample()
			if x != y {
				t.Fatalf("%s: same seed, different samples %v, %v", typ, x, y)
			}
			out = append(out, x)
		case 1, 2:
			n := pr.Range(1, 3000)
			x, y := dirty(n), dirty(n)
			if pr.N(2) == 0 {
				a.SampleVecTo(x)
				b.SampleVecTo(y)
			} else {
				a.SamplePolyTo(poly.Poly[T]{Coeffs: x})
				b.SamplePolyTo(poly.Poly[T]{Coeffs: y})
			}
			for i := range x {
				if x[i] != y[i] {
					t.Fatalf("%s: same seed and calls, vectors of length %d differ at %d (depends on the previous contents)", typ, n, i)
				}
			}
			out = append(out, x...)
		case 3:
			N := T(pr.U64() >> 1)
			if pr.N(2) == 0 {
				N = T(1 + pr.N(100))
			}
			if N <= 0 {
				N = 1
			}
			x, y := a.SampleN(N), b.SampleN(N)
			if x != y {
				t.Fatalf("%s: same seed, SampleN(%v) = %v, %v", typ, N, x, y)
			}
			if x < 0 || x >= N {
				t.Fatalf("%s: SampleN(%v) = %v out of range", typ, N, x)
			}
		}
	}
	for w, c := range windows(out) {
		if c > 1 {
			t.Fatalf("%s: the 64-bit word %x repeats within %d samples", typ, w, len(out))
		}
	}
	bits := 8 * sz
	ones := make([]int, bits)
	toggles := make([]int, bits)
	for i, x := range out {
		for j := 0; j < bits; j++ {
			ones[j] += int(uint64(x) >> uint(j) & 1)
			if i > 0 {
				toggles[j] += int((uint64(x) ^ uint64(out[i-1])) >> uint(j) & 1)
			}
		}
	}
	n := float64(len(out))
	for j := range ones {
		if z := math.Abs(float64(ones[j])-n/2) / math.Sqrt(n/4); z > statZ {
			t.Fatalf("%s: bit %d is set in %d of %d samples", typ, j, ones[j], len(out))
		}
		if z := math.Abs(float64(toggles[j])-(n-1)/2) / math.Sqrt((n-1)/4); z > statZ {
			t.Fatalf("%s: bit %d changes between neighbours %d times of %d", typ, j, toggles[j], len(out)-1)
		}
	}
	// A different seed gives an unrelated stream.
	other := append([]byte{}, seed...)
	how := rapid.SampledFrom([]string{"flip", "append0", "prepend0", "drop"}).Draw(t, "other")
	switch {
	case how == "flip" && len(other) > 0:
		other[pr.N(len(other))] ^= 1 << uint(pr.N(8))
	case how == "drop" && len(other) > 0:
		other = other[:len(other)-1]
	case how == "prepend0":
		other = append([]byte{0}, other...)
	default:
		other = append(other, 0)
	}
	o := csprng.NewUniformSamplerWithSeed[T](other)
	ov := make([]T, 4096/sz)
	o.SampleVecTo(ov)
	fresh := csprng.NewUniformSamplerWithSeed[T](seed)
	fv := make([]T, 4096/sz)
	fresh.SampleVecTo(fv)
	fw := windows(fv)
	for w := range windows(ov) {
		if fw[w] > 0 {
			t.Fatalf("%s: seeds %x and %x give streams sharing %x", typ, seed, other, w)
		}
	}
	vh.Label("uniform %s", typ)
	vh.Case(len(out)*sz > 8192, "%s seed=%x other=%s samples=%d", typ, seed, how, len(out))
}

func sampleNCase[T integer](t *rapid.T, typ string) {
	sz := int(unsafe.Sizeof(T(0)))
	var zero T
	signed := zero-1 < 0
	max := uint64(1)<<uint(8*sz-1) - 1
	if !signed {
		max = max*2 + 1
	}
	var N uint64
	switch rapid.SampledFrom([]string{"small", "small", "threequarter", "any", "top"}).Draw(t, "modulus") {
	case "small":
		N = rapid.Uint64Range(1, 40).Draw(t, "N")
	case "threequarter":
		N = max/4*3 - rapid.Uint64Range(0, max/64).Draw(t, "N")
	case "any":
		N = rapid.Uint64Range(1, max).Draw(t, "N")
	case "top":
		N = max - rapid.Uint64Range(0, 3).Draw(t, "N")
	}
	s := csprng.NewUniformSamplerWithSeed[T](drawSeed(t, "seed"))
	k := uint64(48)
	if N < k {
		k = N
	}
	cnt := 12000
	if sz == 1 {
		// Every value has its own bin: one value in excess shows.
		cnt, k = 80000, N
	}
	obs := make([]float64, k)
	exp := make([]float64, k)
	// Bin j holds the x with floor(x*k/N) = j.
	lo := func(j uint64) uint64 { // ceil(j*N/k)
		q, r := N/k, N%k
		return j*q + (j*r+k-1)/k
	}
	for j := range exp {
		exp[j] = float64(lo(uint64(j)+1)-lo(uint64(j))) / float64(N) * float64(cnt)
	}
	for i := 0; i < cnt; i++ {
		x := s.SampleN(T(N))
		if x < 0 || uint64(x) >= N {
			t.Fatalf("%s: SampleN(%d) = %v out of range", typ, N, x)
		}
		j := uint64(sort.Search(int(k), func(j int) bool { return lo(uint64(j)+1) > uint64(x) }))
		obs[j]++
	}
	if z := chi2z(obs, exp); z > statZ {
		t.Fatalf("%s: SampleN(%d) is not uniform (z=%.1f): %v", typ, N, z, obs)
	}
	vh.Label("sampleN %s", typ)
	vh.Case(N > 1, "%s N=%d", typ, N)
}

func binaryCase[T integer](t *rapid.T, typ string) {
	seed := drawSeed(t, "seed")
	s := csprng.NewBinarySamplerWithSeed[T](seed)
	s2 := csprng.NewBinarySamplerWithSeed[T](seed)
	n := rapid.IntRange(1, 300).Draw(t, "n")
	polyForm := rapid.Bool().Draw(t, "poly")
	one := rapid.Bool().Draw(t, "single")
	const R = 1500
	ones := make([]int, n)
	same1 := make([]int, n)
	same64 := make([]int, n)
	same3 := make([]int, n)
	x, y := make([]T, n), make([]T, n)
	prev := make([]T, n)
	same := make([]int, n)
	for r := 0; r < R; r++ {
		for i := range x {
			x[i], y[i] = T(r+i), T(7*i)
		}
		switch {
		case one:
			for i := range x {
				x[i], y[i] = s.Sample(), s2.Sample()
			}
		case polyForm:
			s.SamplePolyTo(poly.Poly[T]{Coeffs: x})
			s2.SamplePolyTo(poly.Poly[T]{Coeffs: y})
		default:
			s.SampleVecTo(x)
			s2.SampleVecTo(y)
		}
		for i := range x {
			if x[i] != y[i] {
				t.Fatalf("%s: same seed, different bits at %d", typ, i)
			}
			if x[i] != 0 && x[i] != 1 {
				t.Fatalf("%s: binary sample %v at %d of %d", typ, x[i], i, n)
			}
			ones[i] += int(x[i])
			if i > 0 && x[i] == x[i-1] {
				same1[i]++
			}
			if i > 2 && x[i] == x[i-3] {
				same3[i]++
			}
			if i >= 64 && x[i] == x[i-64] {
				same64[i]++
			}
			if r > 0 && prev[i] == x[i] {
				same[i]++
			}
		}
		copy(prev, x)
	}
	dev := func(c, n int) float64 { return math.Abs(float64(c)-float64(n)/2) / math.Sqrt(float64(n)/4) }
	for i := range ones {
		if dev(ones[i], R) > statZ {
			t.Fatalf("%s n=%d: position %d is 1 in %d of %d vectors", typ, n, i, ones[i], R)
		}
		if dev(same[i], R-1) > statZ {
			t.Fatalf("%s n=%d: position %d agrees with the previous vector %d of %d times", typ, n, i, same[i], R)
		}
		if i > 0 && dev(same1[i], R) > statZ || i > 2 && dev(same3[i], R) > statZ || i >= 64 && dev(same64[i], R) > statZ {
			t.Fatalf("%s n=%d: position %d is correlated with an earlier one (%d, %d, %d of %d)", typ, n, i, same1[i], same3[i], same64[i], R)
		}
	}
	vh.Label("binary %s single=%v", typ, one)
	vh.Case(n > 1, "%s binary seed=%x n=%d poly=%v single=%v", typ, seed, n, polyForm, one)
}

func blockCase[T integer](t *rapid.T, typ string) {
	seed := drawSeed(t, "seed")
	s := csprng.NewBinarySamplerWithSeed[T](seed)
	s2 := csprng.NewBinarySamplerWithSeed[T](seed)
	bs := rapid.IntRange(1, 9).Draw(t, "blockSize")
	bc := rapid.IntRange(1, 30).Draw(t, "blocks")
	polyForm := rapid.Bool().Draw(t, "poly")
	n := bs * bc
	R := 12000/bc + 1
	first := make([]float64, bs+1)
	all := make([]float64, bs+1)
	pair := make([]float64, (bs+1)*(bs+1))
	x, y := make([]T, n), make([]T, n)
	for r := 0; r < R; r++ {
		for i := range x {
			x[i], y[i] = T(r+3*i+1), 1
		}
		if polyForm {
			s.SampleBlockPolyTo(poly.Poly[T]{Coeffs: x}, bs)
			s2.SampleBlockPolyTo(poly.Poly[T]{Coeffs: y}, bs)
		} else {
			s.SampleBlockVecTo(x, bs)
			s2.SampleBlockVecTo(y, bs)
		}
		last := -1
		for b := 0; b < bc; b++ {
			pos := bs
			for j := 0; j < bs; j++ {
				v := x[b*bs+j]
				if v != y[b*bs+j] {
					t.Fatalf("%s: same seed, different block samples", typ)
				}
				if v == 0 {
					continue
				}
				if v != 1 || pos != bs {
					t.Fatalf("%s: block %d of size %d is %v", typ, b, bs, x[b*bs:(b+1)*bs])
				}
				pos = j
			}
			if b == 0 {
				first[pos]++
			}
			all[pos]++
			if last >= 0 {
				pair[last*(bs+1)+pos]++
			}
			last = pos
		}
	}
	flat := func(c []float64, what string) {
		var tot float64
		for _, v := range c {
			tot += v
		}
		e := make([]float64, len(c))
		for i := range e {
			e[i] = tot / float64(len(c))
		}
		if tot > 0 {
			if z := chi2z(c, e); z > statZ {
				t.Fatalf("%s: %s, block size %d, not uniform (z=%.1f): %v", typ, what, bs, z, c)
			}
		}
	}
	flat(first, "position in the first block")
	flat(all, "position in all blocks")
	flat(pair, "positions in neighbouring blocks")
	if bs > 1 && !vh.Panics(func() { s.SampleBlockVecTo(make([]T, n+1), bs) }) {
		t.Fatalf("%s: a length of %d is accepted for block size %d", typ, n+1, bs)
	}
	vh.Label("block %s", typ)
	vh.Case(bs > 1, "%s block seed=%x blockSize=%d blocks=%d", typ, seed, bs, bc)
}

type fixedReader struct {
	flip int
	read int
}

func (r *fixedReader) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(37*r.read + 11)
		if r.read == r.flip {
			p[i] ^= 0x10
		}
		r.read++
	}
	return len(p), nil
}

// entropyCase checks how unseeded samplers depend on the operating system.
func entropyCase(t *rapid.T) {
	kind := rapid.SampledFrom([]string{"uniform", "binary", "gaussian"}).Draw(t, "kind")
	stream := func() [64]uint64 {
		var v [64]uint64
		switch kind {
		case "uniform":
			s := csprng.NewUniformSampler[uint64]()
			for i := range v {
				v[i] = s.Sample()
			}
		case "binary":
			s := csprng.NewBinarySampler[uint64]()
			b := make([]uint64, 64*64)
			s.SampleVecTo(b)
			for i := range v {
				for j := 0; j < 64; j++ {
					v[i] = v[i]<<1 | b[64*i+j]
				}
			}
		default:
			s := csprng.NewGaussianSampler[uint64]()
			for i := range v {
				v[i] = s.Sample(1 << 40)
			}
		}
		return v
	}
	a, b := stream(), stream()
	if a == b {
		t.Fatalf("two unseeded %s samplers produce the same stream", kind)
	}
	for i := range a {
		if a[i] == b[i] && kind != "gaussian" {
			t.Fatalf("two unseeded %s samplers agree at %d", kind, i)
		}
	}
	saved := rand.Reader
	defer func() { rand.Reader = saved }()
	r0 := &fixedReader{flip: -1}
	rand.Reader = r0
	base := stream()
	if r0.read < 16 {
		t.Fatalf("an unseeded %s sampler takes only %d bytes of entropy", kind, r0.read)
	}
	pos := rapid.IntRange(0, r0.read-1).Draw(t, "pos")
	rand.Reader = &fixedReader{flip: pos}
	if stream() == base {
		t.Fatalf("an unseeded %s sampler ignores byte %d of its %d bytes of entropy", kind, pos, r0.read)
	}
	vh.Label("entropy %s", kind)
	vh.Case(true, "entropy %s byte %d of %d", kind, pos, r0.read)
}

func TestUniformBinary(t *testing.T) {
	vh.Check(t, "a case draws a stream (uniform, bounded, binary, block-binary or unseeded) for a generated seed, type, size and call pattern and tests range, determinism, independence and distribution; non-trivial = the support has more than one element and the stream crosses an internal buffer where it has one", 2000, 60000, func(t *rapid.T) {
		kind := rapid.SampledFrom([]string{"uniform", "uniform", "sampleN", "sampleN", "binary", "block", "entropy"}).Draw(t, "sampler")
		if kind == "entropy" {
			entropyCase(t)
			return
		}
		typ := rapid.SampledFrom([]string{"uint64", "uint32", "uint8", "uint16", "int64", "int32", "int8", "int16", "int", "uint", "uintptr"}).Draw(t, "type")
		switch typ {
		case "uint64":
			samplerCase[uint64](t, kind, typ)
		case "uint32":
			samplerCase[uint32](t, kind, typ)
		case "uint8":
			samplerCase[uint8](t, kind, typ)
		case "uint16":
			samplerCase[uint16](t, kind, typ)
		case "int64":
			samplerCase[int64](t, kind, typ)
		case "int32":
			samplerCase[int32](t, kind, typ)
		case "int8":
			samplerCase[int8](t, kind, typ)
		case "int16":
			samplerCase[int16](t, kind, typ)
		case "int":
			samplerCase[int](t, kind, typ)
		case "uint":
			samplerCase[uint](t, kind, typ)
		case "uintptr":
			samplerCase[uintptr](t, kind, typ)
		}
	})
}

func samplerCase[T integer](t *rapid.T, kind, typ string) {
	switch kind {
	case "uniform":
		uniformCase[T](t, typ)
	case "sampleN":
		sampleNCase[T](t, typ)
	case "binary":
		binaryCase[T](t, typ)
	case "block":
		blockCase[T](t, typ)
	}
}

func phi(x float64) float64 { return 0.5 * math.Erfc(-x/math.Sqrt2) }

// gaussSamples draws n samples in the given form, as signed integers.
func gaussSamples[T integer](t *rapid.T, s *csprng.GaussianSampler[T], form string, sd float64, n int) []int64 {
	sz := uint(8 * unsafe.Sizeof(T(0)))
	toS := func(x T) int64 { return int64(uint64(x)<<(64-sz)) >> (64 - sz) }
	out := make([]int64, n)
	if form == "single" {
		for i := range out {
			out[i] = toS(s.Sample(sd))
		}
		return out
	}
	const chunk = 1 << 12
	buf := make([]T, chunk)
	base := make([]T, chunk)
	pr := vh.NewPRNG(uint64(n))
	for o := 0; o < n; o += chunk {
		k := chunk
		if n-o < k {
			k = n - o
		}
		for i := range base {
			base[i] = T(pr.U64())
		}
		copy(buf, base)
		p := poly.Poly[T]{Coeffs: buf[:k]}
		switch form {
		case "vec":
			s.SampleVecTo(buf[:k], sd)
		case "poly":
			s.SamplePolyTo(p, sd)
		case "add":
			s.SamplePolyAddTo(p, sd)
		case "sub":
			s.SamplePolySubTo(p, sd)
		}
		for i := 0; i < k; i++ {
			switch form {
			case "add":
				out[o+i] = toS(buf[i] - base[i])
			case "sub":
				out[o+i] = toS(base[i] - buf[i])
			default:
				out[o+i] = toS(buf[i])
			}
		}
	}
	return out
}

func gaussCase[T integer](t *rapid.T, typ string, n int) {
	bits := int(8 * unsafe.Sizeof(T(0)))
	seed := drawSeed(t, "seed")
	form := rapid.SampledFrom([]string{"single", "vec", "poly", "add", "sub"}).Draw(t, "form")
	sd := 0.0
	switch rapid.SampledFrom([]string{"unit", "small", "any", "large"}).Draw(t, "scale") {
	case "unit":
		sd = rapid.Float64Range(0.05, 2).Draw(t, "stdDev")
	case "small":
		sd = rapid.Float64Range(2, 10).Draw(t, "stdDev")
	case "any":
		sd = math.Exp2(rapid.Float64Range(0, float64(bits-4)).Draw(t, "stdDev"))
	case "large":
		sd = math.Exp2(float64(bits - 4))
	}
	if sd > math.Exp2(float64(bits-4)) {
		sd = math.Exp2(float64(bits - 4))
	}
	s := csprng.NewGaussianSamplerWithSeed[T](seed, sd)
	x := gaussSamples(t, s, form, sd, n)
	// The same seed reproduces the stream whatever the output held before.
	m := 2000
	if m > n {
		m = n
	}
	y := gaussSamples(t, csprng.NewGaussianSamplerWithSeed[T](seed, sd), form, sd, m)
	for i := range y {
		if x[i] != y[i] {
			t.Fatalf("%s %s: same seed, sample %d is %d then %d", typ, form, i, x[i], y[i])
		}
	}
	// Bin edges at quantiles, with a fine grid in the tails.
	var edges []int64
	add := func(q float64) {
		e := int64(math.Floor(q * sd))
		if len(edges) == 0 || e > edges[len(edges)-1] {
			edges = append(edges, e)
		}
	}
	for q := -4.75; q < 4.76; q += 0.05 {
		add(q)
	}
	obs := make([]float64, len(edges)+1)
	exp := make([]float64, len(edges)+1)
	prev := 0.0
	for i, e := range edges {
		c := phi((float64(e) + 0.5) / sd)
		exp[i] = (c - prev) * float64(n)
		prev = c
	}
	exp[len(edges)] = (1 - prev) * float64(n)
	var sum, sum2 float64
	var cross float64
	for i, v := range x {
		obs[sort.Search(len(edges), func(j int) bool { return v <= edges[j] })]++
		f := float64(v) / sd
		sum += f
		sum2 += f * f
		if i > 0 {
			cross += f * float64(x[i-1]) / sd
		}
		if math.Abs(f) > 10+1/sd {
			t.Fatalf("%s %s: sample %d is %.1f standard deviations out", typ, form, v, f)
		}
	}
	if z := chi2z(obs, exp); z > statZ {
		t.Fatalf("%s %s stdDev=%g: %d samples do not follow the rounded Gaussian (z=%.1f)", typ, form, sd, n, z)
	}
	// Mean, variance and correlation; rounding adds at most 1/4 to the variance.
	nf := float64(n)
	v0 := 0.0
	for k := -60; k <= 60; k++ {
		if sd < 5 {
			v0 += float64(k*k) * (phi((float64(k)+.5)/sd) - phi((float64(k)-.5)/sd))
		}
	}
	if sd >= 5 {
		v0 = sd*sd + 1.0/12
	}
	v0 /= sd * sd
	if math.Abs(sum) > statZ*math.Sqrt(nf*v0) {
		t.Fatalf("%s %s stdDev=%g: mean %g standard deviations over %d samples", typ, form, sd, sum/nf, n)
	}
	if sd > 0.4 && math.Abs(sum2/nf-v0) > statZ*v0*math.Sqrt(4/nf) {
		t.Fatalf("%s %s stdDev=%g: variance is %g of the expected one over %d samples", typ, form, sd, sum2/nf/v0, n)
	}
	if math.Abs(cross) > statZ*v0*math.Sqrt(nf)*1.1+statZ {
		t.Fatalf("%s %s stdDev=%g: neighbours are correlated: %g over %d samples", typ, form, sd, cross/nf, n)
	}
	if !vh.Panics(func() { s.Sample(-sd) }) || !vh.Panics(func() { s.SampleVecTo(make([]T, 1), -sd) }) ||
		!vh.Panics(func() { s.SamplePolyAddTo(poly.NewPoly[T](1<<4), -sd) }) || !vh.Panics(func() { s.SamplePolySubTo(poly.NewPoly[T](1<<4), -sd) }) {
		t.Fatalf("%s: a negative standard deviation is accepted", typ)
	}
	if z := s.Sample(0); z != 0 {
		t.Fatalf("%s: stdDev 0 gives %v", typ, z)
	}
	vh.Label("gauss %s %s", typ, form)
	vh.Case(sd > 0.1, "%s %s seed=%x stdDev=%g samples=%d", typ, form, seed, sd, n)
}

func TestGaussian(t *testing.T) {
	vh.Check(t, "a case draws a generated number of samples in one of the five forms (single, vector, polynomial, added, subtracted) for a generated seed, type and standard deviation and tests them against the rounded Gaussian law; non-trivial = the standard deviation is above 0.1", 320, 12000, func(t *rapid.T) {
		n := rapid.SampledFrom([]int{50000, 200000, 1000000}).Draw(t, "samples")
		switch typ := rapid.SampledFrom([]string{"uint64", "uint32", "int64", "int32", "uint64", "uint16", "int8", "int", "int16", "uint8", "uint", "uintptr"}).Draw(t, "type"); typ {
		case "uint64":
			gaussCase[uint64](t, typ, n)
		case "uint32":
			gaussCase[uint32](t, typ, n)
		case "int64":
			gaussCase[int64](t, typ, n)
		case "int32":
			gaussCase[int32](t, typ, n)
		case "uint16":
			gaussCase[uint16](t, typ, n)
		case "int16":
			gaussCase[int16](t, typ, n)
		case "uint8":
			gaussCase[uint8](t, typ, n)
		case "uint":
			gaussCase[uint](t, typ, n)
		case "uintptr":
			gaussCase[uintptr](t, typ, n)
		case "int8":
			gaussCase[int8](t, typ, n)
		case "int":
			gaussCase[int](t, typ, n)
		}
	})
}

func volumeCase[T integer](t *rapid.T, typ string, n int) {
	bits := int(8 * unsafe.Sizeof(T(0)))
	seed := drawSeed(t, "seed")
	sd := math.Exp2(rapid.Float64Range(float64(bits-8), float64(bits-4)).Draw(t, "logStdDev"))
	s := csprng.NewGaussianSamplerWithSeed[T](seed, sd)
	// Bins of equal width for either sign, the last reaching to infinity.
	const half, span = 700, 5.0
	width := sd * span / half
	obs := make([]float64, 2*half+2)
	var cross, last float64
	v := make([]T, 1<<14)
	p := poly.Poly[T]{Coeffs: v}
	form := rapid.SampledFrom([]string{"vec", "poly", "add", "sub", "single"}).Draw(t, "form")
	for o := 0; o < n; o += len(v) {
		switch form {
		case "vec":
			s.SampleVecTo(v, sd)
		case "poly":
			s.SamplePolyTo(p, sd)
		case "add":
			for i := range v {
				v[i] = 0
			}
			s.SamplePolyAddTo(p, sd)
		case "sub":
			for i := range v {
				v[i] = 0
			}
			s.SamplePolySubTo(p, sd)
		case "single":
			for i := range v {
				v[i] = s.Sample(sd)
			}
		}
		for _, y := range v {
			f := float64(int64(uint64(y)<<(64-uint(bits))) >> (64 - uint(bits)))
			if form == "sub" {
				f = -f
			}
			cross += f * last
			last = f
			off := 0
			if f < 0 {
				f, off = -f, half+1
			}
			k := int(f / width)
			if k > half {
				k = half
			}
			obs[off+k]++
		}
	}
	total := 0.0
	for _, x := range obs {
		total += x
	}
	exp := make([]float64, len(obs))
	for k := 0; k <= half; k++ {
		hi := 1.0
		if k < half {
			hi = math.Erf(span * float64(k+1) / half / math.Sqrt2)
		}
		exp[k] = total / 2 * (hi - math.Erf(span*float64(k)/half/math.Sqrt2))
		exp[half+1+k] = exp[k]
	}
	if z := chi2z(obs, exp); z > statZ {
		t.Fatalf("%s %s stdDev=%g: %g samples do not follow the rounded Gaussian (z=%.1f)", typ, form, sd, total, z)
	}
	for k := 0; k <= half; k++ {
		// Single bins, of one sign and of both.
		for _, x := range [][2]float64{{obs[k], exp[k]}, {obs[half+1+k], exp[half+1+k]}, {obs[k] + obs[half+1+k], exp[k] + exp[half+1+k]}} {
			if z := (x[0] - x[1]) / math.Sqrt(x[1]); x[1] > 1000 && math.Abs(z) > statZ {
				t.Fatalf("%s %s stdDev=%g: %g of %g samples are %.4f to %.4f deviations away from zero, expected %g (z=%.1f)", typ, form, sd, x[0], total, span*float64(k)/half, span*float64(k+1)/half, x[1], z)
			}
		}
	}
	if c := cross / sd / sd; math.Abs(c) > statZ*math.Sqrt(total) {
		t.Fatalf("%s %s stdDev=%g: neighbours are correlated: %g over %g samples", typ, form, sd, c/total, total)
	}
	vh.Label("%s", form)
	vh.Case(true, "%s %s seed=%x stdDev=%g samples=%g", typ, form, seed, sd, total)
}

func TestGaussianVolume(t *testing.T) {
	n := 1 << 29
	vh.Check(t, "a case tests half a billion samples of one generated seed, type, form and large standard deviation against the rounded Gaussian law in 1400 narrow bins; every case is non-trivial", 8, 200, func(t *rapid.T) {
		switch typ := rapid.SampledFrom([]string{"uint64", "int64", "uint32"}).Draw(t, "type"); typ {
		case "uint64":
			volumeCase[uint64](t, typ, n)
		case "int64":
			volumeCase[int64](t, typ, n)
		case "uint32":
			volumeCase[uint32](t, typ, n)
		}
	})
}
