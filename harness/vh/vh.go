// Package vh is the shared core of the property-based checks: a deterministic
// randomness source, the wrapper around rapid that bounds and counts cases, and
// the statistics written for the evidence file.
package vh

import (
	"crypto/rand"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"strconv"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// drbg is a splitmix64 stream standing in for the operating system's randomness,
// so that every case is a pure function of its generated inputs.
type drbg struct {
	mu sync.Mutex
	s  uint64
}

func (d *drbg) next() uint64 {
	d.s += 0x9e3779b97f4a7c15
	z := d.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (d *drbg) Read(p []byte) (int, error) {
	d.mu.Lock()
	defer d.mu.Unlock()
	var b [8]byte
	for i := 0; i < len(p); i += 8 {
		binary.LittleEndian.PutUint64(b[:], d.next())
		copy(p[i:], b[:])
	}
	return len(p), nil
}

// SeedOS makes crypto/rand deterministic from here on.
func SeedOS(seed uint64) {
	d := &drbg{s: seed}
	d.next()
	rand.Reader = d
}

// PRNG is a small deterministic generator for bulk data derived from a drawn seed.
type PRNG struct{ d drbg }

// NewPRNG returns a PRNG with the given seed.
func NewPRNG(seed uint64) *PRNG { p := &PRNG{drbg{s: seed}}; p.d.next(); return p }

// U64 returns 64 uniform bits.
func (p *PRNG) U64() uint64 { return p.d.next() }

// N returns a value in [0, n).
func (p *PRNG) N(n int) int { return int(p.d.next() % uint64(n)) }

// Range returns a value in [a, b].
func (p *PRNG) Range(a, b int) int { return a + p.N(b-a+1) }

// F returns a float in [0,1).
func (p *PRNG) F() float64 { return float64(p.d.next()>>11) / (1 << 53) }

type testStats struct {
	Test       string         `json:"test"`
	Rule       string         `json:"rule"`
	Evals      int            `json:"evals"`
	Nontrivial int            `json:"nontrivial"`
	Distinct   int            `json:"distinct_nontrivial"`
	Labels     map[string]int `json:"labels"`
	Samples    []string       `json:"samples"`
	Hashes     []uint64       `json:"hashes"`
	seen       map[uint64]struct{}
}

var (
	statMu sync.Mutex
	stats  = map[string]*testStats{}
	order  []string
	cur    *testStats
)

func envInt(k string, d int) int {
	if v, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return v
	}
	return d
}

// Thorough tells whether the thorough tier is running.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// Shards is the number of processes that share this test's case budget.
func Shards() int { return envInt("VH_SHARDS", 1) }

// Shard is the index of this process among Shards.
func Shard() int { return envInt("VH_SHARD", 0) }

// Checks returns the case budget of this process.
func Checks(quick, thorough int) int {
	n := quick
	if quick > 16 { // not the volume tests, whose single cases are long
		n *= 3
	}
	if Thorough() {
		n = thorough
	}
	div := envInt("VH_DIV", 1)
	n = (n + Shards()*div - 1) / (Shards() * div)
	if n < 1 {
		n = 1
	}
	return n
}

// Check runs prop on generated cases: quick (thorough) is the case budget, rule
// says what a case is and what makes it non-trivial.
func Check(t *testing.T, rule string, quick, thorough int, prop func(*rapid.T)) {
	t.Helper()
	begin(t, rule)
	if err := flag.Set("rapid.checks", strconv.Itoa(Checks(quick, thorough))); err != nil {
		t.Fatal(err)
	}
	if os.Getenv("VH_SHRINK") == "" {
		_ = flag.Set("rapid.shrinktime", "15s")
	}
	caseStart.Store(time.Now().UnixNano())
	watch.Do(func() { go watchdog() })
	rapid.Check(t, func(rt *rapid.T) {
		caseStart.Store(time.Now().UnixNano())
		SeedOS(rapid.Uint64().Draw(rt, "osSeed"))
		prop(rt)
	})
	caseStart.Store(0)
}

var (
	caseStart atomic.Int64
	watch     sync.Once
)

// hangLimit is far above the time of any case.
const hangLimit = 200 * time.Second

// watchdog ends the process with all stacks when a case does not terminate.
func watchdog() {
	for {
		time.Sleep(time.Second)
		s := caseStart.Load()
		if s != 0 && time.Since(time.Unix(0, s)) > hangLimit {
			buf := make([]byte, 1<<20)
			buf = buf[:runtime.Stack(buf, true)]
			fmt.Printf("VH-HANG a case did not terminate in %v\n%s\n", hangLimit, buf)
			os.Exit(4)
		}
	}
}

// Steps sets the average number of steps of rapid's Repeat.
func Steps(n int) { _ = flag.Set("rapid.steps", strconv.Itoa(n)) }

func begin(t *testing.T, rule string) {
	statMu.Lock()
	defer statMu.Unlock()
	cur = &testStats{Test: t.Name(), Rule: rule, Labels: map[string]int{}, seen: map[uint64]struct{}{}}
	stats[t.Name()] = cur
	order = append(order, t.Name())
}

// Case records one evaluated case. Its description identifies it.
func Case(nontrivial bool, format string, args ...any) {
	statMu.Lock()
	defer statMu.Unlock()
	if cur == nil {
		return
	}
	cur.Evals++
	if !nontrivial {
		return
	}
	cur.Nontrivial++
	s := fmt.Sprintf(format, args...)
	h := fnv.New64a()
	h.Write([]byte(s))
	k := h.Sum64()
	if _, ok := cur.seen[k]; !ok {
		cur.seen[k] = struct{}{}
		cur.Distinct++
		if len(cur.Samples) < 3 || (len(cur.Samples) < 5 && k%64 == 0) {
			if len(s) > 600 {
				s = s[:600] + "..."
			}
			cur.Samples = append(cur.Samples, s)
		}
	}
}

// Label counts a class of generated cases.
func Label(format string, args ...any) {
	statMu.Lock()
	defer statMu.Unlock()
	if cur != nil {
		cur.Labels[fmt.Sprintf(format, args...)]++
	}
}

// Main runs the tests of a package and writes the statistics.
func Main(m *testing.M) {
	flag.Parse()
	code := m.Run()
	if f := os.Getenv("VH_STATS"); f != "" {
		statMu.Lock()
		var all []*testStats
		for _, n := range order {
			for h := range stats[n].seen {
				stats[n].Hashes = append(stats[n].Hashes, h)
			}
			all = append(all, stats[n])
		}
		b, _ := json.Marshal(all)
		_ = os.WriteFile(f, b, 0o644)
		statMu.Unlock()
	}
	os.Exit(code)
}

// Panics reports whether f panics.
func Panics(f func()) (p bool) {
	defer func() {
		if recover() != nil {
			p = true
		}
	}()
	f()
	return false
}
