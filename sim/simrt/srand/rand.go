// Package srand holds the simulated global functions of math/rand.
package srand

import (
	"math"
	"math/bits"
	"math/rand"
	"simrt"
)

func u() uint64 { return simrt.Rand64() }

func below(n uint64) uint64 { h, _ := bits.Mul64(u(), n); return h }

// Seed reseeds.
func Seed(s int64) { simrt.SeedRand(uint64(s)) }

// Float64 is in [0,1).
func Float64() float64 { return float64(u()>>11) / (1 << 53) }

// Float32 is in [0,1).
func Float32() float32 { return float32(u()>>40) / (1 << 24) }

// Int63 is a non-negative 63-bit integer.
func Int63() int64 { return int64(u() >> 1) }

// Int31 is a non-negative 31-bit integer.
func Int31() int32 { return int32(u() >> 33) }

// Int is a non-negative integer.
func Int() int { return int(u() >> 1) }

// Uint32 is a 32-bit integer.
func Uint32() uint32 { return uint32(u() >> 32) }

// Uint64 is a 64-bit integer.
func Uint64() uint64 { return u() }

// Intn is in [0,n).
func Intn(n int) int {
	if n <= 0 {
		panic("invalid argument to Intn")
	}
	return int(below(uint64(n)))
}

// Int31n is in [0,n).
func Int31n(n int32) int32 {
	if n <= 0 {
		panic("invalid argument to Int31n")
	}
	return int32(below(uint64(n)))
}

// Int63n is in [0,n).
func Int63n(n int64) int64 {
	if n <= 0 {
		panic("invalid argument to Int63n")
	}
	return int64(below(uint64(n)))
}

// Perm is a permutation.
func Perm(n int) []int {
	m := make([]int, n)
	for i := range m {
		j := Intn(i + 1)
		m[i] = m[j]
		m[j] = i
	}
	return m
}

// Shuffle shuffles.
func Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, Intn(i+1))
	}
}

// NormFloat64 is normally distributed.
func NormFloat64() float64 {
	a, b := 1-Float64(), Float64()
	return math.Sqrt(-2*math.Log(a)) * math.Cos(2*math.Pi*b)
}

// ExpFloat64 is exponentially distributed.
func ExpFloat64() float64 { return -math.Log(1 - Float64()) }

// Read fills p.
func Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(u() >> 56)
	}
	return len(p), nil
}

type source struct{ s uint64 }

func (s *source) Seed(x int64) { s.s = uint64(x) }
func (s *source) Uint64() uint64 {
	s.s += 0x9e3779b97f4a7c15
	return simrt.Mix(s.s, 17)
}
func (s *source) Int63() int64 { return int64(s.Uint64() >> 1) }

// Rand draws from a source of the program's own.
type Rand struct{ src rand.Source }

// New makes a Rand.
func New(src rand.Source) *Rand { return &Rand{src} }

func (r *Rand) u() uint64 {
	if s, ok := r.src.(rand.Source64); ok {
		return simrt.RandOf(s.Uint64())
	}
	return simrt.RandOf(uint64(r.src.Int63())<<1 | uint64(r.src.Int63())&1)
}

// The methods are those of the global functions.
func (r *Rand) below(n uint64) uint64 { h, _ := bits.Mul64(r.u(), n); return h }
func (r *Rand) Seed(s int64)          { r.src.Seed(s) }
func (r *Rand) Float64() float64      { return float64(r.u()>>11) / (1 << 53) }
func (r *Rand) Float32() float32      { return float32(r.u()>>40) / (1 << 24) }
func (r *Rand) Int63() int64          { return int64(r.u() >> 1) }
func (r *Rand) Int31() int32          { return int32(r.u() >> 33) }
func (r *Rand) Int() int              { return int(r.u() >> 1) }
func (r *Rand) Uint32() uint32        { return uint32(r.u() >> 32) }
func (r *Rand) Uint64() uint64        { return r.u() }
func (r *Rand) Intn(n int) int {
	if n <= 0 {
		panic("invalid argument to Intn")
	}
	return int(r.below(uint64(n)))
}
func (r *Rand) Int31n(n int32) int32 {
	if n <= 0 {
		panic("invalid argument to Int31n")
	}
	return int32(r.below(uint64(n)))
}
func (r *Rand) Int63n(n int64) int64 {
	if n <= 0 {
		panic("invalid argument to Int63n")
	}
	return int64(r.below(uint64(n)))
}
func (r *Rand) Perm(n int) []int {
	m := make([]int, n)
	for i := range m {
		j := r.Intn(i + 1)
		m[i] = m[j]
		m[j] = i
	}
	return m
}
func (r *Rand) Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, r.Intn(i+1))
	}
}
func (r *Rand) NormFloat64() float64 {
	a, b := 1-r.Float64(), r.Float64()
	return math.Sqrt(-2*math.Log(a)) * math.Cos(2*math.Pi*b)
}
func (r *Rand) ExpFloat64() float64 { return -math.Log(1 - r.Float64()) }
func (r *Rand) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(r.u() >> 56)
	}
	return len(p), nil
}

// NewSource makes a source.
func NewSource(seed int64) rand.Source { return &source{uint64(seed)} }
