// Package srandv2 holds the simulated functions and generators of math/rand/v2.
package srandv2

import (
	"math"
	"math/bits"
	"math/rand/v2"
	"simrt"
)

type global struct{}

func (global) Uint64() uint64 { return simrt.Rand64() }

var g = &Rand{src: global{}}

// Rand draws from a source. No method draws until a number fits: draws may be chosen.
type Rand struct{ src rand.Source }

// New makes a Rand.
func New(src rand.Source) *Rand { return &Rand{src} }

func (r *Rand) u() uint64 {
	if _, ok := r.src.(global); ok {
		return r.src.Uint64()
	}
	return simrt.RandOf(r.src.Uint64())
}

func (r *Rand) below(n uint64) uint64 {
	if n == 0 {
		panic("invalid argument")
	}
	h, _ := bits.Mul64(r.u(), n)
	return h
}

func (r *Rand) signed(n int64) int64 {
	if n <= 0 {
		panic("invalid argument")
	}
	return int64(r.below(uint64(n)))
}

func (r *Rand) Float64() float64        { return float64(r.u()>>11) / (1 << 53) }
func (r *Rand) Float32() float32        { return float32(r.u()>>40) / (1 << 24) }
func (r *Rand) Int() int                { return int(r.u() >> 1) }
func (r *Rand) IntN(n int) int          { return int(r.signed(int64(n))) }
func (r *Rand) Int32() int32            { return int32(r.u() >> 33) }
func (r *Rand) Int32N(n int32) int32    { return int32(r.signed(int64(n))) }
func (r *Rand) Int64() int64            { return int64(r.u() >> 1) }
func (r *Rand) Int64N(n int64) int64    { return r.signed(n) }
func (r *Rand) Uint32() uint32          { return uint32(r.u() >> 32) }
func (r *Rand) Uint64() uint64          { return r.u() }
func (r *Rand) UintN(n uint) uint       { return uint(r.below(uint64(n))) }
func (r *Rand) Uint32N(n uint32) uint32 { return uint32(r.below(uint64(n))) }
func (r *Rand) Uint64N(n uint64) uint64 { return r.below(n) }
func (r *Rand) Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, r.IntN(i+1))
	}
}
func (r *Rand) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	r.Shuffle(n, func(i, j int) { p[i], p[j] = p[j], p[i] })
	return p
}
func (r *Rand) NormFloat64() float64 {
	a, b := 1-r.Float64(), r.Float64()
	return math.Sqrt(-2*math.Log(a)) * math.Cos(2*math.Pi*b)
}
func (r *Rand) ExpFloat64() float64 { return -math.Log(1 - r.Float64()) }

func Float64() float64                   { return g.Float64() }
func Float32() float32                   { return g.Float32() }
func Int() int                           { return g.Int() }
func IntN(n int) int                     { return g.IntN(n) }
func Int32() int32                       { return g.Int32() }
func Int32N(n int32) int32               { return g.Int32N(n) }
func Int64() int64                       { return g.Int64() }
func Int64N(n int64) int64               { return g.Int64N(n) }
func Uint32() uint32                     { return g.Uint32() }
func Uint64() uint64                     { return g.Uint64() }
func UintN(n uint) uint                  { return g.UintN(n) }
func Uint32N(n uint32) uint32            { return g.Uint32N(n) }
func Uint64N(n uint64) uint64            { return g.Uint64N(n) }
func Perm(n int) []int                   { return g.Perm(n) }
func Shuffle(n int, swap func(i, j int)) { g.Shuffle(n, swap) }
func NormFloat64() float64               { return g.NormFloat64() }
func ExpFloat64() float64                { return g.ExpFloat64() }

// N is in [0,n).
func N[T ~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr](n T) T {
	if n <= 0 {
		panic("invalid argument to N")
	}
	return T(g.below(uint64(n)))
}
