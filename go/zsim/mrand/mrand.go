// Package mrand stands in for math/rand: a seeded generator, and while the
// runner compares two elements, outcomes that depend on the elements alone.
package mrand

import "math/rand"

type (
	Rand   = rand.Rand
	Source = rand.Source
)

var (
	gen = rand.New(rand.NewSource(1))
	Bit *bool
)

func Seed(s int64)       { gen = rand.New(rand.NewSource(s)) }
func SimSeed(s int64)    { gen = rand.New(rand.NewSource(s)); Bit = nil }
func New(s Source) *Rand { return rand.New(s) }

// NewSource ignores the seed asked for: it is often the time.
func NewSource(int64) Source { return rand.NewSource(gen.Int63()) }

func zero() (bool, bool) {
	if Bit == nil {
		return false, false
	}
	return *Bit, true
}

func Uint32() uint32 {
	if z, ok := zero(); ok {
		if z {
			return 0
		}
		return 0xffffffff
	}
	return gen.Uint32()
}

func Uint64() uint64 {
	if z, ok := zero(); ok {
		if z {
			return 0
		}
		return 0xffffffffffffffff
	}
	return gen.Uint64()
}

func Intn(n int) int {
	if z, ok := zero(); ok {
		if z {
			return 0
		}
		return n - 1
	}
	return gen.Intn(n)
}

func Int63n(n int64) int64     { return int64(Intn(int(n))) }
func Int31n(n int32) int32     { return int32(Intn(int(n))) }
func Int63() int64             { return int64(Uint64() >> 1) }
func Int31() int32             { return int32(Uint32() >> 1) }
func Int() int                 { return int(uint(Int63())) }
func Float64() float64 {
	if z, ok := zero(); ok {
		if z {
			return 0.25
		}
		return 0.75
	}
	return gen.Float64()
}
func Float32() float32                     { return float32(Float64()) }
func Perm(n int) []int                     { return gen.Perm(n) }
func Shuffle(n int, swap func(i, j int))   { gen.Shuffle(n, swap) }
func NormFloat64() float64                 { return gen.NormFloat64() }
func ExpFloat64() float64                  { return gen.ExpFloat64() }
