// Package vrand stands in for math/rand in instrumented builds: identical, except that the
// package-level generator can be replaced.
package vrand

import "math/rand"

type (
	Rand     = rand.Rand
	Source   = rand.Source
	Source64 = rand.Source64
	Zipf     = rand.Zipf
)

// Global, when set, answers the package-level functions.
var Global *rand.Rand

// Used counts calls of package-level functions while Global is set.
var Used int64

// Stream, when set, answers the package-level functions from one fixed stream that any thread may
// draw from, like the generator it stands for, without ordering the threads for the race detector.
var Stream bool

var streamAt uint64

// Restart sets the stream to its beginning.
//
//go:norace
func Restart() { streamAt = 0 }

type stream struct{}

//go:norace
func (stream) Int63() int64 {
	streamAt++
	z := streamAt * 0x9e3779b97f4a7c15
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return int64((z ^ (z >> 31)) >> 1)
}

func (stream) Seed(int64) {}

func g() *rand.Rand {
	if Stream {
		return rand.New(stream{})
	}
	if Global != nil {
		Used++
	}
	return Global
}

func New(s rand.Source) *rand.Rand                               { return rand.New(s) }
func NewSource(s int64) rand.Source                              { return rand.NewSource(s) }
func NewZipf(r *rand.Rand, s float64, v float64, m uint64) *Zipf { return rand.NewZipf(r, s, v, m) }

func Seed(s int64) {
	if g() == nil {
		rand.Seed(s)
	}
}
func Int63() int64 {
	if r := g(); r != nil {
		return r.Int63()
	}
	return rand.Int63()
}
func Uint32() uint32 {
	if r := g(); r != nil {
		return r.Uint32()
	}
	return rand.Uint32()
}
func Uint64() uint64 {
	if r := g(); r != nil {
		return r.Uint64()
	}
	return rand.Uint64()
}
func Int31() int32 {
	if r := g(); r != nil {
		return r.Int31()
	}
	return rand.Int31()
}
func Int() int {
	if r := g(); r != nil {
		return r.Int()
	}
	return rand.Int()
}
func Int63n(n int64) int64 {
	if r := g(); r != nil {
		return r.Int63n(n)
	}
	return rand.Int63n(n)
}
func Int31n(n int32) int32 {
	if r := g(); r != nil {
		return r.Int31n(n)
	}
	return rand.Int31n(n)
}
func Intn(n int) int {
	if r := g(); r != nil {
		return r.Intn(n)
	}
	return rand.Intn(n)
}
func Float64() float64 {
	if r := g(); r != nil {
		return r.Float64()
	}
	return rand.Float64()
}
func Float32() float32 {
	if r := g(); r != nil {
		return r.Float32()
	}
	return rand.Float32()
}
func Perm(n int) []int {
	if r := g(); r != nil {
		return r.Perm(n)
	}
	return rand.Perm(n)
}
func Shuffle(n int, swap func(i, j int)) {
	if r := g(); r != nil {
		r.Shuffle(n, swap)
		return
	}
	rand.Shuffle(n, swap)
}
func Read(p []byte) (int, error) {
	if r := g(); r != nil {
		return r.Read(p)
	}
	return rand.Read(p)
}
func NormFloat64() float64 {
	if r := g(); r != nil {
		return r.NormFloat64()
	}
	return rand.NormFloat64()
}
func ExpFloat64() float64 {
	if r := g(); r != nil {
		return r.ExpFloat64()
	}
	return rand.ExpFloat64()
}
