package main

import (
	"fmt"
	"math/rand"

	"github.com/RenatoGeh/gospn/sys"
)

// tape is a source of controlled choices. Draws beyond the prefix answer 0 (the default); the
// explorer then branches on each of them.
type tape struct {
	prefix  []int
	taken   []int
	arity   []int
	overrun bool
	limit   int
	beyond  uint64
}

func (t *tape) choose(n int) int {
	i := len(t.taken)
	c := 0
	if i < len(t.prefix) {
		c = t.prefix[i]
		if c >= n {
			c = n - 1
		}
	}
	if t.limit > 0 && i >= t.limit {
		t.overrun = true
		// Past the horizon the answers cycle so that retry loops make progress.
		c = i % n
	}
	t.taken = append(t.taken, c)
	t.arity = append(t.arity, n)
	return c
}

// rndSource is a rand.Source whose draws are choices among raw values. A raw value v<<32 makes
// Intn(n) return v mod n.
type rndSource struct {
	t    *tape
	vals []int64
}

func (s *rndSource) Int63() int64 {
	if t := s.t; t.limit > 0 && len(t.taken) >= t.limit {
		// Past the horizon: a fixed stream that takes every value, so that retry loops end.
		t.overrun = true
		t.beyond++
		z := t.beyond * 0x9e3779b97f4a7c15
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
		z = (z ^ (z >> 27)) * 0x94d049bb133111eb
		return int64((z ^ (z >> 31)) >> 1)
	}
	return s.vals[s.t.choose(len(s.vals))]
}
func (s *rndSource) Seed(int64) {}

// intChoices are raw values for integer draws 0..n-1.
func intChoices(n int) []int64 {
	r := make([]int64, n)
	for i := range r {
		r[i] = int64(i) << 32
	}
	return r
}

// floatChoices are raw values that make both Float64 and Intn vary: the listed fractions.
func floatChoices(f ...float64) []int64 {
	r := make([]int64, len(f))
	for i, x := range f {
		// Float64 uses the low 53 bits; Intn uses bits 32..62.
		r[i] = int64(x * (1 << 53))
	}
	return r
}

// exploreChoices runs fn once for every answer sequence with at most dev non-default answers.
// fn must be deterministic given the tape. It returns the number of executions.
func exploreChoices(dev, limit, maxRuns int, fn func(t *tape) error) (runs int, capped bool, err error) {
	var rec func(prefix []int, used int) error
	rec = func(prefix []int, used int) error {
		if maxRuns > 0 && runs >= maxRuns {
			capped = true
			return nil
		}
		t := &tape{prefix: prefix, limit: limit}
		e := fn(t)
		runs++
		if e != nil {
			return fmt.Errorf("choices %v: %w", t.taken, e)
		}
		for i := 0; i < len(prefix) && i < len(t.taken); i++ {
			if t.taken[i] != prefix[i] {
				return nil // choice out of range here: duplicate of a smaller one
			}
		}
		if used >= dev {
			return nil
		}
		for i := len(prefix); i < len(t.taken); i++ {
			if limit > 0 && i >= limit {
				break
			}
			for alt := 1; alt < t.arity[i]; alt++ {
				p := append(append([]int(nil), t.taken[:i]...), alt)
				if e := rec(p, used+1); e != nil {
					return e
				}
			}
		}
		return nil
	}
	err = rec(nil, 0)
	return
}

// withSysRandom runs fn with the shared generator answering from the tape.
func withSysRandom(t *tape, vals []int64, fn func()) {
	old := sys.Random
	sys.Random = rand.New(&rndSource{t, vals})
	defer func() { sys.Random = old }()
	fn()
}
