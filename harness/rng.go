package main

import (
	"hash/fnv"
	"math/rand/v2"
)

// Rng is a deterministic source: a case is a function of (seed, property, index) only.
type Rng struct{ *rand.Rand }

func newRng(seed uint64, label string, idx int) *Rng {
	h := fnv.New64a()
	h.Write([]byte(label))
	return &Rng{rand.New(rand.NewPCG(seed*0x9E3779B97F4A7C15+uint64(idx)*0xBF58476D1CE4E5B9+1, h.Sum64()))}
}

// between returns a value in [lo, hi].
func (r *Rng) between(lo, hi int) int {
	if hi <= lo {
		return lo
	}
	return lo + r.IntN(hi-lo+1)
}

func (r *Rng) chance(percent int) bool { return r.IntN(100) < percent }

func pick[T any](r *Rng, l []T) T { return l[r.IntN(len(l))] }

// small draws sizes that are mostly small but sometimes large (log-uniform in [1, max]).
func (r *Rng) small(max int) int {
	bits := 0
	for m := max; m > 0; m >>= 1 {
		bits++
	}
	n := 1 + r.IntN(1<<uint(1+r.IntN(bits)))
	if n > max {
		n = max
	}
	return n
}
