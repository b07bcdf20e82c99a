package model

import "math/rand"

// Rng is the one source of randomness; seeded, so a case is replayable.
type Rng struct{ *rand.Rand }

func NewRng(seed int64) *Rng { return &Rng{rand.New(rand.NewSource(seed))} }

// Fork derives an independent generator.
func (r *Rng) Fork() *Rng { return NewRng(r.Int63()) }

func (r *Rng) P(p float64) bool { return r.Float64() < p }

// Range gives lo..hi inclusive.
func (r *Rng) Range(lo, hi int) int {
	if hi <= lo {
		return lo
	}
	return lo + r.Intn(hi-lo+1)
}

func Pick[T any](r *Rng, xs []T) T { return xs[r.Intn(len(xs))] }
