// Package core is the simulation engine: seeded randomness, the simulated channel, runs, replay and minimisation.
package core

import "math/bits"

// Rng is a small deterministic generator (xoshiro256** seeded by splitmix64). One run owns its generators: nothing
// in the simulation draws from anywhere else.
type Rng struct{ s [4]uint64 }

func splitmix(x *uint64) uint64 {
	*x += 0x9E3779B97F4A7C15
	z := *x
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// Mix derives one seed from several values.
func Mix(vals ...uint64) uint64 {
	h := uint64(0x243F6A8885A308D3)
	for _, v := range vals {
		h ^= v
		h = splitmix(&h)
	}
	return h
}

// HashString hashes a string (FNV-1a).
func HashString(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

// HashBytes continues a FNV-1a hash over bytes.
func HashBytes(h uint64, b []byte) uint64 {
	if h == 0 {
		h = 14695981039346656037
	}
	for _, c := range b {
		h ^= uint64(c)
		h *= 1099511628211
	}
	return h
}

// NewRng seeds a generator.
func NewRng(seed uint64) *Rng {
	r := &Rng{}
	for i := range r.s {
		r.s[i] = splitmix(&seed)
	}
	return r
}

// U64 draws 64 bits.
func (r *Rng) U64() uint64 {
	s := &r.s
	res := bits.RotateLeft64(s[1]*5, 7) * 9
	t := s[1] << 17
	s[2] ^= s[0]
	s[3] ^= s[1]
	s[1] ^= s[2]
	s[0] ^= s[3]
	s[2] ^= t
	s[3] = bits.RotateLeft64(s[3], 45)
	return res
}

// Intn draws an integer in [0, n).
func (r *Rng) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// Range draws an integer in [lo, hi].
func (r *Rng) Range(lo, hi int) int { return lo + r.Intn(hi-lo+1) }

// Float draws a float in [0, 1).
func (r *Rng) Float() float64 { return float64(r.U64()>>11) / (1 << 53) }

// FloatIn draws a float in [lo, hi).
func (r *Rng) FloatIn(lo, hi float64) float64 { return lo + (hi-lo)*r.Float() }

// P is true with probability p.
func (r *Rng) P(p float64) bool { return r.Float() < p }

// Bool draws a bit.
func (r *Rng) Bool() bool { return r.U64()&1 == 1 }

// Bits draws an n-bit value, biased to the ends of the range and to single bits.
func (r *Rng) Bits(n int) uint64 {
	max := uint64(1)<<uint(n) - 1
	if n == 1 {
		return r.U64() & 1
	}
	switch r.Intn(16) {
	case 0:
		return 0
	case 1:
		return max
	case 2:
		return 1
	case 3:
		return max - 1
	case 4:
		return uint64(1) << uint(r.Intn(n))
	case 5:
		return max ^ (uint64(1) << uint(r.Intn(n)))
	default:
		return r.U64() & max
	}
}

// Uniform draws an n-bit value uniformly.
func (r *Rng) Uniform(n int) uint64 { return r.U64() & (uint64(1)<<uint(n) - 1) }

// Bytes draws n bytes.
func (r *Rng) Bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.U64())
	}
	return b
}
