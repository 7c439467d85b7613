// Package pbt is a small property-based testing framework: choice-sequence
// generation with integrated shrinking, worker processes so that crashes and
// hangs of the code under test are observable outcomes, and evidence output.
package pbt

type rng struct{ s uint64 }

func (r *rng) next() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Mix derives a seed from several values.
func Mix(vs ...uint64) uint64 {
	r := rng{0x5851f42d4c957f2d}
	for _, v := range vs {
		r.s ^= v
		r.s = r.next()
	}
	return r.next()
}

func HashString(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

// Rand is a derived deterministic generator for bulk data and for decisions
// taken inside callbacks (it is seeded by a recorded choice).
type Rand struct{ r rng }

func NewRand(seed uint64) *Rand { return &Rand{rng{seed}} }

func (r *Rand) Uint64() uint64 { return r.r.next() }
func (r *Rand) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.r.next() % uint64(n))
}
func (r *Rand) Bytes(n int) []byte {
	b := make([]byte, n)
	for i := 0; i < n; i += 8 {
		v := r.r.next()
		for j := 0; j < 8 && i+j < n; j++ {
			b[i+j] = byte(v >> (8 * uint(j)))
		}
	}
	return b
}
