package main

// Rand is the only source of randomness of the simulator: splitmix64.
type Rand struct{ s uint64 }

func newRand(seed uint64) *Rand { return &Rand{mix(seed, 0x5eed)} }

func mix(a, b uint64) uint64 {
	z := a + 0x9e3779b97f4a7c15*(b+1)
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func mixs(a uint64, s string) uint64 {
	h := a ^ 0xcbf29ce484222325
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 0x100000001b3
	}
	return mix(h, uint64(len(s)))
}

func (r *Rand) u64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// n returns a number in [0,n).
func (r *Rand) n(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.u64() % uint64(n))
}

// rng returns a number in [lo,hi].
func (r *Rand) rng(lo, hi int) int { return lo + r.n(hi-lo+1) }

// p is true with probability num/den.
func (r *Rand) p(num, den int) bool { return r.n(den) < num }

func (r *Rand) fork() *Rand { return &Rand{r.u64()} }

func pick[T any](r *Rand, xs []T) T { return xs[r.n(len(xs))] }
