package main

import "hash/fnv"

// Rng is the driver's only source of choices (splitmix64).
type Rng struct{ s uint64 }

func newRng(seed uint64, tags ...string) *Rng {
	h := fnv.New64a()
	for _, t := range tags {
		h.Write([]byte(t))
		h.Write([]byte{0})
	}
	r := &Rng{seed*0x9e3779b97f4a7c15 ^ h.Sum64()}
	r.Next()
	return r
}

func (r *Rng) Next() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (r *Rng) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.Next() % uint64(n))
}
func (r *Rng) P(pct int) bool          { return r.Intn(100) < pct }
func (r *Rng) Range(a, b int) int      { return a + r.Intn(b-a+1) }
func (r *Rng) Str(xs ...string) string { return xs[r.Intn(len(xs))] }
func (r *Rng) Int(xs ...int) int       { return xs[r.Intn(len(xs))] }

// Log is roughly log-uniform in [0, n].
func (r *Rng) Log(n int) int {
	m := 1
	for m < n && r.Intn(3) > 0 {
		m *= 2
	}
	k := r.Intn(m + 1)
	if k > n {
		k = n
	}
	return k
}
