//go:build go1.21

package main

import "math"

func mix64(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

// Rng is the harness's own generator.
type Rng struct{ s uint64 }

// NewRng makes one.
func NewRng(seed uint64) *Rng { return &Rng{mix64(seed)} }

// U64 ...
func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	x := r.s
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

// Intn ...
func (r *Rng) Intn(n int) int { return int(r.U64() % uint64(n)) }

// Range is uniform in [a,b].
func (r *Rng) Range(a, b int) int { return a + r.Intn(b-a+1) }

// Float is uniform in [0,1).
func (r *Rng) Float() float64 { return float64(r.U64()>>11) / (1 << 53) }

// Norm is standard normal.
func (r *Rng) Norm() float64 {
	for {
		u, v := 2*r.Float()-1, 2*r.Float()-1
		s := u*u + v*v
		if s > 0 && s < 1 {
			return u * math.Sqrt(-2*math.Log(s)/s)
		}
	}
}

// Bool ...
func (r *Rng) Bool() bool { return r.U64()&1 == 1 }

// Chance is true with probability 1/n.
func (r *Rng) Chance(n int) bool { return r.Intn(n) == 0 }

// Perm ...
func (r *Rng) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

// PickI ...
func (r *Rng) PickI(v ...int) int { return v[r.Intn(len(v))] }

// PickF ...
func (r *Rng) PickF(v ...float64) float64 { return v[r.Intn(len(v))] }

// PickS ...
func (r *Rng) PickS(v ...string) string { return v[r.Intn(len(v))] }

// Size is a number of rows, lo to lo+span-1, and now and then some hundreds: code may divide or cache
// its work differently then.
func (r *Rng) Size(lo, span int) int {
	n := lo + r.Intn(span)
	if r.Chance(40) {
		n += 60 + r.Intn(300)
	}
	return n
}

// Big is Size, now and then of thousands.
func (r *Rng) Big(lo, span int) int {
	if r.Chance(300) {
		return lo + 1000 + r.Intn(2500)
	}
	return r.Size(lo, span)
}

// Seed draws a seed for a generator under test, now and then one of the extremes.
func (r *Rng) Seed() uint64 {
	switch r.Intn(16) {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		return math.MaxUint64
	case 3:
		return r.U64()
	}
	return uint64(r.Intn(1e6))
}
