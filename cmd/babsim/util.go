package main

import (
	"strings"
)

// stripANSI removes escape sequences.
func stripANSI(s string) string {
	if strings.IndexByte(s, 0x1b) < 0 {
		return s
	}
	var b strings.Builder
	for i := 0; i < len(s); {
		c := s[i]
		if c != 0x1b {
			b.WriteByte(c)
			i++
			continue
		}
		i++
		if i >= len(s) {
			break
		}
		switch s[i] {
		case '[':
			i++
			for i < len(s) && (s[i] < 0x40 || s[i] > 0x7e) {
				i++
			}
			i++
		case ']', 'P', '_', '^', 'X':
			i++
			for i < len(s) && s[i] != 7 && !(s[i] == 0x1b && i+1 < len(s) && s[i+1] == '\\') {
				i++
			}
			if i < len(s) && s[i] == 0x1b {
				i++
			}
			i++
		default:
			for i < len(s) && s[i] >= 0x20 && s[i] <= 0x2f {
				i++
			}
			i++
		}
	}
	return b.String()
}

// rng is a small deterministic generator (splitmix64).
type rng struct{ s uint64 }

func newRng(seed uint64) *rng { return &rng{seed} }

func (r *rng) u64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
	z = (z ^ z>>27) * 0x94d049bb133111eb
	return z ^ z>>31
}

func (r *rng) n(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.u64() % uint64(n))
}

func (r *rng) in(lo, hi int) int { return lo + r.n(hi-lo+1) }

// p is true num times out of den.
func (r *rng) p(num, den int) bool { return r.n(den) < num }

func (r *rng) pick(ss ...string) string { return ss[r.n(len(ss))] }

func pickOf[T any](r *rng, xs []T) T { return xs[r.n(len(xs))] }

func mix(a, b uint64) uint64 {
	r := rng{a ^ (b+1)*0xd6e8feb86659fd93}
	r.u64()
	return r.u64()
}

func hashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

func (r *rng) shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, r.n(i+1))
	}
}
