// Package kit holds the input alphabets shared by the checks.
package kit

import (
	"crypto/sha256"
	"sort"
	"sync"
)

// Stream returns n bytes of a fixed pseudo-random stream.
func Stream(label string, n int) []byte {
	out := make([]byte, 0, n+32)
	for i := 0; len(out) < n; i++ {
		h := sha256.Sum256([]byte{byte(i), byte(i >> 8), byte(i >> 16), byte(i >> 24), label[0], label[len(label)-1], byte(len(label))})
		out = append(out, h[:]...)
	}
	return out[:n:n]
}

// Fill returns n bytes of value b.
func Fill(n int, b byte) []byte {
	out := make([]byte, n)
	for i := range out {
		out[i] = b
	}
	return out
}

// Cat concatenates into a fresh slice.
func Cat(p ...[]byte) []byte {
	out := []byte{}
	for _, b := range p {
		out = append(out, b...)
	}
	return out
}

// Clone copies, keeping nil.
func Clone(b []byte) []byte {
	if b == nil {
		return nil
	}
	return append([]byte{}, b...)
}

// Flip returns a copy with bit i flipped.
func Flip(b []byte, i int) []byte {
	c := Clone(b)
	c[i/8] ^= 1 << (i % 8)
	return c
}

var (
	longOnce sync.Once
	long     []byte
)

// Long returns n bytes (at most 2^23+64) of a shared stream; do not modify.
func Long(n int) []byte {
	longOnce.Do(func() { long = Stream("long", 1<<23+64) })
	return long[:n:n]
}

// Lengths lists the sizes from min to max at which buffers, counters and
// blocks of usual sizes end: around powers of two, 3*2^k, powers of ten and
// their halves and doubles.
func Lengths(min, max int) []int {
	set := map[int]bool{}
	add := func(v int) {
		for d := -1; d <= 1; d++ {
			if v+d >= min && v+d <= max {
				set[v+d] = true
			}
		}
	}
	for v := 1; v <= max+1; v *= 2 {
		add(v)
		add(3 * v)
	}
	for v := 1; v <= max+1; v *= 10 {
		add(v)
		add(2 * v)
		add(5 * v)
	}
	var l []int
	for v := range set {
		l = append(l, v)
	}
	sort.Ints(l)
	return l
}
