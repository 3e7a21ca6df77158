package kit

import (
	"fmt"
	"math/big"
	"verifharness/ref"
)

// B is a named byte string.
type B struct {
	V    []byte
	Name string
}

// Hashes is the alphabet of 32-byte digests for a curve.
func Hashes(c *ref.Curve) []B {
	l := []B{
		{ref.B32(bi(0)), "0"},
		{ref.B32(bi(1)), "1"},
		{ref.B32(bi(2)), "2"},
		{ref.B32(new(big.Int).Sub(c.N, bi(1))), "n-1"},
		{ref.B32(c.N), "n"},
		{ref.B32(new(big.Int).Add(c.N, bi(1))), "n+1"},
		{ref.B32(c.P), "p"},
		{ref.B32(pow2(255)), "2^255"},
		{ref.B32(new(big.Int).Rsh(c.N, 1)), "n/2"},
		{Fill(32, 0xff), "2^256-1"},
		{ref.B32(bi(0xff)), "255"},
		{ref.B32(pow2(128)), "2^128"},
	}
	for i := 0; i < 4; i++ {
		l = append(l, B{Stream(fmt.Sprintf("hash%d", i), 32), fmt.Sprintf("stream%d", i)})
	}
	return l
}

// Keys is the private-key alphabet [1, n-1].
func Keys(c *ref.Curve) []S {
	l := []S{{bi(1), "1"}, {bi(2), "2"}, {bi(3), "3"},
		{new(big.Int).Sub(c.N, bi(1)), "n-1"}, {new(big.Int).Sub(c.N, bi(2)), "n-2"}, {new(big.Int).Sub(c.N, bi(3)), "n-3"},
		{new(big.Int).Rsh(c.N, 1), "(n-1)/2"}, {new(big.Int).Add(new(big.Int).Rsh(c.N, 1), bi(1)), "(n+1)/2"},
		{pow2(64), "2^64"}, {pow2(128), "2^128"}, {pow2(192), "2^192"}, {pow2(255), "2^255"}, {bi(255), "255"}, {bi(256), "256"}}
	for _, k := range specials[c.Name] {
		l = append(l, S{bi(k), fmt.Sprintf("%d", k)})
	}
	for i := 0; i < 4; i++ {
		v := ref.I(Stream(fmt.Sprintf("key%d", i), 32))
		l = append(l, S{v.Mod(v, new(big.Int).Sub(c.N, bi(2))), fmt.Sprintf("stream%d", i)})
		if i == 3 {
			w := ref.I(Stream("short", 29))
			l = append(l, S{w, "29 bytes"})
		}
	}
	out := l[:0]
	for _, s := range l {
		if s.V.Sign() > 0 && s.V.Cmp(c.N) < 0 {
			out = append(out, s)
		}
	}
	return out
}

// RS renders r || s.
func RS(r, s *big.Int) []byte { return append(ref.B32(r), ref.B32(s)...) }
