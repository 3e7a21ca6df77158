// C01: one-shot hashes against transcriptions of the specifications.
package main

import (
	"bytes"
	"time"
	"verifharness/kit"
	"verifharness/mc"
	"verifharness/ref"

	owcrypt "github.com/blocktree/go-owcrypt"
	"github.com/blocktree/go-owcrypt/blake2s"
	"github.com/blocktree/go-owcrypt/sha3"
	"github.com/blocktree/go-owcrypt/sm3"
)

type alg struct {
	name  string
	code  uint32
	dl    uint16
	block int
	f     func(m []byte) []byte
	do    func(m []byte) []byte // nil: owcrypt.Hash
}

func (a alg) run(m []byte) []byte {
	if a.do != nil {
		return a.do(m)
	}
	return owcrypt.Hash(m, a.dl, a.code)
}

func keccak(rate int, ds byte, out int) func([]byte) []byte {
	return func(m []byte) []byte { return ref.Keccak(m, rate, ds, out) }
}

func algs() []alg {
	k256, s256 := keccak(136, 1, 32), keccak(136, 6, 32)
	l := []alg{
		{"MD4", owcrypt.HASH_ALG_MD4, 0, 64, ref.MD4, nil},
		{"MD5", owcrypt.HASH_ALG_MD5, 0, 64, ref.MD5, nil},
		{"SHA1", owcrypt.HASH_ALG_SHA1, 0, 64, ref.SHA1, nil},
		{"SHA256", owcrypt.HASH_ALG_SHA256, 0, 64, ref.SHA256, nil},
		{"SHA512", owcrypt.HASH_ALG_SHA512, 0, 128, ref.SHA512, nil},
		{"DOUBLE_SHA256", owcrypt.HASH_ALG_DOUBLE_SHA256, 0, 64, func(m []byte) []byte { return ref.SHA256(ref.SHA256(m)) }, nil},
		{"RIPEMD160", owcrypt.HASH_ALG_RIPEMD160, 0, 64, ref.RIPEMD160, nil},
		{"HASH160", owcrypt.HASH_ALG_HASH160, 0, 64, func(m []byte) []byte { return ref.RIPEMD160(ref.SHA256(m)) }, nil},
		{"KECCAK256", owcrypt.HASH_ALG_KECCAK256, 0, 136, k256, nil},
		{"KECCAK512", owcrypt.HASH_ALG_KECCAK512, 0, 72, keccak(72, 1, 64), nil},
		{"SHA3_256", owcrypt.HASH_ALG_SHA3_256, 0, 136, s256, nil},
		{"SHA3_512", owcrypt.HASH_ALG_SHA3_512, 0, 72, keccak(72, 6, 64), nil},
		{"KECCAK256_RIPEMD160", owcrypt.HASH_ALG_KECCAK256_RIPEMD160, 0, 136, func(m []byte) []byte { return ref.RIPEMD160(k256(m)) }, nil},
		{"SHA3_256_RIPEMD160", owcrypt.HASH_ALG_SHA3_256_RIPEMD160, 0, 136, func(m []byte) []byte { return ref.RIPEMD160(s256(m)) }, nil},
		{"BLAKE256", owcrypt.HASH_ALG_BLAKE256, 0, 64, func(m []byte) []byte { return ref.Blake256(m, nil, 256) }, nil},
		{"BLAKE512", owcrypt.HASH_ALG_BLAKE512, 0, 128, func(m []byte) []byte { return ref.Blake512(m, nil, 512) }, nil},
		{"SM3", owcrypt.HASH_ALG_SM3, 0, 64, ref.SM3, nil},
		{"BLAKE2B-64", owcrypt.HASH_ALG_BLAKE2B, 64, 128, func(m []byte) []byte { return ref.Blake2b(m, 64) }, nil},
		{"BLAKE2B-32", owcrypt.HASH_ALG_BLAKE2B, 32, 128, func(m []byte) []byte { return ref.Blake2b(m, 32) }, nil},
		{"BLAKE2S-32", owcrypt.HASH_ALG_BLAKE2S, 32, 64, func(m []byte) []byte { return ref.Blake2s(m, ref.B2S{Size: 32}) }, nil},
		{"BLAKE2S-16", owcrypt.HASH_ALG_BLAKE2S, 16, 64, func(m []byte) []byte { return ref.Blake2s(m, ref.B2S{Size: 16}) }, nil},
		{"sm3.Sm3Sum", 0, 0, 64, ref.SM3, sm3.Sm3Sum},
		{"blake2s.Sum256", 0, 0, 64, func(m []byte) []byte { return ref.Blake2s(m, ref.B2S{Size: 32}) }, func(m []byte) []byte { h := blake2s.Sum256(m); return h[:] }},
		{"sha3.Sum224", 0, 0, 144, keccak(144, 6, 28), func(m []byte) []byte { h := sha3.Sum224(m); return h[:] }},
		{"sha3.Sum256", 0, 0, 136, s256, func(m []byte) []byte { h := sha3.Sum256(m); return h[:] }},
		{"sha3.Sum384", 0, 0, 104, keccak(104, 6, 48), func(m []byte) []byte { h := sha3.Sum384(m); return h[:] }},
		{"sha3.Sum512", 0, 0, 72, keccak(72, 6, 64), func(m []byte) []byte { h := sha3.Sum512(m); return h[:] }},
		{"sha3.ShakeSum128", 0, 0, 168, keccak(168, 0x1f, 40), func(m []byte) []byte { o := kit.Fill(40, 0xee); sha3.ShakeSum128(o, m); return o }},
		{"sha3.ShakeSum256", 0, 0, 136, keccak(136, 0x1f, 72), func(m []byte) []byte { o := kit.Fill(72, 0xee); sha3.ShakeSum256(o, m); return o }},
	}
	return l
}

func main() {
	mc.Main("C01", 100*time.Second, 700*time.Second, func(r *mc.Run) {
		as := algs()
		check := func(x *mc.X, a alg, m []byte, what string, arg ...any) {
			var got []byte
			in := kit.Clone(m)
			x.Call(a.name, func() { got = a.run(in) })
			want := a.f(m)
			x.State(a.name, got)
			if !bytes.Equal(got, want) {
				x.Log("%s of %s", a.name, mc.Hex(m))
				x.Fail("digest/"+a.name, "%s of "+what+" (%d bytes): got %s, want %s", append(append([]any{a.name}, arg...), len(m), mc.Hex(got), mc.Hex(want))...)
			}
		}
		// every length, several contents
		stream := kit.Stream("c01", 1<<16)
		r.Explore("length", func(x *mc.X) {
			a := as[x.Choose(len(as))]
			c := x.Choose(4)
			for n := 0; n <= r.N(12*a.block+40, 40*a.block+40); n++ {
				var m []byte
				switch c {
				case 0:
					m = stream[n : 2*n]
				case 1:
					m = make([]byte, n)
				case 2:
					m = kit.Fill(n, 0xff)
				case 3:
					m = kit.Fill(n, 0x80)
				}
				check(x, a, m, "content class %d", c)
			}
			x.Log("%s lengths 0..%d content %d", a.name, r.N(12*a.block+40, 40*a.block+40), c)
		})
		// nil and larger messages around powers of two and round sizes
		sizes := kit.Lengths(500, r.N(1<<20+1<<19, 1<<23+1))
		r.Explore("large", func(x *mc.X) {
			a := as[x.Choose(len(as))]
			check(x, a, nil, "nil")
			part := x.Choose(8)
			for i, n := range sizes {
				if i%8 == part {
					check(x, a, kit.Long(n), "stream")
				}
			}
			x.Log("%s of %d sizes up to %d", a.name, len(sizes)/8, sizes[len(sizes)-1])
		})
		// every one-byte and two-byte message, every walking bit
		r.Explore("short", func(x *mc.X) {
			a := as[x.Choose(len(as))]
			hi := x.Choose(257)
			if hi == 256 {
				for b := 0; b < 256; b++ {
					check(x, a, []byte{byte(b)}, "one byte")
				}
				return
			}
			step := 1
			for lo := hi % step; lo < 256; lo += step {
				check(x, a, []byte{byte(hi), byte(lo)}, "two bytes")
			}
		})
		r.Explore("walking-bit", func(x *mc.X) {
			a := as[x.Choose(len(as))]
			inv := byte(0xff * x.Choose(2))
			for _, n := range []int{a.block, 2*a.block - 1} {
				for i := 0; i < 8*n; i++ {
					m := kit.Fill(n, inv)
					m[i/8] ^= 1 << (i % 8)
					check(x, a, m, "bit %d of a block", i)
				}
			}
		})
		// digest lengths
		r.Explore("digest-length", func(x *mc.X) {
			b := x.Bool()
			hi := x.Choose(256)
			msgs := [][]byte{nil, []byte("abc"), stream[:64], stream[:128], stream[:129], stream[:200]}
			for lo := 0; lo < 256; lo++ {
				n := hi<<8 | lo
				if n == 0 {
					continue // no length requested: unspecified
				}
				ms := msgs
				if n > 300 {
					ms = msgs[:1]
				}
				for _, m := range ms {
					var got, want []byte
					if b {
						x.Call("BLAKE2B", func() { got = owcrypt.Hash(m, uint16(n), owcrypt.HASH_ALG_BLAKE2B) })
						if n <= 64 {
							want = ref.Blake2b(m, n)
						}
					} else {
						x.Call("BLAKE2S", func() { got = owcrypt.Hash(m, uint16(n), owcrypt.HASH_ALG_BLAKE2S) })
						if n <= 32 {
							want = ref.Blake2s(m, ref.B2S{Size: n})
						}
					}
					x.State(b, n, got)
					if !bytes.Equal(got, want) {
						x.Fail("digest-length", "digest length %d (blake2b=%v) of %d bytes: got %s, want %s", n, b, len(m), mc.Hex(got), mc.Hex(want))
					}
				}
			}
		})
		// the requested length means nothing to the fixed-length algorithms
		r.Explore("ignored-length", func(x *mc.X) {
			a := as[x.Choose(17)]
			for _, dl := range []uint16{0, 1, 16, 20, 28, 31, 32, 33, 48, 63, 64, 65, 255, 256, 512, 65535} {
				var got []byte
				x.Call(a.name, func() { got = owcrypt.Hash([]byte("abc"), dl, a.code) })
				x.State(a.name, got)
				x.Eq(got, a.f([]byte("abc")), "ignored-length", "%s with digestLen %d", a.name, dl)
			}
		})
		// XOF output lengths
		r.Explore("shake-length", func(x *mc.X) {
			b := x.Bool()
			for _, m := range [][]byte{nil, []byte("abc"), stream[:135], stream[:136], stream[:167], stream[:168]} {
				for n := 0; n <= r.N(400, 3000); n++ {
					o := kit.Fill(n, 0x5a)
					var want []byte
					if b {
						x.Call("ShakeSum128", func() { sha3.ShakeSum128(o, m) })
						want = ref.Keccak(m, 168, 0x1f, n)
					} else {
						x.Call("ShakeSum256", func() { sha3.ShakeSum256(o, m) })
						want = ref.Keccak(m, 136, 0x1f, n)
					}
					x.State(b, o)
					x.Eq(o, want, "shake-length", "SHAKE output of %d bytes", n)
				}
			}
		})
		// unknown codes
		known := map[uint32]bool{}
		for c := uint32(0xA0000000); c <= 0xA0000012; c++ {
			known[c] = true
		}
		r.Explore("unknown-code", func(x *mc.X) {
			base := []uint32{0, 0x50505000, 0xA0000000, 0xECC00000, 0xA0000100, 0xA0010000, 0x20000000, 0xFFFFFF00, 0x9FFFFF00, 0xB0000000, 0x00000100}[x.Choose(11)]
			for i := uint32(0); i < 256; i++ {
				c := base + i
				if known[c] {
					continue
				}
				for _, dl := range []uint16{0, 32} {
					var got []byte
					x.Call("Hash", func() { got = owcrypt.Hash([]byte("abc"), dl, c) })
					x.State(c, got)
					x.Assert(got == nil, "unknown-code", "Hash with unknown code %#x returned %s", c, mc.Hex(got))
				}
			}
		})
		// bit counters: messages whose bit length crosses 2^32 (the byte counter of BLAKE2s crosses 2^32 in the thorough tier)
		big := []string{"BLAKE256", "SM3", "BLAKE2S-32", "BLAKE512"}
		r.Explore("counter", func(x *mc.X) {
			name := big[x.Choose(len(big))]
			n := []int{1<<29 - 32, 1<<29 + 5}[x.Choose(2)]
			if name == "BLAKE2S-32" || name == "BLAKE512" {
				if n != 1<<29+5 {
					return
				}
				if big := int64(1)<<32 + 77; r.Thorough() && name == "BLAKE2S-32" && int64(int(big)) == big {
					n = int(big)
				}
			}
			for _, a := range as {
				if a.name == name {
					m := make([]byte, n)
					copy(m, stream)
					copy(m[n-1000:], stream)
					var got []byte
					x.Call(name, func() { got = a.run(m) })
					x.State(name, got)
					want := a.f(m)
					x.Eq(got, want, "counter/"+name, "%s of a %d-byte message", name, n)
					x.Log("%s of %d bytes", name, n)
				}
			}
		})
		r.Note("MD4, MD5, SHA-1, SHA-2 and RIPEMD-160 references are the Go standard library and x/crypto; all others are transcribed from the specifications and pinned to published vectors")
		r.Note("message contents beyond the enumerated classes are outside the bound")
	})
}
