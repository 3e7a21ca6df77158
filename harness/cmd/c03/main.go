// C03: HMAC against RFC 2104.
package main

import (
	"bytes"
	"time"
	"verifharness/kit"
	"verifharness/mc"
	"verifharness/ref"

	owcrypt "github.com/blocktree/go-owcrypt"
)

func main() {
	mc.Main("C03", 60*time.Second, 600*time.Second, func(r *mc.Run) {
		type alg struct {
			name  string
			code  uint32
			block int
			f     func([]byte) []byte
		}
		as := []alg{{"SHA256", owcrypt.HMAC_SHA256_ALG, 64, ref.SHA256}, {"SHA512", owcrypt.HMAC_SHA512_ALG, 128, ref.SHA512}, {"SM3", owcrypt.HMAC_SM3_ALG, 64, ref.SM3}}
		keys := kit.Stream("hmac-key", 1<<13)
		msgs := kit.Stream("hmac-msg", 1<<17)
		check := func(x *mc.X, a alg, k, m []byte) {
			var got []byte
			x.Call("Hmac", func() { got = owcrypt.Hmac(kit.Clone(k), kit.Clone(m), a.code) })
			want := ref.HMAC(a.f, a.block, k, m)
			x.State(a.name, got)
			if !bytes.Equal(got, want) {
				x.Log("HMAC-%s key %s message %s", a.name, mc.Hex(k), mc.Hex(m))
				x.Fail("hmac/"+a.name, "HMAC-%s with a %d-byte key and a %d-byte message: got %s, want %s", a.name, len(k), len(m), mc.Hex(got), mc.Hex(want))
			}
		}
		// every key length x every message length
		r.Explore("key-length x message-length", func(x *mc.X) {
			a := as[x.Choose(3)]
			kl := x.Choose(r.N(2*a.block+20, 4*a.block+20))
			for ml := 0; ml <= r.N(3*a.block+5, 8*a.block+5); ml++ {
				check(x, a, keys[kl:2*kl], msgs[ml:2*ml])
			}
			x.Log("HMAC-%s key length %d", a.name, kl)
		})
		// key contents: zero, pad bytes, 0xff, trailing zeros, keys equal to a hash
		r.Explore("key-content", func(x *mc.X) {
			a := as[x.Choose(3)]
			kl := x.Choose(2*a.block + 3)
			for _, c := range []byte{0, 0x36, 0x5c, 0xff, 0x80, 1} {
				for _, ml := range []int{0, 1, a.block - 1, a.block, a.block + 1} {
					k := kit.Fill(kl, c)
					check(x, a, k, msgs[:ml])
					check(x, a, append(k, 0), msgs[:ml])
					check(x, a, append(kit.Fill(kl, c), 0, 0x36), msgs[:ml])
				}
			}
			check(x, a, a.f(keys[:kl]), msgs[:kl])
		})
		r.Explore("nil", func(x *mc.X) {
			a := as[x.Choose(3)]
			check(x, a, nil, nil)
			check(x, a, nil, []byte("m"))
			check(x, a, []byte("k"), nil)
			check(x, a, []byte{}, []byte{})
		})
		r.Explore("walking-bit", func(x *mc.X) {
			a := as[x.Choose(3)]
			for i := 0; i < 8*(a.block+8); i++ {
				check(x, a, kit.Flip(make([]byte, a.block+8), i), msgs[:20])
				if i < 8*a.block {
					check(x, a, kit.Flip(make([]byte, a.block), i), msgs[:20])
				}
				check(x, a, keys[:20], kit.Flip(make([]byte, a.block+8), i))
			}
		})
		sizes := kit.Lengths(250, r.N(1<<20+1<<19, 1<<23+1))
		r.Explore("large", func(x *mc.X) {
			a := as[x.Choose(3)]
			n := sizes[x.Choose(len(sizes))]
			check(x, a, keys[:20], kit.Long(n))
			check(x, a, kit.Long(n), msgs[:20])
			check(x, a, keys[:a.block+n%3-1], kit.Long(n))
			check(x, a, kit.Long(n), kit.Long(n))
		})
		r.Explore("unknown-code", func(x *mc.X) {
			base := []uint32{0, 0x50505000, 0x50505100, 0xA0000000, 0xECC00000, 0x50500000, 0xFFFFFF00, 0x50515000}[x.Choose(8)]
			for i := uint32(0); i < 256; i++ {
				c := base + i
				if c == owcrypt.HMAC_SHA256_ALG || c == owcrypt.HMAC_SHA512_ALG || c == owcrypt.HMAC_SM3_ALG {
					continue
				}
				var got []byte
				x.Call("Hmac", func() { got = owcrypt.Hmac([]byte("k"), []byte("m"), c) })
				x.State(c, got)
				x.Assert(got == nil, "unknown-code", "Hmac with unknown code %#x returned %s", c, mc.Hex(got))
			}
		})
		// algorithms called one after the other: no call disturbs the next
		r.Explore("sequence", func(x *mc.X) {
			for i := 0; i < r.N(4, 5); i++ {
				a := as[x.Choose(3)]
				kl := []int{0, a.block, a.block + 1}[x.Choose(3)]
				check(x, a, keys[i*200:i*200+kl], msgs[i*50:i*50+10])
			}
		})
		r.Note("SHA-256 and SHA-512 references are the Go standard library; HMAC and SM3 are transcribed")
	})
}
