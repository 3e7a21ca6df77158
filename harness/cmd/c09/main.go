// C09: SM2 public-key encryption (GB/T 32918.4).
package main

import (
	"bytes"
	"fmt"
	"io"
	"math/big"
	"sync"
	"time"
	"verifharness/kit"
	"verifharness/mc"
	"verifharness/ref"

	owcrypt "github.com/blocktree/go-owcrypt"
)

const code = owcrypt.ECC_CURVE_SM2_STANDARD

var c = ref.SM2

func bi(v int64) *big.Int { return big.NewInt(v) }

func enc(x *mc.X, pub, m []byte) (ct []byte, ret uint16) {
	x.Call("Encryption", func() { ct, ret = owcrypt.Encryption(pub, m, code) })
	return
}

func dec(x *mc.X, d, ct []byte) (m []byte, ret uint16) {
	x.Call("Decryption", func() { m, ret = owcrypt.Decryption(d, ct, code) })
	x.State(d, ct, m, int(ret))
	x.Assert((m != nil) == (ret == owcrypt.SUCCESS), "code", "Decryption returns %s with the code %#x", mc.Hex(m), ret)
	return
}

// same compares decryption of arbitrary bytes with the reference.
func same(x *mc.X, d *big.Int, ct []byte, what string) {
	want, ok := ref.SM2Decrypt(d, ct)
	got, ret := dec(x, ref.B32(d), ct)
	switch {
	case !ok && (got != nil || ret == owcrypt.SUCCESS):
		x.Fail("accepts-invalid", "%s: Decryption(%s) = %s, want a refusal", what, mc.Hex(ct), mc.Hex(got))
	case ok && (ret != owcrypt.SUCCESS || !bytes.Equal(got, want)):
		x.Fail("rejects-valid", "%s: Decryption(%s) = %s code %#x, want %s", what, mc.Hex(ct), mc.Hex(got), ret, mc.Hex(want))
	}
}

// ephemeral queues the given k as the first draws of the randomness source.
func ephemeral(x *mc.X, ks ...*big.Int) {
	var b []byte
	for _, k := range ks {
		b = append(b, new(big.Int).Sub(k, bi(1)).FillBytes(make([]byte, 40))...)
	}
	x.Reseed("after")
	s := *x.Rand()
	x.Rand().R = io.MultiReader(bytes.NewReader(b), &s)
}

// trip encrypts with the library and checks the result with the reference.
func trip(x *mc.X, d *big.Int, m []byte, what string) []byte {
	pub := c.Enc(c.MulBase(d))
	ct, ret := enc(x, pub, m)
	x.Assert(ret == owcrypt.SUCCESS && len(ct) == 97+len(m) && ct[0] == 4, "encrypt", "%s: Encryption = %s code %#x", what, mc.Hex(ct), ret)
	got, ok := ref.SM2Decrypt(d, ct)
	x.Assert(ok && bytes.Equal(got, m), "not-standard", "%s: %s is not a ciphertext of %s under GB/T 32918.4", what, mc.Hex(ct), mc.Hex(m))
	got, ret = dec(x, ref.B32(d), ct)
	x.Assert(ret == owcrypt.SUCCESS && bytes.Equal(got, m), "round-trip", "%s: decryption gives %s code %#x, want %s", what, mc.Hex(got), ret, mc.Hex(m))
	return ct
}

func message(kind, n int) []byte {
	switch kind {
	case 0:
		return kit.Fill(n, 0)
	case 1:
		return kit.Fill(n, 0xff)
	}
	return kit.Stream("plain", n)
}

func main() {
	keys := kit.Keys(c)
	n := c.N
	ephs := []*big.Int{bi(1), bi(2), bi(3), new(big.Int).Sub(n, bi(1)), new(big.Int).Sub(n, bi(2)), new(big.Int).Rsh(n, 1),
		bi(17883), bi(193197), bi(107), bi(119), bi(327), bi(659), new(big.Int).Lsh(bi(1), 128), ref.I(kit.Stream("eph", 32)), ref.I(kit.Stream("eph", 29))}
	for i, k := range ephs {
		ephs[i] = new(big.Int).Mod(k, n)
	}
	mc.Main("C09", 150*time.Second, 800*time.Second, func(r *mc.Run) {
		r.Explore("keys and ephemerals", func(x *mc.X) {
			d := keys[x.Choose(len(keys))]
			k := ephs[x.Choose(len(ephs))]
			for i, l := range []int{1, 5, 32, 33, 100} {
				m := message(i%3, l)
				what := fmt.Sprintf("key %s, ephemeral %s, %d bytes", d.Name, k, l)
				ephemeral(x, k)
				trip(x, d.V, m, what)
				if ct, ok := ref.SM2Encrypt(c.MulBase(d.V), k, m); ok {
					same(x, d.V, ct, what)
					same(x, new(big.Int).Sub(n, d.V), ct, "negated key")
					same(x, keys[(i+len(d.Name))%len(keys)].V, ct, "other key")
				}
			}
		})
		r.Explore("lengths", func(x *mc.X) {
			i := x.Choose(r.N(420, 2200))
			kind := x.Choose(3)
			l := i + 1
			if i >= r.N(330, 2100) {
				j := i - r.N(330, 2100)
				l = []int{511, 1023, 1024, 2047, 4064, 4096, 8159, 8160, 8161, 8191, 8192, 8193, 8224, 8225, 16384, 65535, 65536, 65537}[j%18] + j/18
			}
			d := keys[l%len(keys)]
			x.Reseed(fmt.Sprint(l))
			m := message(kind, l)
			trip(x, d.V, m, fmt.Sprintf("%d bytes", l))
			if ct, ok := ref.SM2Encrypt(c.MulBase(d.V), bi(int64(l+9)), m); ok {
				same(x, d.V, ct, fmt.Sprintf("%d bytes of the reference", l))
			}
		})
		sizes := append(kit.Lengths(400, r.N(1<<20+1<<19, 1<<23+1)), 1<<21-32, 1<<21, 1<<21+1, 1<<21+40)
		r.Explore("large", func(x *mc.X) { // the third byte of the KDF counter
			l := sizes[x.Choose(len(sizes))]
			trip(x, bi(77), kit.Long(l), fmt.Sprintf("%d bytes", l))
		})
		// key streams that are all zero: k must be drawn again, and such
		// ciphertexts are invalid
		var mu sync.Mutex
		zeros := 0
		r.Explore("zero key stream", func(x *mc.X) {
			k := bi(int64(x.Choose(r.N(2048, 16384)) + 1))
			d := bi(5)
			m := []byte{0x5a}
			_, ok := ref.SM2Encrypt(c.MulBase(d), k, m)
			if !ok {
				mu.Lock()
				zeros++
				mu.Unlock()
				ephemeral(x, k)
				ct := trip(x, d, m, fmt.Sprintf("ephemeral %s with a zero key stream", k))
				x.Assert(ct[97] != m[0] || !bytes.Equal(ct[1:65], c.Enc(c.MulBase(k))), "zero-stream", "the key stream of ephemeral %s is zero, but the ciphertext releases the plaintext", k)
				ephemeral(x, k, k, k)
				trip(x, d, m, "repeated")
				// the ciphertext with the zero key stream
				s := c.Mul(c.MulBase(d), k)
				bad := kit.Cat([]byte{4}, c.Enc(c.MulBase(k)), ref.SM3(kit.Cat(ref.B32(s.X), m, ref.B32(s.Y))), m)
				same(x, d, bad, "zero key stream")
				// longer messages with this ephemeral are fine
				ephemeral(x, k)
				trip(x, d, []byte{1, 2}, "two bytes")
			}
			x.State(k.String(), ok)
		})
		r.Extra("ephemerals_with_zero_key_stream", zeros)
		base := []struct {
			d, k *big.Int
			m    []byte
		}{{bi(3), bi(4), []byte{7}}, {keys[3].V, bi(107), kit.Stream("flip", 40)}, {ref.I(kit.Stream("d", 31)), ephs[12], kit.Fill(33, 0)}}
		r.Explore("bit flips", func(x *mc.X) {
			b := base[x.Choose(len(base))]
			ct, _ := ref.SM2Encrypt(c.MulBase(b.d), b.k, b.m)
			bit := x.Choose(len(ct) * 8)
			same(x, b.d, ct, "unaltered")
			f := kit.Flip(ct, bit)
			same(x, b.d, f, "bit flip")
			if _, ok := ref.SM2Decrypt(b.d, f); ok {
				panic("mc: a flipped ciphertext is valid")
			}
		})
		r.Explore("byte substitutions", func(x *mc.X) {
			b := base[x.Choose(2)]
			ct, _ := ref.SM2Encrypt(c.MulBase(b.d), b.k, b.m)
			i := x.Choose(len(ct))
			for v := 1; v < 256; v += r.N(17, 1) {
				f := kit.Clone(ct)
				f[i] ^= byte(v)
				got, ret := dec(x, ref.B32(b.d), f)
				x.Assert(got == nil && ret != owcrypt.SUCCESS, "accepts-invalid", "byte %d changed by %#x is accepted: %s", i, v, mc.Hex(got))
			}
		})
		r.Explore("truncations and extensions", func(x *mc.X) {
			b := base[x.Choose(len(base))]
			ct, _ := ref.SM2Encrypt(c.MulBase(b.d), b.k, b.m)
			i := x.Choose(len(ct))
			same(x, b.d, ct[:i:i], "truncated")
			same(x, b.d, kit.Clone(ct[i:]), "head removed")
			for _, e := range [][]byte{{0}, {1}, {0xff}, make([]byte, 31), make([]byte, 32)} {
				same(x, b.d, kit.Cat(ct[:i], e, ct[i:]), "inserted")
			}
			same(x, b.d, kit.Cat(ct, kit.Fill(i+1, 0)), "extended")
			if i+1 <= len(ct) {
				same(x, b.d, kit.Cat(ct[:i], ct[i+1:]), "one byte removed")
			}
			if i == 0 {
				got, ret := dec(x, ref.B32(b.d), nil)
				x.Assert(got == nil && ret == owcrypt.MESSAGE_ILLEGAL, "nil", "nil ciphertext: code %#x", ret)
				// C1 C2 C3 order
				same(x, b.d, kit.Cat(ct[:65], ct[97:], ct[65:97]), "C1C2C3")
			}
		})
		r.Explore("pairs of byte faults", func(x *mc.X) {
			b := base[0]
			ct, _ := ref.SM2Encrypt(c.MulBase(b.d), b.k, b.m)
			i := x.Choose(len(ct))
			for j := i + 1; j < len(ct); j += r.N(5, 1) {
				f := kit.Clone(ct)
				f[i] ^= 0x80
				f[j] ^= 0x01
				same(x, b.d, f, "two faults")
			}
		})
		// C1 from the attacker: every malformed and every well-formed point
		bad := kit.BadPoints(c)
		names := kit.SortedKeys(bad)
		r.Explore("malformed C1", func(x *mc.X) {
			nm := names[x.Choose(len(names))]
			d := keys[x.Choose(6)].V
			for _, m := range [][]byte{{1}, kit.Stream("m", 33)} {
				for _, s := range []ref.Pt{{X: bi(0), Y: bi(0)}, c.MulBase(d), c.G()} { // a ciphertext valid for plausible shared points
					t := ref.SM2KDF(c.Enc(s), len(m))
					body := make([]byte, len(m))
					for i := range m {
						body[i] = m[i] ^ t[i]
					}
					same(x, d, kit.Cat([]byte{4}, bad[nm], ref.SM3(kit.Cat(ref.B32(s.X), m, ref.B32(s.Y))), body), "C1 = "+nm)
				}
			}
		})
		pts := kit.Points(c, 8)
		r.Explore("chosen C1", func(x *mc.X) {
			p := pts[x.Choose(len(pts))]
			d := keys[x.Choose(len(keys))].V
			s := c.Mul(p.Pt, d)
			m := kit.Stream("m", 35)
			t := ref.SM2KDF(c.Enc(s), len(m))
			body := make([]byte, len(m))
			for i := range m {
				body[i] = m[i] ^ t[i]
			}
			h := ref.SM3(kit.Cat(ref.B32(s.X), m, ref.B32(s.Y)))
			same(x, d, kit.Cat([]byte{4}, c.Enc(p.Pt), h, body), "C1 = "+p.Name)
			same(x, d, kit.Cat([]byte{4}, c.Enc(c.Neg(p.Pt)), h, body), "-C1")
			for pre := 0; pre < 8; pre++ {
				same(x, d, kit.Cat([]byte{byte(pre)}, c.Enc(p.Pt), h, body), fmt.Sprintf("prefix %d", pre))
			}
			same(x, d, kit.Cat([]byte{4}, c.Enc(p.Pt), ref.SM3(kit.Cat(ref.B32(s.Y), m, ref.B32(s.X))), body), "hash of y m x")
			same(x, d, kit.Cat([]byte{4}, c.Enc(p.Pt), ref.SM3(m), body), "hash of m")
		})
		r.Explore("prefix byte", func(x *mc.X) {
			v := x.Choose(256)
			for _, b := range base {
				ct, _ := ref.SM2Encrypt(c.MulBase(b.d), b.k, b.m)
				ct[0] = byte(v)
				same(x, b.d, ct, "prefix")
			}
		})
		r.Explore("key domain", func(x *mc.X) {
			ct, _ := ref.SM2Encrypt(c.MulBase(bi(3)), bi(4), []byte("m"))
			v := []*big.Int{bi(0), n, new(big.Int).Add(n, bi(1)), new(big.Int).Add(n, bi(3)), ref.I(kit.Fill(32, 0xff)), c.P}[x.Choose(6)]
			got, ret := dec(x, ref.B32(v), ct)
			x.Assert(got == nil && ret == owcrypt.ECC_PRIKEY_ILLEGAL, "domain", "decrypts with the key %s: %s code %#x", v, mc.Hex(got), ret)
		})
		r.Explore("lengths of keys", func(x *mc.X) {
			i := x.Choose(100)
			ct, _ := ref.SM2Encrypt(c.MulBase(bi(3)), bi(4), []byte("m"))
			if i != 32 {
				got, ret := dec(x, append(make([]byte, 100), 3)[101-i:], ct)
				x.Assert(got == nil && ret == owcrypt.ECC_PRIKEY_ILLEGAL, "key-length", "decrypts with a %d-byte key", i)
			}
			if i != 64 {
				pub := append(c.Enc(c.G()), make([]byte, 100)...)[:i]
				got, ret := enc(x, pub, []byte("m"))
				x.Assert(got == nil && ret == owcrypt.ECC_PUBKEY_ILLEGAL, "key-length", "encrypts under a %d-byte key: code %#x", i, ret)
			}
			if i == 0 {
				for _, m := range [][]byte{nil, {}} {
					got, ret := enc(x, c.Enc(c.G()), m)
					x.Assert(got == nil && ret == owcrypt.MESSAGE_ILLEGAL, "empty", "encrypts an empty plaintext: code %#x", ret)
				}
			}
		})
		r.Explore("invalid public keys", func(x *mc.X) {
			nm := names[x.Choose(len(names))]
			got, ret := enc(x, bad[nm], []byte("m"))
			x.Assert(got == nil && ret == owcrypt.ECC_PUBKEY_ILLEGAL, "bad-key", "encrypts under %s: code %#x", nm, ret)
			x.State(nm)
		})
		r.Note("ciphertexts are 04 || C1 || C3 || C2 as produced by the library")
	})
}
