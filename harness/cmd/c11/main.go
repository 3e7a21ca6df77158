// C11: the four signature schemes on curve25519.
package main

import (
	"bytes"
	"crypto/ed25519"
	"fmt"
	"math/big"
	"time"
	"verifharness/kit"
	"verifharness/mc"
	"verifharness/ref"

	owcrypt "github.com/blocktree/go-owcrypt"
)

func bi(v int64) *big.Int { return big.NewInt(v) }

type fixed byte

func (f fixed) Read(b []byte) (int, error) {
	for i := range b {
		b[i] = byte(f)
	}
	return len(b), nil
}

func main() {
	mc.Main("C11", 150*time.Second, 800*time.Second, func(r *mc.Run) {
		keys := kit.EdKeys()
		msgs := []kit.B{{V: nil, Name: "nil"}, {V: []byte{}, Name: "empty"}, {V: []byte{0}, Name: "one zero"}, {V: []byte("abc"), Name: "abc"},
			{V: kit.Stream("m", 31), Name: "31"}, {V: kit.Stream("m", 32), Name: "32"}, {V: kit.Stream("m", 64), Name: "64"}, {V: kit.Fill(200, 0xff), Name: "200"}, {V: kit.Stream("m", 1000), Name: "1000"}}
		ent := func(x *mc.X, i int) {
			x.Reseed(fmt.Sprintf("entropy%d", i))
			switch i {
			case 1:
				x.Rand().R = fixed(0)
			case 2:
				x.Rand().R = fixed(0xff)
			}
		}
		// one signature, checked every way
		full := func(x *mc.X, s kit.EdScheme, k, msg []byte, what string) []byte {
			in := kit.Clone(k)
			pub := s.Pub(k)
			var got []byte
			var ret uint16
			x.Call("GenPubkey", func() { got, ret = owcrypt.GenPubkey(in, s.Code) })
			x.Assert(ret == owcrypt.SUCCESS && bytes.Equal(got, pub), "pubkey/"+s.Name, "%s key %s: public key %s code %#x, want %s", s.Name, what, mc.Hex(got), ret, mc.Hex(pub))
			sig := s.Sign(x, in, msg, what)
			if s.Code == owcrypt.ECC_CURVE_ED25519_NORMAL {
				x.Eq(sig, ed25519.Sign(ed25519.NewKeyFromSeed(k), msg), "rfc8032", "%s sign %s is not the RFC 8032 signature", s.Name, what)
			}
			if s.Code == owcrypt.ECC_CURVE_X25519 && new(big.Int).Mod(ref.ILE(k), ref.EdL).Sign() == 0 {
				return sig // the key is the identity
			}
			ok := s.Check(x, pub, msg, sig, what)
			x.Assert(ok, "own-invalid/"+s.Name, "%s sign %s: %s does not satisfy the verification equation under %s", s.Name, what, mc.Hex(sig), mc.Hex(pub))
			return sig
		}
		r.Explore("keys and messages", func(x *mc.X) {
			s := kit.EdSchemes[x.Choose(4)]
			k := keys[x.Choose(len(keys))]
			m := msgs[x.Choose(len(msgs))]
			n := 1
			if s.Code == owcrypt.ECC_CURVE_ED25519 || s.Code == owcrypt.ECC_CURVE_X25519 {
				n = r.N(2, 4)
			}
			ent(x, x.Choose(n))
			full(x, s, k.V, m.V, "key "+k.Name+" message "+m.Name)
		})
		r.Explore("entropy", func(x *mc.X) {
			s := kit.EdSchemes[1+x.Choose(2)]
			e := x.Choose(r.N(6, 40))
			ent(x, e)
			i := x.Choose(4)
			full(x, s, keys[len(keys)-1-i].V, msgs[i].V, fmt.Sprintf("entropy %d", e))
		})
		r.Explore("message lengths", func(x *mc.X) {
			s := kit.EdSchemes[x.Choose(4)]
			b := x.Choose(r.N(35, 140)) * 8
			for n := b; n < b+8; n++ {
				full(x, s, keys[len(keys)-1].V, kit.Stream("len", n), fmt.Sprintf("%d bytes", n))
			}
		})
		sizes := kit.Lengths(250, r.N(1<<20+1<<19, 1<<23+1))
		r.Explore("large messages", func(x *mc.X) {
			s := kit.EdSchemes[x.Choose(4)]
			n := sizes[x.Choose(len(sizes))]
			full(x, s, keys[len(keys)-1].V, kit.Long(n), fmt.Sprintf("%d bytes", n))
		})
		// many hash values through the scalar reductions
		r.Explore("counters", func(x *mc.X) {
			s := kit.EdSchemes[x.Choose(4)]
			b := x.Choose(r.N(1500, 12000))
			for i := b * 8; i < b*8+8; i++ {
				k := kit.Stream(fmt.Sprintf("ctr%d", i), 32)
				full(x, s, k, []byte{byte(i), byte(i >> 8)}, fmt.Sprintf("counter %d", i))
			}
		})
		type triple struct{ pub, msg, sig []byte }
		base := func(x *mc.X, s kit.EdScheme, i int) triple {
			k := keys[len(keys)-1-i].V
			m := kit.Stream("base", []int{0, 20, 64}[i%3])
			x.Reseed(fmt.Sprintf("base%d", i))
			return triple{s.Pub(k), m, s.Sign(x, kit.Clone(k), m, "base")}
		}
		// the definition decides every mutation
		r.Explore("bit flips", func(x *mc.X) {
			s := kit.EdSchemes[x.Choose(4)]
			i := x.Choose(r.N(2, 6))
			t := base(x, s, i)
			n := x.Choose(512 + 256 + 8*len(t.msg))
			switch {
			case n < 512:
				t.sig = kit.Flip(t.sig, n)
			case n < 768:
				t.pub = kit.Flip(t.pub, n-512)
			default:
				t.msg = kit.Flip(t.msg, n-768)
			}
			s.Check(x, t.pub, t.msg, t.sig, fmt.Sprintf("bit %d flipped", n))
		})
		r.Explore("byte changes", func(x *mc.X) {
			s := kit.EdSchemes[x.Choose(4)]
			t := base(x, s, 1)
			n := x.Choose(64 + 32)
			v := []byte{0, 0xff, 0x80, 0x7f, 1}[x.Choose(5)]
			if n < 64 {
				t.sig = kit.Clone(t.sig)
				t.sig[n] = v
			} else {
				t.pub = kit.Clone(t.pub)
				t.pub[n-64] = v
			}
			s.Check(x, t.pub, t.msg, t.sig, fmt.Sprintf("byte %d set to %02x", n, v))
		})
		r.Explore("scalar plus a multiple of the order", func(x *mc.X) {
			s := kit.EdSchemes[x.Choose(4)]
			t := base(x, s, x.Choose(4))
			off := 32
			if s.Code == owcrypt.ECC_CURVE_CURVE25519_SHA256 {
				off = 0
			}
			c := kit.Clone(t.sig)
			sign := byte(0)
			if s.Code == owcrypt.ECC_CURVE_X25519 {
				sign = c[63] & 0x80
				c[63] &= 0x7f
			}
			k := x.Choose(16)
			v := ref.ILE(c[off : off+32])
			if x.Bool() {
				v = new(big.Int).Sub(ref.EdL, v) // -S
			}
			v = new(big.Int).Add(v, new(big.Int).Mul(ref.EdL, bi(int64(k))))
			if v.BitLen() > 256 {
				return
			}
			copy(c[off:], ref.LE(v))
			for _, sg := range []byte{0, 0x80} {
				d := kit.Clone(c)
				d[63] |= sg & 0x80
				if s.Code == owcrypt.ECC_CURVE_X25519 {
					d[63] ^= sign
				}
				s.Check(x, t.pub, t.msg, d, fmt.Sprintf("S + %dL", k))
			}
		})
		// signatures made by the reference, with components of small order
		low := ref.EdLow()
		sec := []*big.Int{bi(1), bi(2), bi(8), new(big.Int).Sub(ref.EdL, bi(1)), ref.ILE(kit.Stream("sec", 31))}
		non := []*big.Int{bi(0), bi(1), new(big.Int).Sub(ref.EdL, bi(1)), ref.ILE(kit.Stream("non", 31))}
		r.Explore("crafted with small-order components", func(x *mc.X) {
			s := kit.EdSchemes[x.Choose(3)]
			k, n := sec[x.Choose(len(sec))], non[x.Choose(len(non))]
			ta, tr := low[x.Choose(8)], low[x.Choose(8)]
			m := []byte{byte(x.Choose(r.N(2, 6)))}
			a := ref.EdMulBase(k).Add(ta)
			sig := ref.EdSign(k, n, tr, a.Enc(), m)
			pub := a.Enc()
			if s.Code == owcrypt.ECC_CURVE_X25519 {
				pub = ref.LE(ref.EdToU(a.Y))
				sig[63] |= byte(a.X.Bit(0)) << 7
			}
			ok := s.Check(x, pub, m, sig, "crafted")
			if ta.IsO() && tr.IsO() {
				x.Assert(ok, "harness", "the reference rejects its own signature")
			}
		})
		r.Explore("keys of small order", func(x *mc.X) {
			s := kit.EdSchemes[x.Choose(3)]
			a, R := low[x.Choose(8)], low[x.Choose(8)]
			v := []*big.Int{bi(0), bi(1), bi(8), new(big.Int).Sub(ref.EdL, bi(1)), ref.EdL}[x.Choose(5)]
			if !v.IsInt64() || v.Int64() != 0 {
				R = R.Add(ref.EdMulBase(v))
			}
			m := []byte{byte(x.Choose(r.N(8, 32)))}
			sig := append(R.Enc(), ref.LE(v)...)
			pub := a.Enc()
			if s.Code == owcrypt.ECC_CURVE_X25519 {
				pub = ref.LE(ref.EdToU(a.Y))
				sig[63] |= byte(a.X.Bit(0)) << 7
			}
			s.Check(x, pub, m, sig, "key of small order")
		})
		// R must be the canonical encoding: R with y + p, or the wrong sign of x = 0
		r.Explore("non-canonical R", func(x *mc.X) {
			s := kit.EdSchemes[x.Choose(3)]
			k := sec[4]
			R := low[x.Choose(8)]
			a := ref.EdMulBase(k)
			enc := R.Enc()
			if x.Bool() {
				enc[31] ^= 0x80
			}
			if x.Bool() {
				y := new(big.Int).Add(R.Y, ref.EdP)
				if y.BitLen() > 255 {
					return
				}
				b := ref.LE(y)
				b[31] |= enc[31] & 0x80
				enc = b
			}
			m := []byte{byte(x.Choose(r.N(8, 64)))}
			pub := a.Enc()
			xp := ref.LE(ref.EdToU(a.Y))
			// S as the signer of R would make it
			h := ref.EdHash(enc, pub, m)
			v := h.Mul(h, k)
			v.Mod(v, ref.EdL)
			sig := append(enc, ref.LE(v)...)
			if s.Code == owcrypt.ECC_CURVE_X25519 {
				pub = xp
				sig[63] |= byte(a.X.Bit(0)) << 7
			}
			s.Check(x, pub, m, sig, "R not canonical")
		})
		// the Curve25519-SHA256 equation with any nonce
		r.Explore("Curve25519-SHA256 crafted", func(x *mc.X) {
			s := kit.EdSchemes[3]
			k := keys[x.Choose(len(keys))].V
			n := append(append([]*big.Int{}, non[1:]...), sec...)[x.Choose(7)]
			m := []byte{byte(x.Choose(r.N(2, 6)))}
			pub := s.Pub(k)
			sig := ref.KSign(ref.Clamp(k), n, m)
			ok := s.Check(x, pub, m, sig, "crafted")
			x.Assert(ok, "harness", "the reference rejects its own signature")
			c := kit.Clone(sig)
			v := new(big.Int).Sub(ref.EdL, ref.ILE(c[:32]))
			copy(c, ref.LE(v))
			s.Check(x, pub, m, c, "crafted, -v")
		})
		r.Explore("unreduced X keys", func(x *mc.X) {
			s := kit.EdSchemes[2+x.Choose(2)]
			d := x.Choose(20)
			u := new(big.Int).Add(ref.EdP, bi(int64(d)))
			t := base(x, s, 0)
			pub := ref.LE(u)
			s.Check(x, pub, t.msg, t.sig, "unreduced key")
			// a signature that holds for the reduced key, where one can be made
			low := ref.EdLow()
			for _, a := range low {
				if ref.EdToU(a.Y).Cmp(bi(int64(d))) != 0 {
					continue
				}
				for m := 0; m < 16; m++ {
					sig := append(ref.EdO().Enc(), make([]byte, 32)...)
					sig[63] |= byte(a.X.Bit(0)) << 7
					s.Check(x, pub, []byte{byte(m)}, sig, "unreduced key of small order")
				}
			}
		})
		r.Explore("other key, message or scheme", func(x *mc.X) {
			i, j := x.Choose(4), x.Choose(4)
			s, o := kit.EdSchemes[i], kit.EdSchemes[j]
			a, b := base(x, s, 0), base(x, o, 1)
			s.Check(x, b.pub, a.msg, a.sig, "key of another")
			s.Check(x, a.pub, b.msg, a.sig, "message of another")
			s.Check(x, a.pub, a.msg, b.sig, "signature of another")
			s.Check(x, a.pub, append(kit.Clone(a.msg), 0), a.sig, "longer message")
			if i != j {
				o.Check(x, a.pub, a.msg, a.sig, "scheme of another")
			}
		})
		r.Explore("lengths", func(x *mc.X) {
			s := kit.EdSchemes[x.Choose(4)]
			t := base(x, s, 1)
			n := x.Choose(70)
			c := append(kit.Clone(t.sig), make([]byte, 8)...)
			var ret uint16
			if n != 64 {
				x.Call("Verify", func() { ret = owcrypt.Verify(t.pub, nil, t.msg, c[:n:n], s.Code) })
				x.Assert(ret == owcrypt.FAILURE, "length", "%s accepts a signature of %d bytes (code %#x)", s.Name, n, ret)
			}
			p := append(kit.Clone(t.pub), make([]byte, 40)...)
			if n != 32 {
				x.Call("Verify", func() { ret = owcrypt.Verify(p[:n:n], nil, t.msg, t.sig, s.Code) })
				x.Assert(ret == owcrypt.FAILURE, "length", "%s accepts a key of %d bytes (code %#x)", s.Name, n, ret)
			}
			x.State(s.Name, n)
		})
		r.Note("Ed25519 keys and signatures are compared byte for byte with crypto/ed25519; all verdicts with the equation on the affine curve")
	})
}
