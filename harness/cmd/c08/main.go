// C08: SM2 signatures (GB/T 32918.2).
package main

import (
	"crypto/ecdsa"
	"encoding/binary"
	"fmt"
	"math/big"
	"sync"
	"time"
	"verifharness/kit"
	"verifharness/mc"
	"verifharness/ref"

	owcrypt "github.com/blocktree/go-owcrypt"
)

const code = owcrypt.ECC_CURVE_SM2_STANDARD

func bi(v int64) *big.Int { return big.NewInt(v) }

func verify(x *mc.X, pub, id, msg, sig []byte) bool {
	var ret uint16
	x.Call("Verify", func() { ret = owcrypt.Verify(pub, id, msg, sig, code) })
	x.State(pub, id, msg, sig, int(ret))
	x.Assert(ret == owcrypt.SUCCESS || ret == owcrypt.FAILURE, "code", "Verify returns the code %#x", ret)
	return ret == owcrypt.SUCCESS
}

func want(pub, id, msg, sig []byte) bool {
	q, on := ref.SM2.Dec(pub)
	if !on || len(msg) != 32 || len(sig) != 64 || len(id) >= 8192 {
		return false
	}
	return ref.SM2Verify(q, ref.SM2E(id, q, msg), ref.I(sig[:32]), ref.I(sig[32:]))
}

func same(x *mc.X, pub, id, msg, sig []byte, what string) {
	w, g := want(pub, id, msg, sig), verify(x, pub, id, msg, sig)
	if g != w {
		k := "accepts-invalid"
		if w {
			k = "rejects-valid"
		}
		x.Fail(k, "%s: Verify(%s, id %s, %s, %s) = %v, want %v", what, mc.Hex(pub), mc.Hex(id), mc.Hex(msg), mc.Hex(sig), g, w)
	}
}

func sign(x *mc.X, d *big.Int, id, msg []byte) (sig []byte, v byte, ret uint16) {
	x.Call("Signature", func() { sig, v, ret = owcrypt.Signature(ref.B32(d), id, msg, code) })
	x.State(ref.B32(d), id, msg, sig, int(ret))
	return
}

type ident struct {
	id   []byte
	name string
}

func main() {
	c := ref.SM2
	keys := kit.Keys(c)
	var sk []kit.S // signing keys
	for _, k := range keys {
		if k.Name != "n-1" {
			sk = append(sk, k)
		}
	}
	n := c.N
	nm := func(d int64) *big.Int { return new(big.Int).Sub(n, bi(d)) }
	ids := []ident{{nil, "none"}, {[]byte{}, "empty"}, {[]byte("1234567812345678"), "default"}, {[]byte{0}, "00"}, {[]byte("ALICE123@YAHOO.COM"), "alice"}}
	for _, l := range []int{2, 31, 32, 33, 62, 63, 64, 65, 118, 119, 120, 255, 256, 1023, 1024, 4095, 4096, 8190, 8191} {
		ids = append(ids, ident{kit.Stream("id", l), fmt.Sprintf("%d bytes", l)})
	}
	hashes := kit.Hashes(c)
	mc.Main("C08", 150*time.Second, 800*time.Second, func(r *mc.Run) {
		r.Explore("signing", func(x *mc.X) {
			d := sk[x.Choose(len(sk))]
			id := ids[x.Choose(len(ids))]
			q := c.MulBase(d.V)
			for i := 0; i < r.N(2, 16); i++ {
				h := hashes[(i*7+len(id.id)+len(d.Name))%len(hashes)]
				x.Reseed(fmt.Sprintf("%s/%s/%d", d.Name, id.name, i))
				what := fmt.Sprintf("key %s, identity %s, message %s", d.Name, id.name, h.Name)
				sig, _, ret := sign(x, d.V, id.id, h.V)
				x.Assert(ret == owcrypt.SUCCESS && len(sig) == 64, "sign-fails", "signing with %s: code %#x", what, ret)
				x.Assert(want(c.Enc(q), id.id, h.V, sig), "sign-invalid", "the signature %s with %s is not valid", mc.Hex(sig), what)
				x.Assert(verify(x, c.Enc(q), id.id, h.V, sig), "rejects-valid", "the library rejects its own signature with %s", what)
				// bound to identity, message and key
				for j, o := range ids {
					if o.name != id.name && (j+i)%6 == 0 || j < 3 {
						same(x, c.Enc(q), o.id, h.V, sig, "identity "+o.name+" instead of "+id.name)
					}
				}
				same(x, c.Enc(q), id.id, hashes[(i+1)%len(hashes)].V, sig, "other message")
				same(x, c.Enc(c.Neg(q)), id.id, h.V, sig, "negated key")
				same(x, c.Enc(c.MulBase(sk[(i+3)%len(sk)].V)), id.id, h.V, sig, "other key")
			}
		})
		r.Explore("many nonces", func(x *mc.X) {
			e := x.Choose(r.N(256, 4096))
			d, id, h := sk[e%len(sk)], ids[(e/7)%6], hashes[(e/3)%len(hashes)]
			for j := 0; j < 4; j++ {
				x.Reseed(fmt.Sprintf("nonce%d.%d", e, j))
				sig, _, ret := sign(x, d.V, id.id, h.V)
				x.Assert(ret == owcrypt.SUCCESS && len(sig) == 64, "sign-fails", "code %#x", ret)
				q := c.Enc(c.MulBase(d.V))
				x.Assert(want(q, id.id, h.V, sig), "sign-invalid", "the signature %s of %s with %s is not valid", mc.Hex(sig), h.Name, id.name)
				x.Assert(verify(x, q, id.id, h.V, sig), "rejects-valid", "the library rejects its own signature")
			}
		})
		// enough signatures for r and s with two leading zero bytes
		var mu sync.Mutex
		short := map[int]int{}
		r.Explore("short r and s", func(x *mc.X) {
			e := x.Choose(r.N(512, 4096))
			d := keys[2].V
			q := c.MulBase(d)
			x.Reseed(fmt.Sprint(e))
			h := make([]byte, 32)
			for j := 0; j < 256; j++ {
				binary.BigEndian.PutUint32(h[28:], uint32(e*256+j))
				var sig []byte
				var ret uint16
				x.Call("Signature", func() { sig, _, ret = owcrypt.Signature(ref.B32(d), nil, h, code) })
				x.Assert(ret == owcrypt.SUCCESS && len(sig) == 64, "sign-fails", "code %#x", ret)
				x.Step()
				if sig[0] != 0 && sig[32] != 0 && j > 0 {
					continue
				}
				x.State(h, sig)
				x.Assert(want(c.Enc(q), nil, h, sig), "sign-invalid", "the signature %s of %s is not valid", mc.Hex(sig), mc.Hex(h))
				x.Assert(verify(x, c.Enc(q), nil, h, sig), "rejects-valid", "the library rejects its own signature %s", mc.Hex(sig))
				for i := 0; i < 64; i += 32 {
					if sig[i] == 0 && sig[i+1] == 0 {
						mu.Lock()
						short[i/32]++
						mu.Unlock()
					}
				}
			}
		})
		r.Extra("signatures_with_two_leading_zero_bytes_in_r_s", []int{short[0], short[1]})
		r.Explore("independent signatures", func(x *mc.X) {
			d := keys[x.Choose(len(keys))]
			id := ids[x.Choose(len(ids))]
			q := c.MulBase(d.V)
			if d.Name == "n-1" {
				return
			}
			for i, k := range []*big.Int{bi(1), bi(2), nm(1), new(big.Int).Rsh(n, 1), ref.I(kit.Stream("n", 31))} {
				h := hashes[(i*5+len(id.name))%len(hashes)]
				rr, s, _, ok := ref.SM2Sign(d.V, k, ref.SM2E(id.id, q, h.V))
				if ok {
					x.Assert(verify(x, c.Enc(q), id.id, h.V, kit.RS(rr, s)), "rejects-valid", "key %s id %s nonce %s is rejected", d.Name, id.name, k)
					same(x, c.Enc(q), id.id, h.V, kit.RS(rr, new(big.Int).Sub(n, s)), "negated s")
					same(x, c.Enc(q), id.id, h.V, kit.RS(s, rr), "swapped")
					if v := new(big.Int).Add(rr, n); v.BitLen() <= 256 {
						same(x, c.Enc(q), id.id, h.V, kit.RS(v, s), "r+n")
					}
					if v := new(big.Int).Add(s, n); v.BitLen() <= 256 {
						same(x, c.Enc(q), id.id, h.V, kit.RS(rr, v), "s+n")
					}
				}
			}
		})
		// Every identity length: ENTL and the block boundaries of Z_A.
		sizes := kit.Lengths(200, 8191)
		r.Explore("identity lengths", func(x *mc.X) {
			i := x.Choose(r.N(300+len(sizes), 8192))
			l := i
			if !r.Thorough() && i >= 300 {
				l = sizes[i-300]
			} else if !r.Thorough() && i >= 200 {
				l = 200 + (i-200)*80 + i%7
			}
			d := sk[l%len(sk)]
			q := c.MulBase(d.V)
			for _, l := range []int{l, 8191 - i%64, 32*(i%256) + i/256} {
				id := kit.Stream("idl", l)
				h := kit.Stream("m", 32)
				rr, s, _, ok := ref.SM2Sign(d.V, bi(int64(l+3)), ref.SM2E(id, q, h))
				if !ok {
					return
				}
				x.Assert(verify(x, c.Enc(q), id, h, kit.RS(rr, s)), "rejects-valid", "identity of %d bytes is rejected", l)
				if l > 0 {
					same(x, c.Enc(q), id[:l-1], h, kit.RS(rr, s), "shortened identity")
					same(x, c.Enc(q), kit.Flip(id, (l*8-1)&^7), h, kit.RS(rr, s), "last identity byte changed")
				}
				if l < 8191 {
					same(x, c.Enc(q), append(kit.Clone(id), 0), h, kit.RS(rr, s), "extended identity")
				}
			}
		})
		r.Explore("identities that are too long", func(x *mc.X) {
			l := []int{8192, 8193, 8200, 16383, 16384, 65535, 65536, 65537, 73728}[x.Choose(9)]
			id := kit.Stream("long", l)
			d := sk[x.Choose(4)]
			q := c.MulBase(d.V)
			h := kit.Stream("m", 32)
			sig, _, ret := sign(x, d.V, id, h)
			x.Assert(sig == nil && ret != owcrypt.SUCCESS, "long-id-signed", "an identity of %d bytes is signed", l)
			// the signature for the truncated length field
			e := ref.I(ref.SM3(append(ref.SM2ZA(id, q), h...)))
			rr, s, _, _ := ref.SM2Sign(d.V, bi(9), e)
			x.Assert(!verify(x, c.Enc(q), id, h, kit.RS(rr, s)), "long-id-verified", "an identity of %d bytes is accepted", l)
			e = ref.SM2E(id[:l%8192], q, h)
			rr, s, _, _ = ref.SM2Sign(d.V, bi(9), e)
			x.Assert(!verify(x, c.Enc(q), id, h, kit.RS(rr, s)), "long-id-verified", "an identity of %d bytes is accepted", l)
			rr, s, _, _ = ref.SM2Sign(d.V, bi(9), ref.I(h))
			x.Assert(!verify(x, c.Enc(q), id, h, kit.RS(rr, s)), "long-id-verified", "an identity of %d bytes is ignored", l)
			var za []byte
			var err error
			x.Call("ZA", func() { za, err = owcrypt.ZA(&ecdsa.PublicKey{X: q.X, Y: q.Y}, id) })
			x.Assert(err != nil && len(za) == 0, "za-long", "ZA accepts %d bytes", l)
		})
		pts := kit.Points(c, 8)
		r.Explore("ZA", func(x *mc.X) {
			p := pts[x.Choose(len(pts))]
			for _, id := range ids {
				var za []byte
				var err error
				x.Call("ZA", func() {
					za, err = owcrypt.ZA(&ecdsa.PublicKey{X: new(big.Int).Set(p.X), Y: new(big.Int).Set(p.Y)}, id.id)
				})
				x.State(za)
				x.Assert(err == nil, "za", "ZA of %s: %v", p.Name, err)
				x.Eq(za, ref.SM2ZA(id.id, p.Pt), "za", "ZA of %s, identity %s", p.Name, id.name)
			}
		})
		// any (r, s, R): a key and digest under which it is valid
		sAlpha := []*big.Int{bi(1), bi(2), nm(1), nm(2), new(big.Int).Rsh(n, 1), new(big.Int).Lsh(bi(1), 128), ref.I(kit.Stream("s", 31)), ref.I(kit.Fill(32, 0x80))}
		rAlpha := []*big.Int{bi(1), bi(2), nm(1), nm(2), new(big.Int).Rsh(n, 1), new(big.Int).Lsh(bi(1), 255), ref.I(kit.Stream("r", 31))}
		r.Explore("constructed", func(x *mc.X) {
			R := pts[x.Choose(len(pts))]
			rr := rAlpha[x.Choose(len(rAlpha))]
			for _, s := range sAlpha {
				t := new(big.Int).Add(rr, s)
				t.Mod(t, n)
				e := new(big.Int).Sub(rr, R.X)
				e.Mod(e, n)
				if t.Sign() == 0 {
					for i := int64(1); i < 3; i++ {
						p := c.MulBase(s) // with t = 0 the point would be sG
						v := new(big.Int).Sub(rr, p.X)
						same(x, c.Enc(c.MulBase(bi(i))), nil, ref.B32(v.Mod(v, n)), kit.RS(rr, s), "t = 0")
					}
					continue
				}
				p := c.Add(R.Pt, c.Neg(c.MulBase(s)))
				q := c.Mul(p, new(big.Int).ModInverse(t, n))
				if q.Inf {
					continue
				}
				pub, msg, sig := c.Enc(q), ref.B32(e), kit.RS(rr, s)
				if !want(pub, nil, msg, sig) {
					panic("mc: construction")
				}
				same(x, pub, nil, msg, sig, "constructed R="+R.Name)
				same(x, pub, []byte{}, msg, sig, "constructed, empty identity")
				if v := new(big.Int).Add(e, n); v.BitLen() <= 256 {
					same(x, pub, nil, ref.B32(v), sig, "e+n")
				}
				same(x, pub, nil, msg, kit.RS(rr, new(big.Int).Mod(new(big.Int).Add(s, bi(1)), n)), "s+1")
			}
		})
		// sG + tP at infinity or doubling
		r.Explore("degenerate combinations", func(x *mc.X) {
			d := sk[x.Choose(len(sk))]
			q := c.MulBase(d.V)
			s := sAlpha[x.Choose(len(sAlpha))]
			di := new(big.Int).ModInverse(d.V, n)
			for _, f := range []int64{-1, 1, 0, 2} { // t P = f sG: infinity, doubling, none
				t := new(big.Int).Mul(s, di)
				t.Mul(t, bi(f))
				t.Mod(t, n)
				rr := new(big.Int).Sub(t, s)
				rr.Mod(rr, n)
				R := c.Comb(s, q, t)
				for _, px := range []*big.Int{R.X, bi(0)} {
					e := new(big.Int).Sub(rr, px)
					same(x, c.Enc(q), nil, ref.B32(e.Mod(e, n)), kit.RS(rr, s), fmt.Sprintf("key %s f=%d", d.Name, f))
				}
			}
		})
		r.Explore("ranges", func(x *mc.X) {
			d := sk[x.Choose(6)]
			h := hashes[x.Choose(len(hashes))]
			id := ids[x.Choose(3)]
			pub := c.Enc(c.MulBase(d.V))
			vals := []*big.Int{bi(0), bi(1), nm(1), n, new(big.Int).Add(n, bi(1)), c.P, ref.I(kit.Fill(32, 0xff))}
			for _, a := range vals {
				for _, b := range vals {
					same(x, pub, id.id, h.V, kit.RS(a, b), "range")
				}
			}
			// e with r = 0 and the point otherwise right
			s := bi(7)
			R := c.Comb(s, c.MulBase(d.V), s)
			e := new(big.Int).Neg(R.X)
			same(x, pub, nil, ref.B32(e.Mod(e, n)), kit.RS(bi(0), s), "r = 0")
			same(x, pub, nil, ref.B32(e), kit.RS(n, s), "r = n")
		})
		r.Explore("bit flips", func(x *mc.X) {
			bit := x.Choose(64*8 + 32*8 + 64*8 + 16*8)
			for i := 0; i < r.N(2, 16); i++ {
				d, id, h := sk[i*3%len(sk)], ids[(2*i)%3], hashes[(i*5+3)%len(hashes)]
				if bit >= 1280 {
					id = ids[2]
				}
				q := c.MulBase(d.V)
				rr, s, _, ok := ref.SM2Sign(d.V, bi(int64(i+5)), ref.SM2E(id.id, q, h.V))
				if !ok {
					continue
				}
				pub, msg, sig, idb := c.Enc(q), h.V, kit.RS(rr, s), id.id
				switch {
				case bit < 512:
					sig = kit.Flip(sig, bit)
				case bit < 768:
					msg = kit.Flip(msg, bit-512)
				case bit < 1280:
					pub = kit.Flip(pub, bit-768)
				default:
					idb = kit.Flip(idb, bit-1280)
				}
				same(x, pub, idb, msg, sig, "flip")
			}
		})
		bad := kit.BadPoints(c)
		names := kit.SortedKeys(bad)
		r.Explore("invalid keys", func(x *mc.X) {
			nm := names[x.Choose(len(names))]
			h := hashes[x.Choose(len(hashes))]
			for i := int64(1); i <= 3; i++ {
				rr, s, _, ok := ref.SM2Sign(bi(i), bi(i+1), ref.I(h.V))
				if ok {
					same(x, bad[nm], nil, h.V, kit.RS(rr, s), "invalid key "+nm)
					same(x, bad[nm], []byte("id"), h.V, kit.RS(rr, s), "invalid key "+nm)
				}
			}
			// valid if the key were read as infinity: R = sG
			s := bi(6)
			rr := bi(9)
			e := new(big.Int).Sub(rr, c.MulBase(s).X)
			same(x, bad[nm], nil, ref.B32(e.Mod(e, n)), kit.RS(rr, s), "invalid key "+nm)
		})
		r.Explore("lengths", func(x *mc.X) {
			i := x.Choose(100)
			h := hashes[12].V
			rr, s, _, _ := ref.SM2Sign(bi(5), bi(6), ref.I(h))
			pub, sig := c.Enc(c.MulBase(bi(5))), kit.RS(rr, s)
			cut := func(b []byte) []byte { return append(kit.Clone(b), make([]byte, 100)...)[:i] }
			for _, id := range [][]byte{nil, []byte("id")} {
				if i != 64 {
					x.Assert(!verify(x, cut(pub), id, h, sig), "length", "accepts a %d-byte key", i)
					x.Assert(!verify(x, pub, id, h, cut(sig)), "length", "accepts a %d-byte signature", i)
				}
				if i != 32 {
					x.Assert(!verify(x, pub, id, cut(h), sig), "length", "accepts a %d-byte message", i)
					got, _, ret := sign(x, bi(5), id, cut(h))
					x.Assert(got == nil && ret == owcrypt.MESSAGE_ILLEGAL, "length", "signs a %d-byte message: code %#x", i, ret)
					var g2 []byte
					x.Call("Signature", func() { g2, _, ret = owcrypt.Signature(cut(ref.B32(bi(5))), id, h, code) })
					x.Assert(g2 == nil && ret == owcrypt.ECC_PRIKEY_ILLEGAL, "length", "signs with a %d-byte key: code %#x", i, ret)
				}
			}
		})
		r.Explore("key domain", func(x *mc.X) {
			v := []*big.Int{bi(0), nm(1), n, new(big.Int).Add(n, bi(1)), ref.I(kit.Fill(32, 0xff)), c.P}[x.Choose(6)]
			got, _, ret := sign(x, v, ids[x.Choose(3)].id, hashes[12].V)
			x.Assert(got == nil && ret == owcrypt.ECC_PRIKEY_ILLEGAL, "domain", "signs with the key %s: code %#x", v, ret)
		})
		r.Note("the identity binds e = SM3(Z_A || message); without identity the message is e")
	})
}
