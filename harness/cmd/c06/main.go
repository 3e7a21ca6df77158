// C06: ECDSA verification on secp256k1 and secp256r1.
package main

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"math/big"
	"time"
	"verifharness/kit"
	"verifharness/mc"
	"verifharness/ref"

	owcrypt "github.com/blocktree/go-owcrypt"
)

type curve struct {
	*ref.Curve
	code uint32
}

func bi(v int64) *big.Int { return big.NewInt(v) }

func (c curve) verify(x *mc.X, pub, id, hash, sig []byte) bool {
	var ret uint16
	x.Call("Verify", func() { ret = owcrypt.Verify(pub, id, hash, sig, c.code) })
	x.State(c.Name, pub, hash, sig, int(ret))
	if ret != owcrypt.SUCCESS && ret != owcrypt.FAILURE {
		x.Fail("code", "%s Verify returns the code %#x", c.Name, ret)
	}
	return ret == owcrypt.SUCCESS
}

// same compares the library's verdict with the reference's on raw bytes.
func (c curve) same(x *mc.X, pub, hash, sig []byte, what string) {
	want := false
	if q, on := c.Dec(pub); on && len(hash) == 32 && len(sig) == 64 {
		want = c.ECDSAVerify(q, hash, ref.I(sig[:32]), ref.I(sig[32:]))
	}
	got := c.verify(x, pub, nil, hash, sig)
	if got != want {
		k := "accepts-invalid"
		if want {
			k = "rejects-valid"
		}
		x.Fail(k+"/"+c.Name, "%s %s: Verify(%s, %s, %s) = %v, want %v", c.Name, what, mc.Hex(pub), mc.Hex(hash), mc.Hex(sig), got, want)
	}
}

func main() {
	curves := []curve{{ref.K1, owcrypt.ECC_CURVE_SECP256K1}, {ref.R1, owcrypt.ECC_CURVE_SECP256R1}}
	mc.Main("C06", 150*time.Second, 800*time.Second, func(r *mc.Run) {
		for _, c := range curves {
			name := func(s string) string { return c.Name + ": " + s }
			keys, hashes := kit.Keys(c.Curve), kit.Hashes(c.Curve)
			pts := kit.Points(c.Curve, 4)
			n := c.N
			nm := func(d int64) *big.Int { return new(big.Int).Sub(n, bi(d)) }
			nonces := []*big.Int{bi(1), bi(2), bi(3), nm(1), nm(2), new(big.Int).Rsh(n, 1), ref.I(kit.Stream("nonce", 31))}

			// genuine signatures of an independent signer, as made and with s negated
			r.Explore(name("genuine"), func(x *mc.X) {
				d := keys[x.Choose(len(keys))]
				h := hashes[x.Choose(len(hashes))]
				pub := c.Enc(c.MulBase(d.V))
				for _, k := range nonces {
					rr, s, _, ok := c.ECDSASign(d.V, k, h.V)
					if !ok {
						continue
					}
					x.Assert(c.verify(x, pub, nil, h.V, kit.RS(rr, s)), "rejects-valid/"+c.Name, "%s key %s hash %s nonce %s is rejected", c.Name, d.Name, h.Name, k)
					x.Assert(c.verify(x, pub, nil, h.V, kit.RS(rr, new(big.Int).Sub(n, s))), "rejects-valid/"+c.Name, "%s key %s hash %s nonce %s with n-s is rejected", c.Name, d.Name, h.Name, k)
					for i, h2 := range hashes {
						if i%5 == len(d.Name)%5 {
							c.same(x, pub, h2.V, kit.RS(rr, s), "other hash")
						}
					}
					o := keys[(x.R.N(3, 1)+int(k.Bit(1)))%len(keys)]
					c.same(x, c.Enc(c.MulBase(o.V)), h.V, kit.RS(rr, s), "other key")
					c.same(x, c.Enc(c.Neg(c.MulBase(d.V))), h.V, kit.RS(rr, s), "negated key")
				}
			})
			// every (r, s, e) of the alphabets is valid for the key it recovers to
			sAlpha := []*big.Int{bi(1), bi(2), bi(3), nm(1), nm(2), new(big.Int).Rsh(n, 1), new(big.Int).Add(new(big.Int).Rsh(n, 1), bi(1)),
				new(big.Int).Lsh(bi(1), 128), new(big.Int).Lsh(bi(1), 255), ref.I(kit.Stream("s", 32)), ref.I(kit.Fill(32, 0x80)), ref.I(kit.Stream("s", 25))}
			r.Explore(name("recovered keys"), func(x *mc.X) {
				R := pts[x.Choose(len(pts))]
				h := hashes[x.Choose(len(hashes))]
				rr := new(big.Int).Mod(R.X, n)
				if rr.Sign() == 0 {
					return
				}
				for _, s := range sAlpha {
					s = new(big.Int).Mod(s, n)
					q := c.Recover(h.V, rr, s, R.Pt)
					if q.Inf {
						continue
					}
					pub := c.Enc(q)
					c.same(x, pub, h.V, kit.RS(rr, s), "recovered from R="+R.Name+" hash "+h.Name)
					// r itself (not reduced) and r + n, s + n where they fit
					for _, v := range []*big.Int{R.X, new(big.Int).Add(rr, n), new(big.Int).Sub(n, rr)} {
						if v.BitLen() <= 256 && v.Cmp(rr) != 0 {
							c.same(x, pub, h.V, kit.RS(v, s), "r replaced")
						}
					}
					if v := new(big.Int).Add(s, n); v.BitLen() <= 256 {
						c.same(x, pub, h.V, kit.RS(rr, v), "s+n")
					}
					c.same(x, pub, h.V, kit.RS(s, rr), "r and s swapped")
				}
			})
			// equations whose combination doubles, cancels or ends at infinity
			r.Explore(name("degenerate combinations"), func(x *mc.X) {
				d := keys[x.Choose(len(keys))]
				q := c.MulBase(d.V)
				pub := c.Enc(q)
				u1 := []*big.Int{bi(0), bi(1), bi(2), nm(1), nm(2), d.V, new(big.Int).Sub(n, d.V), bi(7)}[x.Choose(8)]
				di := new(big.Int).ModInverse(d.V, n)
				for _, u2 := range []*big.Int{bi(1), bi(2), nm(1), nm(2), u1, new(big.Int).Sub(n, u1), di, new(big.Int).Sub(n, di),
					new(big.Int).Mod(new(big.Int).Mul(u1, di), n), new(big.Int).Mod(new(big.Int).Neg(new(big.Int).Mul(u1, di)), n)} {
					u2 = new(big.Int).Mod(u2, n)
					if u2.Sign() == 0 {
						continue
					}
					R := c.Comb(u1, q, u2)
					rr := new(big.Int).Mod(R.X, n)
					if R.Inf || rr.Sign() == 0 { // nothing may verify
						for _, v := range []*big.Int{bi(1), nm(1), c.Gx} {
							v = new(big.Int).Mod(v, n)
							s := new(big.Int).Mul(v, new(big.Int).ModInverse(u2, n))
							s.Mod(s, n)
							e := new(big.Int).Mul(u1, s)
							c.same(x, pub, ref.B32(e.Mod(e, n)), kit.RS(v, s), "infinity")
						}
						continue
					}
					s := new(big.Int).Mul(rr, new(big.Int).ModInverse(u2, n))
					s.Mod(s, n)
					e := new(big.Int).Mul(u1, s)
					e.Mod(e, n)
					c.same(x, pub, ref.B32(e), kit.RS(rr, s), "u1="+u1.String()+" u2="+u2.String())
					if e.Add(e, n); e.BitLen() <= 256 {
						c.same(x, pub, ref.B32(e), kit.RS(rr, s), "e+n")
					}
				}
			})
			// the range of r and s
			r.Explore(name("ranges"), func(x *mc.X) {
				d := keys[x.Choose(6)]
				h := hashes[x.Choose(len(hashes))]
				pub := c.Enc(c.MulBase(d.V))
				g := new(big.Int).Mod(c.Gx, n)
				vals := []*big.Int{bi(0), bi(1), nm(1), n, new(big.Int).Add(n, bi(1)), c.P, ref.I(kit.Fill(32, 0xff)), g, new(big.Int).Mod(c.MulBase(d.V).X, n)}
				for _, a := range vals {
					for _, b := range vals {
						c.same(x, pub, h.V, kit.RS(a, b), "range")
					}
				}
			})
			// all single-bit alterations of a genuine signature, hash and key
			r.Explore(name("bit flips"), func(x *mc.X) {
				bit := x.Choose(64*8 + 32*8 + 64*8)
				for i := 0; i < r.N(2, 16); i++ {
					d, h, k := keys[i*3%len(keys)], hashes[(i*5+2)%len(hashes)], nonces[(2+i)%len(nonces)]
					rr, s, _, ok := c.ECDSASign(d.V, k, h.V)
					if !ok {
						continue
					}
					pub, hash, sig := c.Enc(c.MulBase(d.V)), h.V, kit.RS(rr, s)
					switch {
					case bit < 512:
						sig = kit.Flip(sig, bit)
					case bit < 768:
						hash = kit.Flip(hash, bit-512)
					default:
						pub = kit.Flip(pub, bit-768)
					}
					c.same(x, pub, hash, sig, "flip")
				}
			})
			// keys that are no canonical curve points; lengths
			bad := kit.BadPoints(c.Curve)
			names := kit.SortedKeys(bad)
			r.Explore(name("invalid keys"), func(x *mc.X) {
				nm := names[x.Choose(len(names))]
				h := hashes[x.Choose(len(hashes))]
				// a signature that would verify if the key were used as is
				for i := int64(1); i <= 4; i++ {
					rr, s, _, ok := c.ECDSASign(bi(i), bi(i+1), h.V)
					if ok {
						c.same(x, bad[nm], h.V, kit.RS(rr, s), "invalid key "+nm)
						c.same(x, bad[nm], h.V, kit.RS(new(big.Int).Mod(c.Gx, n), bi(1)), "invalid key "+nm)
					}
				}
				// e = s: with u2 Q read as infinity the equation gives x(G)
				g := new(big.Int).Mod(c.Gx, n)
				c.same(x, bad[nm], ref.B32(bi(9)), kit.RS(g, bi(9)), "invalid key "+nm)
			})
			r.Explore(name("lengths"), func(x *mc.X) {
				i := x.Choose(100)
				rr, s, _, _ := c.ECDSASign(bi(5), bi(6), hashes[2].V)
				pub, hash, sig := c.Enc(c.MulBase(bi(5))), hashes[2].V, kit.RS(rr, s)
				cut := func(b []byte) []byte { return append(kit.Clone(b), make([]byte, 100)...)[:i] }
				tail := func(b []byte) []byte { b = append(make([]byte, 100), b...); return b[len(b)-i:] }
				for _, f := range []func([]byte) []byte{cut, tail} {
					if i != 64 {
						x.Assert(!c.verify(x, f(pub), nil, hash, sig), "length", "%s accepts a %d-byte key", c.Name, i)
						x.Assert(!c.verify(x, pub, nil, hash, f(sig)), "length", "%s accepts a %d-byte signature", c.Name, i)
					}
					if i != 32 {
						x.Assert(!c.verify(x, pub, nil, f(hash), sig), "length", "%s accepts a %d-byte hash", c.Name, i)
					}
				}
				if i == 0 {
					x.Assert(!c.verify(x, nil, nil, hash, sig) && !c.verify(x, pub, nil, nil, sig) && !c.verify(x, pub, nil, hash, nil), "nil", "%s accepts nil", c.Name)
				}
				if i == 1 {
					x.Assert(c.verify(x, pub, []byte("identity"), hash, sig), "id", "%s verification depends on the unused identity", c.Name)
				}
			})
		}
		// a signature is bound to its curve
		r.Explore("cross-curve", func(x *mc.X) {
			a, b := curves[x.Choose(2)], curves[x.Choose(2)]
			d := bi(int64(x.Choose(5) + 1))
			h := kit.Stream("x", 32)
			rr, s, _, _ := a.ECDSASign(d, bi(4), h)
			b.same(x, a.Enc(a.MulBase(d)), h, kit.RS(rr, s), "cross")
			b.same(x, b.Enc(b.MulBase(d)), h, kit.RS(rr, s), "cross")
		})
		r.Explore("P-256 signatures of crypto/ecdsa", func(x *mc.X) {
			i := x.Choose(r.N(64, 512))
			c := curves[1]
			d := ref.I(kit.Stream("std"+string(rune('a'+i%26))+string(rune('a'+i/26)), 31))
			priv := &ecdsa.PrivateKey{D: d}
			priv.Curve = elliptic.P256()
			q := c.MulBase(d)
			priv.X, priv.Y = q.X, q.Y
			h := kit.Stream("stdh"+string(rune('a'+i%26)), 32)
			rr, s, err := ecdsa.Sign(x.Rand(), priv, h)
			if err != nil {
				panic("mc: " + err.Error())
			}
			x.Assert(c.verify(x, c.Enc(q), nil, h, kit.RS(rr, s)), "rejects-valid/stdlib", "a crypto/ecdsa signature is rejected")
		})
		r.Note("the reference verifier is FIPS 186-4 on math/big; P-256 signatures of the standard library are replayed too")
	})
}
