// C07: ECDSA signing and public-key recovery.
package main

import (
	"bytes"
	"fmt"
	"math/big"
	"time"
	"verifharness/kit"
	"verifharness/mc"
	"verifharness/ref"

	owcrypt "github.com/blocktree/go-owcrypt"
)

type curve struct {
	*ref.Curve
	code uint32
}

func bi(v int64) *big.Int { return big.NewInt(v) }

// fixed entropy sources besides the seeded stream
type pattern struct {
	f func(i int) byte
	i int
}

func (p *pattern) Read(b []byte) (int, error) {
	for j := range b {
		b[j] = p.f(p.i)
		p.i++
	}
	return len(b), nil
}

const nstreams = 8

func entropy(x *mc.X, i int) {
	x.Reseed(fmt.Sprintf("entropy%d", i))
	switch i {
	case 0:
		x.Rand().R = &pattern{f: func(int) byte { return 0 }}
	case 1:
		x.Rand().R = &pattern{f: func(int) byte { return 0xff }}
	case 2:
		x.Rand().R = &pattern{f: func(i int) byte { return byte(i) }}
	}
}

func (c curve) recover(x *mc.X, sig []byte, v byte, hash []byte) ([]byte, bool) {
	var got []byte
	var ret uint16
	in := append(kit.Clone(sig), v)
	x.Call("RecoverPubkey", func() { got, ret = owcrypt.RecoverPubkey(in, hash, c.code) })
	x.State(c.Name, in, hash, got, int(ret))
	x.Assert((ret == owcrypt.SUCCESS) == (got != nil), "code", "%s RecoverPubkey returns %s with the code %#x", c.Name, mc.Hex(got), ret)
	return got, ret == owcrypt.SUCCESS
}

func canonical(b []byte) bool { return b[0]&0x80 == 0 && !(b[0] == 0 && b[1]&0x80 == 0) }

func (c curve) sign(x *mc.X, d *big.Int, hash []byte, what string) (sig []byte, v byte) {
	var ret uint16
	x.Call("Signature", func() { sig, v, ret = owcrypt.Signature(ref.B32(d), nil, hash, c.code) })
	x.State(c.Name, what, sig, int(v), int(ret))
	x.Assert(ret == owcrypt.SUCCESS && len(sig) == 64, "fails", "%s sign %s: code %#x, %d bytes", c.Name, what, ret, len(sig))
	return
}

// check judges one signature.
func (c curve) check(x *mc.X, d *big.Int, hash, sig []byte, v byte, what string) {
	q := c.MulBase(d)
	r, s := ref.I(sig[:32]), ref.I(sig[32:])
	x.Assert(v <= 1, "v", "%s sign %s: v = %d", c.Name, what, v)
	if c.Curve == ref.SM2 {
		x.Assert(ref.SM2Verify(q, ref.I(hash), r, s), "invalid", "%s sign %s: %s is not valid", c.Name, what, mc.Hex(sig))
	} else {
		x.Assert(c.ECDSAVerify(q, hash, r, s), "invalid", "%s sign %s: %s is not valid", c.Name, what, mc.Hex(sig))
		x.Assert(s.Cmp(new(big.Int).Rsh(c.N, 1)) <= 0, "high-s", "%s sign %s: s is high in %s", c.Name, what, mc.Hex(sig))
		x.Assert(canonical(sig[:32]) && canonical(sig[32:]), "not-canonical", "%s sign %s: %s has a sign bit or a needless zero", c.Name, what, mc.Hex(sig))
	}
	got, ok := c.recover(x, sig, v, hash)
	x.Assert(ok, "recover-own", "%s sign %s: recovery from %s v=%d fails", c.Name, what, mc.Hex(sig), v)
	x.Eq(got, c.Enc(q), "recover-own", "%s sign %s: recovery from %s v=%d", c.Name, what, mc.Hex(sig), v)
	got, ok = c.recover(x, sig, 1-v, hash)
	x.Assert(!ok || !bytes.Equal(got, c.Enc(q)), "v-ignored", "%s sign %s: both values of v recover the key", c.Name, what)
	c.rec(x, sig, 1-v, hash, what)
}

// rec compares recovery with the definition.
func (c curve) rec(x *mc.X, sig []byte, v byte, hash []byte, what string) {
	want := ref.Inf
	r, s := ref.I(sig[:32]), ref.I(sig[32:])
	if v <= 1 && r.Sign() > 0 && s.Sign() > 0 && r.Cmp(c.N) < 0 && s.Cmp(c.N) < 0 && len(hash) == 32 {
		if c.Curve == ref.SM2 {
			e := ref.I(hash)
			rx := new(big.Int).Sub(r, e)
			rx.Mod(rx, c.N)
			t := new(big.Int).Add(r, s)
			t.Mod(t, c.N)
			if R, ok := c.Lift(rx, uint(v)); ok && t.Sign() != 0 {
				p := c.Add(R, c.Neg(c.MulBase(s)))
				want = c.Mul(p, new(big.Int).ModInverse(t, c.N))
				if !want.Inf && !ref.SM2Verify(want, e, r, s) {
					panic("mc: SM2 recovery reference")
				}
			}
		} else if R, ok := c.Lift(r, uint(v)); ok {
			want = c.Recover(hash, r, s, R)
			if !want.Inf && !c.ECDSAVerify(want, hash, r, s) {
				panic("mc: recovery reference")
			}
		}
	}
	got, ok := c.recover(x, sig, v, hash)
	if ok == want.Inf || ok && !bytes.Equal(got, c.Enc(want)) {
		w := "failure"
		if !want.Inf {
			w = mc.Hex(c.Enc(want))
		}
		x.Fail("recover/"+c.Name, "%s %s: RecoverPubkey(%s, v=%d, %s) = %s, want %s", c.Name, what, mc.Hex(sig), v, mc.Hex(hash), mc.Hex(got), w)
	}
}

func main() {
	curves := []curve{{ref.K1, owcrypt.ECC_CURVE_SECP256K1}, {ref.R1, owcrypt.ECC_CURVE_SECP256R1}, {ref.SM2, owcrypt.ECC_CURVE_SM2_STANDARD}}
	mc.Main("C07", 150*time.Second, 800*time.Second, func(r *mc.Run) {
		for _, c := range curves {
			name := func(s string) string { return c.Name + ": " + s }
			keys, hashes, pts := kit.Keys(c.Curve), kit.Hashes(c.Curve), kit.Points(c.Curve, 4)
			if c.Curve == ref.SM2 { // the key n-1 is not in the domain of signing
				var l []kit.S
				for _, k := range keys {
					if k.Name != "n-1" {
						l = append(l, k)
					}
				}
				keys = l
			}
			n := c.N
			nm := func(d int64) *big.Int { return new(big.Int).Sub(n, bi(d)) }
			r.Explore(name("signatures"), func(x *mc.X) {
				d := keys[x.Choose(len(keys))]
				h := hashes[x.Choose(len(hashes))]
				for e := 0; e < r.N(2, nstreams); e++ {
					i := e
					if !r.Thorough() {
						i = (e*3 + len(d.Name) + 3*len(h.Name)) % nstreams
					}
					entropy(x, i)
					what := fmt.Sprintf("key %s hash %s entropy %d", d.Name, h.Name, i)
					sig, v := c.sign(x, d.V, h.V, what)
					c.check(x, d.V, h.V, sig, v, what)
				}
			})
			// many entropy values: every redraw path of the nonce loop
			r.Explore(name("entropy"), func(x *mc.X) {
				e := x.Choose(r.N(128, 2048))
				for j := 0; j < 4; j++ {
					d, h := keys[(e+5*j)%len(keys)], hashes[(3*e+j)%len(hashes)]
					x.Reseed(fmt.Sprintf("many%d.%d", e, j))
					what := fmt.Sprintf("key %s hash %s entropy %d.%d", d.Name, h.Name, e, j)
					sig, v := c.sign(x, d.V, h.V, what)
					c.check(x, d.V, h.V, sig, v, what)
				}
			})
			// the identity is unused by ECDSA
			r.Explore(name("histories"), func(x *mc.X) {
				for i := 0; i < r.N(3, 4); i++ {
					d, h := keys[x.Choose(r.N(2, 3))], hashes[x.Choose(3)]
					what := fmt.Sprintf("step %d key %s hash %s", i, d.Name, h.Name)
					sig, v := c.sign(x, d.V, h.V, what)
					c.check(x, d.V, h.V, sig, v, what)
				}
			})
			sAlpha := []*big.Int{bi(1), bi(2), nm(1), nm(2), new(big.Int).Rsh(n, 1), new(big.Int).Add(new(big.Int).Rsh(n, 1), bi(1)),
				new(big.Int).Lsh(bi(1), 128), ref.I(kit.Stream("s", 31)), ref.I(kit.Stream("s", 25))}
			r.Explore(name("recovery"), func(x *mc.X) {
				pi := x.Choose(len(pts))
				hi := x.Choose(len(hashes))
				R, h := pts[pi], hashes[hi]
				if !r.Thorough() && pi >= 8 && (pi+hi)%4 != 0 {
					return
				}
				rr := new(big.Int).Mod(R.X, n)
				if c.Curve == ref.SM2 {
					rr.Add(rr, ref.I(h.V))
					rr.Mod(rr, n)
				}
				for i, s := range sAlpha {
					for v := byte(0); v < 2; v++ {
						c.rec(x, kit.RS(rr, s), v, h.V, "R="+R.Name+" hash "+h.Name)
					}
					if i < 2 {
						for _, a := range []*big.Int{R.X, new(big.Int).Add(rr, n), new(big.Int).Sub(n, rr), bi(0), n} {
							if a.BitLen() <= 256 {
								c.rec(x, kit.RS(a, s), byte(i), h.V, "r replaced")
							}
						}
						for _, b := range []*big.Int{bi(0), n, new(big.Int).Add(n, s), ref.I(kit.Fill(32, 0xff)), new(big.Int).Sub(n, rr)} {
							if b.BitLen() <= 256 {
								c.rec(x, kit.RS(rr, b), byte(i), h.V, "s replaced")
							}
						}
					}
				}
				// s that puts the recovered key at infinity or on the generator
				di := new(big.Int)
				for k := int64(1); k <= 4; k++ { // R = kG for the first points
					if p := c.MulBase(bi(k)); p.X.Cmp(R.X) == 0 {
						if c.Curve == ref.SM2 {
							di.SetInt64(k)
						} else {
							di.Mul(ref.I(h.V), new(big.Int).ModInverse(bi(k), n))
						}
						for _, s := range []*big.Int{di, new(big.Int).Neg(di), new(big.Int).Add(di, bi(1))} {
							s = new(big.Int).Mod(s, n)
							for v := byte(0); v < 2; v++ {
								c.rec(x, kit.RS(rr, s), v, h.V, "key at infinity")
							}
						}
					}
				}
			})
			r.Explore(name("recovery: every v"), func(x *mc.X) {
				v := byte(x.Choose(256))
				for i := 0; i < r.N(2, 8); i++ {
					d, h := keys[i*3], hashes[i+1]
					x.Reseed(fmt.Sprintf("v%d", i))
					sig, _ := c.sign(x, d.V, h.V, "for v")
					c.rec(x, sig, v, h.V, "v")
				}
			})
			r.Explore(name("recovery: bit flips"), func(x *mc.X) {
				bit := x.Choose(512 + 256)
				for i := 0; i < r.N(1, 6); i++ {
					d, h := keys[(i*5+1)%len(keys)], hashes[(i+2)%len(hashes)]
					x.Reseed(fmt.Sprintf("flip%d", i))
					sig, v := c.sign(x, d.V, h.V, "for flips")
					hash := h.V
					if bit < 512 {
						sig = kit.Flip(sig, bit)
					} else {
						hash = kit.Flip(hash, bit-512)
					}
					c.rec(x, sig, v, hash, "flip")
				}
			})
			r.Explore(name("recovery: r alphabet"), func(x *mc.X) {
				i := x.Choose(r.N(128, 1024))
				for _, base := range []*big.Int{bi(0), n, c.P, new(big.Int).Lsh(bi(1), 255), new(big.Int).Sub(c.P, n)} {
					a := new(big.Int).Add(base, bi(int64(i)-16))
					if a.Sign() >= 0 && a.BitLen() <= 256 {
						c.rec(x, kit.RS(a, bi(int64(i+1))), byte(i&1), hashes[12].V, "r")
						if c.Curve == ref.SM2 {
							a.Add(a, ref.I(hashes[12].V))
							a.Mod(a, n)
							c.rec(x, kit.RS(a, bi(int64(i+1))), byte(i&1), hashes[12].V, "x")
						}
					}
				}
			})
			r.Explore(name("recovery: lengths"), func(x *mc.X) {
				i := x.Choose(100)
				x.Reseed("len")
				h := hashes[12].V
				sig, v := c.sign(x, bi(5), h, "for lengths")
				full := append(append(kit.Clone(sig), v), make([]byte, 100)...)
				var got []byte
				var ret uint16
				if i != 65 {
					x.Call("RecoverPubkey", func() { got, ret = owcrypt.RecoverPubkey(full[:i], h, c.code) })
					x.Assert(got == nil && ret == owcrypt.FAILURE, "length", "%s recovers from %d bytes", c.Name, i)
				}
				if i != 32 {
					m := append(kit.Clone(h), make([]byte, 100)...)[:i]
					x.Call("RecoverPubkey", func() { got, ret = owcrypt.RecoverPubkey(full[:65], m, c.code) })
					x.Assert(got == nil && ret == owcrypt.FAILURE, "length", "%s recovers from a %d-byte hash", c.Name, i)
				}
				x.State(c.Name, i)
			})
		}
		r.Note("signatures are judged by an independent verifier; the nonce is never predicted")
	})
}
