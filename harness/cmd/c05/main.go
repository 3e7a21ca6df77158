// C05: point compression and decompression.
package main

import (
	"bytes"
	"math/big"
	"time"
	"verifharness/kit"
	"verifharness/mc"
	"verifharness/ref"

	owcrypt "github.com/blocktree/go-owcrypt"
)

type curve struct {
	*ref.Curve
	code uint32
}

func compress(x *mc.X, p []byte, code uint32) (got []byte) {
	x.Call("PointCompress", func() { got = owcrypt.PointCompress(p, code) })
	return
}

func decompress(x *mc.X, p []byte, code uint32) (got []byte) {
	x.Call("PointDecompress", func() { got = owcrypt.PointDecompress(p, code) })
	return
}

// round checks both directions for one curve point.
func (c curve) round(x *mc.X, p ref.Pt, name string) {
	e := c.Enc(p)
	full := append([]byte{4}, e...)
	x.Eq(compress(x, e, c.code), c.Comp(p), "compress", "%s compress %s", c.Name, name)
	x.Eq(compress(x, full, c.code), c.Comp(p), "compress04", "%s compress 04||%s", c.Name, name)
	got := decompress(x, c.Comp(p), c.code)
	x.Eq(got, full, "decompress", "%s decompress %s", c.Name, name)
	x.State(c.Name, got)
}

// dec checks decompression of an arbitrary x for both prefixes.
func (c curve) dec(x *mc.X, v *big.Int) {
	if v.Sign() < 0 || v.BitLen() > 256 {
		return
	}
	for odd := uint(0); odd < 2; odd++ {
		in := append([]byte{2 + byte(odd)}, ref.B32(v)...)
		got := decompress(x, in, c.code)
		x.State(c.Name, in, got)
		p, ok := c.Lift(v, odd)
		if !ok {
			x.Assert(got == nil, "accepts-no-point", "%s decompress %s: got %s, but there is no such point", c.Name, mc.Hex(in), mc.Hex(got))
			continue
		}
		x.Eq(got, append([]byte{4}, c.Enc(p)...), "decompress", "%s decompress %s", c.Name, mc.Hex(in))
		c.round(x, p, mc.Hex(in))
	}
}

func main() {
	curves := []curve{{ref.K1, owcrypt.ECC_CURVE_SECP256K1}, {ref.R1, owcrypt.ECC_CURVE_SECP256R1}, {ref.SM2, owcrypt.ECC_CURVE_SM2_STANDARD}, {ref.Pallas, owcrypt.ECC_CURVE_PASTA}}
	mc.Main("C05", 150*time.Second, 800*time.Second, func(r *mc.Run) {
		one := big.NewInt(1)
		top := new(big.Int).Lsh(one, 256)
		for _, c := range curves {
			name := func(s string) string { return c.Name + ": " + s }
			pts := kit.Points(c.Curve, r.N(32, 512))
			r.Explore(name("points"), func(x *mc.X) {
				p := pts[x.Choose(len(pts))]
				c.round(x, p.Pt, p.Name)
			})
			r.Explore(name("small x"), func(x *mc.X) {
				i := x.Choose(r.N(32, 1024))
				for j := 0; j < 16; j++ {
					c.dec(x, big.NewInt(int64(16*i+j)))
				}
			})
			r.Explore(name("x around the prime, the order and 2^256"), func(x *mc.X) {
				base := []*big.Int{c.P, c.N, top, new(big.Int).Rsh(c.P, 1), new(big.Int).Lsh(c.P, 1), new(big.Int).Lsh(one, 255), new(big.Int).Lsh(one, 254)}[x.Choose(7)]
				d := int64(x.Choose(r.N(64, 1024)) - r.N(32, 512))
				c.dec(x, new(big.Int).Add(base, big.NewInt(d)))
			})
			r.Explore(name("x + p for small x"), func(x *mc.X) {
				v := new(big.Int).Add(c.P, big.NewInt(int64(x.Choose(r.N(64, 1024)))))
				c.dec(x, v)
				c.dec(x, v.Add(v, c.P))
			})
			r.Explore(name("limb patterns"), func(x *mc.X) {
				v := new(big.Int)
				n := r.N(4, 8)
				for i := 0; i < n; i++ {
					w := []uint64{0, 1, ^uint64(0), 1 << 63}[x.Choose(4)]
					if n == 8 {
						w = w&1 | w>>32
					}
					v.Or(v, new(big.Int).Lsh(new(big.Int).SetUint64(w), uint(256/n*i)))
				}
				c.dec(x, v)
				c.dec(x, new(big.Int).Mod(v, c.P))
			})
			r.Explore(name("powers of two"), func(x *mc.X) {
				e := x.Choose(256)
				v := new(big.Int).Lsh(one, uint(e))
				for d := int64(-2); d <= 2; d++ {
					c.dec(x, new(big.Int).Add(v, big.NewInt(d)))
				}
				c.dec(x, new(big.Int).Sub(c.P, v))
			})
			// quadratic characters: square roots that come out in a special shape
			r.Explore(name("small y"), func(x *mc.X) {
				// points with y = i: solve the cubic only for a = 0 (cube roots)
				if c.A.Sign() != 0 {
					return
				}
				y := big.NewInt(int64(x.Choose(r.N(64, 1024)) + 1))
				t := new(big.Int).Mul(y, y)
				t.Sub(t, c.B)
				if v := cubeRoot(t.Mod(t, c.P), c.P); v != nil {
					c.dec(x, v)
				}
			})
			g := c.Comp(c.G())
			full := append([]byte{4}, c.Enc(c.G())...)
			r.Explore(name("prefixes"), func(x *mc.X) {
				pre := x.Choose(256)
				for _, p := range pts[:8] {
					in := append([]byte{byte(pre)}, c.Comp(p.Pt)[1:]...)
					got := decompress(x, in, c.code)
					x.State(in, got)
					if pre != 2 && pre != 3 {
						x.Assert(got == nil, "prefix", "%s decompress with prefix %#x: got %s", c.Name, pre, mc.Hex(got))
					} else {
						q, _ := c.Lift(p.X, uint(pre&1))
						x.Eq(got, append([]byte{4}, c.Enc(q)...), "decompress", "%s decompress %s", c.Name, mc.Hex(in))
					}
					if pre != 4 {
						bad := append([]byte{byte(pre)}, c.Enc(p.Pt)...)
						got = compress(x, bad, c.code)
						x.Assert(got == nil, "compress-prefix", "%s compress of 65 bytes with prefix %#x: got %s", c.Name, pre, mc.Hex(got))
					}
				}
			})
			r.Explore(name("lengths"), func(x *mc.X) {
				n := x.Choose(140)
				buf := make([]byte, 140)
				for _, src := range [][]byte{g, full, full[1:]} {
					for i := range buf {
						buf[i] = 0
					}
					copy(buf, src)
					in := kit.Clone(buf[:n])
					if n != 33 {
						got := decompress(x, in, c.code)
						x.Assert(got == nil, "decompress-length", "%s decompress of %d bytes: got %s", c.Name, n, mc.Hex(got))
					}
					if n != 64 && !(n == 65 && in[0] == 4) {
						got := compress(x, in, c.code)
						x.Assert(got == nil, "compress-length", "%s compress of %d bytes: got %s", c.Name, n, mc.Hex(got))
					}
					x.State(n, c.Name)
				}
				if n == 0 {
					x.Assert(decompress(x, nil, c.code) == nil && compress(x, nil, c.code) == nil, "nil", "nil input")
				}
			})
		}
		r.Explore("other codes", func(x *mc.X) {
			codes := []uint32{owcrypt.ECC_CURVE_ED25519, owcrypt.ECC_CURVE_ED25519_NORMAL, owcrypt.ECC_CURVE_X25519, owcrypt.ECC_CURVE_CURVE25519_SHA256,
				owcrypt.ECC_CURVE_BLS12381_G2_XMD_SHA_256_SSWU_RO_NUL, owcrypt.ECC_CURVE_BLS12381_G2_XMD_SHA_256_SSWU_RO_AUG, 0, 1, 0xffffffff, owcrypt.HASH_ALG_SHA256, owcrypt.ECC_CURVE_SECP256K1 + 0x100}
			code := codes[x.Choose(len(codes))]
			for _, c := range curves {
				if c.code == code {
					return
				}
			}
			c := curves[x.Choose(len(curves))]
			got := decompress(x, c.Comp(c.G()), code)
			x.Assert(got == nil, "code", "code %#x decompresses a %s point to %s", code, c.Name, mc.Hex(got))
			got = compress(x, c.Enc(c.G()), code)
			x.Assert(got == nil, "code", "code %#x compresses a %s point to %s", code, c.Name, mc.Hex(got))
			x.State(int(code), c.Name)
		})
		// a point of one curve is refused by the others unless it is on them
		r.Explore("cross", func(x *mc.X) {
			a, b := curves[x.Choose(4)], curves[x.Choose(4)]
			for _, p := range kit.Points(a.Curve, 4) {
				b.dec(x, p.X)
			}
		})
		r.Explore("sequence: both parities in turn", func(x *mc.X) {
			c := curves[x.Choose(4)]
			p := pts8(c)[x.Choose(8)]
			for i := 0; i < 4; i++ {
				q := p
				if x.Bool() {
					q = c.Neg(p)
				}
				got := decompress(x, c.Comp(q), c.code)
				x.Eq(got, append([]byte{4}, c.Enc(q)...), "decompress", "%s step %d", c.Name, i)
				if !bytes.Equal(compress(x, got, c.code), c.Comp(q)) {
					x.Fail("compress", "%s step %d does not round-trip", c.Name, i)
				}
				x.State(i, got)
			}
		})
		r.Note("square roots and curve membership are decided with math/big")
	})
}

var cache = map[string][]ref.Pt{}

func init() {
	for _, c := range []*ref.Curve{ref.K1, ref.R1, ref.SM2, ref.Pallas} {
		for i := int64(1); i <= 8; i++ {
			cache[c.Name] = append(cache[c.Name], c.MulBase(big.NewInt(i*i)))
		}
	}
}

func pts8(c curve) []ref.Pt { return cache[c.Name] }

// cubeRoot finds x with x^3 = t mod p (p = 1 mod 3), by trying the roots of
// unity of the 3-part; nil if t is no cube or the 3-part is too large.
func cubeRoot(t, p *big.Int) *big.Int {
	if t.Sign() == 0 {
		return big.NewInt(0)
	}
	m := new(big.Int).Sub(p, big.NewInt(1))
	three := big.NewInt(3)
	s := 0
	for {
		q, rem := new(big.Int).DivMod(m, three, new(big.Int))
		if rem.Sign() != 0 {
			break
		}
		m, s = q, s+1
	}
	if s == 0 || s > 6 {
		return nil
	}
	inv := new(big.Int).ModInverse(three, m)
	y := new(big.Int).Exp(t, inv, p) // y^3 = t * (element of the 3-part)
	g := new(big.Int)
	for i := int64(2); ; i++ {
		g.Exp(big.NewInt(i), m, p)
		h := new(big.Int).Exp(g, new(big.Int).Exp(three, big.NewInt(int64(s-1)), nil), p)
		if h.Cmp(big.NewInt(1)) != 0 {
			break
		}
	}
	n := 1
	for i := 0; i < s; i++ {
		n *= 3
	}
	for i := 0; i < n; i++ {
		if new(big.Int).Exp(y, three, p).Cmp(t) == 0 {
			return y
		}
		y.Mul(y, g)
		y.Mod(y, p)
	}
	return nil
}
