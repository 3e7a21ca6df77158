// Package ref holds reference models: direct transcriptions of the published
// specifications on math/big, independent of the code under test.
package ref

import (
	"math/big"
	"sync"
)

// Curve is y^2 = x^3 + ax + b over F_p with a base point of prime order n.
type Curve struct {
	Name       string
	P, A, B, N *big.Int
	Gx, Gy     *big.Int
	once       sync.Once
	tab        [][16]jac // j * 16^i * G
	fonce      sync.Once
	f          *field
	fa         fe
}

// Pt is an affine point; the point at infinity has Inf set.
type Pt struct {
	X, Y *big.Int
	Inf  bool
}

func hx(s string) *big.Int {
	v, ok := new(big.Int).SetString(s, 16)
	if !ok {
		panic(s)
	}
	return v
}

var (
	K1 = &Curve{Name: "secp256k1",
		P: hx("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f"), A: hx("0"), B: hx("7"),
		N:  hx("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141"),
		Gx: hx("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798"),
		Gy: hx("483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8")}
	R1 = &Curve{Name: "secp256r1",
		P:  hx("ffffffff00000001000000000000000000000000ffffffffffffffffffffffff"),
		A:  hx("ffffffff00000001000000000000000000000000fffffffffffffffffffffffc"),
		B:  hx("5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b"),
		N:  hx("ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551"),
		Gx: hx("6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296"),
		Gy: hx("4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5")}
	SM2 = &Curve{Name: "sm2",
		P:  hx("fffffffeffffffffffffffffffffffffffffffff00000000ffffffffffffffff"),
		A:  hx("fffffffeffffffffffffffffffffffffffffffff00000000fffffffffffffffc"),
		B:  hx("28e9fa9e9d9f5e344d5a9e4bcf6509a7f39789f515ab8f92ddbcbd414d940e93"),
		N:  hx("fffffffeffffffffffffffffffffffff7203df6b21c6052b53bbf40939d54123"),
		Gx: hx("32c4ae2c1f1981195f9904466a39c9948fe30bbff2660be1715a4589334c74c7"),
		Gy: hx("bc3736a2f4f6779c59bdcee36b692153d0a9877cc62a474002df32e52139f0a0")}
	Pallas = &Curve{Name: "pallas",
		P: hx("40000000000000000000000000000000224698fc094cf91b992d30ed00000001"), A: hx("0"), B: hx("5"),
		N:  hx("40000000000000000000000000000000224698fc0994a8dd8c46eb2100000001"),
		Gx: hx("1"),
		Gy: hx("1b74b5a30a12937c53dfa9f06378ee548f655bd4333d477119cf7a23caed2abb")}
)

var Inf = Pt{Inf: true, X: new(big.Int), Y: new(big.Int)}

func (c *Curve) mod(v *big.Int) *big.Int { return v.Mod(v, c.P) }
func (c *Curve) mul(a, b *big.Int) *big.Int {
	v := new(big.Int).Mul(a, b)
	return v.Mod(v, c.P)
}
func (c *Curve) sub(a, b *big.Int) *big.Int {
	v := new(big.Int).Sub(a, b)
	if v.Sign() < 0 {
		v.Add(v, c.P)
	}
	return v
}
func (c *Curve) add2(a, b *big.Int) *big.Int {
	v := new(big.Int).Add(a, b)
	if v.Cmp(c.P) >= 0 {
		v.Sub(v, c.P)
	}
	return v
}

// Add is the affine chord-and-tangent law.
func (c *Curve) Add(p, q Pt) Pt {
	if p.Inf {
		return q
	}
	if q.Inf {
		return p
	}
	var l *big.Int
	if p.X.Cmp(q.X) == 0 {
		if c.add2(p.Y, q.Y).Sign() == 0 {
			return Inf
		}
		num := c.mod(new(big.Int).Mul(c.mul(p.X, p.X), big.NewInt(3)))
		num = c.add2(num, c.A)
		l = c.mul(num, new(big.Int).ModInverse(c.add2(p.Y, p.Y), c.P))
	} else {
		l = c.mul(c.sub(q.Y, p.Y), new(big.Int).ModInverse(c.sub(q.X, p.X), c.P))
	}
	x := c.sub(c.sub(c.mul(l, l), p.X), q.X)
	return Pt{X: x, Y: c.sub(c.mul(l, c.sub(p.X, x)), p.Y)}
}

// Neg negates a point.
func (c *Curve) Neg(p Pt) Pt {
	if p.Inf {
		return p
	}
	return Pt{X: p.X, Y: c.mod(new(big.Int).Neg(p.Y))}
}

// Mul is a left-to-right multiplication with a four-bit window.
func (c *Curve) Mul(p Pt, k *big.Int) Pt {
	if k.Sign() < 0 {
		panic("negative scalar")
	}
	return c.affine(c.mulJ(c.toJac(p), k))
}

func (c *Curve) mulJ(p jac, k *big.Int) jac {
	var tab [16]jac
	tab[0] = c.toJac(Inf)
	for i := 1; i < 16; i++ {
		tab[i] = c.addJ(tab[i-1], p)
	}
	r := tab[0]
	b := k.Bytes()
	for _, v := range b {
		for s := 4; s >= 0; s -= 4 {
			r = c.dblJ(c.dblJ(c.dblJ(c.dblJ(r))))
			r = c.addJ(r, tab[v>>s&15])
		}
	}
	return r
}

func (c *Curve) G() Pt { return Pt{X: c.Gx, Y: c.Gy} }

func (c *Curve) mulBaseJ(k *big.Int) jac {
	c.once.Do(func() {
		q := c.toJac(c.G())
		for i := 0; i < 65; i++ {
			var t [16]jac
			t[0] = c.toJac(Inf)
			for j := 1; j < 16; j++ {
				t[j] = c.addJ(t[j-1], q)
			}
			c.tab = append(c.tab, t)
			q = c.addJ(t[15], q)
		}
	})
	if k.BitLen() > 260 {
		return c.mulJ(c.toJac(c.G()), k)
	}
	r := c.toJac(Inf)
	b := k.Bytes()
	for i, v := range b {
		w := 2 * (len(b) - 1 - i)
		if v&15 != 0 {
			r = c.addJ(r, c.tab[w][v&15])
		}
		if v>>4 != 0 {
			r = c.addJ(r, c.tab[w+1][v>>4])
		}
	}
	return r
}

// MulBase multiplies the base point.
func (c *Curve) MulBase(k *big.Int) Pt { return c.affine(c.mulBaseJ(k)) }

// Comb is u1*G + u2*Q.
func (c *Curve) Comb(u1 *big.Int, q Pt, u2 *big.Int) Pt { return c.Add(c.MulBase(u1), c.Mul(q, u2)) }

// On reports whether x, y are field elements on the curve.
func (c *Curve) On(x, y *big.Int) bool {
	if x.Sign() < 0 || y.Sign() < 0 || x.Cmp(c.P) >= 0 || y.Cmp(c.P) >= 0 {
		return false
	}
	return c.mul(y, y).Cmp(c.RHS(x)) == 0
}

// RHS is x^3 + ax + b.
func (c *Curve) RHS(x *big.Int) *big.Int {
	v := c.mul(c.mul(x, x), x)
	v.Add(v, c.mul(c.A, x))
	v.Add(v, c.B)
	return c.mod(v)
}

// Enc is X || Y.
func (c *Curve) Enc(p Pt) []byte {
	b := make([]byte, 64)
	p.X.FillBytes(b[:32])
	p.Y.FillBytes(b[32:])
	return b
}

// Comp is the compressed form.
func (c *Curve) Comp(p Pt) []byte {
	b := make([]byte, 33)
	b[0] = 2 + byte(p.Y.Bit(0))
	p.X.FillBytes(b[1:])
	return b
}

// Dec decodes X || Y and reports whether it is a canonical curve point.
func (c *Curve) Dec(b []byte) (Pt, bool) {
	if len(b) != 64 {
		return Pt{}, false
	}
	x, y := new(big.Int).SetBytes(b[:32]), new(big.Int).SetBytes(b[32:])
	return Pt{X: x, Y: y}, c.On(x, y)
}

// Lift finds the point with the given x and y parity.
func (c *Curve) Lift(x *big.Int, odd uint) (Pt, bool) {
	if x.Cmp(c.P) >= 0 {
		return Pt{}, false
	}
	y := new(big.Int).ModSqrt(c.RHS(x), c.P)
	if y == nil {
		return Pt{}, false
	}
	if y.Bit(0) != odd {
		y = c.mod(new(big.Int).Neg(y))
	}
	if y.Bit(0) != odd {
		return Pt{}, false // y = 0
	}
	return Pt{X: x, Y: y}, true
}

// B32 renders an integer in 32 bytes (mod 2^256).
func B32(v *big.Int) []byte {
	b := make([]byte, 32)
	if v.BitLen() > 256 {
		v = new(big.Int).And(v, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(1)))
	}
	return v.FillBytes(b)
}

// I reads a big-endian integer.
func I(b []byte) *big.Int { return new(big.Int).SetBytes(b) }

// ECDSAVerify is FIPS 186-4 verification for 32-byte hashes.
func (c *Curve) ECDSAVerify(pub Pt, hash []byte, r, s *big.Int) bool {
	if r.Sign() <= 0 || s.Sign() <= 0 || r.Cmp(c.N) >= 0 || s.Cmp(c.N) >= 0 || pub.Inf || !c.On(pub.X, pub.Y) {
		return false
	}
	w := new(big.Int).ModInverse(s, c.N)
	u1 := new(big.Int).Mul(I(hash), w)
	u2 := new(big.Int).Mul(r, w)
	R := c.Comb(u1.Mod(u1, c.N), pub, u2.Mod(u2, c.N))
	if R.Inf {
		return false
	}
	return new(big.Int).Mod(R.X, c.N).Cmp(r) == 0
}

// ECDSASign signs with the given nonce; ok is false if r or s is zero.
func (c *Curve) ECDSASign(d, k *big.Int, hash []byte) (r, s *big.Int, R Pt, ok bool) {
	R = c.MulBase(k)
	if R.Inf {
		return nil, nil, R, false
	}
	r = new(big.Int).Mod(R.X, c.N)
	s = new(big.Int).Mul(d, r)
	s.Add(s, I(hash))
	s.Mul(s, new(big.Int).ModInverse(k, c.N))
	s.Mod(s, c.N)
	return r, s, R, r.Sign() != 0 && s.Sign() != 0
}

// Recover is the public key under which (r, s) is a signature of hash with
// nonce point R: r^-1 (s R - e G).
func (c *Curve) Recover(hash []byte, r, s *big.Int, R Pt) Pt {
	ri := new(big.Int).ModInverse(r, c.N)
	a := new(big.Int).Mul(s, ri)
	b := new(big.Int).Mul(I(hash), ri)
	b.Neg(b)
	return c.Comb(b.Mod(b, c.N), R, a.Mod(a, c.N))
}
