package ref

import (
	"math/big"
	"math/bits"
)

// fe is a field element in Montgomery form; field the modulus it belongs to.
// The arithmetic only makes the reference fast: init compares it with the
// affine formulas on math/big.
type fe [4]uint64

type field struct {
	m       [4]uint64
	inv     uint64 // -m^-1 mod 2^64
	r2, one fe
	p       *big.Int
}

func words(v *big.Int) (w [4]uint64) {
	b := B32(v)
	for i := range w {
		for j := 0; j < 8; j++ {
			w[i] |= uint64(b[31-8*i-j]) << (8 * j)
		}
	}
	return
}

func unwords(w [4]uint64) *big.Int {
	b := make([]byte, 32)
	for i := range w {
		for j := 0; j < 8; j++ {
			b[31-8*i-j] = byte(w[i] >> (8 * j))
		}
	}
	return new(big.Int).SetBytes(b)
}

func newField(p *big.Int) *field {
	f := &field{p: p, m: words(p)}
	x := uint64(1)
	for i := 0; i < 6; i++ {
		x *= 2 - f.m[0]*x
	}
	f.inv = -x
	r := new(big.Int).Lsh(big.NewInt(1), 256)
	f.one = fe(words(new(big.Int).Mod(r, p)))
	f.r2 = fe(words(new(big.Int).Mod(new(big.Int).Mul(r, r), p)))
	return f
}

// mul sets z = x*y/2^256 mod m.
func (f *field) mul(z, x, y *fe) {
	var t [6]uint64
	for i := 0; i < 4; i++ {
		var c uint64
		for j := 0; j < 4; j++ {
			hi, lo := bits.Mul64(x[j], y[i])
			var k uint64
			lo, k = bits.Add64(lo, t[j], 0)
			hi += k
			lo, k = bits.Add64(lo, c, 0)
			hi += k
			t[j], c = lo, hi
		}
		var k uint64
		t[4], k = bits.Add64(t[4], c, 0)
		t[5] = k
		q := t[0] * f.inv
		hi, lo := bits.Mul64(q, f.m[0])
		_, k = bits.Add64(lo, t[0], 0)
		c = hi + k
		for j := 1; j < 4; j++ {
			hi, lo := bits.Mul64(q, f.m[j])
			lo, k = bits.Add64(lo, t[j], 0)
			hi += k
			lo, k = bits.Add64(lo, c, 0)
			hi += k
			t[j-1], c = lo, hi
		}
		t[3], k = bits.Add64(t[4], c, 0)
		t[4] = t[5] + k
	}
	f.norm(z, [4]uint64{t[0], t[1], t[2], t[3]}, t[4])
}

// norm sets z = t + c*2^256, once reduced.
func (f *field) norm(z *fe, t [4]uint64, c uint64) {
	var s [4]uint64
	var b uint64
	for i := range s {
		s[i], b = bits.Sub64(t[i], f.m[i], b)
	}
	if c != 0 || b == 0 {
		*z = fe(s)
	} else {
		*z = fe(t)
	}
}

func (f *field) add(z, x, y *fe) {
	var t [4]uint64
	var c uint64
	for i := range t {
		t[i], c = bits.Add64(x[i], y[i], c)
	}
	f.norm(z, t, c)
}

func (f *field) sub(z, x, y *fe) {
	var t [4]uint64
	var b, c uint64
	for i := range t {
		t[i], b = bits.Sub64(x[i], y[i], b)
	}
	if b != 0 {
		for i := range t {
			t[i], c = bits.Add64(t[i], f.m[i], c)
		}
	}
	*z = fe(t)
}

func (f *field) zero(x *fe) bool { return x[0]|x[1]|x[2]|x[3] == 0 }

func (f *field) from(v *big.Int) (z fe) {
	x := fe(words(v))
	f.mul(&z, &x, &f.r2)
	return
}

func (f *field) to(x *fe) *big.Int {
	var z fe
	f.mul(&z, x, &fe{1})
	return unwords(z)
}

// jac is a Jacobian point; z = 0 is infinity.
type jac struct{ x, y, z fe }

func (c *Curve) toJac(p Pt) (r jac) {
	f := c.fld()
	if p.Inf {
		r.x, r.y = f.one, f.one
		return
	}
	return jac{f.from(p.X), f.from(p.Y), f.one}
}

func (c *Curve) dblJ(p jac) (r jac) {
	f := c.f
	if f.zero(&p.z) || f.zero(&p.y) {
		r.x, r.y = f.one, f.one
		return
	}
	var yy, s, m, t, u fe
	f.mul(&yy, &p.y, &p.y)
	f.mul(&s, &p.x, &yy)
	f.add(&s, &s, &s)
	f.add(&s, &s, &s)
	f.mul(&t, &p.x, &p.x)
	f.add(&m, &t, &t)
	f.add(&m, &m, &t)
	if !f.zero(&c.fa) {
		f.mul(&t, &p.z, &p.z)
		f.mul(&t, &t, &t)
		f.mul(&t, &t, &c.fa)
		f.add(&m, &m, &t)
	}
	f.mul(&r.x, &m, &m)
	f.sub(&r.x, &r.x, &s)
	f.sub(&r.x, &r.x, &s)
	f.mul(&u, &yy, &yy)
	f.add(&u, &u, &u)
	f.add(&u, &u, &u)
	f.add(&u, &u, &u)
	f.sub(&t, &s, &r.x)
	f.mul(&r.y, &m, &t)
	f.sub(&r.y, &r.y, &u)
	f.mul(&r.z, &p.y, &p.z)
	f.add(&r.z, &r.z, &r.z)
	return
}

func (c *Curve) addJ(p, q jac) (r jac) {
	f := c.f
	if f.zero(&p.z) {
		return q
	}
	if f.zero(&q.z) {
		return p
	}
	var z1, z2, u1, u2, s1, s2, h, rr, hh, hhh, v, t fe
	f.mul(&z1, &p.z, &p.z)
	f.mul(&z2, &q.z, &q.z)
	f.mul(&u1, &p.x, &z2)
	f.mul(&u2, &q.x, &z1)
	f.mul(&t, &q.z, &z2)
	f.mul(&s1, &p.y, &t)
	f.mul(&t, &p.z, &z1)
	f.mul(&s2, &q.y, &t)
	if u1 == u2 {
		if s1 == s2 {
			return c.dblJ(p)
		}
		r.x, r.y = f.one, f.one
		return
	}
	f.sub(&h, &u2, &u1)
	f.sub(&rr, &s2, &s1)
	f.mul(&hh, &h, &h)
	f.mul(&hhh, &hh, &h)
	f.mul(&v, &u1, &hh)
	f.mul(&r.x, &rr, &rr)
	f.sub(&r.x, &r.x, &hhh)
	f.sub(&r.x, &r.x, &v)
	f.sub(&r.x, &r.x, &v)
	f.sub(&t, &v, &r.x)
	f.mul(&r.y, &rr, &t)
	f.mul(&t, &s1, &hhh)
	f.sub(&r.y, &r.y, &t)
	f.mul(&t, &p.z, &q.z)
	f.mul(&r.z, &h, &t)
	return
}

func (c *Curve) affine(p jac) Pt {
	f := c.f
	if f.zero(&p.z) {
		return Inf
	}
	zi := f.from(new(big.Int).ModInverse(f.to(&p.z), c.P))
	var zz, x, y fe
	f.mul(&zz, &zi, &zi)
	f.mul(&x, &p.x, &zz)
	f.mul(&zz, &zz, &zi)
	f.mul(&y, &p.y, &zz)
	return Pt{X: f.to(&x), Y: f.to(&y)}
}

func (c *Curve) fld() *field {
	c.fonce.Do(func() {
		c.f = newField(c.P)
		c.fa = c.f.from(c.mod(new(big.Int).Set(c.A)))
	})
	return c.f
}

// the fast arithmetic against the affine law
func init() {
	for _, c := range []*Curve{K1, R1, SM2, Pallas} {
		c.fld()
		if SkipSelfTest {
			continue
		}
		p, k := c.G(), big.NewInt(1)
		q := p
		for i := 0; i < 40; i++ {
			// p = k*G by the affine law
			if r := c.affine(c.mulJ(c.toJac(c.G()), k)); r.Inf || r.X.Cmp(p.X) != 0 || r.Y.Cmp(p.Y) != 0 || !c.On(p.X, p.Y) {
				panic("mc: reference arithmetic of " + c.Name)
			}
			if i%3 == 2 {
				p, k = c.Add(p, q), new(big.Int).Add(k, big.NewInt(1))
			} else {
				p, k = c.Add(p, p), new(big.Int).Lsh(k, 1)
			}
		}
		if !c.Mul(c.G(), c.N).Inf || !c.MulBase(c.N).Inf {
			panic("mc: order of " + c.Name)
		}
	}
}
