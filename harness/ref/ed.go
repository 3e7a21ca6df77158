package ref

import (
	"crypto/sha256"
	"crypto/sha512"
	"math/big"
	"sync"
)

// EdP, EdL, EdD are the field prime, the group order and d of edwards25519.
var (
	EdP = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 255), big.NewInt(19))
	EdL = hx("1000000000000000000000000000000014def9dea2f79cd65812631a5cf5d3ed")
	EdD = func() *big.Int { // -121665/121666
		v := new(big.Int).ModInverse(big.NewInt(121666), EdP)
		v.Mul(v, big.NewInt(-121665))
		return v.Mod(v, EdP)
	}()
	edf   = newField(EdP)
	edd   = edf.from(EdD)
	edd2  = edf.from(new(big.Int).Mod(new(big.Int).Lsh(EdD, 1), EdP))
	edOne = big.NewInt(1)
)

// Ed is an affine point of edwards25519.
type Ed struct{ X, Y *big.Int }

type edx struct{ x, y, z, t fe }

// EdO is the identity.
func EdO() Ed { return Ed{new(big.Int), big.NewInt(1)} }

// EdG is the base point.
func EdG() Ed {
	y := new(big.Int).ModInverse(big.NewInt(5), EdP)
	y.Mul(y, big.NewInt(4)).Mod(y, EdP)
	p, _ := EdLift(y, 0)
	return p
}

// LE is the 32-byte little-endian form.
func LE(v *big.Int) []byte { return rev(B32(v)) }

// ILE reads little-endian bytes.
func ILE(b []byte) *big.Int { return I(rev(b)) }

func rev(b []byte) []byte {
	o := make([]byte, len(b))
	for i := range b {
		o[len(b)-1-i] = b[i]
	}
	return o
}

// EdLift finds x for y with the given parity. x = 0 ignores the parity.
func EdLift(y *big.Int, odd uint) (Ed, bool) {
	yy := new(big.Int).Mul(y, y)
	u := new(big.Int).Sub(yy, edOne)
	v := new(big.Int).Mul(EdD, yy)
	v.Add(v, edOne).Mod(v, EdP)
	v.ModInverse(v, EdP)
	u.Mul(u, v).Mod(u, EdP)
	x := new(big.Int).ModSqrt(u, EdP)
	if x == nil {
		return Ed{}, false
	}
	if x.Bit(0) != odd && x.Sign() != 0 {
		x.Sub(EdP, x)
	}
	return Ed{x, new(big.Int).Set(y)}, true
}

// EdDec decodes; canon is false for a y of p and more and for x = 0 with the
// sign bit, which RFC 8032 refuses and many implementations do not.
func EdDec(b []byte) (p Ed, ok, canon bool) {
	if len(b) != 32 {
		return
	}
	c := append([]byte{}, b...)
	odd := uint(c[31] >> 7)
	c[31] &= 0x7f
	y := ILE(c)
	canon = y.Cmp(EdP) < 0
	y.Mod(y, EdP)
	p, ok = EdLift(y, odd)
	if ok && p.X.Sign() == 0 && odd == 1 {
		canon = false
	}
	return
}

// Enc is the canonical encoding.
func (p Ed) Enc() []byte {
	b := LE(p.Y)
	b[31] |= byte(p.X.Bit(0)) << 7
	return b
}

// Neg is -p.
func (p Ed) Neg() Ed { return Ed{new(big.Int).Mod(new(big.Int).Neg(p.X), EdP), p.Y} }

// IsO tells the identity.
func (p Ed) IsO() bool { return p.X.Sign() == 0 && p.Y.Cmp(edOne) == 0 }

// Equal compares.
func (p Ed) Equal(q Ed) bool { return p.X.Cmp(q.X) == 0 && p.Y.Cmp(q.Y) == 0 }

// addSlow is the affine law.
func (p Ed) addSlow(q Ed) Ed {
	m := func(a, b *big.Int) *big.Int { v := new(big.Int).Mul(a, b); return v.Mod(v, EdP) }
	t := m(m(p.X, q.X), m(p.Y, q.Y))
	t = m(t, EdD)
	nx := new(big.Int).Add(m(p.X, q.Y), m(p.Y, q.X))
	ny := new(big.Int).Add(m(p.Y, q.Y), m(p.X, q.X))
	dx := new(big.Int).Add(edOne, t)
	dy := new(big.Int).Sub(edOne, t)
	dy.Mod(dy, EdP)
	return Ed{m(nx, dx.ModInverse(dx, EdP)), m(ny, dy.ModInverse(dy, EdP))}
}

func (p Ed) ext() edx {
	return edx{edf.from(p.X), edf.from(p.Y), edf.one, edf.from(new(big.Int).Mod(new(big.Int).Mul(p.X, p.Y), EdP))}
}

func (p edx) add(q *edx) (r edx) {
	f := edf
	var a, b, c, d, e, g, h, t fe
	f.sub(&a, &p.y, &p.x)
	f.sub(&t, &q.y, &q.x)
	f.mul(&a, &a, &t)
	f.add(&b, &p.y, &p.x)
	f.add(&t, &q.y, &q.x)
	f.mul(&b, &b, &t)
	f.mul(&c, &p.t, &q.t)
	f.mul(&c, &c, &edd2)
	f.mul(&d, &p.z, &q.z)
	f.add(&d, &d, &d)
	f.sub(&e, &b, &a)
	f.sub(&t, &d, &c)
	f.add(&g, &d, &c)
	f.add(&h, &b, &a)
	f.mul(&r.x, &e, &t)
	f.mul(&r.y, &g, &h)
	f.mul(&r.t, &e, &h)
	f.mul(&r.z, &t, &g)
	return
}

func (p edx) affine() Ed {
	f := edf
	zi := f.from(new(big.Int).ModInverse(f.to(&p.z), EdP))
	var x, y fe
	f.mul(&x, &p.x, &zi)
	f.mul(&y, &p.y, &zi)
	return Ed{f.to(&x), f.to(&y)}
}

// Add is p + q.
func (p Ed) Add(q Ed) Ed { e := q.ext(); return p.ext().add(&e).affine() }

func (p edx) mul(k *big.Int) edx {
	r := EdO().ext()
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = r.add(&r)
		if k.Bit(i) == 1 {
			r = r.add(&p)
		}
	}
	return r
}

// Mul is k*p, k not reduced.
func (p Ed) Mul(k *big.Int) Ed { return p.ext().mul(k).affine() }

var (
	edOnce sync.Once
	edComb [64][16]edx
)

func edBase(k *big.Int) edx {
	edOnce.Do(func() {
		g := EdG().ext()
		for i := range edComb {
			edComb[i][0] = EdO().ext()
			for j := 1; j < 16; j++ {
				edComb[i][j] = edComb[i][j-1].add(&g)
			}
			g = edComb[i][15].add(&g)
		}
	})
	r := EdO().ext()
	b := B32(k)
	for i := range edComb {
		n := b[31-i/2] >> (4 * (i & 1)) & 15
		if n != 0 {
			r = r.add(&edComb[i][n])
		}
	}
	return r
}

// EdMulBase is k*B for any k below 2^256.
func EdMulBase(k *big.Int) Ed { return edBase(k).affine() }

// EdCombine is s*B + k*p.
func EdCombine(s *big.Int, p Ed, k *big.Int) Ed {
	e := edBase(s)
	return p.ext().mul(k).add(&e).affine()
}

// EdLow is the list of the eight points of small order.
func EdLow() []Ed {
	for y := big.NewInt(2); ; y = new(big.Int).Add(y, edOne) {
		p, ok := EdLift(y, 0)
		if !ok {
			continue
		}
		t := p.Mul(EdL)
		if t.Mul(big.NewInt(4)).IsO() {
			continue
		}
		l := []Ed{EdO()}
		for i := 1; i < 8; i++ {
			l = append(l, l[i-1].Add(t))
		}
		return l
	}
}

// EdToU maps y to (1+y)/(1-y), 1 to 0.
func EdToU(y *big.Int) *big.Int {
	d := new(big.Int).Sub(edOne, y)
	d.Mod(d, EdP)
	if d.Sign() == 0 {
		return d
	}
	d.ModInverse(d, EdP)
	d.Mul(d, new(big.Int).Add(edOne, y))
	return d.Mod(d, EdP)
}

// UToEd maps u to (u-1)/(u+1), -1 to 0.
func UToEd(u *big.Int) *big.Int {
	d := new(big.Int).Add(u, edOne)
	d.Mod(d, EdP)
	if d.Sign() == 0 {
		return d
	}
	d.ModInverse(d, EdP)
	d.Mul(d, new(big.Int).Sub(u, edOne))
	return d.Mod(d, EdP)
}

func hashSc(p ...[]byte) *big.Int {
	h := sha512.New()
	for _, b := range p {
		h.Write(b)
	}
	v := ILE(h.Sum(nil))
	return v.Mod(v, EdL)
}

// EdVerify is the RFC 8032 equation without cofactor, for a decoded key.
func EdVerify(a Ed, pub, msg, sig []byte) bool {
	if len(sig) != 64 {
		return false
	}
	s := ILE(sig[32:])
	if s.Cmp(EdL) >= 0 {
		return false
	}
	h := hashSc(sig[:32], pub, msg)
	return string(EdCombine(s, a.Neg(), h).Enc()) == string(sig[:32])
}

// EdSign signs with secret scalar k, the point R = r*B + t and public key pub.
func EdSign(k, r *big.Int, t Ed, pub, msg []byte) []byte {
	R := EdMulBase(r).Add(t).Enc()
	h := hashSc(R, pub, msg)
	s := h.Mul(h, k)
	s.Add(s, r).Mod(s, EdL)
	return append(R, LE(s)...)
}

// XVerify verifies an X25519-key signature: the Edwards key has the sign bit
// carried in the top bit of the signature.
func XVerify(pub, msg, sig []byte) (ok, canon bool) {
	if len(pub) != 32 || len(sig) != 64 {
		return false, true
	}
	c := append([]byte{}, pub...)
	u := ILE(c)
	canon = u.Cmp(EdP) < 0
	if !canon {
		c[31] &= 0x7f
		u = ILE(c)
		u.Mod(u, EdP)
	}
	y := UToEd(u)
	a, dec := EdLift(y, uint(sig[63]>>7))
	if !dec {
		return false, canon
	}
	e := LE(y)
	e[31] |= sig[63] & 0x80
	if e[31]>>7 == 1 && a.X.Sign() == 0 {
		return false, false
	}
	s := append([]byte{}, sig...)
	s[63] &= 0x7f
	return EdVerify(a, e, msg, s), canon
}

// MontPoint is the curve25519 point with the given u whose v is even, as the
// edwards25519 point; ok is false on the twist.
//
// v = sqrt(-486664) * u / x on the curve v^2 = u^3 + 486662 u^2 + u.
func MontV(u *big.Int) (*big.Int, bool) {
	r := new(big.Int).Mul(u, u)
	t := new(big.Int).Mul(r, big.NewInt(486662))
	r.Mul(r, u).Add(r, t).Add(r, u).Mod(r, EdP)
	v := new(big.Int).ModSqrt(r, EdP)
	if v == nil {
		return nil, false
	}
	if v.Bit(0) == 1 {
		v.Sub(EdP, v)
	}
	return v, true
}

// Mont is an affine point of curve25519.
type Mont struct {
	U, V *big.Int
	Inf  bool
}

// MontG is the base point with v as in RFC 7748 (even).
func MontG() Mont {
	u := big.NewInt(9)
	v, _ := MontV(u)
	return Mont{U: u, V: v}
}

// Add is the affine group law.
func (p Mont) Add(q Mont) Mont {
	if p.Inf {
		return q
	}
	if q.Inf {
		return p
	}
	m := func(a, b *big.Int) *big.Int { v := new(big.Int).Mul(a, b); return v.Mod(v, EdP) }
	var l *big.Int
	if p.U.Cmp(q.U) == 0 {
		if p.V.Cmp(q.V) != 0 || p.V.Sign() == 0 {
			return Mont{Inf: true}
		}
		n := new(big.Int).Mul(m(p.U, p.U), big.NewInt(3))
		n.Add(n, m(p.U, big.NewInt(2*486662))).Add(n, edOne)
		l = m(n, new(big.Int).ModInverse(new(big.Int).Lsh(p.V, 1), EdP))
	} else {
		d := new(big.Int).Sub(q.U, p.U)
		d.Mod(d, EdP)
		l = m(new(big.Int).Sub(q.V, p.V), d.ModInverse(d, EdP))
	}
	u := m(l, l)
	u.Sub(u, big.NewInt(486662)).Sub(u, p.U).Sub(u, q.U).Mod(u, EdP)
	v := m(l, new(big.Int).Sub(p.U, u))
	v.Sub(v, p.V).Mod(v, EdP)
	return Mont{U: u, V: v}
}

var montK = func() *big.Int { // sqrt(-486664) with EdG mapped to MontG up to sign
	return new(big.Int).ModSqrt(new(big.Int).Sub(EdP, big.NewInt(486664)), EdP)
}()

// ToEd maps a point of curve25519 to edwards25519 (a group homomorphism).
func (p Mont) ToEd() Ed {
	if p.Inf {
		return EdO()
	}
	if p.V.Sign() == 0 { // (0, 0), the point of order 2
		return Ed{new(big.Int), new(big.Int).Sub(EdP, edOne)}
	}
	x := new(big.Int).ModInverse(p.V, EdP)
	x.Mul(x, p.U).Mod(x, EdP)
	x.Mul(x, montK).Mod(x, EdP)
	return Ed{x, UToEd(p.U)}
}

// KCombine is u(v*|P| + h*|G|) with |P| the point of even ordinate, LE bytes;
// infinity is 0. ok is false when P is on the twist.
func KCombine(u, v, h *big.Int) ([]byte, bool) {
	pv, ok := MontV(u)
	if !ok {
		return nil, false
	}
	p := Mont{U: u, V: pv}.ToEd()
	g := MontG().ToEd()
	r := p.ext().mul(v)
	s := g.ext().mul(h)
	return LE(EdToU(r.add(&s).affine().Y)), true
}

// Clamp is the RFC 7748 clamping of 32 bytes.
func Clamp(b []byte) *big.Int {
	c := append([]byte{}, b...)
	c[0] &= 248
	c[31] &= 127
	c[31] |= 64
	return ILE(c)
}

// KVerify is the Curve25519-SHA256 (Nxt) equation.
func KVerify(pub, msg, sig []byte) (ok, curve bool) {
	if len(pub) != 32 || len(sig) != 64 {
		return false, true
	}
	u, v := ILE(pub), ILE(sig[:32])
	if u.Cmp(EdP) >= 0 || v.Cmp(EdL) >= 0 {
		return false, true
	}
	Y, on := KCombine(u, v, ILE(sig[32:]))
	if !on {
		return false, false
	}
	m := sha256.Sum256(msg)
	h := sha256.Sum256(append(m[:], Y...))
	return string(h[:]) == string(sig[32:]), true
}

// MontLadder is u(k*P) by the RFC 7748 ladder, k not clamped.
func MontLadder(k, u *big.Int) *big.Int {
	f := edf
	x1 := f.from(new(big.Int).Mod(u, EdP))
	x2, z2, x3, z3 := f.one, fe{}, x1, f.one
	a24 := f.from(big.NewInt(121665))
	for i := 255; i >= 0; i-- {
		if k.Bit(i) == 1 {
			x2, x3, z2, z3 = x3, x2, z3, z2
		}
		var a, aa, b, bb, e, c, d, da, cb, t fe
		f.add(&a, &x2, &z2)
		f.mul(&aa, &a, &a)
		f.sub(&b, &x2, &z2)
		f.mul(&bb, &b, &b)
		f.sub(&e, &aa, &bb)
		f.add(&c, &x3, &z3)
		f.sub(&d, &x3, &z3)
		f.mul(&da, &d, &a)
		f.mul(&cb, &c, &b)
		f.add(&t, &da, &cb)
		f.mul(&x3, &t, &t)
		f.sub(&t, &da, &cb)
		f.mul(&t, &t, &t)
		f.mul(&z3, &x1, &t)
		f.mul(&x2, &aa, &bb)
		f.mul(&t, &a24, &e)
		f.add(&t, &aa, &t)
		f.mul(&z2, &e, &t)
		if k.Bit(i) == 1 {
			x2, x3, z2, z3 = x3, x2, z3, z2
		}
	}
	z := f.to(&z2)
	if z.Sign() == 0 {
		return z
	}
	z.ModInverse(z, EdP)
	z.Mul(z, f.to(&x2))
	return z.Mod(z, EdP)
}

func init() {
	if SkipSelfTest {
		return
	}
	g := EdG()
	if !g.Mul(EdL).IsO() || !EdMulBase(EdL).IsO() || LE(EdToU(g.Y))[0] != 9 {
		panic("mc: edwards25519 reference")
	}
	p, k := g, big.NewInt(1)
	for i := 0; i < 30; i++ {
		if !EdMulBase(k).Equal(p) || !g.Mul(k).Equal(p) || MontLadder(k, big.NewInt(9)).Cmp(EdToU(p.Y)) != 0 {
			panic("mc: edwards25519 reference arithmetic")
		}
		if i%3 == 2 {
			p, k = p.addSlow(g), new(big.Int).Add(k, edOne)
		} else {
			p, k = p.addSlow(p), new(big.Int).Lsh(k, 1)
		}
	}
	// the map from the Montgomery form is a homomorphism
	a := MontG()
	b := a.Add(a)
	c := a.Add(b)
	if !a.ToEd().Add(a.ToEd()).Equal(b.ToEd()) || !a.ToEd().Add(b.ToEd()).Equal(c.ToEd()) || !(a.ToEd().Equal(g) || a.ToEd().Equal(g.Neg())) {
		panic("mc: birational map reference")
	}
}

// EdHash is SHA-512 of the parts modulo the order.
func EdHash(p ...[]byte) *big.Int { return hashSc(p...) }

// KSign signs with secret scalar k and nonce n by the Curve25519-SHA256 rules.
func KSign(k, n *big.Int, msg []byte) []byte {
	P := EdMulBase(k)
	u := EdToU(P.Y)
	// the secret of the point with even ordinate: s with s*|P| = |G|
	pv, ok := MontV(u)
	if !ok {
		panic("mc: KSign")
	}
	s := new(big.Int).ModInverse(new(big.Int).Mod(k, EdL), EdL)
	abs := Mont{U: u, V: pv}.ToEd()
	if !abs.Mul(s).Equal(MontG().ToEd()) {
		s.Sub(EdL, s)
		if !abs.Mul(s).Equal(MontG().ToEd()) {
			panic("mc: KSign")
		}
	}
	m := sha256.Sum256(msg)
	Y := LE(EdToU(EdMulBase(n).Y))
	h := sha256.Sum256(append(m[:], Y...))
	v := new(big.Int).Sub(n, ILE(h[:]))
	v.Mul(v, s).Mod(v, EdL)
	return append(LE(v), h[:]...)
}
