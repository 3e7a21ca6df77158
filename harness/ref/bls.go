package ref

import (
	"crypto/sha256"
	"errors"
	"math/big"
	"math/bits"
)

// Reference BLS12-381: one Jacobian implementation over Fp2 serves G1 (b = 4,
// imaginary parts zero) and G2 (b = 4(1+i)). Written from the IETF hash-to-curve
// RFC 9380 and the ZCash serialisation; init checks it against published vectors.

// F1 is an element of Fp in Montgomery form (2^384).
type F1 [6]uint64

var (
	BlsP, _  = new(big.Int).SetString("1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab", 16)
	BlsR, _  = new(big.Int).SetString("73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001", 16)
	f1m      [6]uint64
	f1inv    uint64
	f1r2     F1
	f1one    F1
	f1sqrtE  *big.Int // (p-3)/4
	f1halfP  *big.Int
	blsHeff1 = hx("d201000000010001")
	blsHeff2 = hx("0bc69f08f2ee75b3584c6a0ea91b352888e2a8e9145ad7689986ff031508ffe1329c2f178731db956d82bf015d1212b02ec0ec69d7477c1ae954cbc06689f6a359894c0adebbf6b4e8020005aaa95551")
)

func w6(v *big.Int) (w [6]uint64) {
	t := new(big.Int).Set(v)
	for i := range w {
		w[i] = new(big.Int).And(t, new(big.Int).SetUint64(^uint64(0))).Uint64()
		t.Rsh(t, 64)
	}
	return
}

func f1mul(z, x, y *F1) {
	var t [8]uint64
	for i := 0; i < 6; i++ {
		var c, k uint64
		for j := 0; j < 6; j++ {
			hi, lo := bits.Mul64(x[j], y[i])
			lo, k = bits.Add64(lo, t[j], 0)
			hi += k
			lo, k = bits.Add64(lo, c, 0)
			hi += k
			t[j], c = lo, hi
		}
		t[6], k = bits.Add64(t[6], c, 0)
		t[7] = k
		q := t[0] * f1inv
		hi, lo := bits.Mul64(q, f1m[0])
		_, k = bits.Add64(lo, t[0], 0)
		c = hi + k
		for j := 1; j < 6; j++ {
			hi, lo := bits.Mul64(q, f1m[j])
			lo, k = bits.Add64(lo, t[j], 0)
			hi += k
			lo, k = bits.Add64(lo, c, 0)
			hi += k
			t[j-1], c = lo, hi
		}
		t[5], k = bits.Add64(t[6], c, 0)
		t[6] = t[7] + k
	}
	f1norm(z, (*F1)(t[:6]), t[6])
}

func f1norm(z, t *F1, c uint64) {
	var s F1
	var b uint64
	for i := range s {
		s[i], b = bits.Sub64(t[i], f1m[i], b)
	}
	if c != 0 || b == 0 {
		*z = s
	} else {
		*z = *t
	}
}

func f1add(z, x, y *F1) {
	var t F1
	var c uint64
	for i := range t {
		t[i], c = bits.Add64(x[i], y[i], c)
	}
	f1norm(z, &t, c)
}

func f1sub(z, x, y *F1) {
	var t F1
	var b, c uint64
	for i := range t {
		t[i], b = bits.Sub64(x[i], y[i], b)
	}
	if b != 0 {
		for i := range t {
			t[i], c = bits.Add64(t[i], f1m[i], c)
		}
	}
	*z = t
}

func f1of(v *big.Int) F1 {
	t := F1(w6(new(big.Int).Mod(v, BlsP)))
	f1mul(&t, &t, &f1r2)
	return t
}

func (x F1) Big() *big.Int {
	one := F1{1}
	f1mul(&x, &x, &one)
	v := new(big.Int)
	for i := 5; i >= 0; i-- {
		v.Lsh(v, 64).Or(v, new(big.Int).SetUint64(x[i]))
	}
	return v
}

func f1pow(x F1, e *big.Int) F1 {
	z := f1one
	for i := e.BitLen() - 1; i >= 0; i-- {
		f1mul(&z, &z, &z)
		if e.Bit(i) == 1 {
			f1mul(&z, &z, &x)
		}
	}
	return z
}

// F2 is a + b*i.
type F2 struct{ a, b F1 }

func f2mul(x, y F2) (z F2) {
	var t, u, v F1
	f1mul(&t, &x.a, &y.a)
	f1mul(&u, &x.b, &y.b)
	f1sub(&z.a, &t, &u)
	f1mul(&t, &x.a, &y.b)
	f1mul(&v, &x.b, &y.a)
	f1add(&z.b, &t, &v)
	return
}
func f2add(x, y F2) (z F2) { f1add(&z.a, &x.a, &y.a); f1add(&z.b, &x.b, &y.b); return }
func f2sub(x, y F2) (z F2) { f1sub(&z.a, &x.a, &y.a); f1sub(&z.b, &x.b, &y.b); return }
func f2neg(x F2) F2        { return f2sub(F2{}, x) }
func (x F2) zero() bool    { return x == F2{} }
func f2of(a, b *big.Int) F2 {
	return F2{f1of(a), f1of(b)}
}
func f2int(a, b int64) F2 { return f2of(big.NewInt(a), big.NewInt(b)) }
func f2inv(x F2) (z F2) {
	var n, t F1
	f1mul(&n, &x.a, &x.a)
	f1mul(&t, &x.b, &x.b)
	f1add(&n, &n, &t)
	n = f1pow(n, new(big.Int).Sub(BlsP, big.NewInt(2)))
	f1mul(&z.a, &x.a, &n)
	f1mul(&z.b, &x.b, &n)
	f1sub(&z.b, &F1{}, &z.b)
	return
}

func f1sqrt(x F1) (F1, bool) {
	s := f1pow(x, new(big.Int).Add(f1sqrtE, big.NewInt(1)))
	var t F1
	f1mul(&t, &s, &s)
	return s, t == x
}

// f2sqrt: any square root in Fp2.
func f2sqrt(x F2) (F2, bool) {
	if x.zero() {
		return x, true
	}
	if (x.b == F1{}) {
		if s, ok := f1sqrt(x.a); ok {
			return F2{a: s}, true
		}
		var n F1
		f1sub(&n, &F1{}, &x.a)
		s, ok := f1sqrt(n) // p = 3 mod 4: one of a, -a is a square
		return F2{b: s}, ok
	}
	var n, t F1
	f1mul(&n, &x.a, &x.a)
	f1mul(&t, &x.b, &x.b)
	f1add(&n, &n, &t)
	s, ok := f1sqrt(n)
	if !ok {
		return F2{}, false
	}
	half := f1of(new(big.Int).ModInverse(big.NewInt(2), BlsP))
	for i := 0; i < 2; i++ {
		var d F1
		f1add(&d, &x.a, &s)
		f1mul(&d, &d, &half)
		if c, ok := f1sqrt(d); ok && c != (F1{}) {
			var e F1
			f1add(&e, &c, &c)
			e = f1pow(e, new(big.Int).Sub(BlsP, big.NewInt(2)))
			f1mul(&e, &e, &x.b)
			z := F2{c, e}
			return z, f2mul(z, z) == x
		}
		f1sub(&s, &F1{}, &s)
	}
	return F2{}, false
}

// BPt is an affine point of G1 or G2.
type BPt struct {
	X, Y F2
	Inf  bool
}

// BGroup is G1 or G2 with the serialisation width of a coordinate.
type BGroup struct {
	Name string
	W    int // bytes of a coordinate
	b    F2
	G    BPt
	heff *big.Int
	deg2 bool
}

var B1, B2 *BGroup

type bjac struct{ x, y, z F2 }

func (g *BGroup) jac(p BPt) bjac {
	if p.Inf {
		return bjac{f2int(1, 0), f2int(1, 0), F2{}}
	}
	return bjac{p.X, p.Y, f2int(1, 0)}
}
func (g *BGroup) aff(p bjac) BPt {
	if p.z.zero() {
		return BPt{Inf: true}
	}
	i := f2inv(p.z)
	i2 := f2mul(i, i)
	return BPt{X: f2mul(p.x, i2), Y: f2mul(p.y, f2mul(i2, i))}
}
func bdbl(p bjac) bjac {
	if p.z.zero() || p.y.zero() {
		return bjac{f2int(1, 0), f2int(1, 0), F2{}}
	}
	yy := f2mul(p.y, p.y)
	s := f2mul(p.x, yy)
	s = f2add(s, s)
	s = f2add(s, s)
	m := f2mul(p.x, p.x)
	m = f2add(f2add(m, m), m)
	x := f2sub(f2mul(m, m), f2add(s, s))
	y4 := f2mul(yy, yy)
	y4 = f2add(y4, y4)
	y4 = f2add(y4, y4)
	y4 = f2add(y4, y4)
	z := f2mul(p.y, p.z)
	return bjac{x, f2sub(f2mul(m, f2sub(s, x)), y4), f2add(z, z)}
}
func badd(p, q bjac) bjac {
	if p.z.zero() {
		return q
	}
	if q.z.zero() {
		return p
	}
	pz, qz := f2mul(p.z, p.z), f2mul(q.z, q.z)
	u1, u2 := f2mul(p.x, qz), f2mul(q.x, pz)
	s1, s2 := f2mul(p.y, f2mul(qz, q.z)), f2mul(q.y, f2mul(pz, p.z))
	if u1 == u2 {
		if s1 == s2 {
			return bdbl(p)
		}
		return bjac{f2int(1, 0), f2int(1, 0), F2{}}
	}
	h, r := f2sub(u2, u1), f2sub(s2, s1)
	hh := f2mul(h, h)
	hhh := f2mul(hh, h)
	v := f2mul(u1, hh)
	x := f2sub(f2sub(f2mul(r, r), hhh), f2add(v, v))
	return bjac{x, f2sub(f2mul(r, f2sub(v, x)), f2mul(s1, hhh)), f2mul(h, f2mul(p.z, q.z))}
}

func (g *BGroup) Add(p, q BPt) BPt { return g.aff(badd(g.jac(p), g.jac(q))) }
func (g *BGroup) Neg(p BPt) BPt {
	if !p.Inf {
		p.Y = f2neg(p.Y)
	}
	return p
}

// Mul multiplies by any integer (not reduced: p need not be in the subgroup).
func (g *BGroup) Mul(p BPt, k *big.Int) BPt {
	if k.Sign() < 0 {
		return g.Mul(g.Neg(p), new(big.Int).Neg(k))
	}
	var tab [16]bjac
	tab[0] = g.jac(BPt{Inf: true})
	tab[1] = g.jac(p)
	for i := 2; i < 16; i++ {
		tab[i] = badd(tab[i-1], tab[1])
	}
	r := tab[0]
	for i := (k.BitLen() + 3) / 4 * 4; i > 0; i -= 4 {
		for j := 0; j < 4; j++ {
			r = bdbl(r)
		}
		d := k.Bit(i-1)<<3 | k.Bit(i-2)<<2 | k.Bit(i-3)<<1 | k.Bit(i-4)
		if d != 0 {
			r = badd(r, tab[d])
		}
	}
	return g.aff(r)
}
func (g *BGroup) Base(k *big.Int) BPt { return g.Mul(g.G, k) }
func (g *BGroup) On(p BPt) bool {
	return p.Inf || f2mul(p.Y, p.Y) == f2add(f2mul(f2mul(p.X, p.X), p.X), g.b)
}
func (g *BGroup) InGroup(p BPt) bool { return g.On(p) && g.Mul(p, BlsR).Inf }

// Lift is a point with abscissa x (G1: c0 only), if there is one.
func (g *BGroup) Lift(c0, c1 *big.Int) (BPt, bool) {
	x := f2of(c0, c1)
	y, ok := f2sqrt(f2add(f2mul(f2mul(x, x), x), g.b))
	if ok && !g.deg2 && y.b != (F1{}) {
		ok = false
	}
	return BPt{X: x, Y: y}, ok
}

func b48(v *big.Int) []byte { return v.FillBytes(make([]byte, 48)) }
func (g *BGroup) cbytes(x F2) []byte {
	if g.deg2 {
		return append(b48(x.b.Big()), b48(x.a.Big())...)
	}
	return b48(x.a.Big())
}

// larger: y is lexicographically larger than -y.
func (g *BGroup) larger(y F2) bool {
	v := y.b.Big()
	if v.Sign() == 0 {
		v = y.a.Big()
	}
	return v.Cmp(f1halfP) > 0
}
func (g *BGroup) Comp(p BPt) []byte {
	if p.Inf {
		o := make([]byte, g.W)
		o[0] = 0xc0
		return o
	}
	o := g.cbytes(p.X)
	o[0] |= 0x80
	if g.larger(p.Y) {
		o[0] |= 0x20
	}
	return o
}
func (g *BGroup) Enc(p BPt) []byte {
	if p.Inf {
		o := make([]byte, 2*g.W)
		o[0] = 0x40
		return o
	}
	return append(g.cbytes(p.X), g.cbytes(p.Y)...)
}

// Raw is the flagless encoding (infinity all zero).
func (g *BGroup) Raw(p BPt) []byte {
	if p.Inf {
		return make([]byte, 2*g.W)
	}
	return g.Enc(p)
}

func (g *BGroup) coord(b []byte) (F2, bool) {
	hi := new(big.Int).SetBytes(b[:48])
	if hi.Cmp(BlsP) >= 0 {
		return F2{}, false
	}
	if !g.deg2 {
		return f2of(hi, big.NewInt(0)), true
	}
	lo := new(big.Int).SetBytes(b[48:])
	if lo.Cmp(BlsP) >= 0 {
		return F2{}, false
	}
	return f2of(lo, hi), true
}

func zeros(b []byte) bool {
	for _, c := range b {
		if c != 0 {
			return false
		}
	}
	return true
}

// Decode reads a serialised subgroup point: compressed (W bytes) or not (2W).
func (g *BGroup) Decode(in []byte, comp bool) (BPt, error) {
	n := 2 * g.W
	if comp {
		n = g.W
	}
	if len(in) != n || (in[0]&0x80 != 0) != comp {
		return BPt{}, errors.New("length or compression flag")
	}
	b := append([]byte(nil), in...)
	fl := b[0] & 0xe0
	b[0] &= 0x1f
	if fl&0x40 != 0 {
		if fl&0x20 != 0 || !zeros(b) {
			return BPt{}, errors.New("infinity flags")
		}
		return BPt{Inf: true}, nil
	}
	x, ok := g.coord(b[:g.W])
	if !ok {
		return BPt{}, errors.New("coordinate range")
	}
	p := BPt{X: x}
	if comp {
		y, ok := f2sqrt(f2add(f2mul(f2mul(x, x), x), g.b))
		if !ok || !g.deg2 && y.b != (F1{}) {
			return BPt{}, errors.New("no point")
		}
		if g.larger(y) != (fl&0x20 != 0) {
			y = f2neg(y)
		}
		p.Y = y
	} else {
		if fl != 0 {
			return BPt{}, errors.New("flags")
		}
		if p.Y, ok = g.coord(b[g.W:]); !ok {
			return BPt{}, errors.New("coordinate range")
		}
	}
	if !g.InGroup(p) {
		return BPt{}, errors.New("not in the subgroup")
	}
	return p, nil
}

// XMD is expand_message_xmd with SHA-256.
func XMD(msg, dst []byte, n int) []byte {
	dp := append(append([]byte(nil), dst...), byte(len(dst)))
	h := sha256.New()
	h.Write(make([]byte, 64))
	h.Write(msg)
	h.Write([]byte{byte(n >> 8), byte(n), 0})
	h.Write(dp)
	b0 := h.Sum(nil)
	var out []byte
	prev := make([]byte, 32)
	for i := 1; len(out) < n; i++ {
		h.Reset()
		t := make([]byte, 32)
		for j := range t {
			t[j] = b0[j] ^ prev[j]
		}
		h.Write(t)
		h.Write([]byte{byte(i)})
		h.Write(dp)
		prev = h.Sum(nil)
		out = append(out, prev...)
	}
	return out[:n]
}

func (g *BGroup) fields(msg, dst []byte, count int) (us []F2) {
	m := 1
	if g.deg2 {
		m = 2
	}
	b := XMD(msg, dst, 64*count*m)
	for i := 0; i < count; i++ {
		a := new(big.Int).SetBytes(b[64*i*m : 64*i*m+64])
		c := new(big.Int)
		if m == 2 {
			c.SetBytes(b[64*i*m+64 : 64*i*m+128])
		}
		us = append(us, f2of(a, c))
	}
	return
}

func (g *BGroup) square(x F2) (F2, bool) {
	y, ok := f2sqrt(x)
	return y, ok && (g.deg2 || y.b == (F1{}))
}
func sgn0(x F2) uint {
	a, b := x.a.Big(), x.b.Big()
	if a.Sign() == 0 {
		return b.Bit(0)
	}
	return a.Bit(0)
}

// MapU maps a field element to the curve (SSWU and isogeny), cofactor not cleared.
func (g *BGroup) MapU(u F2) BPt {
	A, B, Z := swA1, swB1, swZ1
	if g.deg2 {
		A, B, Z = swA2, swB2, swZ2
	}
	zu := f2mul(Z, f2mul(u, u))
	d := f2add(f2mul(zu, zu), zu)
	var x F2
	if d.zero() {
		x = f2mul(B, f2inv(f2mul(Z, A)))
	} else {
		x = f2mul(f2mul(f2neg(B), f2inv(A)), f2add(f2int(1, 0), f2inv(d)))
	}
	gx := func(x F2) F2 { return f2add(f2mul(x, f2add(f2mul(x, x), A)), B) }
	y, ok := g.square(gx(x))
	if !ok {
		x = f2mul(zu, x)
		if y, ok = g.square(gx(x)); !ok {
			panic("sswu")
		}
	}
	if sgn0(y) != sgn0(u) {
		y = f2neg(y)
	}
	if g.deg2 {
		return iso2(x, y)
	}
	return iso1(x, y)
}

// MapBytes maps one encoded field element of G1 (48 bytes) to the subgroup.
func (g *BGroup) MapInt(c0, c1 *big.Int) BPt { return g.Mul(g.MapU(f2of(c0, c1)), g.heff) }

func (g *BGroup) Hash(msg, dst []byte) BPt {
	u := g.fields(msg, dst, 2)
	return g.Mul(g.Add(g.MapU(u[0]), g.MapU(u[1])), g.heff)
}

// EncodeTo is the non-uniform encode_to_curve.
func (g *BGroup) EncodeTo(msg, dst []byte) BPt {
	return g.Mul(g.MapU(g.fields(msg, dst, 1)[0]), g.heff)
}

var swA1, swB1, swZ1, swA2, swB2, swZ2 F2

// iso2: the 3-isogeny to E2 by Velu's formulas, scaled into the target model.
func iso2(x, y F2) BPt {
	x0 := f2int(-6, 6)
	t := f2sub(x, x0)
	if t.zero() {
		return BPt{Inf: true}
	}
	x02 := f2mul(x0, x0)
	v := f2add(f2add(f2add(x02, x02), x02), swA2)
	v = f2add(v, v)
	u := f2add(f2mul(x0, f2add(x02, swA2)), swB2)
	u = f2add(u, u)
	u = f2add(u, u)
	i := f2inv(t)
	i2 := f2mul(i, i)
	i3 := f2mul(i2, i)
	ui2 := f2mul(u, i2)
	fx := f2add(x, f2add(f2mul(v, i), ui2))
	ui3 := f2mul(u, i3)
	fy := f2mul(y, f2sub(f2sub(f2int(1, 0), f2mul(v, i2)), f2add(ui3, ui3)))
	k1 := f2of(hx("171d6541fa38ccfaed6dea691f5fb614cb14b4e7f4e810aa22d6108f142b85757098e38d0f671c7188e2aaaaaaaa5ed1"), new(big.Int))
	k3 := f2of(hx("124c9ad43b6cf79bfbf7043de3811ad0761b0f37a1e26286b0e977c69aa274524e79097a56dc4bd9e1b371c71c718b10"), new(big.Int))
	return BPt{X: f2mul(k1, fx), Y: f2mul(k3, fy)}
}

// iso1: the 11-isogeny of RFC 9380 section 8.8.1 (coefficients of appendix E.2).
func iso1(x, y F2) BPt {
	ev := func(c []F2) F2 {
		var r F2
		for i := len(c) - 1; i >= 0; i-- {
			r = f2add(f2mul(r, x), c[i])
		}
		return r
	}
	xn, xd, yn, yd := ev(isoK[0:16]), ev(isoK[16:32]), ev(isoK[32:48]), ev(isoK[48:64])
	if xd.zero() || yd.zero() {
		return BPt{Inf: true}
	}
	return BPt{X: f2mul(xn, f2inv(xd)), Y: f2mul(y, f2mul(yn, f2inv(yd)))}
}

var isoK []F2

var isoHex = [64]string{
	"11a05f2b1e833340b809101dd99815856b303e88a2d7005ff2627b56cdb4e2c85610c2d5f2e62d6eaeac1662734649b7",
	"17294ed3e943ab2f0588bab22147a81c7c17e75b2f6a8417f565e33c70d1e86b4838f2a6f318c356e834eef1b3cb83bb",
	"d54005db97678ec1d1048c5d10a9a1bce032473295983e56878e501ec68e25c958c3e3d2a09729fe0179f9dac9edcb0",
	"1778e7166fcc6db74e0609d307e55412d7f5e4656a8dbf25f1b33289f1b330835336e25ce3107193c5b388641d9b6861",
	"e99726a3199f4436642b4b3e4118e5499db995a1257fb3f086eeb65982fac18985a286f301e77c451154ce9ac8895d9",
	"1630c3250d7313ff01d1201bf7a74ab5db3cb17dd952799b9ed3ab9097e68f90a0870d2dcae73d19cd13c1c66f652983",
	"d6ed6553fe44d296a3726c38ae652bfb11586264f0f8ce19008e218f9c86b2a8da25128c1052ecaddd7f225a139ed84",
	"17b81e7701abdbe2e8743884d1117e53356de5ab275b4db1a682c62ef0f2753339b7c8f8c8f475af9ccb5618e3f0c88e",
	"80d3cf1f9a78fc47b90b33563be990dc43b756ce79f5574a2c596c928c5d1de4fa295f296b74e956d71986a8497e317",
	"169b1f8e1bcfa7c42e0c37515d138f22dd2ecb803a0c5c99676314baf4bb1b7fa3190b2edc0327797f241067be390c9e",
	"10321da079ce07e272d8ec09d2565b0dfa7dccdde6787f96d50af36003b14866f69b771f8c285decca67df3f1605fb7b",
	"6e08c248e260e70bd1e962381edee3d31d79d7e22c837bc23c0bf1bc24c6b68c24b1b80b64d391fa9c8ba2e8ba2d229",
	"0",
	"0",
	"0",
	"0",
	"8ca8d548cff19ae18b2e62f4bd3fa6f01d5ef4ba35b48ba9c9588617fc8ac62b558d681be343df8993cf9fa40d21b1c",
	"12561a5deb559c4348b4711298e536367041e8ca0cf0800c0126c2588c48bf5713daa8846cb026e9e5c8276ec82b3bff",
	"b2962fe57a3225e8137e629bff2991f6f89416f5a718cd1fca64e00b11aceacd6a3d0967c94fedcfcc239ba5cb83e19",
	"3425581a58ae2fec83aafef7c40eb545b08243f16b1655154cca8abc28d6fd04976d5243eecf5c4130de8938dc62cd8",
	"13a8e162022914a80a6f1d5f43e7a07dffdfc759a12062bb8d6b44e833b306da9bd29ba81f35781d539d395b3532a21e",
	"e7355f8e4e667b955390f7f0506c6e9395735e9ce9cad4d0a43bcef24b8982f7400d24bc4228f11c02df9a29f6304a5",
	"772caacf16936190f3e0c63e0596721570f5799af53a1894e2e073062aede9cea73b3538f0de06cec2574496ee84a3a",
	"14a7ac2a9d64a8b230b3f5b074cf01996e7f63c21bca68a81996e1cdf9822c580fa5b9489d11e2d311f7d99bbdcc5a5e",
	"a10ecf6ada54f825e920b3dafc7a3cce07f8d1d7161366b74100da67f39883503826692abba43704776ec3a79a1d641",
	"95fc13ab9e92ad4476d6e3eb3a56680f682b4ee96f7d03776df533978f31c1593174e4b4b7865002d6384d168ecdd0a",
	"1",
	"0",
	"0",
	"0",
	"0",
	"0",
	"90d97c81ba24ee0259d1f094980dcfa11ad138e48a869522b52af6c956543d3cd0c7aee9b3ba3c2be9845719707bb33",
	"134996a104ee5811d51036d776fb46831223e96c254f383d0f906343eb67ad34d6c56711962fa8bfe097e75a2e41c696",
	"cc786baa966e66f4a384c86a3b49942552e2d658a31ce2c344be4b91400da7d26d521628b00523b8dfe240c72de1f6",
	"1f86376e8981c217898751ad8746757d42aa7b90eeb791c09e4a3ec03251cf9de405aba9ec61deca6355c77b0e5f4cb",
	"8cc03fdefe0ff135caf4fe2a21529c4195536fbe3ce50b879833fd221351adc2ee7f8dc099040a841b6daecf2e8fedb",
	"16603fca40634b6a2211e11db8f0a6a074a7d0d4afadb7bd76505c3d3ad5544e203f6326c95a807299b23ab13633a5f0",
	"4ab0b9bcfac1bbcb2c977d027796b3ce75bb8ca2be184cb5231413c4d634f3747a87ac2460f415ec961f8855fe9d6f2",
	"987c8d5333ab86fde9926bd2ca6c674170a05bfe3bdd81ffd038da6c26c842642f64550fedfe935a15e4ca31870fb29",
	"9fc4018bd96684be88c9e221e4da1bb8f3abd16679dc26c1e8b6e6a1f20cabe69d65201c78607a360370e577bdba587",
	"e1bba7a1186bdb5223abde7ada14a23c42a0ca7915af6fe06985e7ed1e4d43b9b3f7055dd4eba6f2bafaaebca731c30",
	"19713e47937cd1be0dfd0b8f1d43fb93cd2fcbcb6caf493fd1183e416389e61031bf3a5cce3fbafce813711ad011c132",
	"18b46a908f36f6deb918c143fed2edcc523559b8aaf0c2462e6bfe7f911f643249d9cdf41b44d606ce07c8a4d0074d8e",
	"b182cac101b9399d155096004f53f447aa7b12a3426b08ec02710e807b4633f06c851c1919211f20d4c04f00b971ef8",
	"245a394ad1eca9b72fc00ae7be315dc757b3b080d4c158013e6632d3c40659cc6cf90ad1c232a6442d9d3f5db980133",
	"5c129645e44cf1102a159f748c4a3fc5e673d81d7e86568d9ab0f5d396a7ce46ba1049b6579afb7866b1e715475224b",
	"15e6be4e990f03ce4ea50b3b42df2eb5cb181d8f84965a3957add4fa95af01b2b665027efec01c7704b456be69c8b604",
	"16112c4c3a9c98b252181140fad0eae9601a6de578980be6eec3232b5be72e7a07f3688ef60c206d01479253b03663c1",
	"1962d75c2381201e1a0cbd6c43c348b885c84ff731c4d59ca4a10356f453e01f78a4260763529e3532f6102c2e49a03d",
	"58df3306640da276faaae7d6e8eb15778c4855551ae7f310c35a5dd279cd2eca6757cd636f96f891e2538b53dbf67f2",
	"16b7d288798e5395f20d23bf89edb4d1d115c5dbddbcd30e123da489e726af41727364f2c28297ada8d26d98445f5416",
	"be0e079545f43e4b00cc912f8228ddcc6d19c9f0f69bbb0542eda0fc9dec916a20b15dc0fd2ededda39142311a5001d",
	"8d9e5297186db2d9fb266eaac783182b70152c65550d881c5ecd87b6f0f5a6449f38db9dfa9cce202c6477faaf9b7ac",
	"166007c08a99db2fc3ba8734ace9824b5eecfdfa8d0cf8ef5dd365bc400a0051d5fa9c01a58b1fb93d1a1399126a775c",
	"16a3ef08be3ea7ea03bcddfabba6ff6ee5a4375efa1f4fd7feb34fd206357132b920f5b00801dee460ee415a15812ed9",
	"1866c8ed336c61231a1be54fd1d74cc4f9fb0ce4c6af5920abc5750c4bf39b4852cfe2f7bb9248836b233d9d55535d4a",
	"167a55cda70a6e1cea820597d94a84903216f763e13d87bb5308592e7ea7d4fbc7385ea3d529b35e346ef48bb8913f55",
	"4d2f259eea405bd48f010a01ad2911d9c6dd039bb61a6290e591b36e636a5c871a5c29f4f83060400f8b49cba8f6aa8",
	"accbb67481d033ff5852c1e48c50c477f94ff8aefce42d28c0f9a88cea7913516f968986f7ebbea9684b529e2561092",
	"ad6b9514c767fe3c3613144b45f1496543346d98adf02267d5ceef9a00d9b8693000763e3b90ac11e99b138573345cc",
	"2660400eb2e4f3b628bdd0d53cd76f2bf565b94e72927c1cb748df27942480e420517bd8714cc80d1fadc1326ed06f7",
	"e0fa1d816ddc03e6b24255e0d7819c171c40f65e273b853324efcd6356caa205ca2f570f13497804415473a1d634b8f",
	"1",
}

func init() {
	for i := range f1m {
		f1m[i] = w6(BlsP)[i]
	}
	x := uint64(1)
	for i := 0; i < 6; i++ {
		x *= 2 - f1m[0]*x
	}
	f1inv = -x
	r := new(big.Int).Lsh(big.NewInt(1), 384)
	f1one = F1(w6(new(big.Int).Mod(r, BlsP)))
	f1r2 = F1(w6(new(big.Int).Mod(new(big.Int).Mul(r, r), BlsP)))
	f1sqrtE = new(big.Int).Rsh(new(big.Int).Sub(BlsP, big.NewInt(3)), 2)
	f1halfP = new(big.Int).Rsh(BlsP, 1)
	z := new(big.Int)
	swA1 = f2of(hx("144698a3b8e9433d693a02c96d4982b0ea985383ee66a8d8e8981aefd881ac98936f8da0e0f97f5cf428082d584c1d"), z)
	swB1 = f2of(hx("12e2908d11688030018b12e8753eee3b2016c1f0f24f4070a0b9c14fcef35ef55a23215a316ceaa5d1cc48e98e172be0"), z)
	swZ1 = f2int(11, 0)
	swA2, swB2, swZ2 = f2int(0, 240), f2int(1012, 1012), f2int(-2, -1)
	for _, h := range isoHex {
		isoK = append(isoK, f2of(hx(h), z))
	}
	B1 = &BGroup{Name: "G1", W: 48, b: f2int(4, 0), heff: blsHeff1}
	B2 = &BGroup{Name: "G2", W: 96, b: f2int(4, 4), heff: blsHeff2, deg2: true}
	B1.G = BPt{
		X: f2of(hx("17f1d3a73197d7942695638c4fa9ac0fc3688c4f9774b905a14e3a3f171bac586c55e83ff97a1aeffb3af00adb22c6bb"), z),
		Y: f2of(hx("08b3f481e3aaa0f1a09e30ed741d8ae4fcf5e095d5d00af600db18cb2c04b3edd03cc744a2888ae40caa232946c5e7e1"), z),
	}
	B2.G = BPt{
		X: f2of(hx("024aa2b2f08f0a91260805272dc51051c6e47ad4fa403b02b4510b647ae3d1770bac0326a805bbefd48056c8c121bdb8"),
			hx("13e02b6052719f607dacd3a088274f65596bd0d09920b61ab5da61bbdc7f5049334cf11213945d57e5ac7d055d042b7e")),
		Y: f2of(hx("0ce5d527727d6e118cc9cdc6da2e351aadfd9baa8cbdd3a76d429a695160d12c923ac9cc3baca289e193548608b82801"),
			hx("0606c4a02ea734cc32acd2b02bc28b99cb3e287e85a763af267492ab572e99ab3f370d275cec1da1aaa9075ff05f79be")),
	}
	if SkipSelfTest {
		return
	}
	for _, g := range []*BGroup{B1, B2} {
		if !g.InGroup(g.G) || !g.On(g.MapU(f2int(5, 0))) || !g.InGroup(g.Hash([]byte("x"), []byte("y"))) {
			panic("ref: bls " + g.Name)
		}
	}
	vec := func(g *BGroup, dst, msg, x0, x1, y0 string) {
		p := g.Hash([]byte(msg), []byte(dst))
		if p.X.a.Big().Cmp(hx(x0)) != 0 || p.X.b.Big().Cmp(hx(x1)) != 0 || y0 != "" && p.Y.a.Big().Cmp(hx(y0)) != 0 {
			panic("ref: hash to " + g.Name)
		}
	}
	vec(B1, "QUUX-V01-CS02-with-BLS12381G1_XMD:SHA-256_SSWU_RO_", "", "052926add2207b76ca4fa57a8734416c8dc95e24501772c814278700eed6d1e4e8cf62d9c09db0fac349612b759e79a1", "0",
		"08ba738453bfed09cb546dbb0783dbb3a5f1f566ed67bb6be0e8c67e2e81a4cc68ee29813bb7994998f3eae0c9c6a265")
	vec(B1, "QUUX-V01-CS02-with-BLS12381G1_XMD:SHA-256_SSWU_RO_", "abc", "03567bc5ef9c690c2ab2ecdf6a96ef1c139cc0b2f284dca0a9a7943388a49a3aee664ba5379a7655d3c68900be2f6903", "0",
		"0b9c15f3fe6e5cf4211f346271d7b01c8f3b28be689c8429c85b67af215533311f0b8dfaaa154fa6b88176c229f2885d")
	vec(B2, "QUUX-V01-CS02-with-BLS12381G2_XMD:SHA-256_SSWU_RO_", "", "0141ebfbdca40eb85b87142e130ab689c673cf60f1a3e98d69335266f30d9b8d4ac44c1038e9dcdd5393faf5c41fb78a",
		"05cb8437535e20ecffaef7752baddf98034139c38452458baeefab379ba13dff5bf5dd71b72418717047f5b0f37da03d", "")
}

// F12 is a sum of c[i]*w^i with w^6 = 1+i: the target group's field.
type F12 [6]F2

func F12One() (z F12) { z[0] = f2int(1, 0); return }

func (x *F12) Mul(y *F12) (z F12) {
	var t [11]F2
	for i := range x {
		for j := range y {
			t[i+j] = f2add(t[i+j], f2mul(x[i], y[j]))
		}
	}
	xi := f2int(1, 1)
	for i := range z {
		z[i] = t[i]
		if i < 5 {
			z[i] = f2add(z[i], f2mul(xi, t[i+6]))
		}
	}
	return
}

func (x F12) Exp(e *big.Int) F12 {
	var tab [16]F12
	tab[0] = F12One()
	for i := 1; i < 16; i++ {
		tab[i] = tab[i-1].Mul(&x)
	}
	z := tab[0]
	for i := (e.BitLen() + 3) / 4 * 4; i > 0; i -= 4 {
		for j := 0; j < 4; j++ {
			z = z.Mul(&z)
		}
		z = z.Mul(&tab[e.Bit(i-1)<<3|e.Bit(i-2)<<2|e.Bit(i-3)<<1|e.Bit(i-4)])
	}
	return z
}

// order of the coefficients of w in the 576-byte form, highest part first
var f12order = [6]int{5, 3, 1, 4, 2, 0}

func (x F12) Bytes() []byte {
	var o []byte
	for _, i := range f12order {
		o = append(o, b48(x[i].b.Big())...)
		o = append(o, b48(x[i].a.Big())...)
	}
	return o
}

// F12Dec reads the 576-byte form; false if a coordinate is at or above p.
func F12Dec(b []byte) (z F12, ok bool) {
	if len(b) != 576 {
		return z, false
	}
	for k, i := range f12order {
		hi, lo := new(big.Int).SetBytes(b[96*k:96*k+48]), new(big.Int).SetBytes(b[96*k+48:96*k+96])
		if hi.Cmp(BlsP) >= 0 || lo.Cmp(BlsP) >= 0 {
			return z, false
		}
		z[i] = f2of(lo, hi)
	}
	return z, true
}

// F12Add is field addition (to leave the target group).
func (x F12) Add(y F12) F12 {
	for i := range x {
		x[i] = f2add(x[i], y[i])
	}
	return x
}

// F12Of is the sum of (c[2i]+c[2i+1]*u) * w^i.
func F12Of(c [12]*big.Int) (z F12) {
	for i := range z {
		z[i] = f2of(c[2*i], c[2*i+1])
	}
	return
}

// Coeffs is the inverse of F12Of.
func (x F12) Coeffs() (c [12]*big.Int) {
	for i := range x {
		c[2*i], c[2*i+1] = x[i].a.Big(), x[i].b.Big()
	}
	return
}

// Jac looks for a point with the Jacobian coordinates x and z (z not zero) and
// returns its Jacobian y and the point.
func (g *BGroup) Jac(x, z [2]*big.Int) (y [2]*big.Int, p BPt, ok bool) {
	Z := f2of(z[0], z[1])
	i := f2inv(Z)
	a := f2mul(f2of(x[0], x[1]), f2mul(i, i))
	p, ok = g.Lift(a.a.Big(), a.b.Big())
	if ok {
		Y := f2mul(p.Y, f2mul(Z, f2mul(Z, Z)))
		y = [2]*big.Int{Y.a.Big(), Y.b.Big()}
	}
	return
}
