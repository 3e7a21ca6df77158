package kit

import (
	"fmt"
	"math/big"
	"sort"
	"verifharness/ref"
)

// P is a named curve point.
type P struct {
	ref.Pt
	Name string
}

// S is a named scalar.
type S struct {
	V    *big.Int
	Name string
}

func bi(v int64) *big.Int { return big.NewInt(v) }

func pow2(e int) *big.Int { return new(big.Int).Lsh(bi(1), uint(e)) }

var specials = map[string][]int64{
	"secp256k1": {41192, 44629, 58165, 122, 130, 153, 246},
	"secp256r1": {2376, 40393, 61552, 43, 444, 379, 552},
	"sm2":       {17883, 193197, 107, 119, 327, 659},
	"pallas":    {7070, 4468, 16930, 86, 133, 243},
}

// Points is the point alphabet of a curve: small multiples and their
// negations, coordinates with leading zero bytes, extreme x coordinates, x at
// and above the group order, and (j = 0) points sharing a y coordinate.
func Points(c *ref.Curve, small int) []P {
	var l []P
	seen := map[string]bool{}
	add := func(p ref.Pt, f string, a ...any) {
		if p.Inf || !c.On(p.X, p.Y) {
			panic("mc: bad alphabet point")
		}
		if k := string(c.Enc(p)); !seen[k] {
			seen[k] = true
			l = append(l, P{p, fmt.Sprintf(f, a...)})
		}
	}
	both := func(p ref.Pt, f string, a ...any) {
		add(p, f, a...)
		add(c.Neg(p), "-("+f+")", a...)
	}
	p := c.G()
	for k := 1; k <= small; k++ {
		both(p, "%dG", k)
		p = c.Add(p, c.G())
	}
	for _, k := range specials[c.Name] {
		both(c.MulBase(bi(k)), "%dG", k)
	}
	n := 0
	for x := int64(0); n < 4; x++ {
		if q, ok := c.Lift(bi(x), 0); ok {
			both(q, "x=%d", x)
			n++
		} else if q, ok := c.Lift(bi(x), 1); ok {
			both(q, "x=%d", x)
			n++
		}
	}
	n = 0
	for y := int64(1); n < 3; y++ {
		for _, q := range LiftY(c, bi(y)) {
			both(q, "y=%d", y)
			n++
		}
	}
	n = 0
	for d := int64(1); n < 3; d++ {
		if q, ok := c.Lift(new(big.Int).Sub(c.P, bi(d)), 0); ok {
			both(q, "x=p-%d", d)
			n++
		}
	}
	n = 0
	for d := int64(0); n < 2; d++ {
		x := new(big.Int).Add(c.N, bi(d))
		if x.Cmp(c.P) >= 0 {
			break
		}
		if q, ok := c.Lift(x, 0); ok {
			both(q, "x=n+%d", d)
			n++
		}
	}
	for _, e := range []int{32, 64, 96, 128, 192, 224, 248} {
		for d := int64(-3); d <= 6; d++ {
			if q, ok := c.Lift(new(big.Int).Add(pow2(e), bi(d)), 0); ok {
				add(q, "x=2^%d%+d", e, d)
				break
			}
		}
	}
	if c.A.Sign() == 0 {
		// beta^3 = 1: points with equal y
		e := new(big.Int).Div(new(big.Int).Sub(c.P, bi(1)), bi(3))
		for g := int64(2); ; g++ {
			beta := new(big.Int).Exp(bi(g), e, c.P)
			if beta.Cmp(bi(1)) != 0 {
				x := new(big.Int).Mul(beta, c.Gx)
				both(ref.Pt{X: x.Mod(x, c.P), Y: c.Gy}, "betaG")
				break
			}
		}
	}
	return l
}

// Specials are scalars whose multiples of the generator have coordinates with
// leading zero bytes.
func Specials(c *ref.Curve) (l []*big.Int) {
	for _, k := range specials[c.Name] {
		l = append(l, bi(k))
	}
	return
}

// LiftY returns the points with the given y: the roots of x^3 + ax + b - y^2.
func LiftY(c *ref.Curve, y *big.Int) (l []ref.Pt) {
	k := new(big.Int).Mul(y, y)
	k.Sub(c.B, k)
	k.Mod(k, c.P)
	for _, x := range cubic(c.A, k, c.P) {
		if !c.On(x, y) {
			panic("mc: bad root")
		}
		l = append(l, ref.Pt{X: x, Y: y})
	}
	return
}

// poly is a polynomial over the field, lowest coefficient first.
type poly []*big.Int

func (f poly) trim() poly {
	for len(f) > 0 && f[len(f)-1].Sign() == 0 {
		f = f[:len(f)-1]
	}
	return f
}

// rem is f modulo g.
func (f poly) rem(g poly, p *big.Int) poly {
	r := append(poly{}, f...)
	inv := new(big.Int).ModInverse(g[len(g)-1], p)
	for r = r.trim(); len(r) >= len(g); r = r.trim() {
		q := new(big.Int).Mul(r[len(r)-1], inv)
		q.Mod(q, p)
		for i := range g {
			j := len(r) - len(g) + i
			v := new(big.Int).Mul(q, g[i])
			v.Sub(r[j], v)
			r[j] = v.Mod(v, p)
		}
	}
	return r
}

func (f poly) mulmod(g, m poly, p *big.Int) poly {
	if len(f) == 0 || len(g) == 0 {
		return nil
	}
	r := make(poly, len(f)+len(g)-1)
	for i := range r {
		r[i] = new(big.Int)
	}
	for i := range f {
		for j := range g {
			r[i+j].Add(r[i+j], new(big.Int).Mul(f[i], g[j]))
		}
	}
	for i := range r {
		r[i].Mod(r[i], p)
	}
	return r.rem(m, p)
}

func (f poly) powmod(e *big.Int, m poly, p *big.Int) poly {
	r := poly{bi(1)}
	for i := e.BitLen() - 1; i >= 0; i-- {
		r = r.mulmod(r, m, p)
		if e.Bit(i) == 1 {
			r = r.mulmod(f, m, p)
		}
	}
	return r
}

func gcd(f, g poly, p *big.Int) poly {
	for len(g) > 0 {
		f, g = g, f.rem(g, p)
	}
	return f
}

// minus is f - g.
func (f poly) minus(g poly, p *big.Int) poly {
	r := append(poly{}, f...)
	for len(r) < len(g) {
		r = append(r, bi(0))
	}
	for i := range g {
		v := new(big.Int).Sub(r[i], g[i])
		r[i] = v.Mod(v, p)
	}
	return r.trim()
}

// cubic returns the roots of x^3 + ax + b modulo p in increasing order.
func cubic(a, b, p *big.Int) (roots []*big.Int) {
	m := poly{new(big.Int).Mod(b, p), new(big.Int).Mod(a, p), bi(0), bi(1)}
	x := poly{bi(0), bi(1)}
	h := new(big.Int).Rsh(p, 1)
	var split func(f poly)
	split = func(f poly) {
		if len(f) == 2 {
			v := new(big.Int).ModInverse(f[1], p)
			v.Mul(v, f[0])
			v.Neg(v)
			roots = append(roots, v.Mod(v, p))
		}
		if len(f) <= 2 {
			return
		}
		for t := int64(1); ; t++ {
			w := poly{bi(t), bi(1)}.powmod(h, f, p).minus(poly{bi(1)}, p)
			if len(w) == 0 {
				continue
			}
			g := gcd(f, w, p)
			if len(g) > 1 && len(g) < len(f) {
				split(g)
				// f / g
				q := make(poly, len(f)-len(g)+1)
				r := append(poly{}, f...)
				inv := new(big.Int).ModInverse(g[len(g)-1], p)
				for k := len(q) - 1; k >= 0; k-- {
					q[k] = new(big.Int).Mul(r[k+len(g)-1], inv)
					q[k].Mod(q[k], p)
					for i := range g {
						v := new(big.Int).Mul(q[k], g[i])
						v.Sub(r[k+i], v)
						r[k+i] = v.Mod(v, p)
					}
				}
				split(q)
				return
			}
		}
	}
	split(gcd(m, x.powmod(p, m, p).minus(x, p), p))
	sort.Slice(roots, func(i, j int) bool { return roots[i].Cmp(roots[j]) < 0 })
	return
}

// Scalars is the scalar alphabet: small, around the order and its half and
// third, powers of two and their neighbours, limb and byte patterns.
func Scalars(c *ref.Curve) []S {
	var l []S
	seen := map[string]bool{}
	max := pow2(256)
	add := func(v *big.Int, f string, a ...any) {
		if v.Sign() < 0 || v.Cmp(max) >= 0 || seen[v.String()] {
			return
		}
		seen[v.String()] = true
		l = append(l, S{v, fmt.Sprintf(f, a...)})
	}
	for i := int64(0); i <= 20; i++ {
		add(bi(i), "%d", i)
	}
	for i := int64(-20); i <= 20; i++ {
		add(new(big.Int).Add(c.N, bi(i)), "n%+d", i)
	}
	for k := int64(2); k <= 4; k++ {
		for d := int64(-1); d <= 2; d++ {
			v := new(big.Int).Div(c.N, bi(k))
			add(v.Add(v, bi(d)), "n/%d%+d", k, d)
			w := new(big.Int).Mul(c.N, bi(k))
			add(w.Add(w, bi(d)), "%dn%+d", k, d)
		}
	}
	for d := int64(-2); d <= 2; d++ {
		add(new(big.Int).Add(c.P, bi(d)), "p%+d", d)
	}
	for i := int64(1); i <= 4; i++ {
		add(new(big.Int).Sub(max, bi(i)), "2^256-%d", i)
	}
	for _, k := range specials[c.Name] {
		add(bi(k), "%d", k)
		add(new(big.Int).Sub(c.N, bi(k)), "n-%d", k)
	}
	for e := 5; e < 256; e++ {
		add(pow2(e), "2^%d", e)
		if e%8 == 0 {
			add(new(big.Int).Sub(pow2(e), bi(1)), "2^%d-1", e)
			add(new(big.Int).Add(pow2(e), bi(1)), "2^%d+1", e)
		}
	}
	for _, b := range []byte{0x01, 0x0f, 0xf0, 0x55, 0xaa, 0x80, 0x7f, 0x33, 0xcc, 0xfe} {
		add(ref.I(Fill(32, b)), "%02x..", b)
	}
	for i := 0; i < 16; i++ {
		v := new(big.Int)
		for j := 0; j < 4; j++ {
			if i>>j&1 == 1 {
				v.Or(v, new(big.Int).Lsh(new(big.Int).SetUint64(^uint64(0)), uint(64*j)))
			}
		}
		add(v, "limbs %04b", i)
	}
	for i := 0; i < 6; i++ {
		add(ref.I(Stream(fmt.Sprintf("scalar%d", i), 32)), "stream%d", i)
	}
	return l
}

// Windows is the set of scalars d*16^p, every digit at every position, and the
// comb scalars with one bit in any subset of four interleaved 64-bit lanes.
func Windows() []S {
	var l []S
	for p := 0; p < 64; p++ {
		for d := int64(1); d < 16; d++ {
			l = append(l, S{new(big.Int).Lsh(bi(d), uint(4*p)), fmt.Sprintf("%d*16^%d", d, p)})
		}
	}
	return l
}

// Combs is the other half: bits i, i+64, i+128, i+192 in every subset.
func Combs() []S {
	var l []S
	for i := 0; i < 64; i++ {
		for m := 3; m < 16; m++ {
			if m&(m-1) == 0 {
				continue
			}
			v := new(big.Int)
			for j := 0; j < 4; j++ {
				if m>>j&1 == 1 {
					v.SetBit(v, i+64*j, 1)
				}
			}
			l = append(l, S{v, fmt.Sprintf("comb %d/%04b", i, m)})
		}
	}
	return l
}

// BadPoints is a list of 64-byte strings that are no canonical point of c.
func BadPoints(c *ref.Curve) map[string][]byte {
	m := map[string][]byte{}
	g := c.G()
	enc := func(x, y *big.Int) []byte { return append(ref.B32(x), ref.B32(y)...) }
	m["zero"] = make([]byte, 64)
	m["ff"] = Fill(64, 0xff)
	m["G.y+1"] = enc(g.X, new(big.Int).Add(g.Y, bi(1)))
	m["G.x+1"] = enc(new(big.Int).Add(g.X, bi(1)), g.Y)
	m["swapped"] = enc(g.Y, g.X)
	m["y=0"] = enc(g.X, bi(0))
	m["x=0,y=1"] = enc(bi(0), bi(1))
	m["x=p"] = enc(c.P, g.Y)
	m["y=p"] = enc(g.X, c.P)
	m["p,p"] = enc(c.P, c.P)
	m["-y not reduced"] = enc(g.X, new(big.Int).Add(c.P, bi(1)))
	top := pow2(256)
	// unreduced encodings of real points
	n := 0
	for x := int64(0); n < 3 && x < 60; x++ {
		if q, ok := c.Lift(bi(x), 0); ok {
			if v := new(big.Int).Add(q.X, c.P); v.Cmp(top) < 0 {
				m[fmt.Sprintf("x=%d+p", x)] = enc(v, q.Y)
				n++
			}
		}
	}
	if v := new(big.Int).Add(g.Y, c.P); v.Cmp(top) < 0 {
		m["G.y+p"] = enc(g.X, v)
	}
	// a point of the twist / another curve: y^2 = x^3 + ax + b'
	for _, o := range []*ref.Curve{ref.K1, ref.R1, ref.SM2, ref.Pallas} {
		if o != c {
			m["G of "+o.Name] = o.Enc(o.G())
		}
	}
	m["2G of b=b+1"] = func() []byte { // (x, y) with another b, where doubling ignores b
		x := bi(5)
		for {
			y := new(big.Int).ModSqrt(new(big.Int).Mod(new(big.Int).Add(c.RHS(x), bi(1)), c.P), c.P)
			if y != nil && !c.On(x, y) {
				return enc(x, y)
			}
			x = new(big.Int).Add(x, bi(1))
		}
	}()
	return m
}

// SortedKeys returns the keys in order.
func SortedKeys(m map[string][]byte) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	for i := range l {
		for j := i + 1; j < len(l); j++ {
			if l[j] < l[i] {
				l[i], l[j] = l[j], l[i]
			}
		}
	}
	return l
}
