package kit

import (
	"bytes"
	"fmt"
	"math/big"
	"verifharness/mc"
	"verifharness/ref"

	owcrypt "github.com/blocktree/go-owcrypt"
)

// Curve binds a reference curve to the library's code for it.
type Curve struct {
	*ref.Curve
	Code  uint32
	Sname string // name used by the exported Add, Mul, MulBaseG_Add ("" if none)
	Wide  bool   // scalars at and above the order are reduced (else refused)
}

// forms are the accepted encodings of an operand.
func (c Curve) forms(p ref.Pt) [][]byte {
	e := c.Enc(p)
	return [][]byte{e, append([]byte{4}, e...), c.Comp(p)}
}

func (c Curve) point(x *mc.X, op string, got []byte, ret uint16, want ref.Pt) {
	x.State(c.Name, op, got, int(ret))
	if want.Inf {
		if got != nil || ret == owcrypt.SUCCESS {
			x.Fail("infinity/"+op, "%s %s: the result is infinity, but got %s, code %#x", c.Name, op, mc.Hex(got), ret)
		}
		return
	}
	if ret != owcrypt.SUCCESS || !bytes.Equal(got, c.Enc(want)) {
		x.Log("%s", op)
		x.Fail("value/"+c.Name, "%s %s: got %s code %#x, want %s", c.Name, op, mc.Hex(got), ret, mc.Hex(c.Enc(want)))
	}
}

func (c Curve) add(x *mc.X, a, b []byte, op string, want ref.Pt) {
	var got []byte
	var ret uint16
	x.Call("Point_add", func() { got, ret = owcrypt.Point_add(a, b, c.Code) })
	c.point(x, op, got, ret, want)
}

func (c Curve) mul(x *mc.X, a []byte, k *big.Int, op string, want ref.Pt) {
	var got []byte
	var ret uint16
	x.Call("Point_mul", func() { got, ret = owcrypt.Point_mul(a, ref.B32(k), c.Code) })
	c.point(x, op, got, ret, want)
}

func (c Curve) muladd(x *mc.X, a []byte, k *big.Int, op string, want ref.Pt) {
	var got []byte
	var inf bool
	x.Call("Point_mulBaseG_add", func() { got, inf = owcrypt.Point_mulBaseG_add(a, ref.B32(k), c.Code) })
	x.State(c.Name, op, got, inf)
	if inf != want.Inf || inf && got != nil || !inf && !bytes.Equal(got, c.Enc(want)) {
		x.Log("%s", op)
		w := []byte(nil)
		if !want.Inf {
			w = c.Enc(want)
		}
		x.Fail("muladd/"+c.Name, "%s %s: got %s infinity=%v, want %s infinity=%v", c.Name, op, mc.Hex(got), inf, mc.Hex(w), want.Inf)
	}
}

// base checks every base-point operation for one scalar.
func (c Curve) base(x *mc.X, s S) {
	in := s.V.Sign() > 0 && s.V.Cmp(c.N) < 0
	want := c.MulBase(new(big.Int).Mod(s.V, c.N))
	var got []byte
	var ret uint16
	x.Call("GenPubkey", func() { got, ret = owcrypt.GenPubkey(ref.B32(s.V), c.Code) })
	x.State(c.Name, s.Name, got, int(ret))
	switch {
	case !in && (got != nil || ret != owcrypt.ECC_PRIKEY_ILLEGAL):
		x.Fail("genpubkey-domain", "%s GenPubkey(%s): got %s code %#x for a key outside [1, n-1]", c.Name, s.Name, mc.Hex(got), ret)
	case in && (ret != owcrypt.SUCCESS || !bytes.Equal(got, c.Enc(want))):
		x.Fail("genpubkey/"+c.Name, "%s GenPubkey(%s): got %s code %#x, want %s", c.Name, s.Name, mc.Hex(got), ret, mc.Hex(c.Enc(want)))
	}
	x.Call("Point_mulBaseG", func() { got = owcrypt.Point_mulBaseG(ref.B32(s.V), c.Code) })
	x.State(c.Name, s.Name, got)
	switch {
	case want.Inf:
		x.Assert(got == nil, "mulbase-infinity", "%s Point_mulBaseG(%s): got %s for infinity", c.Name, s.Name, mc.Hex(got))
	case in || got != nil: // scalars from the order upwards may be refused
		x.Eq(got, c.Comp(want), "mulbase/"+c.Name, "%s Point_mulBaseG(%s)", c.Name, s.Name)
	}
}

// GroupLaw explores the point operations of one curve.
func GroupLaw(r *mc.Run, c Curve) {
	pts := Points(c.Curve, r.N(8, 16))
	scs := Scalars(c.Curve)
	name := func(s string) string { return c.Name + ": " + s }
	g := c.G()

	r.Explore(name("order"), func(x *mc.X) {
		var got []byte
		x.Call("GetCurveOrder", func() { got = owcrypt.GetCurveOrder(c.Code) })
		x.State(got)
		x.Eq(got, ref.B32(c.N), "order", "%s order", c.Name)
	})
	r.Explore(name("base scalars"), func(x *mc.X) {
		c.base(x, scs[x.Choose(len(scs))])
	})
	win := append(Windows(), Combs()...)
	r.Explore(name("base windows"), func(x *mc.X) {
		i := x.Choose((len(win) + 7) / 8)
		for j := 8 * i; j < 8*i+8 && j < len(win); j++ {
			c.base(x, win[j])
		}
	})
	r.Explore(name("consecutive keys"), func(x *mc.X) {
		i := x.Choose(r.N(16, 128))
		p := c.MulBase(bi(int64(16*i + 1)))
		for j := 16*i + 1; j <= 16*i+16; j++ {
			var got []byte
			var ret uint16
			x.Call("GenPubkey", func() { got, ret = owcrypt.GenPubkey(ref.B32(bi(int64(j))), c.Code) })
			c.point(x, fmt.Sprintf("GenPubkey(%d)", j), got, ret, p)
			p = c.Add(p, g)
		}
	})
	r.Explore(name("pairs"), func(x *mc.X) {
		p := pts[x.Choose(len(pts))]
		for _, q := range pts {
			want := c.Add(p.Pt, q.Pt)
			op := fmt.Sprintf("(%s) + (%s)", p.Name, q.Name)
			c.add(x, c.Enc(p.Pt), c.Enc(q.Pt), op, want)
			if c.Sname != "" {
				var got []byte
				var inf bool
				x.Call("Add", func() { got, inf = owcrypt.Add(c.Enc(p.Pt), c.Enc(q.Pt), c.Sname) })
				if inf != want.Inf || !want.Inf && !bytes.Equal(got, c.Enc(want)) || want.Inf && got != nil {
					x.Fail("add/"+c.Name, "%s Add %s: got %s infinity=%v", c.Name, op, mc.Hex(got), inf)
				}
			}
		}
		x.Log("%s %s plus every point", c.Name, p.Name)
	})
	// forms of the operands: a cross of the encodings
	r.Explore(name("forms"), func(x *mc.X) {
		p := pts[x.Choose(len(pts))]
		q := pts[x.Choose(4)*5%len(pts)]
		want := c.Add(p.Pt, q.Pt)
		for i, a := range c.forms(p.Pt) {
			for j, b := range c.forms(q.Pt) {
				c.add(x, a, b, fmt.Sprintf("(%s form %d) + (%s form %d)", p.Name, i, q.Name, j), want)
			}
			c.mul(x, a, bi(3), fmt.Sprintf("3 * (%s form %d)", p.Name, i), c.Mul(p.Pt, bi(3)))
		}
	})
	// consecutive limb patterns, in the plain and the Montgomery domain
	r.Explore(name("limbs"), func(x *mc.X) {
		mont := x.Choose(3)
		v := new(big.Int)
		if mont < 2 {
			pat := []uint64{0, 1, 0xffffffff, 0x80000000}
			for i := 0; i < r.N(4, 8); i++ {
				w := pat[x.Choose(4)]
				step := uint(32 * (8 / r.N(4, 8)))
				v.Or(v, new(big.Int).Lsh(new(big.Int).SetUint64(w), step*uint(i)))
				if r.N(4, 8) == 4 && w > 1 {
					v.Or(v, new(big.Int).Lsh(new(big.Int).SetUint64(w), step*uint(i)+32))
				}
			}
		} else {
			n := r.N(5, 9)
			off := uint(0)
			for i := 0; i < 9; i++ {
				width := uint(29 - i&1)
				w := int64(0)
				if i < n-1 || i == 8 {
					w = []int64{0, 1, 1<<width - 1}[x.Choose(3)]
				} else {
					w = 1<<width - 1
				}
				v.Or(v, new(big.Int).Lsh(bi(w), off))
				off += width
			}
		}
		if mont >= 1 {
			v.Mul(v, new(big.Int).ModInverse(pow2([]int{0, 256, 257}[mont]), c.P))
		}
		v.Mod(v, c.P)
		p, ok := c.Lift(v, 1)
		if !ok {
			return
		}
		e := c.Enc(p)
		c.add(x, e, e, fmt.Sprintf("2 * (x=%x)", p.X), c.Add(p, p))
		c.add(x, e, c.Enc(g), fmt.Sprintf("(x=%x) + G", p.X), c.Add(p, g))
	})
	r.Explore(name("multiples"), func(x *mc.X) {
		s := scs[x.Choose(len(scs))]
		n := r.N(4, 12)
		for i := 0; i < n; i++ {
			p := pts[(i*11+7*len(s.Name)+i)%len(pts)]
			if i == 0 {
				p = pts[0]
			}
			k := new(big.Int).Mod(s.V, c.N)
			want := c.Mul(p.Pt, k)
			c.mul(x, c.Enc(p.Pt), s.V, fmt.Sprintf("%s * (%s)", s.Name, p.Name), want)
			c.muladd(x, c.Enc(p.Pt), s.V, fmt.Sprintf("(%s) + %s*G", p.Name, s.Name), c.Add(p.Pt, c.MulBase(k)))
			if c.Sname != "" {
				var got []byte
				var inf bool
				x.Call("Mul", func() { got, inf = owcrypt.Mul(c.Enc(p.Pt), ref.B32(s.V), c.Sname) })
				if inf != want.Inf || !want.Inf && !bytes.Equal(got, c.Enc(want)) || want.Inf && got != nil {
					x.Fail("mul/"+c.Name, "%s Mul %s * (%s): got %s infinity=%v", c.Name, s.Name, p.Name, mc.Hex(got), inf)
				}
			}
		}
	})
	r.Explore(name("small multiples of every point"), func(x *mc.X) {
		p := pts[x.Choose(len(pts))]
		q := ref.Inf
		for k := int64(0); k <= 17; k++ {
			c.mul(x, c.Enc(p.Pt), bi(k), fmt.Sprintf("%d * (%s)", k, p.Name), q)
			nk := new(big.Int).Sub(c.N, bi(k))
			c.mul(x, c.Enc(p.Pt), nk, fmt.Sprintf("(n-%d) * (%s)", k, p.Name), c.Neg(q))
			c.muladd(x, c.Enc(p.Pt), bi(k), fmt.Sprintf("(%s) + %d*G", p.Name, k), c.Add(p.Pt, c.MulBase(bi(k))))
			c.muladd(x, c.Enc(p.Pt), nk, fmt.Sprintf("(%s) + (n-%d)*G", p.Name, k), c.Add(p.Pt, c.Neg(c.MulBase(bi(k)))))
			q = c.Add(q, p.Pt)
		}
	})
	r.Explore(name("windows of a point"), func(x *mc.X) {
		i := x.Choose((len(win) + 7) / 8)
		q := c.MulBase(bi(7))
		for j := 8 * i; j < 8*i+8 && j < len(win); j++ {
			k := new(big.Int).Mod(win[j].V, c.N)
			c.mul(x, c.Enc(q), win[j].V, win[j].Name+" * 7G", c.MulBase(new(big.Int).Mod(new(big.Int).Mul(k, bi(7)), c.N)))
		}
	})
	// P + kG = infinity exactly for P = -kG
	r.Explore(name("cancellation"), func(x *mc.X) {
		s := scs[x.Choose(len(scs))]
		k := new(big.Int).Mod(s.V, c.N)
		p := c.MulBase(k)
		if p.Inf {
			return
		}
		c.muladd(x, c.Enc(c.Neg(p)), s.V, fmt.Sprintf("-%s*G + %s*G", s.Name, s.Name), ref.Inf)
		c.muladd(x, c.Enc(p), s.V, fmt.Sprintf("%s*G + %s*G", s.Name, s.Name), c.Add(p, p))
		c.add(x, c.Enc(p), c.Enc(c.Neg(p)), "P - P", ref.Inf)
		c.add(x, c.Enc(p), c.Enc(p), "P + P", c.Add(p, p))
	})
	// every point of the alphabet as a result
	r.Explore(name("results"), func(x *mc.X) {
		p := pts[x.Choose(len(pts))]
		for _, j := range []*big.Int{bi(1), bi(2), bi(-1), bi(100), new(big.Int).Rsh(c.N, 2)} {
			k := new(big.Int).Mod(j, c.N)
			kG := c.MulBase(k)
			if d := c.Add(p.Pt, c.Neg(kG)); !d.Inf {
				c.add(x, c.Enc(d), c.Enc(kG), fmt.Sprintf("(%s - %d*G) + %d*G", p.Name, j, j), p.Pt)
				c.muladd(x, c.Enc(d), k, fmt.Sprintf("(%s - %d*G) + %d*G by multiply and add", p.Name, j, j), p.Pt)
				if c.Sname != "" {
					var got []byte
					var inf bool
					x.Call("Add", func() { got, inf = owcrypt.Add(c.Enc(kG), c.Enc(d), c.Sname) })
					x.Assert(!inf && bytes.Equal(got, c.Enc(p.Pt)), "add/"+c.Name, "%s Add %d*G + (%s - %d*G): got %s", c.Name, j, p.Name, j, mc.Hex(got))
				}
			}
			k = new(big.Int).Add(new(big.Int).Abs(j), bi(1))
			h := c.Mul(p.Pt, new(big.Int).ModInverse(k, c.N))
			c.mul(x, c.Enc(h), k, fmt.Sprintf("%d * (%s / %d)", k, p.Name, k), p.Pt)
			if k.Cmp(bi(2)) == 0 {
				c.add(x, c.Enc(h), c.Enc(h), fmt.Sprintf("%s / 2, doubled", p.Name), p.Pt)
			}
			if c.Sname != "" {
				var got []byte
				var inf bool
				x.Call("Mul", func() { got, inf = owcrypt.Mul(c.Enc(h), ref.B32(k), c.Sname) })
				x.Assert(!inf && bytes.Equal(got, c.Enc(p.Pt)), "mul/"+c.Name, "%s Mul %d * (%s / %d): got %s", c.Name, k, p.Name, k, mc.Hex(got))
				if d := c.Add(p.Pt, c.Neg(c.MulBase(k))); !d.Inf {
					x.Call("MulBaseG_Add", func() { got, inf = owcrypt.MulBaseG_Add(c.Enc(d), ref.B32(k), c.Sname) })
					x.Assert(!inf && bytes.Equal(got, c.Enc(p.Pt)), "muladd/"+c.Name, "%s MulBaseG_Add: got %s, want %s", c.Name, mc.Hex(got), p.Name)
				}
			}
		}
	})
	// refused operands
	bad := BadPoints(c.Curve)
	if c.Name == "pallas" {
		delete(bad, "zero") // the all-zero encoding of infinity is not specified for Pallas
	}
	keys := SortedKeys(bad)
	r.Explore(name("invalid operands"), func(x *mc.X) {
		n := keys[x.Choose(len(keys))]
		raw := bad[n]
		good := c.Enc(g)
		refuse := func(op string, got []byte, ret bool) {
			x.State(c.Name, op, n, got, ret)
			if got != nil || ret {
				x.Fail("accepts-invalid/"+op, "%s %s with the invalid point %q returned %s, %v", c.Name, op, n, mc.Hex(got), ret)
			}
		}
		forms := [][]byte{raw, append([]byte{4}, raw...)}
		if px, py := ref.I(raw[:32]), ref.I(raw[32:]); px.Cmp(c.P) >= 0 {
			forms = append(forms, append([]byte{2}, raw[:32]...), append([]byte{3}, raw[:32]...))
		} else {
			_ = py
		}
		for _, f := range forms {
			for _, o := range [][]byte{good, f, c.Comp(g)} {
				var got []byte
				var ret uint16
				x.Call("Point_add", func() { got, ret = owcrypt.Point_add(f, o, c.Code) })
				refuse("Point_add", got, ret == owcrypt.SUCCESS)
				x.Call("Point_add", func() { got, ret = owcrypt.Point_add(o, f, c.Code) })
				refuse("Point_add(2)", got, ret == owcrypt.SUCCESS)
			}
			for _, k := range []*big.Int{bi(0), bi(1), bi(2), bi(77), c.N} {
				var got []byte
				var ret uint16
				x.Call("Point_mul", func() { got, ret = owcrypt.Point_mul(f, ref.B32(k), c.Code) })
				refuse("Point_mul", got, ret == owcrypt.SUCCESS)
				var inf bool
				x.Call("Point_mulBaseG_add", func() { got, inf = owcrypt.Point_mulBaseG_add(f, ref.B32(k), c.Code) })
				refuse("Point_mulBaseG_add", got, inf)
			}
		}
		if c.Sname != "" {
			var got []byte
			var inf bool
			x.Call("Add", func() { got, inf = owcrypt.Add(raw, good, c.Sname) })
			refuse("Add", got, inf)
			x.Call("Add", func() { got, inf = owcrypt.Add(good, raw, c.Sname) })
			refuse("Add(2)", got, inf)
			x.Call("Mul", func() { got, inf = owcrypt.Mul(raw, ref.B32(bi(2)), c.Sname) })
			refuse("Mul", got, inf)
			x.Call("MulBaseG_Add", func() { got, inf = owcrypt.MulBaseG_Add(raw, ref.B32(bi(2)), c.Sname) })
			refuse("MulBaseG_Add", got, inf)
		}
	})
	// wrong prefixes and lengths
	r.Explore(name("malformed operands"), func(x *mc.X) {
		pre := x.Choose(256)
		e := c.Enc(g)
		refuse := func(op string, a []byte) {
			var got []byte
			var ret uint16
			x.Call("Point_add", func() { got, ret = owcrypt.Point_add(a, e, c.Code) })
			x.Assert(got == nil && ret != owcrypt.SUCCESS, "accepts-malformed", "%s Point_add accepts %s: %s", c.Name, op, mc.Hex(got))
			x.Call("Point_add", func() { got, ret = owcrypt.Point_add(e, a, c.Code) })
			x.Assert(got == nil && ret != owcrypt.SUCCESS, "accepts-malformed", "%s Point_add (second) accepts %s: %s", c.Name, op, mc.Hex(got))
			x.Call("Point_mul", func() { got, ret = owcrypt.Point_mul(a, ref.B32(bi(5)), c.Code) })
			x.Assert(got == nil && ret != owcrypt.SUCCESS, "accepts-malformed", "%s Point_mul accepts %s: %s", c.Name, op, mc.Hex(got))
			x.State(c.Name, op)
		}
		if pre != 4 {
			refuse(fmt.Sprintf("65 bytes with prefix %#x", pre), append([]byte{byte(pre)}, e...))
		}
		if pre != 2 && pre != 3 {
			refuse(fmt.Sprintf("33 bytes with prefix %#x", pre), append([]byte{byte(pre)}, e[:32]...))
		}
		if pre < 130 && pre != 33 && pre != 64 && pre != 65 {
			refuse(fmt.Sprintf("%d bytes", pre), Stream("len", pre))
			l := append(append([]byte{}, e...), make([]byte, 70)...)
			refuse(fmt.Sprintf("%d bytes of G", pre), l[:pre])
		}
		if pre < 70 && pre != 32 {
			k := Fill(pre, 1)
			var got []byte
			var ret uint16
			var inf bool
			x.Call("Point_mul", func() { got, ret = owcrypt.Point_mul(e, k, c.Code) })
			x.Assert(got == nil && ret != owcrypt.SUCCESS, "scalar-length", "%s Point_mul accepts a %d-byte scalar", c.Name, pre)
			x.Call("Point_mulBaseG_add", func() { got, inf = owcrypt.Point_mulBaseG_add(e, k, c.Code) })
			x.Assert(got == nil && !inf, "scalar-length", "%s Point_mulBaseG_add accepts a %d-byte scalar", c.Name, pre)
			x.Call("Point_mulBaseG", func() { got = owcrypt.Point_mulBaseG(k, c.Code) })
			x.Assert(got == nil, "scalar-length", "%s Point_mulBaseG accepts a %d-byte scalar", c.Name, pre)
			x.Call("GenPubkey", func() { got, ret = owcrypt.GenPubkey(k, c.Code) })
			x.Assert(got == nil && ret == owcrypt.ECC_PRIKEY_ILLEGAL, "key-length", "%s GenPubkey accepts a %d-byte key", c.Name, pre)
		}
	})
	// results of operations are operands of the next ones
	r.Explore(name("chains"), func(x *mc.X) {
		p := pts[x.Choose(4)*3]
		cur, have := p.Pt, c.Enc(p.Pt)
		for i := 0; i < r.N(4, 5); i++ {
			var got []byte
			var ret uint16
			switch x.Choose(5) {
			case 0: // double
				x.Call("Point_add", func() { got, ret = owcrypt.Point_add(have, have, c.Code) })
				cur = c.Add(cur, cur)
			case 1: // subtract the start
				x.Call("Point_add", func() { got, ret = owcrypt.Point_add(have, c.Comp(c.Neg(p.Pt)), c.Code) })
				cur = c.Add(cur, c.Neg(p.Pt))
			case 2:
				x.Call("Point_mul", func() { got, ret = owcrypt.Point_mul(have, ref.B32(bi(3)), c.Code) })
				cur = c.Mul(cur, bi(3))
			case 3: // negate
				x.Call("Point_mul", func() { got, ret = owcrypt.Point_mul(have, ref.B32(new(big.Int).Sub(c.N, bi(1))), c.Code) })
				cur = c.Neg(cur)
			case 4:
				var inf bool
				x.Call("Point_mulBaseG_add", func() { got, inf = owcrypt.Point_mulBaseG_add(have, ref.B32(bi(2)), c.Code) })
				ret = owcrypt.SUCCESS
				if inf {
					ret = 0
				}
				cur = c.Add(cur, c.MulBase(bi(2)))
			}
			c.point(x, fmt.Sprintf("chain step %d", i), got, ret, cur)
			if cur.Inf {
				return
			}
			have = got
		}
	})
}
