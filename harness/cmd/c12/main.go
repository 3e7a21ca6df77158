// C12: curve25519 keys, conversions, and point operations of edwards25519.
package main

import (
	"bytes"
	"crypto/sha512"
	"fmt"
	"math/big"
	"time"
	"verifharness/kit"
	"verifharness/mc"
	"verifharness/ref"

	owcrypt "github.com/blocktree/go-owcrypt"
	"github.com/blocktree/go-owcrypt/eddsa"
	e "github.com/blocktree/go-owcrypt/eddsa/edwards25519"
)

func bi(v int64) *big.Int    { return big.NewInt(v) }
func pow2(n uint) *big.Int   { return new(big.Int).Lsh(bi(1), n) }
func a32(b []byte) *[32]byte { var a [32]byte; copy(a[:], b); return &a }

type pt struct {
	ref.Ed
	name string
}

// points is the alphabet of edwards25519 points.
func points(n int) []pt {
	var l []pt
	add := func(p ref.Ed, f string, a ...any) { l = append(l, pt{p, fmt.Sprintf(f, a...)}) }
	low := ref.EdLow()
	for i, p := range low {
		add(p, "T%d", i)
	}
	p := ref.EdG()
	for i := 1; i <= n; i++ {
		add(p, "%dB", i)
		add(p.Neg(), "-%dB", i)
		p = p.Add(ref.EdG())
	}
	for i := 1; i < 8; i++ {
		add(low[i].Add(ref.EdG()), "B+T%d", i)
		add(low[i].Add(ref.EdG().Neg()), "-B+T%d", i)
	}
	for i := 0; i < 4; i++ {
		q := ref.EdMulBase(ref.ILE(kit.Stream(fmt.Sprintf("edpoint%d", i), 31)))
		add(q, "stream%d", i)
		add(q.Neg(), "-stream%d", i)
		add(q.Add(low[1+i]), "stream%d+T%d", i, 1+i)
	}
	k := 0
	for y := int64(0); k < 6; y++ {
		if q, ok := ref.EdLift(bi(y), 0); ok {
			add(q, "y=%d", y)
			add(q.Neg(), "-(y=%d)", y)
			k++
		}
	}
	k = 0
	for y := int64(1); k < 4; y++ {
		if q, ok := ref.EdLift(new(big.Int).Sub(ref.EdP, bi(y)), 0); ok {
			add(q, "y=p-%d", y)
			add(q.Neg(), "-(y=p-%d)", y)
			k++
		}
	}
	return l
}

// scalars is the alphabet of 256-bit scalars.
func scalars() []kit.S {
	l := kit.Scalars(&ref.Curve{Name: "ed", N: ref.EdL, P: ref.EdP})
	for _, k := range kit.EdKeys() {
		l = append(l, kit.S{V: ref.ILE(k.V), Name: k.Name})
	}
	for b := uint(0); b < 256; b++ {
		l = append(l, kit.S{V: pow2(b), Name: fmt.Sprintf("2^%d", b)}, kit.S{V: new(big.Int).Sub(pow2(b), bi(1)), Name: fmt.Sprintf("2^%d-1", b)})
	}
	return l
}

// pubs checks every public key derived from 32 bytes.
func pubs(x *mc.X, k []byte, what string) {
	for _, s := range kit.EdSchemes {
		var got []byte
		var ret uint16
		x.Call("GenPubkey", func() { got, ret = owcrypt.GenPubkey(kit.Clone(k), s.Code) })
		x.State(s.Name, k, got, int(ret))
		x.Assert(ret == owcrypt.SUCCESS, "genpubkey/"+s.Name, "%s GenPubkey(%s): code %#x", s.Name, what, ret)
		x.Eq(got, s.Pub(k), "genpubkey/"+s.Name, "%s GenPubkey(%s)", s.Name, what)
	}
	var got []byte
	x.Call("Point_mulBaseG", func() { got = owcrypt.Point_mulBaseG(kit.Clone(k), owcrypt.ECC_CURVE_ED25519) })
	want := ref.EdMulBase(ref.ILE(k))
	if !(want.IsO() && got == nil) {
		x.Eq(got, want.Enc(), "mulbase", "Point_mulBaseG(%s)", what)
	}
	// the conversion commutes with key generation
	var u []byte
	var err error
	x.Call("CURVE25519_convert_Ed_to_X", func() { u, err = owcrypt.CURVE25519_convert_Ed_to_X(want.Enc()) })
	x.Assert(err == nil, "commutes", "Ed to X of the key of %s: %v", what, err)
	x.Eq(u, kit.EdSchemes[2].Pub(k), "commutes", "Ed to X of the key of %s", what)
}

func muladd(x *mc.X, p []byte, k *big.Int, want ref.Ed, what string) {
	var got []byte
	var inf bool
	x.Call("Point_mulBaseG_add", func() { got, inf = owcrypt.Point_mulBaseG_add(p, ref.LE(k), owcrypt.ECC_CURVE_ED25519) })
	x.State(p, k.Bytes(), got, inf)
	if want.IsO() {
		x.Assert(inf && got == nil, "infinity/muladd", "Point_mulBaseG_add(%s) is the identity, got %s infinity=%v", what, mc.Hex(got), inf)
		return
	}
	x.Assert(!inf, "infinity/muladd", "Point_mulBaseG_add(%s) is not the identity but infinity=%v", what, inf)
	x.Eq(got, want.Enc(), "muladd", "Point_mulBaseG_add(%s)", what)
}

func add(x *mc.X, p, q []byte, want ref.Ed, what string) {
	var got []byte
	var ret uint16
	x.Call("Point_add", func() { got, ret = owcrypt.Point_add(p, q, owcrypt.ECC_CURVE_ED25519) })
	x.State(p, q, got, int(ret))
	if want.IsO() {
		x.Assert(ret == owcrypt.FAILURE && got == nil, "infinity/add", "Point_add(%s) is the identity, got %s code %#x", what, mc.Hex(got), ret)
		return
	}
	x.Assert(ret == owcrypt.SUCCESS, "add", "Point_add(%s): code %#x", what, ret)
	x.Eq(got, want.Enc(), "add", "Point_add(%s)", what)
}

// enc checks one encoding as an operand.
func enc(x *mc.X, b []byte, what string) {
	p, ok, canon := ref.EdDec(b)
	g := ref.EdG()
	if ok && !canon {
		var ret uint16
		x.Call("Point_add", func() { _, ret = owcrypt.Point_add(b, g.Enc(), owcrypt.ECC_CURVE_ED25519) })
		x.State(b, int(ret))
		return
	}
	if ok {
		muladd(x, b, bi(3), p.Add(ref.EdMulBase(bi(3))), what+" + 3B")
		add(x, b, g.Enc(), p.Add(g), what+" + B")
		add(x, g.Enc(), b, p.Add(g), "B + "+what)
		return
	}
	var got []byte
	var inf bool
	var ret uint16
	x.Call("Point_mulBaseG_add", func() { got, inf = owcrypt.Point_mulBaseG_add(b, ref.LE(bi(3)), owcrypt.ECC_CURVE_ED25519) })
	x.Assert(got == nil && !inf, "undecodable", "Point_mulBaseG_add accepts %s: %s", what, mc.Hex(got))
	x.Call("Point_add", func() { got, ret = owcrypt.Point_add(b, g.Enc(), owcrypt.ECC_CURVE_ED25519) })
	x.Assert(got == nil && ret == owcrypt.FAILURE, "undecodable", "Point_add accepts %s: %s", what, mc.Hex(got))
	x.Call("Point_add", func() { got, ret = owcrypt.Point_add(g.Enc(), b, owcrypt.ECC_CURVE_ED25519) })
	x.Assert(got == nil && ret == owcrypt.FAILURE, "undecodable", "Point_add accepts %s: %s", what, mc.Hex(got))
	x.State(b, int(ret))
}

// convert checks both maps on 32 bytes.
func convert(x *mc.X, b []byte, what string) {
	v := ref.ILE(b)
	var got, back []byte
	var err error
	x.Call("CURVE25519_convert_X_to_Ed", func() { got, err = owcrypt.CURVE25519_convert_X_to_Ed(b) })
	x.State(b, got, err != nil)
	if v.Cmp(ref.EdP) >= 0 {
		x.Assert(err != nil && got == nil, "noncanonical", "X to Ed of %s: accepted as %s", what, mc.Hex(got))
	} else {
		x.Assert(err == nil, "x-to-ed", "X to Ed of %s: %v", what, err)
		x.Eq(got, ref.LE(ref.UToEd(v)), "x-to-ed", "X to Ed of %s", what)
		if v.Cmp(new(big.Int).Sub(ref.EdP, bi(1))) != 0 {
			x.Call("CURVE25519_convert_Ed_to_X", func() { back, err = owcrypt.CURVE25519_convert_Ed_to_X(got) })
			x.Assert(err == nil, "inverse", "Ed to X of the image of u=%s: %v", what, err)
			x.Eq(back, b, "inverse", "Ed to X of the image of u=%s", what)
		}
	}
	c := kit.Clone(b)
	c[31] &= 0x7f
	y := ref.ILE(c)
	x.Call("CURVE25519_convert_Ed_to_X", func() { got, err = owcrypt.CURVE25519_convert_Ed_to_X(b) })
	x.State(b, got, err != nil)
	if y.Cmp(ref.EdP) >= 0 {
		return
	}
	x.Assert(err == nil, "ed-to-x", "Ed to X of %s: %v", what, err)
	x.Eq(got, ref.LE(ref.EdToU(y)), "ed-to-x", "Ed to X of %s", what)
	if y.Cmp(bi(1)) != 0 {
		x.Call("CURVE25519_convert_X_to_Ed", func() { back, err = owcrypt.CURVE25519_convert_X_to_Ed(got) })
		x.Assert(err == nil, "inverse", "X to Ed of the image of y=%s: %v", what, err)
		x.Eq(back, c, "inverse", "X to Ed of the image of y=%s", what)
	}
}

// felts is the alphabet of field elements.
func felts() []kit.S {
	var l []kit.S
	add := func(v *big.Int, f string, a ...any) {
		l = append(l, kit.S{V: new(big.Int).Mod(v, ref.EdP), Name: fmt.Sprintf(f, a...)})
	}
	for i := int64(0); i < 4; i++ {
		add(bi(i), "%d", i)
		add(bi(-1-i), "-%d", 1+i)
	}
	for _, b := range []uint{25, 26, 51, 76, 77, 102, 127, 128, 153, 178, 179, 204, 229, 230, 254} {
		add(pow2(b), "2^%d", b)
		add(new(big.Int).Sub(pow2(b), bi(1)), "2^%d-1", b)
		add(new(big.Int).Neg(pow2(b)), "-2^%d", b)
	}
	// limbs at their extremes
	pos := []uint{0, 26, 51, 77, 102, 128, 153, 179, 204, 230, 255}
	for m := 0; m < 3; m++ {
		v, w := new(big.Int), new(big.Int)
		for i := 0; i < 10; i++ {
			half := pow2(pos[i+1] - pos[i] - 1)
			if m == 0 && i%2 == 0 || m == 1 && i%2 == 1 || m == 2 {
				v.Add(v, new(big.Int).Lsh(half, pos[i]))
				w.Add(w, new(big.Int).Lsh(new(big.Int).Sub(half, bi(1)), pos[i]))
			}
		}
		add(v, "half limbs %d", m)
		add(w, "half limbs-1 %d", m)
	}
	for i := 0; i < 5; i++ {
		add(ref.ILE(kit.Stream(fmt.Sprintf("fe%d", i), 32)), "stream%d", i)
	}
	return l
}

func fe(v *big.Int) *e.FieldElement {
	var f e.FieldElement
	e.FeFromBytes(&f, a32(ref.LE(v)))
	return &f
}

func feq(x *mc.X, f *e.FieldElement, want *big.Int, op string) {
	var b [32]byte
	e.FeToBytes(&b, f)
	w := new(big.Int).Mod(want, ref.EdP)
	x.State(op, b[:])
	x.Eq(b[:], ref.LE(w), "field", "%s", op)
	x.Assert(uint(e.FeIsNegative(f)) == w.Bit(0), "field", "FeIsNegative(%s)", op)
	x.Assert((e.FeIsNonZero(f) == 1) == (w.Sign() != 0), "field", "FeIsNonZero(%s)", op)
}

func main() {
	mc.Main("C12", 150*time.Second, 800*time.Second, func(r *mc.Run) {
		scs := scalars()
		pts := points(r.N(4, 12))
		win := append(kit.Windows(), kit.Combs()...)
		for _, w := range win[:len(kit.Windows()):len(kit.Windows())] { // complements: long carry chains
			win = append(win, kit.S{V: new(big.Int).Sub(new(big.Int).Sub(pow2(256), bi(1)), w.V), Name: "2^256-1-" + w.Name},
				kit.S{V: new(big.Int).Mod(new(big.Int).Sub(ref.EdL, new(big.Int).Mod(w.V, ref.EdL)), ref.EdL), Name: "L-" + w.Name})
		}

		r.Explore("keys", func(x *mc.X) {
			s := scs[x.Choose(len(scs))]
			pubs(x, ref.LE(s.V), s.Name)
		})
		r.Explore("key windows", func(x *mc.X) {
			i := x.Choose((len(win) + 7) / 8)
			for j := 8 * i; j < 8*i+8 && j < len(win); j++ {
				pubs(x, ref.LE(win[j].V), win[j].Name)
			}
		})
		r.Explore("consecutive keys", func(x *mc.X) {
			i := int64(x.Choose(r.N(64, 512)))
			for j := 16 * i; j < 16*i+16; j++ {
				pubs(x, ref.LE(bi(j)), fmt.Sprint(j))
				pubs(x, ref.LE(new(big.Int).Sub(ref.EdL, bi(j))), fmt.Sprintf("L-%d", j))
			}
		})
		r.Explore("key lengths", func(x *mc.X) {
			n := x.Choose(70)
			if n == 32 {
				return
			}
			k := kit.Stream("k", n)
			for _, s := range kit.EdSchemes {
				var got []byte
				var ret uint16
				x.Call("GenPubkey", func() { got, ret = owcrypt.GenPubkey(k, s.Code) })
				x.Assert(got == nil && ret == owcrypt.ECC_PRIKEY_ILLEGAL, "length", "%s GenPubkey of %d bytes: %s code %#x", s.Name, n, mc.Hex(got), ret)
			}
			x.State(n)
			for _, f := range []func([]byte) ([]byte, error){owcrypt.CURVE25519_convert_X_to_Ed, owcrypt.CURVE25519_convert_Ed_to_X} {
				var got []byte
				var err error
				x.Call("convert", func() { got, err = f(k) })
				x.Assert(got == nil && err != nil, "length", "conversion of %d bytes gives %s", n, mc.Hex(got))
			}
			var got []byte
			var ret uint16
			var inf bool
			g := ref.EdG().Enc()
			x.Call("Point_add", func() { got, ret = owcrypt.Point_add(k, g, owcrypt.ECC_CURVE_ED25519) })
			x.Assert(got == nil && ret != owcrypt.SUCCESS, "length", "Point_add of %d bytes gives %s", n, mc.Hex(got))
			x.Call("Point_add", func() { got, ret = owcrypt.Point_add(g, k, owcrypt.ECC_CURVE_ED25519) })
			x.Assert(got == nil && ret != owcrypt.SUCCESS, "length", "Point_add of %d bytes gives %s", n, mc.Hex(got))
			x.Call("Point_mulBaseG_add", func() { got, inf = owcrypt.Point_mulBaseG_add(k, ref.LE(bi(1)), owcrypt.ECC_CURVE_ED25519) })
			x.Assert(got == nil && !inf, "length", "Point_mulBaseG_add of %d bytes gives %s", n, mc.Hex(got))
			x.Call("Point_mulBaseG_add", func() { got, inf = owcrypt.Point_mulBaseG_add(g, k, owcrypt.ECC_CURVE_ED25519) })
			x.Assert(got == nil && !inf, "length", "Point_mulBaseG_add with a scalar of %d bytes gives %s", n, mc.Hex(got))
			x.Call("Point_mulBaseG", func() { got = owcrypt.Point_mulBaseG(k, owcrypt.ECC_CURVE_ED25519) })
			x.Assert(got == nil, "length", "Point_mulBaseG of %d bytes gives %s", n, mc.Hex(got))
		})

		r.Explore("point addition", func(x *mc.X) {
			p, q := pts[x.Choose(len(pts))], pts[x.Choose(len(pts))]
			add(x, p.Enc(), q.Enc(), p.Add(q.Ed), p.name+" + "+q.name)
		})
		r.Explore("multiply and add", func(x *mc.X) {
			p := pts[x.Choose(len(pts))]
			i := x.Choose((len(scs) + 15) / 16)
			for j := 16 * i; j < 16*i+16 && j < len(scs); j++ {
				muladd(x, p.Enc(), scs[j].V, ref.EdCombine(scs[j].V, p.Ed, bi(1)), scs[j].Name+"*B + "+p.name)
			}
		})
		r.Explore("multiply and add: windows", func(x *mc.X) {
			p := pts[9+x.Choose(2)]
			i := x.Choose((len(win) + 7) / 8)
			for j := 8 * i; j < 8*i+8 && j < len(win); j++ {
				muladd(x, p.Enc(), win[j].V, ref.EdCombine(win[j].V, p.Ed, bi(1)), win[j].Name+"*B + "+p.name)
			}
		})
		r.Explore("multiply and add: to the identity", func(x *mc.X) {
			s := scs[x.Choose(len(scs))]
			p := ref.EdMulBase(s.V).Neg()
			muladd(x, p.Enc(), s.V, ref.EdO(), s.Name+"*B - the same")
			for i, t := range ref.EdLow() {
				if i > 0 {
					muladd(x, p.Add(t).Enc(), s.V, t, s.Name+"*B - the same + T")
				}
			}
		})

		// every small y, every y near p, both signs
		r.Explore("encodings", func(x *mc.X) {
			neg, sign := x.Bool(), x.Bool()
			b := x.Choose(r.N(64, 512))
			for i := b * 8; i < b*8+8; i++ {
				y := bi(int64(i))
				if neg {
					y = new(big.Int).Sub(new(big.Int).Sub(pow2(255), bi(1)), y)
				}
				c := ref.LE(y)
				if sign {
					c[31] |= 0x80
				}
				enc(x, c, fmt.Sprintf("y=%x sign=%v", y, sign))
			}
		})
		r.Explore("encodings: patterns", func(x *mc.X) {
			s := scs[x.Choose(len(scs))]
			enc(x, ref.LE(s.V), s.Name)
		})
		r.Explore("conversions", func(x *mc.X) {
			neg, top := x.Bool(), x.Bool()
			b := x.Choose(r.N(128, 2048))
			for i := b * 8; i < b*8+8; i++ {
				y := bi(int64(i))
				if neg {
					y = new(big.Int).Sub(new(big.Int).Sub(pow2(255), bi(1)), y)
				}
				c := ref.LE(y)
				if top {
					c[31] |= 0x80
				}
				convert(x, c, fmt.Sprintf("%x top=%v", y, top))
			}
		})
		r.Explore("conversions: patterns", func(x *mc.X) {
			n := len(scs) + len(win)
			i := x.Choose((n + 7) / 8)
			for j := 8 * i; j < 8*i+8 && j < n; j++ {
				s := kit.S{}
				if j < len(scs) {
					s = scs[j]
				} else {
					s = win[j-len(scs)]
				}
				convert(x, ref.LE(s.V), s.Name)
			}
		})
		r.Explore("conversions: points", func(x *mc.X) {
			p := pts[x.Choose(len(pts))]
			convert(x, p.Enc(), p.name)
			u := ref.LE(ref.EdToU(p.Y))
			convert(x, u, "u of "+p.name)
		})

		// the layers below
		fs := felts()
		r.Explore("field arithmetic", func(x *mc.X) {
			a := fs[x.Choose(len(fs))]
			b := fs[x.Choose(len(fs))]
			fa, fb := fe(a.V), fe(b.V)
			var o, s, d, n e.FieldElement
			x.Call("field", func() {
				e.FeMul(&o, fa, fb)
				e.FeAdd(&s, fa, fb)
				e.FeSub(&d, fa, fb)
				e.FeNeg(&n, fb)
			})
			nm := a.Name + "," + b.Name
			feq(x, &o, new(big.Int).Mul(a.V, b.V), "FeMul "+nm)
			feq(x, &s, new(big.Int).Add(a.V, b.V), "FeAdd "+nm)
			feq(x, &d, new(big.Int).Sub(a.V, b.V), "FeSub "+nm)
			feq(x, &n, new(big.Int).Neg(b.V), "FeNeg "+nm)
			// sums and differences are operands in the point formulas
			sum, dif := new(big.Int).Add(a.V, b.V), new(big.Int).Sub(a.V, b.V)
			var p, q, sq, t, sq2 e.FieldElement
			x.Call("field", func() {
				e.FeMul(&p, &s, &d)
				e.FeMul(&q, &d, &s)
				e.FeSquare(&sq, &s)
				e.FeSquare(&t, &d)
				e.FeSquare2(&sq2, &d)
			})
			feq(x, &p, new(big.Int).Mul(sum, dif), "(a+b)(a-b) "+nm)
			feq(x, &q, new(big.Int).Mul(sum, dif), "(a-b)(a+b) "+nm)
			feq(x, &sq, new(big.Int).Mul(sum, sum), "(a+b)^2 "+nm)
			feq(x, &t, new(big.Int).Mul(dif, dif), "(a-b)^2 "+nm)
			feq(x, &sq2, new(big.Int).Lsh(new(big.Int).Mul(dif, dif), 1), "2(a-b)^2 "+nm)
			c := *fa
			e.FeCMove(&c, fb, 0)
			feq(x, &c, a.V, "FeCMove 0 "+nm)
			e.FeCMove(&c, fb, 1)
			feq(x, &c, b.V, "FeCMove 1 "+nm)
		})
		r.Explore("field inversion", func(x *mc.X) {
			a := fs[x.Choose(len(fs))]
			var o e.FieldElement
			x.Call("FeInvert", func() { e.FeInvert(&o, fe(a.V)) })
			w := new(big.Int)
			if a.V.Sign() != 0 {
				w.ModInverse(a.V, ref.EdP)
			}
			feq(x, &o, w, "FeInvert "+a.Name)
		})
		reduce := func(x *mc.X, w *big.Int, what string) {
			var in [64]byte
			b := w.Bytes()
			for i := range b {
				in[i] = b[len(b)-1-i]
			}
			var out [32]byte
			x.Call("ScReduce", func() { e.ScReduce(&out, &in) })
			x.State(in[:], out[:])
			x.Eq(out[:], ref.LE(new(big.Int).Mod(w, ref.EdL)), "scalar-reduction", "ScReduce(%s)", what)
		}
		// two of the 24 limbs of 21 bits at their extremes on three backgrounds
		r.Explore("scalar reduction", func(x *mc.X) {
			bg := x.Choose(3)
			i := x.Choose(24)
			for j := i; j < 24; j++ {
				for m := 0; m < 25; m++ {
					w := new(big.Int)
					for k := 0; k < 24; k++ {
						v := []int64{0, 1<<21 - 1, 1 << 20}[bg]
						alt := []int64{0, 1, 1<<20 - 1, 1 << 20, 1<<21 - 1}
						if k == i {
							v = alt[m%5]
						}
						if k == j {
							v = alt[m/5]
						}
						if k == 23 && v == 1<<21-1 {
							v = 1<<29 - 1
						}
						w.Add(w, new(big.Int).Lsh(bi(v), uint(21*k)))
					}
					reduce(x, w, fmt.Sprintf("%x", w))
				}
			}
		})
		r.Explore("scalar reduction: multiples of the order", func(x *mc.X) {
			b := x.Choose(260)
			d := x.Choose(3)
			q := pow2(uint(b))
			switch d {
			case 1:
				q.Sub(q, bi(1))
			case 2:
				q.Div(new(big.Int).Sub(pow2(512), bi(1)), ref.EdL)
				q.Sub(q, bi(int64(b)))
			}
			for o := int64(-2); o <= 2; o++ {
				w := new(big.Int).Mul(q, ref.EdL)
				w.Add(w, bi(o))
				if w.Sign() < 0 || w.BitLen() > 512 {
					continue
				}
				reduce(x, w, fmt.Sprintf("%x", w))
			}
		})
		var ms []kit.S
		for _, k := range kit.EdKeys() {
			ms = append(ms, kit.S{V: ref.ILE(k.V), Name: k.Name})
		}
		r.Explore("scalar multiply and add", func(x *mc.X) {
			a, b := ms[x.Choose(len(ms))], ms[x.Choose(len(ms))]
			for _, c := range ms {
				var s [32]byte
				x.Call("ScMulAdd", func() { e.ScMulAdd(&s, a32(ref.LE(a.V)), a32(ref.LE(b.V)), a32(ref.LE(c.V))) })
				w := new(big.Int).Mul(a.V, b.V)
				w.Add(w, c.V).Mod(w, ref.EdL)
				x.State(s[:])
				x.Eq(s[:], ref.LE(w), "scalar-muladd", "ScMulAdd(%s, %s, %s)", a.Name, b.Name, c.Name)
			}
		})
		r.Explore("scalar multiply and add: limbs", func(x *mc.X) {
			// one limb of each operand at an extreme, the others on a background
			i, j := x.Choose(12), x.Choose(12)
			lim := func(i int, m, bg int64) *big.Int {
				w := new(big.Int)
				for k := 0; k < 12; k++ {
					v := bg
					if k == i {
						v = m
					}
					w.Add(w, new(big.Int).Lsh(bi(v), uint(21*k)))
				}
				return w
			}
			for m := 0; m < 18; m++ {
				bg := []int64{0, 1<<21 - 1}[m%2]
				a := lim(i, []int64{0, 1 << 20, 1<<21 - 1}[m/2%3], bg)
				b := lim(j, []int64{0, 1 << 20, 1<<21 - 1}[m/6], bg)
				for _, c := range []*big.Int{bi(0), lim(j, 0, 1<<21-1), lim(i, 1, 0)} {
					var s [32]byte
					x.Call("ScMulAdd", func() { e.ScMulAdd(&s, a32(ref.LE(a)), a32(ref.LE(b)), a32(ref.LE(c))) })
					w := new(big.Int).Mul(a, b)
					w.Add(w, c).Mod(w, ref.EdL)
					x.State(s[:])
					x.Eq(s[:], ref.LE(w), "scalar-muladd", "ScMulAdd(%x, %x, %x)", a, b, c)
				}
			}
		})
		double := func(x *mc.X, a *big.Int, A pt, b *big.Int, what string) {
			var P e.ExtendedGroupElement
			var R, S e.ProjectiveGroupElement
			ok := P.FromBytes(a32(A.Enc()))
			x.Assert(ok, "decode", "FromBytes(%s)", A.name)
			var o [32]byte
			want := ref.EdCombine(b, A.Ed, a)
			x.Call("GeDoubleScalarMultVartime", func() { e.GeDoubleScalarMultVartime(&R, a32(ref.LE(a)), &P, a32(ref.LE(b))); R.ToBytes(&o) })
			x.State(o[:])
			x.Eq(o[:], want.Enc(), "double-scalar", "GeDoubleScalarMultVartime(%s)", what)
			var B e.ExtendedGroupElement
			B.FromBytes(a32(ref.EdG().Enc()))
			x.Call("GePointAddVarTime", func() { e.GePointAddVarTime(&S, a32(ref.LE(a)), &P, a32(ref.LE(b)), &B); S.ToBytes(&o) })
			x.Eq(o[:], want.Enc(), "double-scalar", "GePointAddVarTime(%s)", what)
		}
		r.Explore("double-scalar multiplication", func(x *mc.X) {
			A := pts[[]int{1, 8, 9, 10, 20, 30}[x.Choose(6)]]
			i := x.Choose((len(scs) + 7) / 8)
			for j := 8 * i; j < 8*i+8 && j < len(scs); j++ {
				v := new(big.Int).Mod(scs[j].V, pow2(253))
				double(x, v, A, scs[(7*j+3)%len(scs)].V.Mod(new(big.Int).Set(scs[(7*j+3)%len(scs)].V), pow2(253)), scs[j].Name+" on "+A.name)
			}
		})
		r.Explore("double-scalar multiplication: windows", func(x *mc.X) {
			A := pts[30]
			i := x.Choose((len(win) + 7) / 8)
			for j := 8 * i; j < 8*i+8 && j < len(win); j++ {
				v := new(big.Int).Mod(win[j].V, pow2(253))
				double(x, v, A, bi(0), win[j].Name+" on "+A.name)
				double(x, bi(0), A, v, win[j].Name+" on B")
			}
		})
		// bit patterns of the sliding window: every 9-bit pattern at every position
		r.Explore("double-scalar multiplication: recoding", func(x *mc.X) {
			pos := x.Choose(r.N(31, 244))
			if !r.Thorough() {
				pos *= 8
			}
			bg := x.Bool()
			for pat := int64(1); pat < 512; pat += 2 {
				v := new(big.Int).Lsh(bi(pat), uint(pos))
				if bg {
					v.Xor(v, new(big.Int).Sub(pow2(253), bi(1)))
				}
				v.Mod(v, pow2(253))
				double(x, v, pts[30], new(big.Int).Rsh(v, 1), fmt.Sprintf("%x", v))
			}
		})
		r.Explore("doubling and encoding", func(x *mc.X) {
			p := pts[x.Choose(len(pts))]
			var P, Q e.ExtendedGroupElement
			var C e.CompletedGroupElement
			var R e.ProjectiveGroupElement
			var o [32]byte
			x.Call("Double", func() { P.FromBytes(a32(p.Enc())); P.ToBytes(&o) })
			x.Eq(o[:], p.Enc(), "encode", "round trip of %s", p.name)
			x.Call("Double", func() { P.Double(&C); C.ToExtended(&Q); Q.ToBytes(&o) })
			x.Eq(o[:], p.Add(p.Ed).Enc(), "double", "2*%s", p.name)
			x.Call("Double", func() { P.ToProjective(&R); R.Double(&C); C.ToProjective(&R); R.ToBytes(&o) })
			x.Eq(o[:], p.Add(p.Ed).Enc(), "double", "2*%s", p.name)
			x.State(o[:])
		})

		// the Montgomery ladder and its signature arithmetic
		us := []*big.Int{bi(9), bi(2), bi(4), bi(5), bi(16), ref.EdToU(pts[10].Y), ref.EdToU(pts[30].Y), new(big.Int).Sub(ref.EdP, bi(9)), new(big.Int).Sub(ref.EdP, bi(19)), ref.ILE(kit.Fill(32, 0x55))}
		r.Explore("ladder", func(x *mc.X) {
			u := us[x.Choose(len(us))]
			i := x.Choose((len(scs) + 7) / 8)
			for j := 8 * i; j < 8*i+8 && j < len(scs); j++ {
				got := make([]byte, 32)
				x.Call("Curve", func() { eddsa.Curve(got, ref.LE(scs[j].V), ref.LE(u)) })
				x.State(got)
				x.Eq(got, ref.LE(ref.MontLadder(scs[j].V, u)), "ladder", "Curve(%s, %x)", scs[j].Name, u)
			}
		})
		r.Explore("ladder: windows", func(x *mc.X) {
			i := x.Choose((len(win) + 7) / 8)
			for j := 8 * i; j < 8*i+8 && j < len(win); j++ {
				got := make([]byte, 32)
				x.Call("Curve", func() { eddsa.Curve(got, ref.LE(win[j].V), ref.LE(bi(9))) })
				x.State(got)
				x.Eq(got, ref.LE(ref.MontLadder(win[j].V, bi(9))), "ladder", "Curve(%s, 9)", win[j].Name)
			}
		})
		r.Explore("signing keys", func(x *mc.X) {
			s := scs[x.Choose(len(scs))]
			P, sec, k := make([]byte, 32), make([]byte, 32), ref.LE(s.V)
			x.Call("Keygen", func() { eddsa.Keygen(P, sec, k) })
			x.State(P, sec)
			c := ref.Clamp(ref.LE(s.V))
			x.Eq(P, ref.LE(ref.EdToU(ref.EdMulBase(c).Y)), "keygen", "Keygen(%s)", s.Name)
			u := ref.ILE(P)
			v, _ := ref.MontV(u)
			q := ref.Mont{U: u, V: v}.ToEd().Mul(ref.ILE(sec))
			x.Assert(q.Equal(ref.MontG().ToEd()), "keygen", "Keygen(%s): the signing key %s does not invert the public key", s.Name, mc.Hex(sec))
		})
		kv := []kit.S{}
		for _, k := range kit.EdKeys() {
			v := ref.ILE(k.V)
			kv = append(kv, kit.S{V: new(big.Int).Mod(v, ref.EdL), Name: k.Name})
		}
		r.Explore("Curve25519-SHA256 verification point", func(x *mc.X) {
			u := ref.EdToU(pts[[]int{8, 10, 12, 30}[x.Choose(4)]].Y)
			a := kv[x.Choose(len(kv))]
			for _, b := range kit.EdKeys() {
				Y := make([]byte, 32)
				x.Call("Verify", func() { eddsa.Verify(Y, ref.LE(a.V), kit.Clone(b.V), ref.LE(u)) })
				w, _ := ref.KCombine(u, a.V, ref.ILE(b.V))
				x.State(Y)
				x.Eq(Y, w, "verify-point", "Verify(v=%s, h=%s, P=%x)", a.Name, b.Name, u)
			}
		})
		r.Explore("Curve25519-SHA256 verification point: patterns", func(x *mc.X) {
			u := ref.EdToU(pts[30].Y)
			i := x.Choose((len(win) + 7) / 8)
			for j := 8 * i; j < 8*i+8 && j < len(win); j++ {
				Y := make([]byte, 32)
				v := new(big.Int).Mod(win[j].V, ref.EdL)
				h := win[(5*j+1)%len(win)].V
				x.Call("Verify", func() { eddsa.Verify(Y, ref.LE(v), ref.LE(h), ref.LE(u)) })
				w, _ := ref.KCombine(u, v, h)
				x.State(Y)
				x.Eq(Y, w, "verify-point", "Verify(v=%x, h=%x, P=%x)", v, h, u)
			}
		})
		r.Explore("Curve25519-SHA256 signature value", func(x *mc.X) {
			h := kit.EdKeys()[x.Choose(len(kv))]
			n := kit.EdKeys()[x.Choose(len(kv))]
			for _, s := range kv {
				v := make([]byte, 32)
				var ok bool
				x.Call("Sign", func() { ok = eddsa.Sign(v, kit.Clone(h.V), kit.Clone(n.V), ref.LE(s.V)) })
				w := new(big.Int).Sub(new(big.Int).Mod(ref.ILE(n.V), ref.EdL), new(big.Int).Mod(ref.ILE(h.V), ref.EdL))
				w.Mul(w, s.V).Mod(w, ref.EdL)
				x.State(v, ok)
				x.Eq(v, ref.LE(w), "sign-value", "Sign(h=%s, x=%s, s=%s)", h.Name, n.Name, s.Name)
				x.Assert(ok == (w.Sign() != 0), "sign-value", "Sign(h=%s, x=%s, s=%s) reports %v", h.Name, n.Name, s.Name, ok)
			}
		})
		r.Explore("canonical forms", func(x *mc.X) {
			i := x.Choose(len(scs))
			b := ref.LE(scs[i].V)
			var c, d bool
			x.Call("IsCanonicalSignature", func() { c = eddsa.IsCanonicalSignature(append(kit.Clone(b), make([]byte, 32)...)) })
			x.Call("IsCanonicalPublicKey", func() { d = eddsa.IsCanonicalPublicKey(b) })
			x.State(b, c, d)
			x.Assert(c == (scs[i].V.Cmp(ref.EdL) < 0), "canonical", "IsCanonicalSignature(%s) = %v", scs[i].Name, c)
			x.Assert(d == (scs[i].V.Cmp(ref.EdP) < 0), "canonical", "IsCanonicalPublicKey(%s) = %v", scs[i].Name, d)
		})
		r.Explore("canonical forms near the bounds", func(x *mc.X) {
			o := int64(x.Choose(80) - 40)
			for i, m := range []*big.Int{ref.EdL, ref.EdP} {
				for k := int64(1); k <= 16; k++ {
					v := new(big.Int).Mul(m, bi(k))
					v.Add(v, bi(o))
					if v.BitLen() > 256 {
						continue
					}
					var c bool
					if i == 0 {
						x.Call("IsCanonicalSignature", func() { c = eddsa.IsCanonicalSignature(append(ref.LE(v), make([]byte, 32)...)) })
					} else {
						x.Call("IsCanonicalPublicKey", func() { c = eddsa.IsCanonicalPublicKey(ref.LE(v)) })
					}
					x.State(i, v.Bytes(), c)
					x.Assert(c == (v.Cmp(m) < 0), "canonical", "canonical(%x) = %v", v, c)
				}
			}
		})
		// the seed hash of standard keys
		h := sha512.Sum512(ref.LE(bi(0)))
		if !bytes.Equal(ref.EdMulBase(ref.Clamp(h[:32])).Enc(), kit.EdSchemes[0].Pub(make([]byte, 32))) {
			panic("mc: key derivation reference")
		}
	})
}
