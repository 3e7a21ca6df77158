package main

import (
	"bytes"
	"crypto/cipher"
	"crypto/sha256"
	"errors"
	"fmt"
	"github.com/drand/kyber/xof/blake2xb"
	"hash"
	"math/big"
	"verifharness/kit"
	"verifharness/mc"
	"verifharness/ref"

	owcrypt "github.com/blocktree/go-owcrypt"
	"github.com/blocktree/go-owcrypt/bls12_381"
	"github.com/blocktree/go-owcrypt/bls12_381/bls"
	"github.com/drand/kyber"
)

// fieldInputs for MapToCurve: boundaries, the exceptional case of the map
// (Z*u^2 = -1) if it exists, and arguments that meet the isogeny's kernel.
func fieldInputs() []kit.S {
	var l []kit.S
	add := func(v *big.Int, n string) { l = append(l, kit.S{V: new(big.Int).Mod(v, ref.BlsP), Name: n}) }
	for i := int64(0); i < 40; i++ {
		add(bi(i), fmt.Sprint(i))
		add(bi(-i), fmt.Sprint(-i))
	}
	for e := 32; e < 381; e += 29 {
		add(new(big.Int).Lsh(bi(1), uint(e)), fmt.Sprintf("2^%d", e))
	}
	if s := new(big.Int).ModSqrt(new(big.Int).Mod(new(big.Int).Neg(new(big.Int).ModInverse(bi(11), ref.BlsP)), ref.BlsP), ref.BlsP); s != nil {
		add(s, "exceptional")
		add(new(big.Int).Neg(s), "exceptional")
	}
	for _, h := range []string{"1377c0192d99508a317127abf17c64205c7aad448380027efb47ae73ea231dbd6ecd3f2841b63d309c35bb8fd13e48f0",
		"0a2605e5991fcf3e63728a7a1468d79bacaa5f23f3816aadcd38efdd330c6d4f5bbf450f92156e0e23e16e3252bcd042", "0854a3cb180882d5b1efc1c3cc5b3fb33b27cb739f1389986ca46e1c5cb5010d8a06fd781c63074868f316d95b8f8405",
		"0a3bf00221e169b850c5268c3d1edd576732060760bc0c00ed0311dee8588b18130822d3027f8d142802d784ea194fca", "146850b3bdc2495ed73bb803dfaa951a88abff0acb5c7aeac52b48f3c808e87ce3885b98ce916e17caef21a6cbc6b598",
		"0ec1d2551f80abe70136a7f42e52133ebddf9b619a88147ae422a98e57581f2b0961dc019c74599f12a1b5513649a2e8", "0a92437e90bc473049ab549b4c4a145feb4fb5cd39f7ee85c11fa62a8f5317220b398be420ca5d8364d460f6ee1efd29",
		"10683009c00edc5676a3d43b8b5ae8a68e75a32954f6a502e6acc1c11ed49bcaa7c843871e887ce9839920c2ff0f732f"} {
		add(hx(h), "kernel "+h[:4])
		add(new(big.Int).Neg(hx(h)), "kernel -"+h[:4])
	}
	return l
}

func b48(v *big.Int) []byte { return v.FillBytes(make([]byte, 48)) }
func b32(v *big.Int) []byte { return v.FillBytes(make([]byte, 32)) }

func gtBytes(e *bls.E) []byte { return bls.NewGT().ToBytes(e) }

var inf = ref.BPt{Inf: true}

func mod(v *big.Int) *big.Int { return new(big.Int).Mod(v, ref.BlsR) }

func pairing(r *mc.Run) {
	us := fieldInputs()
	r.Explore("G1 map to curve", func(x *mc.X) {
		u := us[x.Choose(len(us))]
		var p *bls.PointG1
		var err error
		var got []byte
		x.Call("MapToCurve", func() {
			g := bls.NewG1()
			if p, err = g.MapToCurve(b48(u.V)); err == nil {
				got = g.ToUncompressed(p)
			}
		})
		want := ref.B1.Enc(ref.B1.MapInt(u.V, bi(0)))
		x.State("map", u.V, got)
		x.Assert(err == nil && bytes.Equal(got, want), "map", "MapToCurve of %s (%x): %s %v, want %s", u.Name, u.V, mc.Hex(got), err, mc.Hex(want))
	})
	r.Explore("G1 map to curve refuses", func(x *mc.X) {
		var in []byte
		switch c := x.Choose(4); c {
		case 0:
			in = b48(new(big.Int).Add(ref.BlsP, bi(int64(x.Choose(40)))))
		case 1:
			in = kit.Fill(48, 0xff)
		case 2:
			in = make([]byte, x.Choose(48))
		case 3:
			in = make([]byte, 49+x.Choose(50))
		}
		var err error
		x.Call("MapToCurve", func() { _, err = bls.NewG1().MapToCurve(in) })
		x.State("map", in, err != nil)
		x.Assert(err != nil, "map-range", "MapToCurve takes %s", mc.Hex(in))
	})

	// e(aG, bH) for all small a, b, in several representations
	sc := []*big.Int{bi(0), bi(1), bi(2), bi(3), mod(bi(-1)), mod(bi(-2)), hx("ac45a4010001a40200000000ffffffff"), hx("d201000000010000"), new(big.Int).Rsh(ref.BlsR, 1), mod(new(big.Int).SetBytes(kit.Stream("pa", 32))), mod(new(big.Int).SetBytes(kit.Stream("pb", 32)))}
	load1 := func(k *big.Int, rep int) *bls.PointG1 {
		g := bls.NewG1()
		p, err := g.FromBytes(ref.B1.Raw(ref.B1.Base(mod(k))))
		if err != nil {
			panic("mc: " + err.Error())
		}
		if rep == 1 {
			q := g.Double(g.New(), p)
			p = g.Sub(g.New(), q, p)
		}
		return p
	}
	load2 := func(k *big.Int, rep int) *bls.PointG2 {
		g := bls.NewG2(nil)
		p, err := g.FromBytes(ref.B2.Raw(ref.B2.Base(mod(k))))
		if err != nil {
			panic("mc: " + err.Error())
		}
		if rep == 1 {
			q := g.Double(g.New(), p)
			p = g.Sub(g.New(), q, p)
		}
		return p
	}
	same := func(x *mc.X, p *bls.PointG1, a *big.Int, q *bls.PointG2, b *big.Int, after string) {
		x.Eq(bls.NewG1().ToBytes(p), ref.B1.Raw(ref.B1.Base(mod(a))), "operand", "G1 operand after %s", after)
		x.Eq(bls.NewG2(nil).ToBytes(q), ref.B2.Raw(ref.B2.Base(mod(b))), "operand", "G2 operand after %s", after)
	}
	var base ref.F12
	one := ref.F12One()
	r.Explore("pairing of the generators", func(x *mc.X) {
		var e *bls.E
		x.Call("Result", func() { e = bls.NewEngine().AddPair(load1(bi(1), 0), load2(bi(1), 0)).Result() })
		b, ok := ref.F12Dec(gtBytes(e))
		x.State(gtBytes(e))
		x.Assert(ok && b != one, "degenerate", "e(G, H) = %s", mc.Hex(gtBytes(e)))
		x.Assert(b.Exp(ref.BlsR) == one, "gt-order", "e(G, H)^r is not one")
	})
	func() {
		defer func() { recover() }()
		base, _ = ref.F12Dec(gtBytes(bls.NewEngine().AddPair(load1(bi(1), 0), load2(bi(1), 0)).Result()))
	}()
	if base == one || base == (ref.F12{}) {
		return // reported above
	}
	r.Explore("bilinearity", func(x *mc.X) {
		a, b := sc[x.Choose(len(sc))], sc[x.Choose(len(sc))]
		for rep := 0; rep < 4; rep++ {
			p, q := load1(a, rep&1), load2(b, rep>>1)
			var got []byte
			x.Call("Result", func() { got = gtBytes(bls.NewEngine().AddPair(p, q).Result()) })
			x.State(a, b, rep, got)
			x.Eq(got, base.Exp(mod(new(big.Int).Mul(a, b))).Bytes(), "bilinear", "e(%xG, %xH), representations %d", a, b, rep)
			same(x, p, a, q, b, "a pairing")
		}
	})
	// every sequence of engine calls: the state is the sum of the exponents
	r.Explore("engine sequences", func(x *mc.X) {
		depth := r.N(4, 5)
		e := bls.NewEngine()
		as := []*big.Int{bi(2), bi(-2), bi(0)}
		bs := []*big.Int{bi(3), bi(1)}
		p := []*bls.PointG1{load1(as[0], 0), load1(as[1], 1), load1(as[2], 0)}
		q := []*bls.PointG2{load2(bs[0], 0), load2(bs[1], 1)}
		sum := bi(0)
		hist := ""
		for i := 0; i < depth; i++ {
			c := x.Choose(10)
			switch {
			case c < 4:
				pi, qi := c&1, c>>1
				hist += fmt.Sprintf("AddPair(%d,%d) ", as[pi], bs[qi])
				x.Call("AddPair", func() { e.AddPair(p[pi], q[qi]) })
				sum.Add(sum, new(big.Int).Mul(as[pi], bs[qi]))
			case c < 6:
				pi, qi := c&1, 1-c&1
				hist += fmt.Sprintf("AddPairInv(%d,%d) ", as[pi], bs[qi])
				x.Call("AddPairInv", func() { e.AddPairInv(p[pi], q[qi]) })
				sum.Sub(sum, new(big.Int).Mul(as[pi], bs[qi]))
			case c == 6:
				hist += "AddPair(0,3) "
				x.Call("AddPair", func() { e.AddPair(p[2], q[0]) })
			case c == 7:
				var ok bool
				hist += "Check "
				x.Call("Check", func() { ok = e.Check() })
				x.State(hist, ok)
				x.Assert(ok == (mod(sum).Sign() == 0), "check", "engine %s: %v with exponent %d", hist, ok, sum)
			case c == 8:
				var got []byte
				hist += "Result "
				x.Call("Result", func() { got = gtBytes(e.Result()) })
				x.State(hist, got)
				x.Eq(got, base.Exp(mod(sum)).Bytes(), "result", "engine %s: not e(G,H)^%d", hist, sum)
				sum.SetInt64(0)
			case c == 9:
				hist += "Reset "
				x.Call("Reset", func() { e.Reset() })
				sum.SetInt64(0)
			}
		}
		var ok bool
		x.Call("Check", func() { ok = e.Check() })
		x.Assert(ok == (mod(sum).Sign() == 0), "check", "engine %s Check: %v with exponent %d", hist, ok, sum)
		same(x, p[0], as[0], q[0], bs[0], hist)
		same(x, p[1], as[1], q[1], bs[1], hist)
	})
	// products of many pairs
	r.Explore("products of many pairings", func(x *mc.X) {
		n := x.Choose(r.N(8, 20))
		e := bls.NewEngine()
		sum := bi(0)
		for i := 0; i < n; i++ {
			a, b := sc[(i*3+n)%len(sc)], sc[(i*5+1)%len(sc)]
			e.AddPair(load1(a, i&1), load2(b, i>>1&1))
			sum.Add(sum, new(big.Int).Mul(a, b))
		}
		var got []byte
		x.Call("Result", func() { got = gtBytes(e.Result()) })
		x.State(n, got)
		x.Eq(got, base.Exp(mod(sum)).Bytes(), "result", "product of %d pairings", n)
	})

	// the kyber suite
	suite := bls12_381.NewBLS12381Suite()
	scalar := func(v *big.Int) kyber.Scalar { return bls12_381.NewScalar(b32(mod(v))) }
	mk1 := func(k *big.Int) kyber.Point { return bls12_381.NullOwcryptG1().Mul(scalar(k), nil) }
	mk2 := func(k *big.Int) kyber.Point { return bls12_381.NullOwcryptG2().Mul(scalar(k), nil) }
	bin := func(x *mc.X, p kyber.Point) []byte {
		var b []byte
		var err error
		x.Call("MarshalBinary", func() { b, err = p.MarshalBinary() })
		x.Assert(err == nil, "marshal", "MarshalBinary: %v", err)
		return b
	}
	r.Explore("equality of pairings", func(x *mc.X) {
		vs := []*big.Int{bi(0), bi(1), bi(2), mod(bi(-1))}
		if r.Thorough() {
			vs = append(vs, bi(4), mod(bi(-2)))
		}
		var k [4]*big.Int
		for i := range k {
			k[i] = vs[x.Choose(len(vs))]
		}
		p1, p2, p3, p4 := mk1(k[0]), mk2(k[1]), mk1(k[2]), mk2(k[3])
		want := mod(new(big.Int).Mul(k[0], k[1])).Cmp(mod(new(big.Int).Mul(k[2], k[3]))) == 0
		for again := 0; again < 2; again++ {
			var ok bool
			x.Call("ValidatePairing", func() { ok = suite.ValidatePairing(p1, p2, p3, p4) })
			x.State(k[0], k[1], k[2], k[3], ok)
			x.Assert(ok == want, "validate", "ValidatePairing(%x, %x, %x, %x), run %d: %v", k[0], k[1], k[2], k[3], again+1, ok)
		}
		for i, p := range []kyber.Point{p1, p2, p3, p4} {
			g := []*ref.BGroup{ref.B1, ref.B2}[i&1]
			x.Eq(bin(x, p), g.Comp(g.Base(k[i])), "operand", "point %d after ValidatePairing", i+1)
		}
		// the same objects on both sides
		if k[0].Cmp(k[2]) == 0 && k[1].Cmp(k[3]) == 0 {
			var ok bool
			x.Call("ValidatePairing", func() { ok = suite.ValidatePairing(p1, p2, p1, p2) })
			x.Assert(ok, "validate-alias", "ValidatePairing(P, Q, P, Q) is false for %x, %x", k[0], k[1])
		}
	})
	// registers of group elements: every sequence of operations over three
	// registers against their exponents
	type gdef struct {
		name string
		g    *ref.BGroup
		grp  kyber.Group
		base func(k *big.Int) []byte
	}
	gt := func(k *big.Int) kyber.Point { return suite.Pair(mk1(k), mk2(bi(1))) }
	defs := []gdef{{"G1", ref.B1, suite.G1(), nil}, {"G2", ref.B2, suite.G2(), nil}, {"GT", nil, suite.GT(), nil}}
	for i := range defs {
		d := &defs[i]
		memo := map[string][]byte{}
		vals := func(k *big.Int) []byte {
			if d.g != nil {
				return d.g.Comp(d.g.Base(k))
			}
			return base.Exp(k).Bytes()
		}
		for k := int64(-70); k <= 70; k++ {
			memo[mod(bi(k)).String()] = vals(mod(bi(k)))
		}
		d.base = func(k *big.Int) []byte {
			if b, ok := memo[k.String()]; ok {
				return b
			}
			return vals(k)
		}
	}
	r.Explore("register sequences", func(x *mc.X) {
		d := defs[x.Choose(3)]
		load := func(k int64) kyber.Point {
			switch d.name {
			case "G1":
				return mk1(bi(k))
			case "G2":
				return mk2(bi(k))
			}
			return gt(bi(k))
		}
		var reg [3]kyber.Point
		var val [3]*big.Int
		for i, k := range []int64{1, 2, -3} {
			reg[i], val[i] = load(k), mod(bi(k))
		}
		hist := d.name + ": "
		check := func() {
			for i := range reg {
				x.Eq(bin(x, reg[i]), d.base(val[i]), "register/"+d.name, "%sregister %d is not %d times the base", hist, i, val[i])
			}
		}
		depth := 2
		for s := 0; s < depth; s++ {
			i, j, k := x.Choose(3), x.Choose(3), 0
			op := x.Choose(8)
			if op < 2 {
				k = x.Choose(3)
			}
			hist += fmt.Sprintf("%s %d %d %d; ", []string{"add", "sub", "neg", "mul", "set", "clone", "null", "marshal"}[op], i, j, k)
			switch op {
			case 0:
				x.Call("Add", func() { reg[i].Add(reg[j], reg[k]) })
				val[i] = mod(new(big.Int).Add(val[j], val[k]))
			case 1:
				x.Call("Sub", func() { reg[i].Sub(reg[j], reg[k]) })
				val[i] = mod(new(big.Int).Sub(val[j], val[k]))
			case 2, 3:
				if d.name == "GT" {
					return // documented as unsupported
				}
				m := bi(-1)
				if op == 2 {
					x.Call("Neg", func() { reg[i].Neg(reg[j]) })
				} else {
					m = bi(5)
					x.Call("Mul", func() { reg[i].Mul(scalar(m), reg[j]) })
				}
				val[i] = mod(new(big.Int).Mul(val[j], m))
			case 4:
				x.Call("Set", func() { reg[i].Set(reg[j]) })
				val[i] = val[j]
			case 5:
				x.Call("Clone", func() { reg[i] = reg[j].Clone() })
				val[i] = val[j]
			case 6:
				x.Call("Null", func() { reg[i] = reg[i].Null() })
				val[i] = bi(0)
			case 7:
				var err error
				x.Call("UnmarshalBinary", func() {
					p := d.grp.Point()
					err = p.UnmarshalBinary(bin(x, reg[j]))
					reg[i] = p
				})
				x.Assert(err == nil, "unmarshal/"+d.name, "%s%v", hist, err)
				val[i] = val[j]
			}
			check()
		}
		for i := range reg {
			for j := range reg {
				var eq bool
				x.Call("Equal", func() { eq = reg[i].Equal(reg[j]) })
				x.Assert(eq == (val[i].Cmp(val[j]) == 0), "equal/"+d.name, "%sEqual(%d, %d) is %v", hist, i, j, eq)
			}
		}
	})
	r.Explore("points through readers and writers", func(x *mc.X) {
		d := defs[x.Choose(3)]
		k := int64(x.Choose(7) - 3)
		p := []func(*big.Int) kyber.Point{mk1, mk2, gt}[map[string]int{"G1": 0, "G2": 1, "GT": 2}[d.name]](bi(k))
		var buf bytes.Buffer
		var n, n2 int
		var err, err2 error
		x.Call("MarshalTo", func() { n, err = p.MarshalTo(&buf) })
		w := d.base(mod(bi(k)))
		x.Assert(err == nil && n == len(w) && n == p.MarshalSize() && bytes.Equal(buf.Bytes(), w), "marshalto/"+d.name, "MarshalTo of %d: %d %v", k, n, err)
		cut := x.Bool()
		if cut {
			buf.Truncate(len(w) - 1)
		}
		q := d.grp.Point()
		x.Call("UnmarshalFrom", func() { n2, err2 = q.UnmarshalFrom(&buf) })
		if cut {
			x.Assert(err2 != nil, "unmarshalfrom/"+d.name, "UnmarshalFrom takes %d bytes", len(w)-1)
			return
		}
		x.Assert(err2 == nil && n2 == len(w), "unmarshalfrom/"+d.name, "UnmarshalFrom of %d: %d %v", k, n2, err2)
		x.Eq(bin(x, q), w, "unmarshalfrom/"+d.name, "UnmarshalFrom of %d", k)
	})
	r.Explore("slow and failing readers and writers", func(x *mc.X) {
		d := defs[x.Choose(3)]
		k := int64(x.Choose(3)) + 1
		w := d.base(mod(bi(k)))
		// n bytes at a time, failing when limit bytes have gone through
		n := []int{1, 2, 7, 31, 47, 48, 49, 95, 500, 1000}[x.Choose(10)]
		limit := len(w) + 100
		if x.Bool() {
			limit = min([]int{0, 1, 2, 6, 14, 47, 95, 500, 1 << 20}[x.Choose(9)], len(w)-1)
		}
		late := x.Bool() // the error comes with the last bytes
		q := d.grp.Point()
		var got int
		var err error
		x.Call("UnmarshalFrom", func() {
			got, err = q.UnmarshalFrom(&pipe{n: n, limit: limit, late: late, data: append(append([]byte{}, w...), make([]byte, 100)...)})
		})
		x.State("read", d.name, n, limit, late, got, err)
		if limit < len(w) {
			x.Assert(err != nil, "unmarshalfrom-error/"+d.name, "UnmarshalFrom takes %d bytes of a reader that then fails", got)
		} else {
			x.Assert(err == nil && got == len(w), "unmarshalfrom-slow/"+d.name, "UnmarshalFrom of a reader that gives %d bytes at a time: %d %v", n, got, err)
			x.Eq(bin(x, q), w, "unmarshalfrom-slow/"+d.name, "UnmarshalFrom of a reader that gives %d bytes at a time", n)
		}
		p := []func(*big.Int) kyber.Point{mk1, mk2, gt}[map[string]int{"G1": 0, "G2": 1, "GT": 2}[d.name]](bi(k))
		o := &pipe{limit: limit}
		x.Call("MarshalTo", func() { got, err = p.MarshalTo(o) })
		x.Assert((err == nil) == (limit >= len(w)) && got == min(limit, len(w)) && bytes.Equal(o.data, w[:got]), "marshalto-error/"+d.name, "MarshalTo of a writer that takes %d bytes: %d %v", limit, got, err)
	})
	r.Explore("hashing to kyber points", func(x *mc.X) {
		type hasher interface{ Hash([]byte) kyber.Point }
		two := x.Bool()
		var h hasher = bls12_381.NullOwcryptG1()
		g, dst := ref.B1, bls12_381.Domain
		m := [][]byte{nil, []byte("m"), []byte(kit.BlsSchemes[0].DST + "q"), []byte(kit.BlsSchemes[1].DST), kit.Stream("hk", 77)}[x.Choose(5)]
		rest := m
		dst = []byte(kit.BlsSchemes[1].DST)
		if two {
			h, g = bls12_381.NullOwcryptG2(), ref.B2
			for _, s := range kit.BlsSchemes {
				if bytes.HasPrefix(m, []byte(s.DST)) {
					dst, rest = []byte(s.DST), m[len(s.DST):]
				}
			}
		}
		var p kyber.Point
		x.Call("Hash", func() { p = h.Hash(m) })
		x.Eq(bin(x, p), g.Comp(g.Hash(rest, dst)), "kyber-hash/"+g.Name, "%s Hash(%q)", g.Name, m)
	})

	r.Explore("picked points", func(x *mc.X) {
		d := defs[x.Choose(2)]
		// one bit of the 32 bytes differs from the stream compared with
		bit := x.Choose(257)
		seed := kit.Stream("pick", 64)
		pick := func(flip int) []byte {
			s := append([]byte{}, seed...)
			if flip < 256 {
				s[flip/8] ^= 1 << (flip % 8)
			}
			var p kyber.Point
			x.Call("Pick", func() { p = d.grp.Point().Pick(&xorStream{s}) })
			b := bin(x, p)
			q := d.grp.Point()
			var err error
			in := false
			x.Call("UnmarshalBinary", func() {
				if err = q.UnmarshalBinary(append([]byte{}, b...)); err == nil {
					in = p.(bls12_381.GroupChecker).IsInCorrectGroup() && q.(bls12_381.GroupChecker).IsInCorrectGroup()
				}
			})
			x.Assert(err == nil && in, "pick/"+d.name, "a picked point of %s is no point of the group: %s %v", d.name, mc.Hex(b), err)
			return b
		}
		a, b := pick(256), pick(bit)
		x.State(d.name, bit, a, b)
		x.Assert(bytes.Equal(a, b) == (bit == 256), "pick/"+d.name, "points of %s picked from streams that differ in bit %d: %s %s", d.name, bit, mc.Hex(a), mc.Hex(b))
	})
	r.Explore("group descriptions", func(x *mc.X) {
		d := defs[x.Choose(3)]
		n := map[string]int{"G1": 48, "G2": 96, "GT": 576}[d.name]
		g := d.grp
		var sl, pl int
		var name string
		x.Call("description", func() {
			sl, pl, name = g.ScalarLen(), g.PointLen(), g.String()
		})
		x.State(d.name, sl, pl, name)
		x.Assert(sl == 32 && pl == n && name == "bls12-381."+d.name, "description/"+d.name, "group %q: scalars of %d bytes, points of %d", name, sl, pl)
		// a fresh scalar is zero and belongs to the caller
		for i := 0; i < 2; i++ {
			var z kyber.Scalar
			var zb []byte
			x.Call("Scalar", func() { z = g.Scalar(); zb, _ = z.MarshalBinary() })
			x.Eq(zb, make([]byte, 32), "scalar", "a fresh scalar of %s", d.name)
			z.SetInt64(9)
		}
		// hash, extendable output and random stream of the suite and its groups
		m := kit.Stream("gd", 40)
		hs := []func() ([]byte, []byte, []byte){func() ([]byte, []byte, []byte) {
			g := g.(interface {
				Hash() hash.Hash
				XOF([]byte) kyber.XOF
				RandomStream() cipher.Stream
			})
			h, f, r := g.Hash(), g.XOF(m), make([]byte, 32)
			h.Write(m)
			o := make([]byte, 70)
			f.Read(o)
			g.RandomStream().XORKeyStream(r, r)
			return h.Sum(nil), o, r
		}, func() ([]byte, []byte, []byte) {
			g := suite.(interface {
				Hash() hash.Hash
				XOF([]byte) kyber.XOF
				RandomStream() cipher.Stream
			})
			h, f, r := g.Hash(), g.XOF(m), make([]byte, 32)
			h.Write(m)
			o := make([]byte, 70)
			f.Read(o)
			g.RandomStream().XORKeyStream(r, r)
			return h.Sum(nil), o, r
		}}
		want := make([]byte, 70)
		blake2xb.New(m).Read(want)
		hw := sha256.Sum256(m)
		for _, f := range hs {
			var h, o, a, b []byte
			x.Call("suite", func() { h, o, a = f() })
			x.Call("suite", func() { _, _, b = f() })
			x.Eq(h, hw[:], "suite-hash", "hash of %s", d.name)
			x.Eq(o, want, "suite-xof", "extendable output of %s", d.name)
			x.Assert(!bytes.Equal(a, b), "suite-random", "random stream of %s repeats: %s", d.name, mc.Hex(a))
		}
	})

	// the target group
	exps := []*big.Int{bi(0), bi(1), bi(2), bi(3), bi(5), bi(255), hx("d201000000010000"), mod(bi(-1)), mod(bi(-2)), ref.BlsR, new(big.Int).Add(ref.BlsR, bi(1)), new(big.Int).Sub(new(big.Int).Lsh(bi(1), 256), bi(1)), mod(new(big.Int).SetBytes(kit.Stream("ex", 32)))}
	el := func(x *mc.X, v ref.F12) *bls.E {
		var e *bls.E
		var err error
		x.Call("GT.FromBytes", func() { e, err = bls.NewGT().FromBytes(v.Bytes()) })
		x.Assert(err == nil, "gt-decode", "GT refuses a power of e(G, H): %v", err)
		return e
	}
	eq := func(x *mc.X, e *bls.E, v ref.F12, what string) {
		x.State(what, gtBytes(e))
		x.Eq(gtBytes(e), v.Bytes(), "gt", "%s", what)
	}
	r.Explore("target group exponents", func(x *mc.X) {
		k, s := sc[x.Choose(len(sc))], exps[x.Choose(len(exps))]
		v := base.Exp(k)
		G := bls.NewGT()
		for al := 0; al < 2; al++ {
			a := el(x, v)
			c := G.New()
			if al == 1 {
				c = a
			}
			t := new(big.Int).Set(s)
			x.Call("Exp", func() { G.Exp(c, a, t) })
			eq(x, c, v.Exp(s), fmt.Sprintf("Exp of g^%x by %x", k, s))
			x.Assert(t.Cmp(s) == 0, "scalar-changed", "GT Exp changes its exponent")
			if al == 0 {
				eq(x, a, v, "operand after Exp")
			}
		}
	})
	r.Explore("target group products", func(x *mc.X) {
		a, b := sc[x.Choose(len(sc))], sc[x.Choose(len(sc))]
		va, vb := base.Exp(a), base.Exp(b)
		G := bls.NewGT()
		want := va.Mul(&vb)
		for al := 0; al < 3; al++ {
			p, q := el(x, va), el(x, vb)
			c := []*bls.E{G.New(), p, q}[al]
			x.Call("Mul", func() { G.Mul(c, p, q) })
			eq(x, c, want, fmt.Sprintf("Mul of g^%x and g^%x, alias %d", a, b, al))
			if al != 1 {
				eq(x, p, va, "operand after Mul")
			}
		}
		p, q := el(x, va), el(x, vb)
		x.Assert(G.Equal(p, q) == (va == vb) && p.Equal(q) == (va == vb), "gt-equal", "GT Equal of g^%x and g^%x", a, b)
		if a != b {
			return
		}
		for al := 0; al < 2; al++ {
			p := el(x, va)
			c := []*bls.E{G.New(), p}[al]
			x.Call("Square", func() { G.Square(c, p) })
			eq(x, c, va.Mul(&va), fmt.Sprintf("Square of g^%x", a))
			p = el(x, va)
			c = []*bls.E{G.New(), p}[al]
			x.Call("Inverse", func() { G.Inverse(c, p) })
			eq(x, c, base.Exp(mod(new(big.Int).Neg(a))), fmt.Sprintf("Inverse of g^%x", a))
			p = el(x, va)
			x.Call("Mul", func() { G.Mul(p, p, p) })
			eq(x, p, va.Mul(&va), fmt.Sprintf("Mul by itself of g^%x", a))
		}
		p = el(x, va)
		x.Assert(p.IsOne() == (va == one) && G.IsOne(p) == (va == one), "gt-isone", "GT IsOne of g^%x", a)
		x.Assert(G.IsValid(p), "gt-isvalid", "GT IsValid of g^%x is false", a)
		d := G.New()
		x.Call("Set", func() { d.Set(p) })
		eq(x, d, va, "Set")
		d = G.New()
		x.Call("Copy", func() { G.Copy(d, p) })
		eq(x, d, va, "Copy")
		x.Call("One", func() { d.One() })
		eq(x, d, one, "One on an element")
		eq(x, p, va, "the source after its copy was overwritten")
	})
	r.Explore("target group decoding", func(x *mc.X) {
		var b []byte
		v := base.Exp(bi(int64(1 + x.Choose(2))))
		ok := false
		switch x.Choose(5) {
		case 0:
			b = kit.Flip(v.Bytes(), x.Choose(r.N(576, 4608))*r.N(8, 1)%4608+0)
			b = kit.Clone(b)
		case 1:
			i := x.Choose(12)
			b = v.Bytes()
			t := new(big.Int).Add(new(big.Int).SetBytes(b[48*i:48*i+48]), new(big.Int).Mul(ref.BlsP, bi(int64(1+x.Choose(3)))))
			t.FillBytes(b[48*i : 48*i+48])
		case 2:
			b = v.Bytes()[:[]int{0, 1, 48, 288, 575}[x.Choose(5)]]
		case 3:
			b = kit.Cat(v.Bytes(), make([]byte, 1+x.Choose(2)*575))
		case 4:
			switch x.Choose(6) {
			case 0:
				b = make([]byte, 576)
			case 1:
				b, ok = one.Bytes(), true
			case 2:
				b = one.Add(one).Bytes() // in the field, not in the group
			case 3:
				b = v.Add(one).Bytes()
			case 4: // -1 times a member
				m := minusOne()
				b = v.Mul(&m).Bytes()
			case 5:
				b, ok = v.Bytes(), true
			}
		}
		var err error
		x.Call("GT.FromBytes", func() { _, err = bls.NewGT().FromBytes(b) })
		x.State("gt", b, err == nil)
		x.Assert((err == nil) == ok, "gt-decode", "GT decoding of %s: %v, want success %v", mc.Hex(b), err, ok)
	})

	// the library's own multiply-and-add and base multiplication
	ks := kit.BlsScalars()
	var pk []kit.BP
	for _, p := range points(ref.B1) {
		pk = append(pk, p)
	}
	code := []uint32{kit.BlsSchemes[0].Code, kit.BlsSchemes[1].Code}
	r.Explore("multiply and add", func(x *mc.X) {
		p := pk[x.Choose(len(pk))]
		s := ks[x.Choose(len(ks))]
		if x.Bool() { // make the sum the identity or a doubling
			s.V = mod(new(big.Int).SetBytes(kit.Stream("pt", 31)))
			if x.Bool() {
				s.V = mod(new(big.Int).Neg(s.V))
			}
			p = kit.BP{BPt: ref.B1.Base(mod(new(big.Int).SetBytes(kit.Stream("pt", 31)))), Name: "stream"}
		}
		var got []byte
		var isInf bool
		in := ref.B1.Comp(p.BPt)
		x.Call("Point_mulBaseG_add", func() { got, isInf = owcrypt.Point_mulBaseG_add(in, b32(s.V), code[len(p.Name)&1]) })
		x.State(p.Name, s.V, got, isInf)
		if !ref.B1.InGroup(p.BPt) {
			x.Assert(got == nil && !isInf, "muladd-subgroup", "BLS multiply and add takes a point off the subgroup (%s): %s %v", p.Name, mc.Hex(got), isInf)
			return
		}
		want := ref.B1.Add(p.BPt, ref.B1.Base(s.V))
		if want.Inf {
			x.Assert(got == nil && isInf, "muladd-infinity", "BLS %s + %sG is infinity: got %s %v", p.Name, s.Name, mc.Hex(got), isInf)
			return
		}
		x.Assert(!isInf && bytes.Equal(got, ref.B1.Comp(want)), "muladd", "BLS %s + %sG: %s %v, want %s", p.Name, s.Name, mc.Hex(got), isInf, mc.Hex(ref.B1.Comp(want)))
	})
	r.Explore("multiply and add refuses", func(x *mc.X) {
		good := ref.B1.Comp(ref.B1.Base(bi(7)))
		sc := b32(bi(9))
		p := good
		switch x.Choose(6) {
		case 0:
			n := x.Choose(384)
			p = kit.Flip(good, n)
		case 1:
			n := x.Choose(100)
			p = kit.Cat(good, good, good)[:n]
		case 2:
			f := x.Choose(8)
			p = kit.Clone(good)
			p[0] = p[0]&0x1f | byte(f<<5)
		case 3:
			p = make([]byte, 48)
			p[0] = byte(x.Choose(8) << 5)
			if n := x.Choose(49); n > 0 {
				p[n-1] |= 1
			}
		case 4:
			p = kit.Clone(ref.B1.Comp(ref.B1.Base(bi(int64(1 + x.Choose(40))))))
			fl := p[0] & 0xe0
			p[0] &= 0x1f
			v := new(big.Int).Add(new(big.Int).SetBytes(p), ref.BlsP)
			if v.BitLen() > 381 {
				return
			}
			p = b48(v)
			p[0] |= fl
		case 5:
			sc = [][]byte{nil, {}, {1}, make([]byte, 31), make([]byte, 33), b32(ref.BlsR), b32(new(big.Int).Add(ref.BlsR, bi(5))), kit.Fill(32, 0xff)}[x.Choose(8)]
		}
		P, err := ref.B1.Decode(p, true)
		valid := err == nil && len(sc) == 32 && new(big.Int).SetBytes(sc).Cmp(ref.BlsR) < 0
		var got []byte
		var isInf bool
		x.Call("Point_mulBaseG_add", func() { got, isInf = owcrypt.Point_mulBaseG_add(p, sc, code[0]) })
		x.State(p, sc, got, isInf)
		if !valid {
			x.Assert(got == nil && !isInf, "muladd-malformed", "BLS multiply and add takes point %s scalar %s: %s %v", mc.Hex(p), mc.Hex(sc), mc.Hex(got), isInf)
			return
		}
		want := ref.B1.Add(P, ref.B1.Base(new(big.Int).SetBytes(sc)))
		x.Assert(!isInf && bytes.Equal(got, ref.B1.Comp(want)), "muladd", "BLS %s + %sG: %s %v, want %s", mc.Hex(p), mc.Hex(sc), mc.Hex(got), isInf, mc.Hex(ref.B1.Comp(want)))
	})
	r.Explore("base multiples", func(x *mc.X) {
		s := ks[x.Choose(len(ks))]
		c := code[x.Choose(2)]
		var got []byte
		x.Call("Point_mulBaseG", func() { got = owcrypt.Point_mulBaseG(b32(s.V), c) })
		x.State(s.V, got)
		if s.V.Sign() == 0 {
			x.Assert(got == nil, "base-zero", "BLS Point_mulBaseG(0) = %s", mc.Hex(got))
			return
		}
		x.Eq(got, ref.B1.Comp(ref.B1.Base(s.V)), "base", "BLS Point_mulBaseG(%s)", s.Name)
	})
}

func minusOne() ref.F12 {
	// the only other square root of one: (p-1) in the lowest coefficient
	b := make([]byte, 576)
	new(big.Int).Sub(ref.BlsP, bi(1)).FillBytes(b[528:])
	v, _ := ref.F12Dec(b)
	return v
}

// xorStream is a key stream of fixed bytes.
type xorStream struct{ b []byte }

func (s *xorStream) XORKeyStream(dst, src []byte) {
	for i := range src {
		dst[i] = src[i] ^ s.b[0]
		s.b = s.b[1:]
	}
}

// pipe is a reader that returns n bytes at a time, and a writer; both fail
// after limit bytes.
type pipe struct {
	n, limit int
	late     bool
	data     []byte
}

func (p *pipe) Read(b []byte) (int, error) {
	k := min(p.n, len(b), p.limit, len(p.data))
	copy(b, p.data[:k])
	p.limit -= k
	p.data = p.data[k:]
	if p.limit == 0 && (k == 0 || p.late) {
		return k, errors.New("broken")
	}
	return k, nil
}

func (p *pipe) Write(b []byte) (int, error) {
	k := min(len(b), p.limit)
	p.data = append(p.data, b[:k]...)
	p.limit -= k
	if k < len(b) {
		return k, errors.New("broken")
	}
	return k, nil
}
