// C16: Pasta fields, the Pallas group and the Poseidon sponge.
package main

import (
	"encoding/hex"
	"fmt"
	"math/big"
	"math/bits"
	"time"
	"verifharness/kit"
	"verifharness/mc"
	"verifharness/ref"

	owcrypt "github.com/blocktree/go-owcrypt"
	p "github.com/blocktree/go-owcrypt/pasta"
)

type L = [4]uint64

func bi(v int64) *big.Int { return big.NewInt(v) }

// field binds the operations of one field to its modulus.
type field struct {
	name                  string
	m                     *big.Int
	add, sub, mul         func(*L, L, L)
	sq, opp, from, to, cp func(*L, L)
	nz                    func(*uint64, L)
	sel                   func(o *L, c uint64, a, b L)
	tob                   func(*[32]byte, L)
	fromb                 func(*L, [32]byte)
	one, pre              func(*L)
	msat                  func(*[5]uint64)
	eq                    func(a, b L) bool
	step                  func(*uint64, *[5]uint64, *[5]uint64, *L, *L, uint64, [5]uint64, [5]uint64, L, L)
	addc, subb            func(c, a, b uint64) (uint64, uint64)
	mulx                  func(a, b uint64) (lo, hi uint64)
	cmov                  func(c, a, b uint64) uint64
	be                    func([]byte) L
	tobe                  func(L) []byte
}

var fp = field{name: "Fp", m: ref.Pallas.P, add: p.FiatPastaFpAdd, sub: p.FiatPastaFpSub, mul: p.FiatPastaFpMul,
	sq: p.FiatPastaFpSquare, opp: p.FiatPastaFpOpp, from: p.FiatPastaFpFromMontgomery, to: p.FiatPastaFpToMontgomery, cp: p.FiatPastaFpCopy,
	nz: p.FiatPastaFpNonZero, sel: func(o *L, c uint64, a, b L) { p.FiatPastaFpSelectZnz(o, p.FiatPastaFpUint1(c), a, b) },
	tob: p.FiatPastaFpToBytes, fromb: p.FiatPastaFpFromBytes, one: p.FiatPastaFpSetOne, pre: p.FiatPastaFpDivStepPreComp,
	msat: p.FiatPastaFpMSat, eq: p.FiatPastaFpEquals, step: p.FiatPastaFpDivStep,
	addc: func(c, a, b uint64) (o, q uint64) {
		var k p.FiatPastaFpUint1
		p.FiatPastaFpAddCarryXU64(&o, &k, p.FiatPastaFpUint1(c), a, b)
		return o, uint64(k)
	},
	subb: func(c, a, b uint64) (o, q uint64) {
		var k p.FiatPastaFpUint1
		p.FiatPastaFpSubBorrowXU64(&o, &k, p.FiatPastaFpUint1(c), a, b)
		return o, uint64(k)
	},
	mulx: func(a, b uint64) (lo, hi uint64) { p.FiatPastaFpMulXU64(&lo, &hi, a, b); return },
	cmov: func(c, a, b uint64) (o uint64) { p.FiatPastaFpCmovznzU64(&o, p.FiatPastaFpUint1(c), a, b); return },
	be:   p.BigEndianBytesToFpMontgomeryArray, tobe: p.FpMontgomeryArrayToBigEndianBytes}

var fq = field{name: "Fq", m: ref.Pallas.N, add: p.FiatPastaFqAdd, sub: p.FiatPastaFqSub, mul: p.FiatPastaFqMul,
	sq: p.FiatPastaFqSquare, opp: p.FiatPastaFqOpp, from: p.FiatPastaFqFromMontgomery, to: p.FiatPastaFqToMontgomery, cp: p.FiatPastaFqCopy,
	nz: p.FiatPastaFqNonZero, sel: func(o *L, c uint64, a, b L) { p.FiatPastaFqSelectZnz(o, p.FiatPastaFqUint1(c), a, b) },
	tob: p.FiatPastaFqToBytes, fromb: p.FiatPastaFqFromBytes, one: p.FiatPastaFqSetOne, pre: p.FiatPastaFqDivStepPreComp,
	msat: p.FiatPastaFqMSat, eq: p.FiatPastaFqEquals, step: p.FiatPastaFqDivStep,
	addc: func(c, a, b uint64) (o, q uint64) {
		var k p.FiatPastaFqUint1
		p.FiatPastaFqAddCarryXU64(&o, &k, p.FiatPastaFqUint1(c), a, b)
		return o, uint64(k)
	},
	subb: func(c, a, b uint64) (o, q uint64) {
		var k p.FiatPastaFqUint1
		p.FiatPastaFqSubBorrowXU64(&o, &k, p.FiatPastaFqUint1(c), a, b)
		return o, uint64(k)
	},
	mulx: func(a, b uint64) (lo, hi uint64) { p.FiatPastaFqMulXU64(&lo, &hi, a, b); return },
	cmov: func(c, a, b uint64) (o uint64) { p.FiatPastaFqCmovznzU64(&o, p.FiatPastaFqUint1(c), a, b); return },
	be:   p.BigEndianBytesToFqMontgomeryArray, tobe: p.FqMontgomeryArrayToBigEndianBytes}

func mod(v, m *big.Int) *big.Int { return v.Mod(v, m) }
func div2k(v *big.Int, m *big.Int) *big.Int {
	r := new(big.Int).ModInverse(new(big.Int).Lsh(bi(1), 256), m)
	return mod(r.Mul(r, v), m)
}

func words(f field, r *mc.Run) {
	var ws []uint64
	for i := uint(0); i < 64; i += uint(r.N(8, 1)) {
		ws = append(ws, 1<<i, 1<<i-1, -uint64(1<<i))
	}
	ws = append(ws, 3, 5, 0xaaaaaaaaaaaaaaaa, 0x5555555555555555, 0x992d30ed00000001, 0x992d30ecffffffff, 0x8c46eb20ffffffff)
	r.Explore(f.name+": words", func(x *mc.X) {
		a := ws[x.Choose(len(ws))]
		for _, b := range ws {
			for c := uint64(0); c < 2; c++ {
				s, k := f.addc(c, a, b)
				ws, wk := bits.Add64(a, b, c)
				d, q := f.subb(c, a, b)
				wd, wq := bits.Sub64(a, b, c)
				lo, hi := f.mulx(a, b)
				wh, wl := bits.Mul64(a, b)
				v := f.cmov(c, a, b)
				x.State(f.name, a, b, c, s, k, d, q, lo, hi, v)
				x.Assert(s == ws && k == wk, "addcarry/"+f.name, "%s: %#x + %#x + %d = %#x carry %d", f.name, a, b, c, s, k)
				x.Assert(d == wd && q == wq, "subborrow/"+f.name, "%s: %#x - %#x - %d = %#x borrow %d", f.name, a, b, c, d, q)
				x.Assert(lo == wl && hi == wh, "mulx/"+f.name, "%s: %#x * %#x = %#x:%#x", f.name, a, b, hi, lo)
				x.Assert(v == [2]uint64{a, b}[c], "cmov/"+f.name, "%s: cmov(%d, %#x, %#x) = %#x", f.name, c, a, b, v)
			}
		}
		x.Log("%s words with %#x", f.name, a)
	})
}

func fieldOps(f field, r *mc.Run) {
	vals := kit.PastaValues(f.m, r.Thorough())
	limbs := make([]L, len(vals))
	for i, v := range vals {
		limbs[i] = kit.Limbs(v)
	}
	r.Explore(f.name+": pairs", func(x *mc.X) {
		i := x.Choose(len(vals))
		a := vals[i]
		for j, b := range vals {
			var s, d, m L
			f.add(&s, limbs[i], limbs[j])
			f.sub(&d, limbs[i], limbs[j])
			f.mul(&m, limbs[i], limbs[j])
			x.State(f.name, i, j, s[:], d[:], m[:])
			chk := func(op string, got L, want *big.Int) {
				x.Assert(got == kit.Limbs(want), op+"/"+f.name, "%s: %x %s %x = %x, want %x", f.name, a, op, b, kit.FromLimbs(got), want)
			}
			chk("add", s, mod(new(big.Int).Add(a, b), f.m))
			chk("sub", d, mod(new(big.Int).Sub(a, b), f.m))
			chk("mul", m, div2k(new(big.Int).Mul(a, b), f.m))
			x.Assert(f.eq(limbs[i], limbs[j]) == (i == j), "equals/"+f.name, "%s: Equals(%x, %x)", f.name, a, b)
			var o L
			for c := uint64(0); c < 2; c++ {
				f.sel(&o, c, limbs[i], limbs[j])
				x.Assert(o == [2]L{limbs[i], limbs[j]}[c], "select/"+f.name, "%s: SelectZnz(%d, %x, %x) = %x", f.name, c, a, b, kit.FromLimbs(o))
			}
		}
		x.Log("%s %x with every value", f.name, a)
	})
	r.Explore(f.name+": unary", func(x *mc.X) {
		i := x.Choose(len(vals))
		a, l := vals[i], limbs[i]
		var o L
		chk := func(op string, want *big.Int) {
			x.State(f.name, op, i, o[:])
			x.Assert(o == kit.Limbs(want), op+"/"+f.name, "%s: %s(%x) = %x, want %x", f.name, op, a, kit.FromLimbs(o), want)
			o = L{9, 9, 9, 9}
		}
		f.sq(&o, l)
		chk("square", div2k(new(big.Int).Mul(a, a), f.m))
		f.opp(&o, l)
		chk("opp", mod(new(big.Int).Neg(a), f.m))
		f.from(&o, l)
		chk("fromMontgomery", div2k(a, f.m))
		f.to(&o, l)
		chk("toMontgomery", mod(new(big.Int).Lsh(a, 256), f.m))
		f.cp(&o, l)
		chk("copy", a)
		f.one(&o)
		chk("one", mod(new(big.Int).Lsh(bi(1), 256), f.m))
		var nz uint64
		f.nz(&nz, l)
		x.Assert(nz != 0 == (a.Sign() != 0), "nonzero/"+f.name, "%s: NonZero(%x) = %#x", f.name, a, nz)
		var b [32]byte
		f.tob(&b, l)
		var le [32]byte
		copy(le[:], ref.B32(a))
		for k := 0; k < 16; k++ {
			le[k], le[31-k] = le[31-k], le[k]
		}
		x.Eq(b[:], le[:], "toBytes/"+f.name, "%s: ToBytes(%x)", f.name, a)
		f.fromb(&o, le)
		chk("fromBytes", a)
		// whole-array conversions, and big-endian bytes through them
		x.Assert(p.BytesArrayToU64Array(le) == l, "bytesToLimbs", "BytesArrayToU64Array(%x)", le)
		x.Assert(p.U64ArrayToBytesArray(l) == le, "limbsToBytes", "U64ArrayToBytesArray(%x)", le)
		o = f.be(ref.B32(a))
		chk("fromBigEndian", mod(new(big.Int).Lsh(a, 256), f.m))
		x.Eq(f.tobe(l), ref.B32(div2k(a, f.m)), "toBigEndian/"+f.name, "%s: big-endian bytes of the limbs %x", f.name, a)
	})
	// any 256-bit value is reduced on the way in
	r.Explore(f.name+": reduction of inputs", func(x *mc.X) {
		k, d := x.Choose(4), x.Choose(9)-4
		v := new(big.Int).Mul(f.m, bi(int64(k)))
		if k == 0 {
			v = new(big.Int).Lsh(bi(1), 256)
			d -= 5
		}
		v.Add(v, bi(int64(d)))
		if v.Sign() < 0 || v.BitLen() > 256 {
			return
		}
		o := f.be(ref.B32(v))
		x.State(f.name, o[:])
		x.Assert(o == kit.ToMont(v, f.m), "reduce/"+f.name, "%s: %x is read as %x", f.name, v, kit.FromMont(o, f.m))
	})
	// Bernstein-Yang inversion, each step against the definition
	r.Explore(f.name+": divsteps", func(x *mc.X) {
		i := x.Choose(len(vals))
		if i%r.N(4, 1) != 0 && i > 12 {
			return
		}
		a := vals[i]
		var ms, g5 [5]uint64
		f.msat(&ms)
		x.Assert(int5(ms).Cmp(f.m) == 0, "msat/"+f.name, "%s: MSat = %x", f.name, int5(ms))
		copy(g5[:4], limbs[i][:])
		var v, one L
		f.one(&one)
		d, fl, gl, vl, rl := uint64(1), ms, g5, v, one
		D, F, G, V, R := int64(1), new(big.Int).Set(f.m), new(big.Int).Set(a), bi(0), bi(1)
		const n = (49*255 + 57) / 17
		for s := 0; s < n; s++ {
			var d2 uint64
			var f2, g2 [5]uint64
			var v2, r2 L
			f.step(&d2, &f2, &g2, &v2, &r2, d, fl, gl, vl, rl)
			d, fl, gl, vl, rl = d2, f2, g2, v2, r2
			odd := G.Bit(0) == 1
			if D > 0 && odd {
				D = 1 - D
				nf := new(big.Int).Set(G)
				G.Sub(G, F)
				nv := new(big.Int).Lsh(R, 1)
				R.Sub(R, V)
				F, V = nf, nv
			} else {
				D = 1 + D
				if odd {
					G.Add(G, F)
					R.Add(R, V)
				}
				V.Lsh(V, 1)
			}
			G.Rsh(G, 1)
			mod(V, f.m)
			mod(R, f.m)
			if int64(d) != D || int5(fl).Cmp(F) != 0 || int5(gl).Cmp(G) != 0 || vl != kit.ToMont(V, f.m) || rl != kit.ToMont(R, f.m) {
				x.Fail("divstep/"+f.name, "%s: divstep %d for %x: d=%d f=%x g=%x v=%x r=%x, want d=%d f=%x g=%x v=%x r=%x", f.name, s+1, a,
					int64(d), int5(fl), int5(gl), kit.FromMont(vl, f.m), kit.FromMont(rl, f.m), D, F, G, V, R)
			}
		}
		if a.Sign() == 0 {
			return
		}
		var pre, out L
		f.pre(&pre)
		if fl[4]>>63 == 1 {
			f.opp(&vl, vl)
		}
		f.mul(&out, vl, pre)
		x.State(f.name, i, out[:])
		x.Assert(out == kit.ToMont(new(big.Int).ModInverse(a, f.m), f.m), "bernstein-yang/"+f.name, "%s: the inverse of %x is %x", f.name, a, kit.FromMont(out, f.m))
	})
}

// int5 is the two's complement value of five words.
func int5(w [5]uint64) *big.Int {
	v := new(big.Int).SetInt64(int64(w[4]))
	for i := 3; i >= 0; i-- {
		v.Lsh(v, 64)
		v.Add(v, new(big.Int).SetUint64(w[i]))
	}
	return v
}

var P, N = ref.Pallas.P, ref.Pallas.N

func baseField(r *mc.Run) {
	vals := kit.PastaValues(P, r.Thorough())
	// elements of every two-power order, and with every 2-adic tail of their discrete logarithm
	root := new(big.Int).Exp(bi(5), new(big.Int).Rsh(new(big.Int).Sub(P, bi(1)), 32), P)
	w := root
	var sq []*big.Int
	sq = append(sq, vals...)
	for i := 0; i <= 32; i++ {
		sq = append(sq, w, mod(new(big.Int).Mul(w, bi(9)), P), mod(new(big.Int).Mul(w, bi(5)), P), mod(new(big.Int).Mul(w, root), P))
		w = mod(new(big.Int).Mul(w, w), P)
	}
	for i := int64(0); i < int64(r.N(64, 2048)); i++ {
		sq = append(sq, bi(4+i), new(big.Int).Sub(P, bi(4+i)), new(big.Int).Exp(root, bi(i+2), P))
	}
	half := new(big.Int).Rsh(P, 1)
	r.Explore("square roots", func(x *mc.X) {
		v := sq[x.Choose(len(sq))]
		l := kit.ToMont(v, P)
		e := new(big.Int).Exp(v, half, P)
		want := map[bool]int{true: 1, false: -1}[e.Cmp(bi(1)) == 0]
		if v.Sign() == 0 {
			want = 0
		}
		var o L
		var ok bool
		var leg int
		x.Call("FiatPastaFpSqrt", func() { ok = p.FiatPastaFpSqrt(&o, l) })
		x.Call("FiatPastaFpLegendRe", func() { leg = p.FiatPastaFpLegendRe(l) })
		x.State(v.Bytes(), ok, o[:], leg)
		x.Assert(leg == want, "legendre", "Legendre(%x) = %d, want %d", v, leg, want)
		x.Assert(ok == (want >= 0), "sqrt-exists", "Sqrt(%x) = %v", v, ok)
		if ok {
			s := kit.FromMont(o, P)
			x.Assert(kit.FromLimbs(o).Cmp(P) < 0 && mod(s.Mul(s, s), P).Cmp(v) == 0, "sqrt", "Sqrt(%x) = %x", v, kit.FromMont(o, P))
		}
		if v.Sign() != 0 {
			var f p.Field
			x.Call("FiatPastaFpInv", func() { p.FiatPastaFpInv(&o, l) })
			x.Call("FieldInv", func() { p.FieldInv(&f, l) })
			x.Assert(o == kit.ToMont(new(big.Int).ModInverse(v, P), P) && f == p.Field(o), "inverse", "Inv(%x) = %x", v, kit.FromMont(o, P))
		}
		x.Assert(p.FiatPastaFpEqualsZero(l) == (v.Sign() == 0), "equalszero", "EqualsZero(%x)", v)
		x.Assert(p.FiatPastaFpEqualsOne(l) == (v.Cmp(bi(1)) == 0), "equalsone", "EqualsOne(%x)", v)
		x.Assert(p.FieldIsOdd(l) == (v.Bit(0) == 1), "odd", "FieldIsOdd(%x)", v)
	})
	some := append(append([]*big.Int{}, vals[:10]...), vals[len(vals)-4:]...)
	r.Explore("powers", func(x *mc.X) {
		v := some[x.Choose(len(some))]
		n := x.Choose(r.N(7, 10))
		for e := 0; e < 1<<n; e++ {
			var b []bool
			for i := n - 1; i >= 0; i-- {
				b = append(b, e>>i&1 == 1)
			}
			var o L
			p.FiatPastaFpPow(&o, kit.ToMont(v, P), b, n)
			x.State(v.Bytes(), n, e, o[:])
			x.Assert(o == kit.ToMont(new(big.Int).Exp(v, bi(int64(e)), P), P), "pow", "Pow(%x, %d in %d bits) = %x", v, e, n, kit.FromMont(o, P))
		}
		if n == 0 {
			for e := 0; e < 256; e++ {
				var o p.Field
				p.FieldPow(&o, kit.PField(v), uint8(e))
				x.State(v.Bytes(), e, L(o))
				x.Assert(o == kit.PField(new(big.Int).Exp(v, bi(int64(e)), P)), "fieldpow", "FieldPow(%x, %d) = %x", v, e, kit.FromMont(o, P))
			}
		}
	})
	r.Explore("wrappers", func(x *mc.X) {
		a, b := some[x.Choose(len(some))], some[x.Choose(len(some))]
		A, B, C, D := kit.PField(a), kit.PField(b), kit.PScalar(a), kit.PScalar(b)
		type op struct {
			name string
			f    func(o *p.Field)
			s    func(o *p.Scalar)
			v    *big.Int
		}
		for _, o := range []op{
			{"add", func(o *p.Field) { p.FieldAdd(o, A, B) }, func(o *p.Scalar) { p.ScalarAdd(o, C, D) }, new(big.Int).Add(a, b)},
			{"sub", func(o *p.Field) { p.FieldSub(o, A, B) }, func(o *p.Scalar) { p.ScalarSub(o, C, D) }, new(big.Int).Sub(a, b)},
			{"mul", func(o *p.Field) { p.FieldMul(o, A, B) }, func(o *p.Scalar) { p.ScalarMul(o, C, D) }, new(big.Int).Mul(a, b)},
			{"square", func(o *p.Field) { p.FieldSq(o, A) }, func(o *p.Scalar) { p.ScalarSq(o, C) }, new(big.Int).Mul(a, a)},
			{"negate", func(o *p.Field) { p.FieldNegate(o, A) }, func(o *p.Scalar) { p.ScalarNegate(o, C) }, new(big.Int).Neg(a)},
			{"copy", func(o *p.Field) { p.FieldCopy(o, A) }, func(o *p.Scalar) { p.ScalarCopy(o, C) }, a}} {
			var f p.Field
			var s p.Scalar
			o.f(&f)
			o.s(&s)
			x.State(o.name, L(f), L(s))
			x.Assert(f == kit.PField(o.v), "field-"+o.name, "Field %s(%x, %x) = %x", o.name, a, b, kit.FromMont(f, P))
			x.Assert(s == kit.PScalar(o.v), "scalar-"+o.name, "Scalar %s(%x, %x) = %x", o.name, a, b, kit.FromMont(s, N))
		}
		fe := p.FieldEq(A, B)
		x.Assert(fe == 1 == (a.Cmp(b) == 0) && fe <= 1, "field-eq", "FieldEq(%x, %x) = %d", a, b, fe)
		x.Assert(p.ScalarEq(C, D) == (mod(new(big.Int).Sub(a, b), N).Sign() == 0), "scalar-eq", "ScalarEq(%x, %x)", a, b)
	})
	r.Explore("hex", func(x *mc.X) {
		v := vals[x.Choose(len(vals))]
		le := ref.B32(v)
		for k := 0; k < 16; k++ {
			le[k], le[31-k] = le[31-k], le[k]
		}
		var f p.Field
		var s p.Scalar
		ok := p.FieldFromHex(&f, hex.EncodeToString(le))
		ok2 := p.ScalarFromHex(&s, hex.EncodeToString(le))
		small := v.BitLen() <= 254
		x.State(le, ok, ok2, L(f), L(s))
		x.Assert(ok == small && ok2 == small, "hex-range", "FromHex(%x) = %v, %v", le, ok, ok2)
		if small {
			x.Assert(f == kit.PField(v) && s == kit.PScalar(v), "hex-value", "FromHex(%x) = %x, %x", le, kit.FromMont(f, P), kit.FromMont(s, N))
			x.Eq(f.ToBigEndianBytes(), ref.B32(kit.FromLimbs(f)), "field-bytes", "Field bytes")
		}
		for n := 0; n <= 66; n++ {
			h := (hex.EncodeToString(le) + "00")[:n]
			if n != 64 {
				x.Assert(!p.FieldFromHex(&f, h) && !p.ScalarFromHex(&s, h), "hex-length", "FromHex accepts %d digits", n)
			}
		}
		h := []byte(hex.EncodeToString(le))
		for i := range h {
			c := h[i]
			h[i] = 'g'
			x.Assert(!p.FieldFromHex(&f, string(h)) && !p.ScalarFromHex(&s, string(h)), "hex-digit", "FromHex accepts %s", h)
			h[i] = c
		}
		for t := uint64(0); t < 4; t++ {
			w := kit.Limbs(v)
			w[3] = w[3]&(1<<62-1) | t<<62
			p.ScalarFromWords(&s, w)
			w[3] &= 1<<62 - 1
			x.Assert(s == kit.PScalar(kit.FromLimbs(w)), "words", "ScalarFromWords(%x)", w)
		}
	})
}

// loadA and loadG make library points; z is the projective scale.
func loadA(q ref.Pt) (a p.Affine) {
	if !q.Inf {
		a.X, a.Y = kit.PField(q.X), kit.PField(q.Y)
	}
	return
}

func loadG(q ref.Pt, z *big.Int) (g p.Group) {
	if q.Inf {
		// infinity is any point with a zero third coordinate
		z2 := mod(new(big.Int).Mul(z, z), P)
		return p.Group{X: kit.PField(mod(new(big.Int).Sub(z2, bi(1)), P)), Y: kit.PField(mod(z2.Mul(z2, z), P))}
	}
	z2 := mod(new(big.Int).Mul(z, z), P)
	z3 := mod(new(big.Int).Mul(z2, z), P)
	return p.Group{X: kit.PField(z2.Mul(z2, q.X)), Y: kit.PField(z3.Mul(z3, q.Y)), Z: kit.PField(z)}
}

func same(x *mc.X, key string, a p.Affine, want ref.Pt, f string, args ...any) {
	x.State(key, L(a.X), L(a.Y))
	if a != loadA(want) {
		x.Fail(key, "%s: got (%x, %x), want (%x, %x) infinity=%v", fmt.Sprintf(f, args...), kit.FromMont(a.X, P), kit.FromMont(a.Y, P), want.X, want.Y, want.Inf)
	}
}

func norm(g p.Group) (a p.Affine) { p.AffineFromGroup(&a, g); return }

func group(r *mc.Run) {
	c := ref.Pallas
	pts := kit.Points(c, r.N(6, 12))
	pts = append(pts, kit.P{Pt: ref.Inf, Name: "O"})
	zs := []*big.Int{bi(1), bi(2), new(big.Int).Sub(P, bi(1)), mod(new(big.Int).Lsh(bi(1), 256), P), mod(ref.I(kit.Stream("z", 32)), P)}
	r.Explore("projective pairs", func(x *mc.X) {
		a := pts[x.Choose(len(pts))]
		z := zs[x.Choose(r.N(3, len(zs)))]
		ga := loadG(a.Pt, z)
		for _, b := range pts {
			for _, y := range zs[:r.N(3, len(zs))] {
				gb := loadG(b.Pt, y)
				var o p.Group
				x.Call("GroupAdd", func() { p.GroupAdd(&o, ga, gb) })
				same(x, "groupadd", norm(o), c.Add(a.Pt, b.Pt), "GroupAdd(%s z=%x, %s z=%x)", a.Name, z, b.Name, y)
			}
			var o p.Affine
			p.AffineAdd(&o, loadA(a.Pt), loadA(b.Pt))
			same(x, "affineadd", o, c.Add(a.Pt, b.Pt), "AffineAdd(%s, %s)", a.Name, b.Name)
			x.Assert(p.AffineEq(loadA(a.Pt), loadA(b.Pt)) == (a.Inf == b.Inf && a.X.Cmp(b.X) == 0 && a.Y.Cmp(b.Y) == 0), "affineeq", "AffineEq(%s, %s)", a.Name, b.Name)
		}
		var o p.Group
		x.Call("GroupDbl", func() { p.GroupDbl(&o, ga) })
		same(x, "groupdbl", norm(o), c.Add(a.Pt, a.Pt), "GroupDbl(%s z=%x)", a.Name, z)
		p.GroupNegate(&o, ga)
		same(x, "groupnegate", norm(o), c.Neg(a.Pt), "GroupNegate(%s z=%x)", a.Name, z)
		var na p.Affine
		p.AffineNegate(&na, loadA(a.Pt))
		same(x, "affinenegate", na, c.Neg(a.Pt), "AffineNegate(%s)", a.Name)
		x.Assert(p.IsZero(ga) == map[bool]uint{true: 1}[a.Inf] && p.AffineIsZero(loadA(a.Pt)) == p.IsZero(ga), "iszero", "IsZero(%s)", a.Name)
		x.Assert(p.GroupIsOnCurve(ga) == 1 && p.AffineIsOnCurve(loadA(a.Pt)), "oncurve", "%s z=%x is not on the curve", a.Name, z)
		if !a.Inf {
			for i := 0; i < 3; i++ {
				g := ga
				f := []*p.Field{&g.X, &g.Y, &g.Z}[i]
				p.FieldAdd(f, *f, p.FieldOne)
				bad := kit.FromMont(*f, P)
				gx, gy, gz := kit.FromMont(g.X, P), kit.FromMont(g.Y, P), kit.FromMont(g.Z, P)
				l := mod(new(big.Int).Mul(gy, gy), P)
				rr := new(big.Int).Exp(gx, bi(3), P)
				t := new(big.Int).Exp(gz, bi(6), P)
				rr.Add(rr, t.Mul(t, bi(5)))
				want := gz.Sign() == 0 || l.Cmp(mod(rr, P)) == 0
				x.Assert(p.GroupIsOnCurve(g) == 1 == want, "oncurve-accepts", "%s z=%x with coordinate %d changed to %x: on the curve %v", a.Name, z, i, bad, !want)
			}
		}
	})
	r.Explore("projective chains", func(x *mc.X) {
		// sums in whatever representation the operations leave them
		a := pts[[]int{0, 1, 4, 7}[x.Choose(4)]]
		cur, g := a.Pt, loadG(a.Pt, zs[x.Choose(3)])
		for i := 0; i < r.N(4, 6); i++ {
			switch x.Choose(5) {
			case 0:
				p.GroupDbl(&g, g)
				cur = c.Add(cur, cur)
			case 1:
				p.GroupAdd(&g, g, loadG(a.Pt, bi(1)))
				cur = c.Add(cur, a.Pt)
			case 2:
				p.GroupAdd(&g, loadG(c.Neg(a.Pt), zs[4]), g)
				cur = c.Add(cur, c.Neg(a.Pt))
			case 3:
				p.GroupNegate(&g, g)
				cur = c.Neg(cur)
			case 4:
				var o p.Group
				p.GroupScalarMul(&o, kit.PScalar(bi(5)), g)
				g, cur = o, c.Mul(cur, bi(5))
			}
			same(x, "chain", norm(g), cur, "step %d from %s", i, a.Name)
			x.Assert(p.IsZero(g) == 1 == cur.Inf, "chain-zero", "IsZero after step %d from %s", i, a.Name)
		}
	})
	scs := kit.Scalars(c)
	r.Explore("projective multiples", func(x *mc.X) {
		s := scs[x.Choose(len(scs))]
		k := mod(new(big.Int).Set(s.V), N)
		for i, j := range []int{0, 3, 8, len(pts) - 1} {
			q := pts[j]
			var o p.Group
			x.Call("GroupScalarMul", func() { p.GroupScalarMul(&o, kit.PScalar(k), loadG(q.Pt, zs[i%len(zs)])) })
			same(x, "groupmul", norm(o), c.Mul(q.Pt, k), "%s * (%s z=%x)", s.Name, q.Name, zs[i])
			if !r.Thorough() && i > 1 {
				break
			}
		}
		var a p.Affine
		x.Call("GeneratePubkey", func() { p.GeneratePubkey(&a, kit.PScalar(k)) })
		same(x, "generate", a, c.MulBase(k), "GeneratePubkey(%s)", s.Name)
		p.AffineScalarMul(&a, kit.PScalar(k), loadA(pts[2].Pt))
		same(x, "affinemul", a, c.Mul(pts[2].Pt, k), "%s * (%s)", s.Name, pts[2].Name)
	})
	r.Explore("encodings", func(x *mc.X) {
		q := pts[x.Choose(len(pts)-1)]
		a := loadA(q.Pt)
		e := c.Enc(q.Pt)
		x.Eq(a.ToBigEndianBytes(), e, "encode", "encoding of %s", q.Name)
		x.Eq(a.ToBigEndianMontgomeryBytes(), append(ref.B32(kit.FromLimbs(a.X)), ref.B32(kit.FromLimbs(a.Y))...), "encode-mont", "limbs of %s", q.Name)
		for _, f := range [][]byte{e, append([]byte{4}, e...), c.Comp(q.Pt)} {
			var b p.Affine
			var err error
			x.Call("FromBigEndianBytes", func() { err = b.FromBigEndianBytes(f) })
			x.Assert(err == nil && b == a, "decode", "decoding %x: %v", f, err)
		}
		var cc, dd p.Compressed
		p.Compress(&cc, a)
		x.Assert(cc.IsOdd == (q.Y.Bit(0) == 1), "compress-parity", "parity of %s", q.Name)
		x.Eq(cc.ToBigEndianBytes(), c.Comp(q.Pt), "compress", "compression of %s", q.Name)
		err := dd.FromBigEndianBytes(c.Comp(q.Pt))
		x.Assert(err == nil && dd == cc, "compressed-decode", "compressed bytes of %s: %v", q.Name, err)
		var b p.Affine
		ok := p.Decompress(&b, cc)
		x.Assert(ok && b == a, "decompress", "Decompress(Compress(%s))", q.Name)
		var g p.Group
		p.AffineToGroup(&g, a)
		same(x, "affinetogroup", norm(g), q.Pt, "AffineToGroup(%s)", q.Name)
		p.GroupOne(&g)
		same(x, "groupone", norm(g), c.G(), "GroupOne")
	})
	r.Explore("small abscissas", func(x *mc.X) {
		i := x.Choose(r.N(32, 512))
		for j := 8 * i; j < 8*i+8; j++ {
			for s := 0; s < 2; s++ {
				v := bi(int64(j))
				if s == 1 {
					v = new(big.Int).Sub(P, bi(int64(j+1)))
				}
				for _, odd := range []bool{false, true} {
					q, on := c.Lift(v, map[bool]uint{true: 1}[odd])
					var a p.Affine
					ok := p.Decompress(&a, p.Compressed{X: kit.PField(v), IsOdd: odd})
					x.State(v.Bytes(), odd, ok)
					x.Assert(ok == on && (!on || a == loadA(q)), "lift", "Decompress(%x, odd=%v) = %v", v, odd, ok)
				}
			}
		}
	})
}

func poseidon(r *mc.Run) {
	vals := kit.PastaValues(P, false)
	zero := [3]*big.Int{bi(0), bi(0), bi(0)}
	iv := func(f []p.Field) (o [3]*big.Int) {
		for i := range o {
			o[i] = kit.FromMont(f[i], P)
		}
		return
	}
	odd := []p.Field{kit.PField(vals[len(vals)-1]), kit.PField(bi(-1)), kit.PField(bi(1))}
	ivs := []struct {
		f []p.Field
		v [3]*big.Int
	}{{nil, zero}, {p.TestnetIV3W[:], iv(p.TestnetIV3W[:])}, {p.MainnetIV3W[:], iv(p.MainnetIV3W[:])}, {odd, iv(odd)}, {make([]p.Field, 3), zero}}
	in := func(i int) *big.Int { return vals[(i*7+3)%len(vals)] }
	r.Explore("domain states", func(x *mc.X) {
		// the initial states are the permutation of the padded domain name
		for _, d := range []struct {
			name string
			iv   [3]p.Field
		}{{"CodaSignature*******", p.TestnetIV3W}, {"MinaSignatureMainnet", p.MainnetIV3W}} {
			var b [32]byte
			for i, c := range []byte(d.name) {
				b[31-i] = c
			}
			s := ref.PoseidonPerm([3]*big.Int{ref.I(b[:]), bi(0), bi(0)})
			for i := range s {
				x.State(d.name, L(d.iv[i]))
				x.Assert(kit.PField(s[i]) == d.iv[i], "domain-state", "%s: element %d of the initial state is %x, want %x", d.name, i, kit.FromMont(d.iv[i], P), s[i])
			}
		}
	})
	r.Explore("permutation", func(x *mc.X) {
		var s [3]*big.Int
		ctx := p.NewPoseidonCtx3W()
		for i := range s {
			s[i] = []*big.Int{bi(0), bi(1), new(big.Int).Sub(P, bi(1)), vals[len(vals)-1-i]}[x.Choose(4)]
			ctx.State[i] = kit.PField(s[i])
		}
		x.Call("PerMutation", func() { ctx.PerMutation(&ctx) })
		w := ref.PoseidonPerm(s)
		for i := range w {
			x.State(i, L(ctx.State[i]))
			x.Assert(ctx.State[i] == kit.PField(w[i]), "permutation", "permutation of %x: word %d is %x, want %x", s, i, kit.FromMont(ctx.State[i], P), w[i])
		}
	})
	r.Explore("one element", func(x *mc.X) {
		v := vals[x.Choose(len(vals))]
		pos := x.Choose(3)
		ctx := p.Poseidon3WInit(nil)
		l := make([]*big.Int, pos+1)
		f := make([]p.Field, pos+1)
		for i := range l {
			l[i] = bi(0)
		}
		l[pos] = v
		f[pos] = kit.PField(v)
		p.PoseidonUpdate(&ctx, f)
		x.Eq(p.PoseidonDigest(&ctx), ref.B32(ref.PoseidonHash(zero, l)), "digest", "digest of %x at %d", v, pos)
		x.State(v.Bytes(), pos)
	})
	// every split of n elements over updates, with empty and nil updates between
	r.Explore("splits", func(x *mc.X) {
		v := ivs[x.Choose(len(ivs))]
		n := x.Choose(r.N(8, 11))
		ctx := p.Poseidon3WInit(v.f)
		var l []*big.Int
		var f []p.Field
		for i := 0; i < n; i++ {
			l = append(l, in(i))
			f = append(f, kit.PField(in(i)))
		}
		start := 0
		for i := 1; i <= n; i++ {
			if i == n || x.Bool() {
				x.Call("PoseidonUpdate", func() {
					p.PoseidonUpdate(&ctx, f[start:i])
					if i%3 == 1 {
						p.PoseidonUpdate(&ctx, nil)
						p.PoseidonUpdate(&ctx, f[:0])
					}
				})
				x.Log("update %d..%d", start, i)
				start = i
			}
		}
		var got []byte
		x.Call("PoseidonDigest", func() { got = p.PoseidonDigest(&ctx) })
		x.State(n, got)
		x.Eq(got, ref.B32(ref.PoseidonHash(v.v, l)), "digest", "digest of %d elements", n)
	})
	sizes := kit.Lengths(40, r.N(4097, 20001))
	r.Explore("counts", func(x *mc.X) {
		n := x.Choose(r.N(40, 200) + len(sizes))
		if j := n - r.N(40, 200); j >= 0 {
			n = sizes[j]
		}
		var l []*big.Int
		var f []p.Field
		for i := 0; i < n; i++ {
			l = append(l, in(i))
			f = append(f, kit.PField(in(i)))
		}
		ctx := p.Poseidon3WInit(p.TestnetIV3W[:])
		p.PoseidonUpdate(&ctx, f)
		got := p.PoseidonDigest(&ctx)
		x.State(n, got)
		x.Eq(got, ref.B32(ref.PoseidonHash(ivs[1].v, l)), "digest", "digest of %d elements", n)
	})
	// two sponges used in turn
	r.Explore("two sponges", func(x *mc.X) {
		c := [2]p.PoseidonCtx{p.Poseidon3WInit(ivs[x.Choose(2)].f), p.Poseidon3WInit(p.MainnetIV3W[:])}
		v := [2][3]*big.Int{iv(c[0].State[:3]), ivs[2].v}
		var l [2][]*big.Int
		for i := 0; i < r.N(6, 8); i++ {
			k := x.Choose(2)
			p.PoseidonUpdate(&c[k], []p.Field{kit.PField(in(i))})
			l[k] = append(l[k], in(i))
		}
		for k := range c {
			got := p.PoseidonDigest(&c[k])
			x.State(k, got)
			x.Eq(got, ref.B32(ref.PoseidonHash(v[k], l[k])), "interleaved", "sponge %d after interleaved updates", k)
		}
	})
	r.Explore("matrix", func(x *mc.X) {
		var s p.State
		var v [5]*big.Int
		w := x.Choose(5) + 1
		m := make([][]p.Field, w)
		for i := 0; i < w; i++ {
			v[i] = in(i + x.Choose(2))
			s[i] = kit.PField(v[i])
			for j := 0; j < w; j++ {
				m[i] = append(m[i], kit.PField(in(i*w+j)))
			}
		}
		p.MatrixMul(&s, m, w)
		for i := 0; i < w; i++ {
			t := bi(0)
			for j := 0; j < w; j++ {
				t.Add(t, new(big.Int).Mul(in(i*w+j), v[j]))
			}
			x.State(w, i, L(s[i]))
			x.Assert(s[i] == kit.PField(t), "matrix", "row %d of a %d by %d product", i, w, w)
		}
	})
}

func main() {
	mc.Main("C16", 200*time.Second, 800*time.Second, func(r *mc.Run) {
		for _, f := range []field{fp, fq} {
			words(f, r)
			fieldOps(f, r)
		}
		baseField(r)
		group(r)
		poseidon(r)
		kit.GroupLaw(r, kit.Curve{Curve: ref.Pallas, Code: owcrypt.ECC_CURVE_PASTA, Wide: true})
		r.Note("references: math/big modulo the two primes, the affine group law, and a Poseidon permutation whose parameters reproduce the published digest and the published initial states")
	})
}
