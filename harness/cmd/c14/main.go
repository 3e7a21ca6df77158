// C14: BLS12-381 groups, pairing and encodings.
package main

import (
	"bytes"
	"fmt"
	"math/big"
	"time"
	"verifharness/kit"
	"verifharness/mc"
	"verifharness/ref"

	"github.com/blocktree/go-owcrypt/bls12_381/bls"
)

func bi(v int64) *big.Int { return big.NewInt(v) }

func hx(s string) *big.Int {
	v, ok := new(big.Int).SetString(s, 16)
	if !ok {
		panic(s)
	}
	return v
}

// ops is what *bls.G1 and *bls.G2 have in common.
type ops[P any] interface {
	FromUncompressed([]byte) (*P, error)
	ToUncompressed(*P) []byte
	FromCompressed([]byte) (*P, error)
	ToCompressed(*P) []byte
	FromBytes([]byte) (*P, error)
	ToBytes(*P) []byte
	New() *P
	Zero() *P
	One() *P
	Copy(dst, src *P) *P
	IsZero(*P) bool
	Equal(a, b *P) bool
	InCorrectSubgroup(*P) bool
	IsOnCurve(*P) bool
	IsAffine(*P) bool
	Affine(*P) *P
	Add(r, a, b *P) *P
	Double(r, a *P) *P
	Neg(r, a *P) *P
	Sub(r, a, b *P) *P
	MulScalar(r, a *P, e *big.Int) *P
	ClearCofactor(*P)
	MultiExp(*P, []*P, []*big.Int) (*P, error)
	HashToCurve(msg, domain []byte) (*P, error)
	Q() *big.Int
}

// points: the identity, multiples of the generator and points off the subgroup.
func points(g *ref.BGroup) []kit.BP {
	l := []kit.BP{{BPt: ref.BPt{Inf: true}, Name: "O"}}
	lam := hx("ac45a4010001a40200000000ffffffff")
	for _, k := range []*big.Int{bi(1), bi(-1), bi(2), bi(-2), bi(3), bi(5), bi(-5), lam, new(big.Int).Mul(lam, lam), new(big.Int).Rsh(ref.BlsR, 1), new(big.Int).SetBytes(kit.Stream("pt", 31))} {
		l = append(l, kit.BP{BPt: g.Base(new(big.Int).Mod(k, ref.BlsR)), Name: fmt.Sprintf("%xG", k)})
	}
	t := kit.BlsTorsion(g)
	l = append(l, t...)
	l = append(l, kit.BP{BPt: g.Neg(t[0].BPt), Name: "-" + t[0].Name}, kit.BP{BPt: g.Add(t[1].BPt, g.G), Name: "G+" + t[1].Name})
	if g.Name == "G2" {
		// coordinates with one half zero, which the sign of an encoding depends on
		n := 0
		var real, imag int
		for b := int64(1); real == 0 || imag == 0; b++ {
			t := new(big.Int).Mul(bi(3*b), bi(1))
			t.ModInverse(t, ref.BlsP)
			t.Mul(t, bi(b*b*b-4)).Mod(t, ref.BlsP)
			a := new(big.Int).ModSqrt(t, ref.BlsP)
			if a == nil {
				continue
			}
			p, ok := g.Lift(a, bi(b))
			if !ok {
				panic("a square of the base field has no root")
			}
			raw := g.Raw(p)
			w := len(raw) / 4
			switch {
			case bytes.Equal(raw[2*w:3*w], make([]byte, w)) && real == 0:
				real++
			case bytes.Equal(raw[3*w:], make([]byte, w)) && imag == 0:
				imag++
			default:
				continue
			}
			l = append(l, kit.BP{BPt: p, Name: fmt.Sprintf("half y %d", n)}, kit.BP{BPt: g.Neg(p), Name: fmt.Sprintf("-half y %d", n)})
			n++
		}
		for k, n := 0, int64(1); k < 2; n++ {
			if p, ok := g.Lift(bi(n), bi(0)); k == 0 && ok {
				l = append(l, kit.BP{BPt: p, Name: "half x"})
				k++
			}
			if p, ok := g.Lift(bi(0), bi(n)); k == 1 && ok {
				l = append(l, kit.BP{BPt: p, Name: "other half x"})
				k++
			}
		}
	}
	return l
}

func group[P any](r *mc.Run, g *ref.BGroup, mk func() ops[P], encode func(o ops[P], msg, dst []byte) (*P, error)) {
	N := g.Name
	pts := points(g)
	// load makes a library point of value p; rep 1 is not normalised
	load := func(x *mc.X, o ops[P], p ref.BPt, rep int) *P {
		var q *P
		var err error
		x.Call("FromBytes", func() {
			q, err = o.FromBytes(g.Raw(p))
			if err == nil && rep == 1 {
				a := o.One()
				if !p.Inf && p == g.G {
					o.Double(a, a)
				}
				s := o.New()
				o.Add(s, q, a)
				o.Sub(s, s, a)
				q = s
			}
			if err == nil && rep == 2 {
				s := o.New()
				o.Double(s, q)
				q = o.Sub(o.New(), s, q)
			}
		})
		x.Assert(err == nil, "frombytes/"+N, "%s FromBytes refuses a point of the curve: %v", N, err)
		return q
	}
	is := func(x *mc.X, o ops[P], p *P, want ref.BPt, op string) {
		var got []byte
		var zero, on bool
		x.Call("ToBytes", func() {
			zero = o.IsZero(p)
			on = o.IsOnCurve(p)
			got = o.ToBytes(o.Copy(o.New(), p))
		})
		x.State(N, op, got, zero)
		if !bytes.Equal(got, g.Raw(want)) || zero != want.Inf {
			x.Fail("value/"+N, "%s %s: %s zero=%v, want %s", N, op, mc.Hex(got), zero, mc.Hex(g.Raw(want)))
		}
		x.Assert(on, "oncurve/"+N, "%s %s: IsOnCurve denies a point of the curve", N, op)
	}
	reps := 3
	r.Explore(N+" pairs", func(x *mc.X) {
		a := pts[x.Choose(len(pts))]
		b := pts[x.Choose(len(pts))]
		sum, diff, dbl, neg := g.Add(a.BPt, b.BPt), g.Add(a.BPt, g.Neg(b.BPt)), g.Add(a.BPt, a.BPt), g.Neg(a.BPt)
		for ra := 0; ra < reps; ra++ {
			for rb := 0; rb < reps; rb++ {
				o := mk()
				what := fmt.Sprintf("%s(rep %d) and %s(rep %d)", a.Name, ra, b.Name, rb)
				p := func() *P { return load(x, o, a.BPt, ra) }
				q := func() *P { return load(x, o, b.BPt, rb) }
				A, B, R := p(), q(), o.New()
				x.Call("Add", func() { o.Add(R, A, B) })
				is(x, o, R, sum, "Add of "+what)
				x.Call("Sub", func() { o.Sub(R, A, B) })
				is(x, o, R, diff, "Sub of "+what)
				var eq bool
				x.Call("Equal", func() { eq = o.Equal(A, B) })
				x.Assert(eq == (a.BPt == b.BPt), "equal/"+N, "%s Equal of %s: %v", N, what, eq)
				is(x, o, A, a.BPt, "first operand after Add, Sub, Equal of "+what)
				is(x, o, B, b.BPt, "second operand after Add, Sub, Equal of "+what)
				// the result over an operand
				A, B = p(), q()
				x.Call("Add", func() { o.Add(A, A, B) })
				is(x, o, A, sum, "Add over the first of "+what)
				is(x, o, B, b.BPt, "second operand of Add over the first of "+what)
				A = p()
				x.Call("Add", func() { o.Add(B, A, B) })
				is(x, o, B, sum, "Add over the second of "+what)
				is(x, o, A, a.BPt, "first operand of Add over the second of "+what)
				A, B = p(), q()
				x.Call("Sub", func() { o.Sub(A, A, B) })
				is(x, o, A, diff, "Sub over the first of "+what)
				A = p()
				x.Call("Sub", func() { o.Sub(B, A, B) })
				is(x, o, B, diff, "Sub over the second of "+what)
				is(x, o, A, a.BPt, "first operand of Sub over the second of "+what)
			}
			if b.Name != pts[0].Name {
				continue
			}
			o := mk()
			what := fmt.Sprintf("%s(rep %d)", a.Name, ra)
			for al := 0; al < 2; al++ {
				R, A := o.New(), load(x, o, a.BPt, ra)
				if al == 1 {
					R = A
				}
				x.Call("Double", func() { o.Double(R, A) })
				is(x, o, R, dbl, "Double of "+what)
				R, A = o.New(), load(x, o, a.BPt, ra)
				if al == 1 {
					R = A
				}
				x.Call("Neg", func() { o.Neg(R, A) })
				is(x, o, R, neg, "Neg of "+what)
				R, A = o.New(), load(x, o, a.BPt, ra)
				if al == 1 {
					R = A
				}
				x.Call("Add", func() { o.Add(R, A, A) })
				is(x, o, R, dbl, "Add to itself of "+what)
				R, A = o.New(), load(x, o, a.BPt, ra)
				if al == 1 {
					R = A
				}
				x.Call("Sub", func() { o.Sub(R, A, A) })
				is(x, o, R, ref.BPt{Inf: true}, "Sub from itself of "+what)
			}
			A := load(x, o, a.BPt, ra)
			var aff bool
			x.Call("Affine", func() { o.Affine(A); aff = o.IsAffine(A) || a.Inf })
			x.Assert(aff, "affine/"+N, "%s Affine of %s does not normalise", N, what)
			is(x, o, A, a.BPt, "Affine of "+what)
			var in bool
			x.Call("InCorrectSubgroup", func() { in = o.InCorrectSubgroup(load(x, o, a.BPt, ra)) })
			x.Assert(in == g.InGroup(a.BPt), "subgroup/"+N, "%s InCorrectSubgroup of %s: %v", N, what, in)
			A = load(x, o, a.BPt, ra)
			heff := map[string]string{"G1": "d201000000010001", "G2": "0bc69f08f2ee75b3584c6a0ea91b352888e2a8e9145ad7689986ff031508ffe1329c2f178731db956d82bf015d1212b02ec0ec69d7477c1ae954cbc06689f6a359894c0adebbf6b4e8020005aaa95551"}[N]
			x.Call("ClearCofactor", func() { o.ClearCofactor(A) })
			is(x, o, A, g.Mul(a.BPt, hx(heff)), "ClearCofactor of "+what)
			if m, ok := o.(interface{ MulByCofactor(c, p *P) }); ok {
				for al := 0; al < 2; al++ {
					R, A := o.New(), load(x, o, a.BPt, ra)
					if al == 1 {
						R = A
					}
					x.Call("MulByCofactor", func() { m.MulByCofactor(R, A) })
					is(x, o, R, g.Mul(a.BPt, hx("396c8c005555e1568c00aaab0000aaab")), "MulByCofactor of "+what)
				}
			}
			// the encodings
			A = load(x, o, a.BPt, ra)
			var c, u []byte
			x.Call("ToCompressed", func() { c = o.ToCompressed(A) })
			x.Eq(c, g.Comp(a.BPt), "compress/"+N, "%s ToCompressed of %s", N, what)
			A = load(x, o, a.BPt, ra)
			x.Call("ToUncompressed", func() { u = o.ToUncompressed(A) })
			x.Eq(u, g.Enc(a.BPt), "uncompress/"+N, "%s ToUncompressed of %s", N, what)
			is(x, o, A, a.BPt, "after encoding "+what)
		}
	})
	var sc []kit.S
	sc = append(sc, kit.BlsScalars()...)
	for _, v := range []*big.Int{ref.BlsR, new(big.Int).Add(ref.BlsR, bi(1)), new(big.Int).Lsh(ref.BlsR, 1), new(big.Int).Sub(new(big.Int).Lsh(bi(1), 256), bi(1)), new(big.Int).Lsh(bi(1), 256), new(big.Int).Add(new(big.Int).Mul(ref.BlsR, ref.BlsR), bi(2))} {
		sc = append(sc, kit.S{V: v, Name: fmt.Sprintf("%x", v)})
	}
	r.Explore(N+" multiples", func(x *mc.X) {
		a := pts[x.Choose(len(pts))]
		s := sc[x.Choose(len(sc))]
		want := g.Mul(a.BPt, s.V)
		for rep := 0; rep < reps; rep += 2 - rep%2 {
			o := mk()
			e := new(big.Int).Set(s.V)
			A, R := load(x, o, a.BPt, rep), o.New()
			x.Call("MulScalar", func() { o.MulScalar(R, A, e) })
			is(x, o, R, want, a.Name+" times "+s.Name)
			is(x, o, A, a.BPt, "operand after MulScalar of "+a.Name)
			x.Assert(e.Cmp(s.V) == 0, "scalar-changed", "%s MulScalar changes its scalar", N)
			x.Call("MulScalar", func() { o.MulScalar(A, A, e) })
			is(x, o, A, want, a.Name+" times "+s.Name+" in place")
		}
	})
	multi := func(x *mc.X, ps []ref.BPt, ks []*big.Int, rep int, what string) {
		o := mk()
		want := ref.BPt{Inf: true}
		var P []*P
		var K []*big.Int
		for i := range ps {
			want = g.Add(want, g.Mul(ps[i], ks[i]))
			P = append(P, load(x, o, ps[i], rep))
			K = append(K, new(big.Int).Set(ks[i]))
		}
		for again := 0; again < 2; again++ {
			R := o.New()
			var ret any
			var err error
			x.Call("MultiExp", func() { q, e := o.MultiExp(R, P, K); ret, err = q, e })
			x.Assert(err == nil && ret != nil, "multiexp/"+N, "%s MultiExp of %s: %v", N, what, err)
			is(x, o, R, want, fmt.Sprintf("MultiExp (run %d) of %s", again+1, what))
		}
		for i := range ps {
			is(x, o, P[i], ps[i], "operand after MultiExp of "+what)
			x.Assert(K[i].Cmp(ks[i]) == 0, "scalar-changed", "%s MultiExp changes its scalars", N)
		}
	}
	mul := []*big.Int{bi(0), bi(1), bi(7), bi(8), new(big.Int).Sub(ref.BlsR, bi(1)), new(big.Int).Mod(new(big.Int).SetBytes(kit.Stream("me", 32)), ref.BlsR)}
	r.Explore(N+" multi-exponentiation of few", func(x *mc.X) {
		n := x.Choose(r.N(3, 4))
		var ps []ref.BPt
		var ks []*big.Int
		what := ""
		for i := 0; i < n; i++ {
			p := x.Choose(5)
			k := x.Choose(len(mul))
			ps = append(ps, pts[p].BPt)
			ks = append(ks, mul[k])
			what += fmt.Sprintf("[%d]%s ", mul[k], pts[p].Name)
		}
		multi(x, ps, ks, n%2, what)
	})
	// every width of the bucket method's windows (3 below 32 terms, then the
	// logarithm of the count rounded up), and the counts where it changes
	counts := []int{4, 10, 31, 32, 33, 54, 55, 100, 148, 149, 256, 403, 404, 1025, 1097, 2981}
	if r.Thorough() {
		counts = append(counts, 999, 1000, 1001, 1024, 1096, 2980, 4096, 8103, 8104, 22027)
	}
	most := counts[len(counts)-1]
	for _, n := range counts {
		if n > most {
			most = n
		}
	}
	row := []ref.BPt{g.G}
	for len(row) < most {
		row = append(row, g.Add(row[len(row)-1], g.G))
	}
	r.Explore(N+" multi-exponentiation of many", func(x *mc.X) {
		n := counts[x.Choose(len(counts))]
		c := x.Choose(4)
		o := mk()
		sum := new(big.Int)
		mulr := new(big.Int).SetBytes(kit.Stream("multi", 32))
		var P []*P
		var K, kept []*big.Int
		for i := 0; i < n; i++ {
			k := new(big.Int)
			switch c {
			case 0:
				k.Mul(mulr, bi(int64(i)*int64(i)+3))
				k.Mod(k, ref.BlsR)
			case 1:
				k.SetInt64(int64(i))
			case 2:
				k.Sub(ref.BlsR, bi(int64(i%3+1)))
			case 3:
				// one bit each, so that every bucket of every window is met alone
				k.Lsh(bi(1), uint(i%255))
			}
			sum.Add(sum, new(big.Int).Mul(k, bi(int64(i+1))))
			P = append(P, load(x, o, row[i], 0))
			K = append(K, k)
			kept = append(kept, new(big.Int).Set(k))
		}
		want := g.Mul(g.G, sum.Mod(sum, ref.BlsR))
		what := fmt.Sprintf("%d terms, scalars %d", n, c)
		R := o.New()
		var err error
		x.Call("MultiExp", func() { _, err = o.MultiExp(R, P, K) })
		x.Assert(err == nil, "multiexp/"+N, "%s MultiExp of %s: %v", N, what, err)
		is(x, o, R, want, "MultiExp of "+what)
		for i := range K {
			x.Assert(K[i].Cmp(kept[i]) == 0, "scalar-changed", "%s MultiExp changes its scalars", N)
		}
	})
	r.Explore(N+" multi-exponentiation of unequal lengths", func(x *mc.X) {
		a, b := x.Choose(4), x.Choose(4)
		if a == b {
			return
		}
		o := mk()
		var P []*P
		var K []*big.Int
		for i := 0; i < a; i++ {
			P = append(P, o.One())
		}
		for i := 0; i < b; i++ {
			K = append(K, bi(3))
		}
		var err error
		x.Call("MultiExp", func() { _, err = o.MultiExp(o.New(), P, K) })
		x.Assert(err != nil, "multiexp-lengths", "%s MultiExp of %d points and %d scalars gives no error", N, a, b)
	})

	// decoding
	dec := func(x *mc.X, in []byte, comp bool, what string) {
		want, werr := g.Decode(in, comp)
		o := mk()
		keep := kit.Clone(in)
		var p *P
		var err error
		f := o.FromUncompressed
		if comp {
			f = o.FromCompressed
		}
		x.Call("decode", func() { p, err = f(in) })
		x.State(N, comp, in, err == nil)
		if (err == nil) != (werr == nil) {
			x.Fail("decode/"+N, "%s decoding %s (%s): error %v, want %v", N, mc.Hex(in), what, err, werr)
		}
		x.Eq(in, keep, "input-changed", "%s decoding changes its input", N)
		if err == nil {
			is(x, o, p, want, "decoding "+what)
		}
	}
	r.Explore(N+" decoding of bit flips", func(x *mc.X) {
		p := pts[x.Choose(r.N(3, 12))].BPt
		comp := x.Bool()
		b := g.Enc(p)
		if comp {
			b = g.Comp(p)
		}
		n := x.Choose(len(b)*8 + 1)
		if n > 0 {
			b = kit.Flip(b, n-1)
		}
		dec(x, b, comp, fmt.Sprintf("bit %d", n-1))
	})
	r.Explore(N+" decoding of flags", func(x *mc.X) {
		p := pts[x.Choose(len(pts))].BPt
		b := [][]byte{g.Enc(p), g.Comp(p)}[x.Choose(2)]
		f := x.Choose(8)
		b[0] = b[0]&0x1f | byte(f<<5)
		comp := x.Bool()
		if comp && len(b) > g.W {
			b = b[:g.W]
		}
		if !comp && len(b) < 2*g.W {
			b = append(b, make([]byte, g.W)...)
		}
		dec(x, b, comp, fmt.Sprintf("flags %d", f))
	})
	r.Explore(N+" decoding of infinities", func(x *mc.X) {
		comp := x.Bool()
		w := 2 * g.W
		if comp {
			w = g.W
		}
		b := make([]byte, w)
		b[0] = byte(x.Choose(8) << 5)
		if n := x.Choose(w + 1); n > 0 {
			b[n-1] |= byte([]int{1, 0x10, 0x80}[x.Choose(3)])
		}
		dec(x, b, comp, "infinity")
	})
	r.Explore(N+" decoding of small abscissas", func(x *mc.X) {
		n := int64(x.Choose(r.N(60, 400)))
		b := make([]byte, g.W)
		big.NewInt(n).FillBytes(b)
		if x.Bool() { // near p
			new(big.Int).Sub(ref.BlsP, bi(n)).FillBytes(b[g.W-48:])
		}
		if g.W == 96 {
			b[47] = byte(x.Choose(3))
		}
		b[0] |= 0x80
		if x.Bool() {
			b[0] |= 0x20
		}
		dec(x, b, true, "small abscissa")
	})
	r.Explore(N+" decoding of coordinates above p", func(x *mc.X) {
		p := g.Base(bi(int64(1 + x.Choose(r.N(16, 60)))))
		comp := x.Bool()
		b := g.Enc(p)
		if comp {
			b = g.Comp(p)
		}
		i := x.Choose(len(b) / 48)
		m := int64(1 + x.Choose(9))
		top := 384
		fl := byte(0)
		if i == 0 {
			top, fl = 381, b[0]&0xe0
			b[0] &= 0x1f
		}
		v := new(big.Int).Add(new(big.Int).SetBytes(b[48*i:48*i+48]), new(big.Int).Mul(ref.BlsP, bi(m)))
		if v.BitLen() > top {
			return
		}
		v.FillBytes(b[48*i : 48*i+48])
		b[0] |= fl
		dec(x, b, comp, "coordinate above p")
		if !comp { // FromBytes too
			o := mk()
			var err error
			x.Call("FromBytes", func() { _, err = o.FromBytes(b) })
			x.Assert(err != nil, "frombytes-range/"+N, "%s FromBytes takes a coordinate above p: %s", N, mc.Hex(b))
		}
	})
	r.Explore(N+" decoding of multiples", func(x *mc.X) {
		k := int64(x.Choose(r.N(100, 1000)))
		p := g.Base(bi(k))
		if x.Bool() {
			p = g.Neg(p)
		}
		dec(x, g.Comp(p), true, "a multiple")
		dec(x, g.Enc(p), false, "a multiple")
	})
	r.Explore(N+" decoding of short input", func(x *mc.X) {
		n := x.Choose(2 * g.W)
		if x.Bool() {
			if n < g.W {
				dec(x, g.Comp(g.G)[:n], true, "truncated")
			}
		} else {
			dec(x, g.Enc(g.G)[:n], false, "truncated")
			o := mk()
			var err error
			x.Call("FromBytes", func() { _, err = o.FromBytes(g.Enc(g.G)[:n]) })
			x.Assert(err != nil, "frombytes-short/"+N, "%s FromBytes takes %d bytes", N, n)
		}
	})
	r.Explore(N+" FromBytes off the curve", func(x *mc.X) {
		b := g.Enc(pts[1+x.Choose(r.N(2, 11))].BPt)
		b = kit.Flip(b, x.Choose(len(b)*8))
		o := mk()
		var err error
		x.Call("FromBytes", func() { _, err = o.FromBytes(b) })
		x.State(N, b, err != nil)
		x.Assert(err != nil, "frombytes-offcurve/"+N, "%s FromBytes takes a point off the curve: %s", N, mc.Hex(b))
	})

	// hashing
	sizes := kit.Lengths(140, r.N(1<<20+1, 1<<23+1))
	r.Explore(N+" hash to curve", func(x *mc.X) {
		var msg, dst []byte
		switch x.Choose(4) {
		case 3:
			msg, dst = kit.Long(sizes[x.Choose(len(sizes))]), []byte("tag")
		case 0:
			msg, dst = kit.Stream("msg", x.Choose(r.N(140, 700))), []byte("tag")
		case 1:
			msg, dst = []byte("abc"), kit.Stream("dst", x.Choose(256))
		case 2:
			msg, dst = kit.Stream("msg", 1+x.Choose(3)), kit.Stream("dst", 256+x.Choose(r.N(20, 300)))
		}
		o := mk()
		for v := 0; v < 2; v++ {
			var p *P
			var err error
			var want ref.BPt
			km, kd := kit.Clone(msg), kit.Clone(dst)
			x.Call("hash", func() {
				if v == 0 {
					p, err = o.HashToCurve(msg, dst)
				} else {
					p, err = encode(o, msg, dst)
				}
			})
			x.Assert(bytes.Equal(km, msg) && bytes.Equal(kd, dst), "input-changed", "%s hashing changes its input", N)
			if len(dst) > 255 {
				x.Assert(err != nil, "long-domain", "%s hashing takes a domain of %d bytes", N, len(dst))
				continue
			}
			x.Assert(err == nil, "hash/"+N, "%s hashing: %v", N, err)
			if v == 0 {
				want = g.Hash(msg, dst)
			} else {
				want = g.EncodeTo(msg, dst)
			}
			is(x, o, p, want, fmt.Sprintf("hash %d of %d bytes under %d bytes", v, len(msg), len(dst)))
		}
	})
	r.Explore(N+" constants", func(x *mc.X) {
		o := mk()
		is(x, o, o.One(), g.G, "One")
		is(x, o, o.Zero(), ref.BPt{Inf: true}, "Zero")
		is(x, o, o.New(), ref.BPt{Inf: true}, "New")
		x.Assert(o.Q().Cmp(ref.BlsR) == 0, "order/"+N, "%s Q", N)
		// what they return must be the caller's own
		q := o.Q()
		q.SetInt64(1)
		a := o.One()
		o.Add(a, a, a)
		z := o.Zero()
		o.Add(z, z, a)
		o = mk()
		is(x, o, o.One(), g.G, "One, after the caller changed an earlier result")
		is(x, o, o.Zero(), ref.BPt{Inf: true}, "Zero, after the caller changed an earlier result")
		x.Assert(o.Q().Cmp(ref.BlsR) == 0, "order/"+N, "%s Q, after the caller changed an earlier result", N)
	})
}

func main() {
	mc.Main("C14", 200*time.Second, 850*time.Second, func(r *mc.Run) {
		group[bls.PointG1](r, ref.B1, func() ops[bls.PointG1] { return bls.NewG1() },
			func(o ops[bls.PointG1], m, d []byte) (*bls.PointG1, error) { return o.(*bls.G1).EncodeToPoint(m, d) })
		group[bls.PointG2](r, ref.B2, func() ops[bls.PointG2] { return bls.NewG2(nil) },
			func(o ops[bls.PointG2], m, d []byte) (*bls.PointG2, error) { return o.(*bls.G2).EncodeToCurve(m, d) })
		pairing(r)
		tower(r)
	})
}
