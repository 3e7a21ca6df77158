package main

import (
	"bytes"
	"math/big"
	"verifharness/mc"
	"verifharness/ref"

	"github.com/blocktree/go-owcrypt/bls12_381/bls"
)

// The field elements are words; the values whose words are all zeros, all ones,
// words of the modulus or single high bits are those on which carries go wrong.
// An element of the target group's field is an exported array, so these spaces
// put the words in directly. The factor between words and values is read from
// One(), nothing else of the representation is assumed.

type fe = [6]uint64

func words(v *big.Int) (w fe) {
	b := v.FillBytes(make([]byte, 48))
	for i := range w {
		for j := 0; j < 8; j++ {
			w[i] = w[i]<<8 | uint64(b[40-8*i+j])
		}
	}
	return
}

func value(w *fe) *big.Int {
	var b [48]byte
	for i := range w {
		for j := 0; j < 8; j++ {
			b[47-8*i-j] = byte(w[i] >> (8 * j))
		}
	}
	return new(big.Int).SetBytes(b[:])
}

// patterns: every element below the modulus with words of the alphabet.
func patterns(low []uint64, ofP bool, top []uint64) (l []fe) {
	m := words(ref.BlsP)
	var w fe
	var rec func(i int)
	rec = func(i int) {
		if i < 0 {
			if value(&w).Cmp(ref.BlsP) < 0 {
				l = append(l, w)
			}
			return
		}
		al := low
		if i == 5 {
			al = top
		}
		for _, v := range al {
			w[i] = v
			rec(i - 1)
		}
		if ofP {
			w[i] = m[i]
			rec(i - 1)
		}
	}
	rec(5)
	return
}

func coef(e *bls.E, i int) *fe { return (*fe)(&e[i/2%2][i/4][i%2]) }

func tower(r *mc.Run) {
	var one fe
	{
		e := bls.NewGT().One()
		one = *coef(e, 0)
	}
	P := ref.BlsP
	rinv := new(big.Int).ModInverse(value(&one), P)
	mont := func(v *big.Int) fe { // the words of a value
		t := new(big.Int).Mul(v, value(&one))
		return words(t.Mod(t, P))
	}
	val := func(w *fe) *big.Int { // the value of the words
		t := new(big.Int).Mul(value(w), rinv)
		return t.Mod(t, P)
	}
	all1 := ^uint64(0)
	pats := append(patterns([]uint64{0, all1, 1 << 61}, false, []uint64{0, 1 << 60, 0x1a0111ea397fe699}),
		patterns([]uint64{0, all1}, true, []uint64{0})...)
	if r.Thorough() {
		pats = append(patterns([]uint64{0, all1, 1 << 61, 1 << 63}, true, []uint64{0, 1, 1 << 60, 0x1a0111ea397fe699}),
			patterns([]uint64{0, 1, all1 - 1}, false, []uint64{0, 1, 0x1a0111ea397fe699})...)
	}
	big6 := make([]*big.Int, len(pats))
	for i := range pats {
		big6[i] = value(&pats[i])
	}
	// at spreads a pattern number over the table
	at := func(i int) *fe { return &pats[(i*7919+13)%len(pats)] }

	r.Explore("field words: products", func(x *mc.X) {
		a := x.Choose(len(pats))
		g := bls.NewGT()
		A, B, C, Z := new(bls.E), new(bls.E), new(bls.E), new(bls.E)
		*coef(A, 0) = pats[a]
		ar := new(big.Int).Mul(big6[a], rinv)
		ar.Mod(ar, P)
		t, q := new(big.Int), new(big.Int)
		x.Call("Mul", func() {
			for b := range pats {
				*coef(B, 0) = pats[b]
				g.Mul(C, A, B)
				t.Mul(ar, big6[b])
				q.QuoRem(t, P, t)
				w := words(t)
				got := *coef(C, 0)
				*coef(C, 0) = fe{}
				if got != w || *C != *Z || *coef(A, 0) != pats[a] || *coef(B, 0) != pats[b] {
					x.Fail("field-mul", "the product of the field elements %x and %x is %x, want %x", pats[a], pats[b], got, w)
				}
			}
		})
		x.State("mul", pats[a])
	})
	r.Explore("field words: sums", func(x *mc.X) {
		a := x.Choose(len(pats))
		g := bls.NewGT()
		A, B, C := new(bls.E), new(bls.E), new(bls.E)
		for i := 0; i < 12; i++ {
			*coef(A, i) = pats[(a+i)%len(pats)]
		}
		t := new(big.Int)
		x.Call("Add, Sub", func() {
			for b := 0; b < len(pats); b += 12 {
				n := min(12, len(pats)-b)
				for i := 0; i < n; i++ {
					*coef(B, i) = pats[b+i]
				}
				for op := 0; op < 2; op++ {
					if op == 0 {
						g.Add(C, A, B)
					} else {
						g.Sub(C, A, B)
					}
					for i := 0; i < n; i++ {
						if op == 0 {
							t.Add(big6[(a+i)%len(pats)], big6[b+i])
							if t.Cmp(P) >= 0 {
								t.Sub(t, P)
							}
						} else {
							t.Sub(big6[(a+i)%len(pats)], big6[b+i])
							if t.Sign() < 0 {
								t.Add(t, P)
							}
						}
						if w := words(t); *coef(C, i) != w {
							x.Fail("field-add", "the %s of the field elements %x and %x is %x, want %x", []string{"sum", "difference"}[op], pats[(a+i)%len(pats)], pats[b+i], *coef(C, i), w)
						}
					}
				}
			}
		})
		x.State("add", pats[a])
	})
	r.Explore("field words: equality", func(x *mc.X) {
		// elements that differ in one word of one coefficient
		i, w := x.Choose(12), x.Choose(6)
		d := []uint64{1, 1 << 31, 1 << 32, 1 << 52}[x.Choose(4)]
		g := bls.NewGT()
		var A, B bls.E
		s := x.Choose(4)
		for k := 0; k < 12; k++ {
			switch s {
			case 0: // one
			case 1: // all alike
				*coef(&A, k) = *at(4)
			case 2:
				*coef(&A, k) = *at(k)
			}
		}
		if s == 0 {
			A = *g.One()
		}
		B = A
		coef(&B, i)[w] ^= d
		var eq [4]bool
		var same, isone [2]bool
		x.Call("Equal", func() {
			eq = [4]bool{g.Equal(&A, &B), g.Equal(&B, &A), A.Equal(&B), B.Equal(&A)}
			c := A
			same = [2]bool{g.Equal(&A, &c), A.Equal(&c)}
			isone = [2]bool{g.IsOne(&B), B.IsOne()}
		})
		x.State("equal", i, w, d, s)
		x.Assert(eq == [4]bool{} && same == [2]bool{true, true}, "tower-equal", "equality of elements that differ in word %d of coefficient %d: %v, of equal ones: %v", w, i, eq, same)
		x.Assert(isone == [2]bool{}, "tower-isone", "an element which differs from one in word %d of coefficient %d is one", w, i)
		// a group of two elements, three coordinates each
		var P, Q bls.PointG1
		var U, V bls.PointG2
		for k := 0; k < 3; k++ {
			for h := 0; h < 2; h++ {
				if h == 0 {
					P[k] = [6]uint64(*coef(&A, 0))
				}
				if s != 0 || h == 0 {
					U[k][h] = [6]uint64(*coef(&A, 0))
				}
			}
		}
		Q, V = P, U
		if i >= 6 {
			return
		}
		if i%2 == 0 {
			Q[i/2][w] ^= d
		}
		V[i/2][i%2][w] ^= d
		o1, o2 := bls.NewG1(), bls.NewG2(nil)
		if i < 4 && s != 3 { // with the same Z
			var e1, e2 bool
			x.Call("Equal", func() { e1, e2 = o1.Equal(&P, &Q), o2.Equal(&U, &V) })
			x.Assert(e1 == (i%2 == 1) && !e2, "point-equal", "equality of points that differ in word %d of half %d of coordinate %d: %v %v", w, i%2, i/2, e1, e2)
			return
		}
		if i < 4 {
			return
		}
		var z1, z2, n1, n2 bool
		x.Call("IsZero", func() {
			z1, z2 = o1.IsZero(&Q), o2.IsZero(&V)
			n1, n2 = o1.IsAffine(&Q), o2.IsAffine(&V)
		})
		if s == 3 { // Z zero but for one word
			x.Assert(z1 == (i%2 == 1) && !z2, "point-iszero", "a point whose Z is not zero in word %d of half %d only is zero: %v %v", w, i%2, z1, z2)
		}
		if s == 0 { // Z one but for one word
			x.Assert(n1 == (i%2 == 1) && !n2, "point-isaffine", "a point whose Z differs from one in word %d of half %d is affine: %v %v", w, i%2, n1, n2)
		}
	})
	r.Explore("field words: extension field products", func(x *mc.X) {
		s := x.Choose(r.N(len(pats)/2, len(pats)))
		h := x.Choose(3)
		g := bls.NewGT()
		var A, B bls.E
		var a, b [12]*big.Int
		for i := 0; i < 12; i++ {
			switch h {
			case 0: // the same words everywhere
				*coef(&A, i), *coef(&B, i) = *at(s), *at(s + 1)
			case 1: // different words everywhere
				*coef(&A, i), *coef(&B, i) = *at(s + i), *at(s + 12 + i)
			case 2: // one coefficient against all
				if i == s%12 {
					*coef(&A, i) = *at(s)
				}
				*coef(&B, i) = *at(s + i)
			}
			a[i], b[i] = val(coef(&A, i)), val(coef(&B, i))
		}
		fa, fb := ref.F12Of(a), ref.F12Of(b)
		var C [3]bls.E
		x.Call("Mul", func() {
			g.Mul(&C[0], &A, &B)
			C[1] = A
			g.Mul(&C[1], &C[1], &B)
			C[2] = B
			g.Mul(&C[2], &A, &C[2])
		})
		w := fa.Mul(&fb).Coeffs()
		for i := 0; i < 12; i++ {
			ww := mont(w[i])
			for k := range C {
				x.Assert(*coef(&C[k], i) == ww, "tower-mul", "product of two elements (choice %d/%d, aliasing %d): coefficient %d is %x, want %x", s, h, k, i, *coef(&C[k], i), ww)
			}
		}
		x.State("tower", A, B)
		sq := new(bls.E)
		x.Call("Mul", func() { g.Mul(sq, &A, &A) })
		w = fa.Mul(&fa).Coeffs()
		for i := 0; i < 12; i++ {
			x.Assert(*coef(sq, i) == mont(w[i]), "tower-mul", "product of an element with itself (choice %d/%d): coefficient %d", s, h, i)
		}
	})

	// points whose Jacobian coordinates are patterns
	type jp struct {
		c [3][2]fe
		p ref.BPt
	}
	for gi, g := range []*ref.BGroup{ref.B1, ref.B2} {
		g, gi := g, gi
		zs := []int{0, 1, 2, 3, 5, 8, 13, 21, 34, 55, 89, 144}
		mkpt := func(i, j int) (q jp, ok bool) {
			X := [2]fe{*at(i), *at(3*i + 1)}
			Z := [2]fe{*at(j + 5), *at(5*j + 2)}
			if gi == 0 {
				X[1], Z[1] = fe{}, fe{}
			}
			if Z == [2]fe{} {
				return q, false
			}
			y, p, ok := g.Jac([2]*big.Int{val(&X[0]), val(&X[1])}, [2]*big.Int{val(&Z[0]), val(&Z[1])})
			if !ok {
				return q, false
			}
			return jp{[3][2]fe{X, {mont(y[0]), mont(y[1])}, Z}, p}, true
		}
		r.Explore(g.Name+" points with patterned coordinates", func(x *mc.X) {
			a, ok := mkpt(x.Choose(r.N(200, len(pats))), zs[x.Choose(len(zs))])
			if !ok {
				return
			}
			b, ok := mkpt(x.Choose(r.N(4, 6)), zs[0])
			if !ok {
				return
			}
			if gi == 0 {
				o := bls.NewG1()
				ld := func(q jp) *bls.PointG1 { return &bls.PointG1{q.c[0][0], q.c[1][0], q.c[2][0]} }
				patterned[bls.PointG1](x, g, o, ld(a), ld(b), a.p, b.p)
			} else {
				o := bls.NewG2(nil)
				ld := func(q jp) *bls.PointG2 {
					var p bls.PointG2
					for i := range q.c {
						p[i][0], p[i][1] = q.c[i][0], q.c[i][1]
					}
					return &p
				}
				patterned[bls.PointG2](x, g, o, ld(a), ld(b), a.p, b.p)
			}
		})
	}
}

func patterned[P any](x *mc.X, g *ref.BGroup, o ops[P], A, B *P, a, b ref.BPt) {
	N := g.Name
	is := func(p *P, want ref.BPt, op string) {
		var got []byte
		x.Call("ToBytes", func() { got = o.ToBytes(o.Copy(o.New(), p)) })
		x.State(N, got)
		x.Assert(bytes.Equal(got, g.Raw(want)), "pattern/"+N, "%s %s of points with coordinates (words) %x and %x: %x, want %x", N, op, A, B, got, g.Raw(want))
	}
	var on, onb, eq, eqb bool
	S, D, W, Ne, M := o.New(), o.New(), o.New(), o.New(), o.New()
	x.Call("arithmetic", func() {
		on, onb = o.IsOnCurve(A), o.IsOnCurve(B)
		o.Add(S, A, B)
		o.Sub(D, A, B)
		o.Double(W, A)
		o.Neg(Ne, A)
		o.MulScalar(M, A, bi(5))
		eq = o.Equal(A, B)
		eqb = o.Equal(A, o.Affine(o.Copy(o.New(), A)))
	})
	x.Assert(on && onb, "pattern-oncurve/"+N, "%s IsOnCurve denies a point with coordinates %x", N, A)
	is(A, a, "value")
	is(S, g.Add(a, b), "Add")
	is(D, g.Add(a, g.Neg(b)), "Sub")
	is(W, g.Add(a, a), "Double")
	is(Ne, g.Neg(a), "Neg")
	is(M, g.Mul(a, bi(5)), "five times")
	x.Assert(eq == (a == b) && eqb, "pattern-equal/"+N, "%s Equal of points with coordinates %x and %x: %v; with its own normal form: %v", N, A, B, eq, eqb)
}
