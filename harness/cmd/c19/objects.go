//go:build go1.22

package main

import (
	"bytes"
	"fmt"
	"math/big"
	"reflect"
	"strings"
	"sync"
	"verifharness/kit"
	"verifharness/mc"
	"verifharness/ref"

	owcrypt "github.com/blocktree/go-owcrypt"
	"github.com/blocktree/go-owcrypt/bls12_381"
	"github.com/blocktree/go-owcrypt/bls12_381/bls"
	"github.com/blocktree/go-owcrypt/eddsa/edwards25519"
	"github.com/blocktree/go-owcrypt/pasta"
	"github.com/drand/kyber"
)

// dump prints a value with everything it refers to: pointers by identity and
// content, slices up to their capacity (integers up to their length).
func dump(w *strings.Builder, v reflect.Value, depth int) {
	if depth > 12 {
		return
	}
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			w.WriteString("nil ")
			return
		}
		fmt.Fprintf(w, "@%x ", v.Pointer())
		dump(w, v.Elem(), depth+1)
	case reflect.Interface:
		if !v.IsNil() {
			dump(w, v.Elem(), depth+1)
		}
	case reflect.Slice:
		n := v.Cap()
		fmt.Fprintf(w, "[%x %d %d ", v.Pointer(), v.Len(), n)
		if strings.HasSuffix(v.Type().String(), "nat") {
			n = v.Len()
		}
		v = v.Slice3(0, n, n)
		for i := 0; i < n; i++ {
			dump(w, v.Index(i), depth+1)
		}
		w.WriteString("] ")
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			dump(w, v.Index(i), depth+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			dump(w, v.Field(i), depth+1)
		}
	case reflect.Func, reflect.Chan, reflect.Map, reflect.UnsafePointer:
	case reflect.Bool:
		fmt.Fprint(w, v.Bool(), " ")
	case reflect.String:
		fmt.Fprintf(w, "%q ", v.String())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprint(w, v.Int(), " ")
	default:
		fmt.Fprintf(w, "%x ", v.Uint())
	}
}

func snap(args []any) (l []string) {
	for _, a := range args {
		var w strings.Builder
		dump(&w, reflect.ValueOf(a), 0)
		l = append(l, w.String())
	}
	return
}

// objOp is a call whose arguments are objects; build makes fresh ones.
type objOp struct {
	name  string
	build func() (args []any, call func() string)
}

func group[P any](N string, l []objOp, mk func() interface {
	New() *P
	One() *P
	Zero() *P
	Add(r, a, b *P) *P
	Sub(r, a, b *P) *P
	Double(r, a *P) *P
	Neg(r, a *P) *P
	MulScalar(r, a *P, e *big.Int) *P
	MultiExp(*P, []*P, []*big.Int) (*P, error)
	Copy(dst, src *P) *P
	Equal(a, b *P) bool
	IsZero(*P) bool
	IsOnCurve(*P) bool
	IsAffine(*P) bool
	InCorrectSubgroup(*P) bool
	ToBytes(*P) []byte
	ToCompressed(*P) []byte
	ToUncompressed(*P) []byte
}) []objOp {
	o := mk()
	// not affine, affine, generator, infinity
	var pts []func() *P
	for _, k := range []int64{77, 5} {
		pts = append(pts, func() *P { return o.MulScalar(o.New(), o.One(), big.NewInt(k)) })
	}
	pts = append(pts, o.One, o.Zero, func() *P { p := o.One(); return o.Sub(o.New(), p, p) })
	ks := []*big.Int{big.NewInt(0), big.NewInt(1), big.NewInt(6), new(big.Int).Sub(ref.BlsR, big.NewInt(1)), ref.BlsR, new(big.Int).Add(ref.BlsR, big.NewInt(3))}
	for i, a := range pts {
		one := func(n string, f func(p *P) string) {
			l = append(l, objOp{fmt.Sprintf("%s %s of point %d", N, n, i), func() ([]any, func() string) {
				p := a()
				return []any{p}, func() string { return f(p) }
			}})
		}
		str := func(r *P) string { return fmt.Sprintf("%x", o.ToBytes(r)) }
		one("Double", func(p *P) string { return str(o.Double(o.New(), p)) })
		one("Neg", func(p *P) string { return str(o.Neg(o.New(), p)) })
		one("Copy", func(p *P) string { return str(o.Copy(o.New(), p)) })
		one("predicates", func(p *P) string {
			return fmt.Sprint(o.IsZero(p), o.IsOnCurve(p), o.IsAffine(p), o.InCorrectSubgroup(p))
		})
		one("ToBytes", func(p *P) string { return fmt.Sprintf("%x", o.ToBytes(p)) })
		one("ToCompressed", func(p *P) string { return fmt.Sprintf("%x", o.ToCompressed(p)) })
		one("ToUncompressed", func(p *P) string { return fmt.Sprintf("%x", o.ToUncompressed(p)) })
		for j, b := range pts {
			two := func(n string, f func(p, q *P) string) {
				l = append(l, objOp{fmt.Sprintf("%s %s of points %d, %d", N, n, i, j), func() ([]any, func() string) {
					p, q := a(), b()
					return []any{p, q}, func() string { return f(p, q) }
				}})
			}
			two("Add", func(p, q *P) string { return str(o.Add(o.New(), p, q)) })
			two("Sub", func(p, q *P) string { return str(o.Sub(o.New(), p, q)) })
			two("Equal", func(p, q *P) string { return fmt.Sprint(o.Equal(p, q)) })
		}
		for j, k := range ks {
			l = append(l, objOp{fmt.Sprintf("%s MulScalar of point %d, scalar %d", N, i, j), func() ([]any, func() string) {
				p, e := a(), new(big.Int).Set(k)
				return []any{p, e}, func() string { return str(o.MulScalar(o.New(), p, e)) }
			}})
		}
	}
	for n := 1; n < 40; n += 1 + n/5 {
		for rev := 0; rev < 2; rev++ {
			l = append(l, objOp{fmt.Sprintf("%s MultiExp of %d points (%d)", N, n, rev), func() ([]any, func() string) {
				ps, es := make([]*P, 0, n+2), make([]*big.Int, 0, n+2)
				for i := 0; i < n; i++ {
					ps = append(ps, pts[(i*3+rev)%len(pts)]())
					es = append(es, new(big.Int).Set(ks[(i*5+rev)%len(ks)]))
				}
				return []any{ps, es}, func() string {
					r := o.New()
					o.MultiExp(r, ps, es)
					return fmt.Sprintf("%x", o.ToBytes(r))
				}
			}})
		}
	}
	return l
}

func objects(r *mc.Run) {
	var l []objOp
	add := func(name string, build func() ([]any, func() string)) { l = append(l, objOp{name, build}) }

	// lists of signatures
	for ci, code := range []uint32{owcrypt.ECC_CURVE_BLS12381_G2_XMD_SHA_256_SSWU_RO_NUL, owcrypt.ECC_CURVE_BLS12381_G2_XMD_SHA_256_SSWU_RO_AUG} {
		var sigs [][]byte
		for i := 0; i < 4; i++ {
			d := make([]byte, 32)
			d[31] = byte(i + 1)
			s, _, _ := owcrypt.Signature(d, nil, []byte("message"), code)
			sigs = append(sigs, s)
		}
		sigs = append(sigs, sigs[0], nil, []byte{}, sigs[0][:95], append([]byte{0xff}, sigs[0][1:]...))
		n := len(sigs)
		for p := 0; p < n*n*n; p++ {
			for _, m := range []int{1, 2, 3} {
				if m < 3 && p >= n*n || m < 2 && p >= n {
					continue
				}
				add(fmt.Sprintf("AggregateSignatures scheme %d, list %d of %d", ci, p, m), func() ([]any, func() string) {
					list := make([][]byte, 0, 6)
					for q := p; len(list) < m; q /= n {
						if s := sigs[q%n]; s == nil {
							list = append(list, nil)
						} else {
							list = append(list, append(make([]byte, 0, 100), s...))
						}
					}
					full := list[:6]
					full[4] = []byte{1, 2}
					return []any{full, list}, func() string {
						s, rc := owcrypt.AggregateSignatures(code, list...)
						return fmt.Sprintf("%x %x", s, rc)
					}
				})
			}
		}
	}
	l = group[bls.PointG1]("G1", l, func() interface {
		New() *bls.PointG1
		One() *bls.PointG1
		Zero() *bls.PointG1
		Add(r, a, b *bls.PointG1) *bls.PointG1
		Sub(r, a, b *bls.PointG1) *bls.PointG1
		Double(r, a *bls.PointG1) *bls.PointG1
		Neg(r, a *bls.PointG1) *bls.PointG1
		MulScalar(r, a *bls.PointG1, e *big.Int) *bls.PointG1
		MultiExp(*bls.PointG1, []*bls.PointG1, []*big.Int) (*bls.PointG1, error)
		Copy(dst, src *bls.PointG1) *bls.PointG1
		Equal(a, b *bls.PointG1) bool
		IsZero(*bls.PointG1) bool
		IsOnCurve(*bls.PointG1) bool
		IsAffine(*bls.PointG1) bool
		InCorrectSubgroup(*bls.PointG1) bool
		ToBytes(*bls.PointG1) []byte
		ToCompressed(*bls.PointG1) []byte
		ToUncompressed(*bls.PointG1) []byte
	} {
		return bls.NewG1()
	})
	l = group[bls.PointG2]("G2", l, func() interface {
		New() *bls.PointG2
		One() *bls.PointG2
		Zero() *bls.PointG2
		Add(r, a, b *bls.PointG2) *bls.PointG2
		Sub(r, a, b *bls.PointG2) *bls.PointG2
		Double(r, a *bls.PointG2) *bls.PointG2
		Neg(r, a *bls.PointG2) *bls.PointG2
		MulScalar(r, a *bls.PointG2, e *big.Int) *bls.PointG2
		MultiExp(*bls.PointG2, []*bls.PointG2, []*big.Int) (*bls.PointG2, error)
		Copy(dst, src *bls.PointG2) *bls.PointG2
		Equal(a, b *bls.PointG2) bool
		IsZero(*bls.PointG2) bool
		IsOnCurve(*bls.PointG2) bool
		IsAffine(*bls.PointG2) bool
		InCorrectSubgroup(*bls.PointG2) bool
		ToBytes(*bls.PointG2) []byte
		ToCompressed(*bls.PointG2) []byte
		ToUncompressed(*bls.PointG2) []byte
	} {
		return bls.NewG2(nil)
	})

	// pairing and target group
	g1, g2, gt := bls.NewG1(), bls.NewG2(nil), bls.NewGT()
	q1 := func(k int64) *bls.PointG1 { return g1.MulScalar(g1.New(), g1.One(), big.NewInt(k)) }
	q2 := func(k int64) *bls.PointG2 { return g2.MulScalar(g2.New(), g2.One(), big.NewInt(k)) }
	e0 := bls.NewEngine().AddPair(q1(3), q2(5)).Result()
	fresh := func() *bls.E { e := *e0; return &e }
	for _, k := range []int64{0, 1, 7} {
		for _, m := range []int64{0, 1, 9} {
			for inv := 0; inv < 2; inv++ {
				add(fmt.Sprintf("pair %d, %d (inverse %d)", k, m, inv), func() ([]any, func() string) {
					a, b := q1(k), q2(m)
					return []any{a, b}, func() string {
						e := bls.NewEngine()
						if inv == 0 {
							e.AddPair(a, b)
						} else {
							e.AddPairInv(a, b)
						}
						e.AddPair(a, b)
						ok := e.Check()
						return fmt.Sprintf("%v %x", ok, gt.ToBytes(e.Result()))
					}
				})
			}
		}
	}
	gtop := func(n string, f func(a, b *bls.E) string) {
		for s := 0; s < 2; s++ {
			add("GT "+n, func() ([]any, func() string) {
				a, b := fresh(), fresh()
				if s == 1 {
					b = gt.One()
				}
				return []any{a, b}, func() string { return f(a, b) }
			})
		}
	}
	ts := func(e *bls.E) string { return fmt.Sprintf("%x", gt.ToBytes(e)) }
	gtop("Mul", func(a, b *bls.E) string { c := gt.New(); gt.Mul(c, a, b); return ts(c) })
	gtop("Add", func(a, b *bls.E) string { c := gt.New(); gt.Add(c, a, b); return ts(c) })
	gtop("Sub", func(a, b *bls.E) string { c := gt.New(); gt.Sub(c, a, b); return ts(c) })
	gtop("Square", func(a, b *bls.E) string { c := gt.New(); gt.Square(c, a); return ts(c) })
	gtop("Inverse", func(a, b *bls.E) string { c := gt.New(); gt.Inverse(c, b); return ts(c) })
	gtop("Equal", func(a, b *bls.E) string {
		return fmt.Sprint(gt.Equal(a, b), a.Equal(b), gt.IsOne(b), b.IsOne(), gt.IsValid(a))
	})
	gtop("Copy", func(a, b *bls.E) string { c := gt.New(); gt.Copy(c, a); d := new(bls.E).Set(b); return ts(c) + ts(d) })
	for i, k := range []*big.Int{big.NewInt(0), big.NewInt(1), big.NewInt(10), ref.BlsR, new(big.Int).Add(ref.BlsR, big.NewInt(2))} {
		add(fmt.Sprintf("GT Exp %d", i), func() ([]any, func() string) {
			a, e := fresh(), new(big.Int).Set(k)
			return []any{a, e}, func() string { c := gt.New(); gt.Exp(c, a, e); return ts(c) }
		})
	}

	// kyber points
	suite := bls12_381.NewBLS12381Suite()
	for gi, g := range []kyber.Group{suite.G1(), suite.G2()} {
		for _, ka := range []byte{0, 1, 7} {
			for _, kb := range []byte{0, 1, 7, 9} {
				mk := func(k byte) kyber.Point { return g.Point().Mul(bls12_381.NewScalar([]byte{k}), nil) }
				two := func(n string, f func(p, q kyber.Point) string) {
					add(fmt.Sprintf("kyber G%d %s %d %d", gi+1, n, ka, kb), func() ([]any, func() string) {
						p, q := mk(ka), mk(kb)
						return []any{p, q}, func() string { return f(p, q) }
					})
				}
				two("Add", func(p, q kyber.Point) string { return g.Point().Add(p, q).String() })
				two("Sub", func(p, q kyber.Point) string { return g.Point().Sub(p, q).String() })
				two("Equal", func(p, q kyber.Point) string { return fmt.Sprint(p.Equal(q)) })
				two("Neg", func(p, q kyber.Point) string { return g.Point().Neg(p).String() })
				two("Set", func(p, q kyber.Point) string {
					c := g.Point()
					c.Set(p)
					d := q.Clone()
					s := c.String() + d.String()
					c.Add(c, d)
					d.Add(c, d)
					return s
				})
				two("encoding", func(p, q kyber.Point) string {
					b, _ := p.MarshalBinary()
					var buf bytes.Buffer
					q.MarshalTo(&buf)
					return fmt.Sprintf("%x %x %s", b, buf.Bytes(), p)
				})
				add(fmt.Sprintf("kyber G%d Mul %d %d", gi+1, ka, kb), func() ([]any, func() string) {
					s, q := bls12_381.NewScalar([]byte{ka}), mk(kb)
					return []any{s, q}, func() string { return g.Point().Mul(s, q).String() }
				})
			}
		}
	}
	for _, k := range []byte{0, 1, 7} {
		add(fmt.Sprintf("kyber pairing %d", k), func() ([]any, func() string) {
			p := suite.G1().Point().Mul(bls12_381.NewScalar([]byte{k}), nil)
			q := suite.G2().Point().Mul(bls12_381.NewScalar([]byte{k + 3}), nil)
			t := suite.Pair(p, q)
			return []any{p, q, t}, func() string {
				b, _ := t.MarshalBinary()
				return fmt.Sprintf("%x %s %v %s", b, suite.Pair(p, q), suite.ValidatePairing(p, q, p, q), suite.GT().Point().Add(t, t))
			}
		})
	}

	// Poseidon and Mina
	for n := 0; n < 8; n++ {
		add(fmt.Sprintf("PoseidonUpdate of %d", n), func() ([]any, func() string) {
			in := make([]pasta.Field, n, n+2)
			for i := range in {
				in[i] = kit.PField(big.NewInt(int64(i) + 5))
			}
			iv := []pasta.Field{kit.PField(big.NewInt(1)), kit.PField(big.NewInt(2)), kit.PField(big.NewInt(3))}
			return []any{in, iv}, func() string {
				c := pasta.Poseidon3WInit(iv)
				pasta.PoseidonUpdate(&c, in)
				return fmt.Sprintf("%x", pasta.PoseidonDigest(&c))
			}
		})
	}

	// edwards25519
	for v := 0; v < 12; v++ {
		sc := func(k int) *[32]byte {
			var b [32]byte
			copy(b[:], kit.Stream(fmt.Sprint("s", k), 32))
			switch v {
			case 0:
				b = [32]byte{}
			case 1:
				b = [32]byte{1}
			case 2:
				b[31] = 0xff
			default:
				b[0] ^= byte(v)
				b[31] &= 0x0f
			}
			return &b
		}
		pt := func(k int) *edwards25519.ExtendedGroupElement {
			p := new(edwards25519.ExtendedGroupElement)
			b := [32]byte{byte(k)}
			edwards25519.GeScalarMultBase(p, &b)
			return p
		}
		add(fmt.Sprintf("GeScalarMultBase %d", v), func() ([]any, func() string) {
			a := sc(v)
			a[31] &= 0x7f
			return []any{a}, func() string {
				p := new(edwards25519.ExtendedGroupElement)
				edwards25519.GeScalarMultBase(p, a)
				var s [32]byte
				p.ToBytes(&s)
				return fmt.Sprintf("%x", s)
			}
		})
		add(fmt.Sprintf("GeDoubleScalarMultVartime %d", v), func() ([]any, func() string) {
			a, A, b := sc(v), pt(v), sc(v+1)
			a[31], b[31] = a[31]&0x1f, b[31]&0x1f
			return []any{a, A, b}, func() string {
				p := new(edwards25519.ProjectiveGroupElement)
				edwards25519.GeDoubleScalarMultVartime(p, a, A, b)
				var s [32]byte
				p.ToBytes(&s)
				return fmt.Sprintf("%x", s)
			}
		})
		add(fmt.Sprintf("ScMulAdd %d", v), func() ([]any, func() string) {
			a, b, c := sc(v), sc(v+1), sc(v+2)
			return []any{a, b, c}, func() string {
				var s [32]byte
				edwards25519.ScMulAdd(&s, a, b, c)
				return fmt.Sprintf("%x", s)
			}
		})
		add(fmt.Sprintf("ScReduce %d", v), func() ([]any, func() string) {
			var a [64]byte
			copy(a[:], sc(v)[:])
			copy(a[32:], sc(v + 1)[:])
			return []any{&a}, func() string {
				var s [32]byte
				edwards25519.ScReduce(&s, &a)
				return fmt.Sprintf("%x", s)
			}
		})
		add(fmt.Sprintf("ExtendedGroupElement.FromBytes %d", v), func() ([]any, func() string) {
			a := sc(v)
			return []any{a}, func() string { return fmt.Sprint(new(edwards25519.ExtendedGroupElement).FromBytes(a)) }
		})
	}

	var one sync.Mutex // the group objects have scratch space
	r.Explore("objects as arguments", func(x *mc.X) {
		o := l[x.Choose(len(l))]
		one.Lock()
		defer one.Unlock()
		var before, mid, after []string
		var a, b, c string
		x.Call(o.name, func() {
			args, call := o.build()
			before = snap(args)
			a = call()
			mid = snap(args)
			b = call()
			after = snap(args)
			_, call = o.build()
			c = call()
		})
		x.State(o.name, a)
		for i := range before {
			if before[i] != mid[i] || mid[i] != after[i] {
				x.Fail("writes-object/"+strings.Fields(o.name)[0], "%s changes its argument %d", o.name, i)
			}
		}
		x.Assert(a == b && b == c, "object-result/"+strings.Fields(o.name)[0], "%s gives %s, then %s, and %s with new arguments", o.name, a, b, c)
	})
}
