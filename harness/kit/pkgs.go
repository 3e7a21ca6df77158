package kit

import (
	"fmt"
	"hash"
	"math/big"
	"sync"
	"verifharness/ref"

	owcrypt "github.com/blocktree/go-owcrypt"
	"github.com/blocktree/go-owcrypt/blake256"
	"github.com/blocktree/go-owcrypt/blake2s"
	"github.com/blocktree/go-owcrypt/blake512"
	"github.com/blocktree/go-owcrypt/bls12_381"
	"github.com/blocktree/go-owcrypt/bls12_381/bls"
	"github.com/blocktree/go-owcrypt/eddsa"
	"github.com/blocktree/go-owcrypt/eddsa/edwards25519"
	"github.com/blocktree/go-owcrypt/pasta"
	"github.com/blocktree/go-owcrypt/sha3"
	"github.com/blocktree/go-owcrypt/sm3"
	"github.com/drand/kyber"
)

var pkgMemo sync.Map

var (
	sharedInit sync.Once
	shared     struct {
		k1, k2, kt kyber.Point
		p1         *bls.PointG1
		p2         *bls.PointG2
	}
)

func shareInit() {
	s := bls12_381.NewScalar([]byte{77})
	shared.k1 = bls12_381.NullOwcryptG1().Mul(s, nil)
	shared.k2 = bls12_381.NullOwcryptG2().Mul(s, nil)
	shared.kt = bls12_381.NewBLS12381Suite().Pair(shared.k1.Clone(), shared.k2.Clone())
	g1, g2 := bls.NewG1(), bls.NewG2(nil)
	shared.p1 = g1.MulScalar(g1.New(), g1.One(), big.NewInt(78))
	shared.p2 = g2.MulScalar(g2.New(), g2.One(), big.NewInt(79))
}

// Everything is the catalogue of the root package followed by entry points of
// the packages below it.
func Everything(variant int) []Entry {
	if v, ok := pkgMemo.Load(variant); ok {
		return v.([]Entry)
	}
	v := append(append([]Entry{}, Catalogue(variant)...), packages(variant)...)
	pkgMemo.Store(variant, v)
	return v
}

// packages lists entry points of the packages. Some of them panic on
// arguments of other lengths; the panic is part of the outcome.
func packages(variant int) (l []Entry) {
	none := Out{Ret: -1, Inf: -1, V: -1, Err: -1}
	outs := func(b ...[]byte) Out {
		o := none
		o.B = b
		return o
	}
	er := func(b []byte, err error) Out {
		o := outs(b)
		o.Err = map[bool]int{true: 1}[err != nil]
		return o
	}
	flag := func(ok bool, b ...[]byte) Out {
		o := outs(b...)
		o.Inf = map[bool]int{true: 1}[ok]
		return o
	}
	add := func(name, family string, names []string, args [][]byte, run func(a [][]byte) Out) {
		var code uint32
		for i, n := range CurveNames {
			if n == family {
				code = CurveCodes[i]
			}
		}
		l = append(l, Entry{Name: name, Label: name + "/" + family, Code: code, Family: family, Names: names, Args: args, N: -1, Run: func(a [][]byte, _ uint32, _ int) (o Out) {
			defer func() {
				if e := recover(); e != nil {
					o = none
					o.B = [][]byte{[]byte(fmt.Sprint("panic: ", e))}
				}
			}()
			return run(a)
		}})
	}
	lab := fmt.Sprint("pk", variant)
	data := Stream("pdata"+lab, 90+max(variant, 0))
	a32 := func(b []byte) (v [32]byte) {
		if len(b) != 32 {
			panic("kit: length")
		}
		copy(v[:], b)
		return
	}
	one := []string{"data"}

	// hashes
	add("sm3.Sm3Sum", "hash", one, [][]byte{data}, func(a [][]byte) Out { return outs(sm3.Sm3Sum(a[0])) })
	add("blake2s.Sum256", "hash", one, [][]byte{data}, func(a [][]byte) Out { h := blake2s.Sum256(a[0]); return outs(h[:]) })
	add("sha3.Sum224", "hash", one, [][]byte{data}, func(a [][]byte) Out { h := sha3.Sum224(a[0]); return outs(h[:]) })
	add("sha3.Sum384", "hash", one, [][]byte{data}, func(a [][]byte) Out { h := sha3.Sum384(a[0]); return outs(h[:]) })
	add("sha3.Sum512", "hash", one, [][]byte{data}, func(a [][]byte) Out { h := sha3.Sum512(a[0]); return outs(h[:]) })
	shake := func(name string, f func(h, d []byte), mk func() sha3.ShakeHash) {
		add("sha3.ShakeSum"+name, "hash", one, [][]byte{data}, func(a [][]byte) Out { o := make([]byte, 200); f(o, a[0]); return outs(o) })
		add("sha3.NewShake"+name, "hash", []string{"data", "data"}, [][]byte{data, data[:33]}, func(a [][]byte) Out {
			h := mk()
			h.Write(a[0])
			c := h.Clone()
			h.Write(a[1])
			o, p, q := make([]byte, 170), make([]byte, 40), make([]byte, 7)
			h.Read(o)
			d := h.Clone()
			d.Read(q)
			c.Read(p)
			h.Reset()
			h.Write(a[1])
			o2 := make([]byte, 20)
			h.Read(o2)
			return outs(o, p, q, o2)
		})
	}
	shake("128", sha3.ShakeSum128, sha3.NewShake128)
	shake("256", sha3.ShakeSum256, sha3.NewShake256)
	obj := func(name string, names []string, args [][]byte, mk func(a [][]byte) hash.Hash) {
		add(name, "hash", append([]string{"data", "data"}, names...), append([][]byte{data, data[:50]}, args...), func(a [][]byte) Out {
			h := mk(a[2:])
			h.Write(a[0])
			s := h.Sum(nil)
			h.Write(a[1])
			t := h.Sum([]byte{1, 2})
			h.Reset()
			h.Write(a[1])
			return outs(s, t, h.Sum(nil))
		})
	}
	plain := func(name string, mk func() hash.Hash) { obj(name, nil, nil, func([][]byte) hash.Hash { return mk() }) }
	plain("sm3.New", sm3.New)
	plain("sha3.New224", sha3.New224)
	plain("sha3.New256", sha3.New256)
	plain("sha3.New384", sha3.New384)
	plain("sha3.New512", sha3.New512)
	plain("sha3.NewKeccak256", sha3.NewKeccak256)
	plain("sha3.NewKeccak512", sha3.NewKeccak512)
	plain("blake256.New", blake256.New)
	plain("blake256.New224", blake256.New224)
	plain("blake512.New", blake512.New)
	plain("blake512.New384", blake512.New384)
	plain("blake2s.New256", blake2s.New256)
	s16, s32 := Stream("salt"+lab, 16), Stream("salt"+lab, 32)
	obj("blake256.NewSalt", []string{"salt"}, [][]byte{s16}, func(a [][]byte) hash.Hash { return blake256.NewSalt(a[0]) })
	obj("blake256.New224Salt", []string{"salt"}, [][]byte{s16}, func(a [][]byte) hash.Hash { return blake256.New224Salt(a[0]) })
	obj("blake512.NewSalt", []string{"salt"}, [][]byte{s32}, func(a [][]byte) hash.Hash { return blake512.NewSalt(a[0]) })
	obj("blake512.New384Salt", []string{"salt"}, [][]byte{s32}, func(a [][]byte) hash.Hash { return blake512.New384Salt(a[0]) })
	obj("blake2s.NewMAC", []string{"key"}, [][]byte{s32[:20]}, func(a [][]byte) hash.Hash { return blake2s.NewMAC(20, a[0]) })
	obj("blake2s.New", []string{"salt", "person", "key"}, [][]byte{s32[:8], s32[8:16], s32[3:30]}, func(a [][]byte) hash.Hash {
		h, err := blake2s.New(&blake2s.Config{Size: 30, Salt: a[0], Person: a[1], Key: a[2], Tree: &blake2s.Tree{Fanout: 3, MaxDepth: 2, LeafSize: 5, NodeOffset: 7, NodeDepth: 1, InnerHashSize: 20, IsLastNode: true}})
		if err != nil {
			panic("refused")
		}
		return h
	})

	// edwards25519 and curve25519
	fx := map[uint32]Fixture{}
	for _, c := range CurveCodes {
		fx[c] = MakeFixture(c, variant)
	}
	ed := fx[owcrypt.ECC_CURVE_ED25519]
	add("eddsa.IsValidPoint", "ED25519", []string{"point"}, [][]byte{ed.Pub}, func(a [][]byte) Out { return flag(eddsa.IsValidPoint(a[0])) })
	add("eddsa.IsCanonicalPublicKey", "ED25519", []string{"pubkey"}, [][]byte{ed.Pub}, func(a [][]byte) Out { return flag(eddsa.IsCanonicalPublicKey(a[0])) })
	add("eddsa.IsCanonicalSignature", "ED25519", []string{"signature"}, [][]byte{ed.Sig}, func(a [][]byte) Out { return flag(eddsa.IsCanonicalSignature(a[0])) })
	p32 := func(b []byte) *[32]byte { return (*[32]byte)(b) }
	p2 := ed.Point2
	if p2 == nil {
		p2 = make([]byte, 32)
	}
	pt := ed.Point
	if pt == nil {
		pt = make([]byte, 32)
	}
	add("eddsa.Point_add", "ED25519", []string{"point1", "point2"}, [][]byte{pt, p2}, func(a [][]byte) Out {
		var o [32]byte
		return flag(eddsa.Point_add(p32(a[0]), p32(a[1]), &o), o[:])
	})
	add("eddsa.ScalarMultBaseAdd", "ED25519", []string{"pointin", "scalar"}, [][]byte{pt, ed.Prikey}, func(a [][]byte) Out {
		var o [32]byte
		return flag(eddsa.ScalarMultBaseAdd(p32(a[0]), p32(a[1]), &o), o[:])
	})
	ks := fx[owcrypt.ECC_CURVE_CURVE25519_SHA256]
	add("eddsa.Keygen", "Curve25519-SHA256", []string{"prikey"}, [][]byte{ks.Prikey}, func(a [][]byte) Out {
		k := a32(a[0])
		P, s := make([]byte, 32), make([]byte, 32)
		eddsa.Keygen(P, s, k[:])
		return outs(P, s, k[:])
	})
	add("eddsa.Sign", "Curve25519-SHA256", []string{"scalar", "scalar", "scalar"}, [][]byte{data[:32], ks.Prikey, s32}, func(a [][]byte) Out {
		h, x, s := a32(a[0]), a32(a[1]), a32(a[2])
		h[31] &= 15
		x[31] &= 15
		s[31] &= 15
		v := make([]byte, 32)
		return flag(eddsa.Sign(v, h[:], x[:], s[:]), v)
	})
	add("eddsa.Verify", "Curve25519-SHA256", []string{"signature", "message", "pubkey"}, [][]byte{ks.Sig[:32:32], data[:32], ks.Pub}, func(a [][]byte) Out {
		v, h, P := a32(a[0]), a32(a[1]), a32(a[2])
		Y := make([]byte, 32)
		eddsa.Verify(Y, v[:], h[:], P[:])
		return outs(Y)
	})
	add("eddsa.Curve", "Curve25519-SHA256", []string{"scalar", "pubkey"}, [][]byte{s32, ks.Pub}, func(a [][]byte) Out {
		k, P := a32(a[0]), a32(a[1])
		Z := make([]byte, 32)
		eddsa.Curve(Z, k[:], P[:])
		return outs(Z)
	})
	add("edwards25519.ScMulAdd", "ED25519", []string{"scalar", "scalar", "scalar"}, [][]byte{data[:32], s32, ed.Prikey}, func(a [][]byte) Out {
		var o [32]byte
		edwards25519.ScMulAdd(&o, p32(a[0]), p32(a[1]), p32(a[2]))
		return outs(o[:])
	})
	add("edwards25519.ScReduce", "ED25519", []string{"data"}, [][]byte{data[:64:64]}, func(a [][]byte) Out {
		var o [32]byte
		edwards25519.ScReduce(&o, (*[64]byte)(a[0]))
		return outs(o[:])
	})
	add("edwards25519.GeDoubleScalarMultVartime", "ED25519", []string{"scalar", "point", "scalar"}, [][]byte{s32, pt, data[:32]}, func(a [][]byte) Out {
		var A edwards25519.ExtendedGroupElement
		var r edwards25519.ProjectiveGroupElement
		var o [32]byte
		if !A.FromBytes(p32(a[1])) {
			return flag(true)
		}
		edwards25519.GeDoubleScalarMultVartime(&r, p32(a[0]), &A, p32(a[2]))
		r.ToBytes(&o)
		return outs(o[:])
	})

	// BLS12-381
	nul := fx[owcrypt.ECC_CURVE_BLS12381_G2_XMD_SHA_256_SSWU_RO_NUL]
	aug := fx[owcrypt.ECC_CURVE_BLS12381_G2_XMD_SHA_256_SSWU_RO_AUG]
	bp := nul.Point
	if bp == nil {
		bp = make([]byte, 48)
	}
	k1 := func(b []byte) kyber.Point {
		p := bls12_381.NullOwcryptG1()
		if err := p.UnmarshalBinary(b); err != nil {
			panic("refused")
		}
		return p
	}
	k2 := func(b []byte) kyber.Point {
		p := bls12_381.NullOwcryptG2()
		if err := p.UnmarshalBinary(b); err != nil {
			panic("refused")
		}
		return p
	}
	mb := func(p interface{ MarshalBinary() ([]byte, error) }) []byte {
		b, err := p.MarshalBinary()
		if err != nil {
			panic("marshal")
		}
		return b
	}
	for _, g := range []struct {
		name  string
		dec   func([]byte) kyber.Point
		group func() kyber.Group
		a, b  []byte
	}{{"G1", k1, bls12_381.NewGroupG1, nul.Pub, bp}, {"G2", k2, bls12_381.NewGroupG2, nul.Sig, aug.Sig}} {
		g := g
		what := map[string]string{"G1": "pubkey", "G2": "signature"}[g.name]
		add("kyber "+g.name+" sum and multiple", "BLS-NUL", []string{what, what, "scalar"}, [][]byte{g.a, g.b, nul.Prikey}, func(a [][]byte) Out {
			p, q := g.dec(a[0]), g.dec(a[1])
			s := bls12_381.NewScalar(a[2])
			G := g.group()
			sum := G.Point().Add(p, q)
			dif := G.Point().Sub(p, q)
			m := G.Point().Mul(s, p)
			b := G.Point().Mul(s, nil)
			n := G.Point().Neg(q)
			return flag(sum.Equal(dif), mb(sum), mb(dif), mb(m), mb(b), mb(n), mb(p), mb(q), mb(s))
		})
	}
	add("kyber hash to G2", "BLS-NUL", []string{"message"}, [][]byte{data}, func(a [][]byte) Out { return outs(mb(bls12_381.NullOwcryptG2().Hash(a[0]))) })
	add("kyber hash to G1", "BLS-NUL", []string{"message"}, [][]byte{data}, func(a [][]byte) Out { return outs(mb(bls12_381.NullOwcryptG1().Hash(a[0]))) })
	add("pairing", "BLS-NUL", []string{"pubkey", "signature"}, [][]byte{nul.Pub, nul.Sig}, func(a [][]byte) Out {
		s := bls12_381.NewBLS12381Suite()
		p, q := k1(a[0]), k2(a[1])
		e := s.Pair(p, q)
		return flag(s.(interface {
			ValidatePairing(p1, p2, p3, p4 kyber.Point) bool
		}).ValidatePairing(p, q, p, q), mb(e), mb(p), mb(q))
	})
	add("bls multi-exponentiation", "BLS-NUL", []string{"pubkey", "pubkey", "scalar", "scalar"}, [][]byte{nul.Pub, bp, nul.Prikey, aug.Prikey}, func(a [][]byte) Out {
		g := bls.NewG1()
		p, err := g.FromCompressed(a[0])
		q, err2 := g.FromCompressed(a[1])
		if err != nil || err2 != nil {
			return flag(true)
		}
		x, y := new(big.Int).SetBytes(a[2]), new(big.Int).SetBytes(a[3])
		if x.BitLen() > 256 || y.BitLen() > 256 {
			return flag(true)
		}
		kx, ky := new(big.Int).Set(x), new(big.Int).Set(y)
		r := g.New()
		g.MultiExp(r, []*bls.PointG1{p, q}, []*big.Int{x, y})
		if x.Cmp(kx) != 0 || y.Cmp(ky) != 0 {
			panic("the powers changed")
		}
		return outs(g.ToCompressed(r), g.ToUncompressed(p), g.ToBytes(q))
	})

	// points that every caller shares, not in affine form
	add("shared G1 point", "BLS-NUL", []string{"scalar"}, [][]byte{nul.Prikey}, func(a [][]byte) Out {
		sharedInit.Do(shareInit)
		s := bls12_381.NewScalar(a[0])
		g := bls12_381.NewGroupG1()
		p := shared.k1
		o := outs(mb(g.Point().Add(p, p)), mb(g.Point().Sub(p, p.Clone())), mb(g.Point().Neg(p)), mb(g.Point().Mul(s, p)), mb(p), []byte(p.String()), []byte(fmt.Sprint(p.Equal(p.Clone()))))
		b := bls.NewG1()
		q := shared.p1
		o.B = append(o.B, b.ToBytes(q), b.ToUncompressed(q), b.ToCompressed(q), []byte(fmt.Sprint(b.IsOnCurve(q), b.InCorrectSubgroup(q), b.IsZero(q), b.Equal(q, b.One()))))
		r := b.New()
		b.MultiExp(r, []*bls.PointG1{q, q}, []*big.Int{big.NewInt(5), big.NewInt(7)})
		o.B = append(o.B, b.ToBytes(r))
		return o
	})
	add("shared G2 point", "BLS-NUL", []string{"scalar"}, [][]byte{nul.Prikey}, func(a [][]byte) Out {
		sharedInit.Do(shareInit)
		s := bls12_381.NewScalar(a[0])
		g := bls12_381.NewGroupG2()
		p := shared.k2
		o := outs(mb(g.Point().Add(p, p)), mb(g.Point().Sub(p, p.Clone())), mb(g.Point().Neg(p)), mb(g.Point().Mul(s, p)), mb(p), []byte(p.String()), []byte(fmt.Sprint(p.Equal(p.Clone()))))
		b := bls.NewG2(nil)
		q := shared.p2
		o.B = append(o.B, b.ToBytes(q), b.ToUncompressed(q), b.ToCompressed(q), []byte(fmt.Sprint(b.IsOnCurve(q), b.InCorrectSubgroup(q), b.IsZero(q), b.Equal(q, b.One()))))
		r := b.New()
		b.MultiExp(r, []*bls.PointG2{q, q}, []*big.Int{big.NewInt(5), big.NewInt(7)})
		o.B = append(o.B, b.ToBytes(r))
		return o
	})
	add("pairing of shared points", "BLS-NUL", []string{"scalar"}, [][]byte{nul.Prikey}, func(a [][]byte) Out {
		sharedInit.Do(shareInit)
		s := bls12_381.NewBLS12381Suite()
		p, q := shared.k1, shared.k2
		k := bls12_381.NewScalar(a[0])
		ok := s.ValidatePairing(s.G1().Point().Mul(k, p), q, p, s.G2().Point().Mul(k, q))
		e := bls.NewEngine()
		e.AddPair(shared.p1, shared.p2)
		e.AddPairInv(shared.p1, shared.p2)
		return flag(ok && e.Check(), mb(s.Pair(p, q)), mb(shared.kt), mb(s.GT().Point().Add(shared.kt, shared.kt)))
	})

	// Pasta
	pa := fx[owcrypt.ECC_CURVE_PASTA]
	add("pasta.NewMinaMessage", "Pasta", []string{"message"}, [][]byte{pa.Msg}, func(a [][]byte) Out {
		m, err := pasta.NewMinaMessage(a[0])
		if err != nil {
			return er(nil, err)
		}
		return outs([]byte(fmt.Sprint(*m)))
	})
	add("pasta Poseidon", "Pasta", []string{"scalar", "scalar"}, [][]byte{s32, data[:32]}, func(a [][]byte) Out {
		in := func(b []byte) pasta.Field {
			v := a32(b)
			v[0] &= 0x3f
			return PField(new(big.Int).SetBytes(v[:]))
		}
		x, y := in(a[0]), in(a[1])
		c := pasta.Poseidon3WInit(pasta.MainnetIV3W[:])
		pasta.PoseidonUpdate(&c, []pasta.Field{x, y})
		pasta.PoseidonUpdate(&c, []pasta.Field{y})
		d := pasta.PoseidonDigest(&c)
		c = pasta.Poseidon3WInit(nil)
		pasta.PoseidonUpdate(&c, []pasta.Field{y})
		return outs(d, pasta.PoseidonDigest(&c))
	})
	add("pasta field", "Pasta", []string{"scalar", "scalar"}, [][]byte{s32, data[:32]}, func(a [][]byte) Out {
		in := func(b []byte) pasta.Field {
			v := a32(b)
			v[0] &= 0x3f
			return PField(new(big.Int).SetBytes(v[:]))
		}
		x, y := in(a[0]), in(a[1])
		var s, m, i, n, q pasta.Field
		pasta.FieldAdd(&s, x, y)
		pasta.FieldMul(&m, x, y)
		pasta.FieldInv(&i, x)
		pasta.FieldNegate(&n, y)
		pasta.FieldSq(&q, x)
		var r [4]uint64
		ok := pasta.FiatPastaFpSqrt(&r, q)
		return flag(ok, []byte(fmt.Sprint(s, m, i, n, q, r)))
	})
	cmp := pa.Cmp
	add("pasta.PointDecompress", "Pasta", []string{"point"}, [][]byte{cmp}, func(a [][]byte) Out { return er(pasta.PointDecompress(a[0])) })
	add("pasta group", "Pasta", []string{"scalar", "scalar"}, [][]byte{s32, data[:32]}, func(a [][]byte) Out {
		var g, p, q, s pasta.Group
		pasta.GroupOne(&g)
		x, y := a32(a[0]), a32(a[1])
		x[0] &= 0x3f
		y[0] &= 0x3f
		pasta.GroupScalarMul(&p, pasta.Scalar(ToMont(new(big.Int).SetBytes(x[:]), ref.Pallas.N)), g)
		pasta.GroupScalarMul(&q, pasta.Scalar(ToMont(new(big.Int).SetBytes(y[:]), ref.Pallas.N)), g)
		pasta.GroupAdd(&s, p, q)
		var A pasta.Affine
		var c pasta.Compressed
		pasta.AffineFromGroup(&A, s)
		pasta.Compress(&c, A)
		return outs([]byte(fmt.Sprint(A, c)))
	})
	return
}
