package kit

import (
	"fmt"
	"math/big"
	"sync"
	"verifharness/ref"

	owcrypt "github.com/blocktree/go-owcrypt"
)

// Degenerate alphabets: the structurally special values an argument of a
// given role can take, well-formed or not.

var degenMemo sync.Map

// Degenerate lists special values for argument i of e. Each starts with the
// entry's own value.
func Degenerate(e Entry, i int) []B {
	key := fmt.Sprint(e.Label, i, len(e.Args[i]))
	if v, ok := degenMemo.Load(key); ok {
		return v.([]B)
	}
	l := append([]B{{e.Args[i], "own"}}, degenerate(e, i)...)
	degenMemo.Store(key, l)
	return l
}

func degenerate(e Entry, i int) (l []B) {
	add := func(b []byte, f string, a ...any) { l = append(l, B{b, fmt.Sprintf(f, a...)}) }
	c := Weier(e.Code)
	if !e.Coded {
		c = map[string]*ref.Curve{"secp256k1": ref.K1, "secp256r1": ref.R1, "SM2": ref.SM2}[e.Family]
	}
	bls := e.Code == owcrypt.ECC_CURVE_BLS12381_G2_XMD_SHA_256_SSWU_RO_NUL || e.Code == owcrypt.ECC_CURVE_BLS12381_G2_XMD_SHA_256_SSWU_RO_AUG
	scalars := func(n *big.Int) {
		for _, v := range []*big.Int{bi(0), bi(1), bi(2), new(big.Int).Sub(n, bi(2)), new(big.Int).Sub(n, bi(1)), n, new(big.Int).Add(n, bi(1)), new(big.Int).Sub(pow2(256), bi(1)), pow2(255), pow2(128)} {
			if v.BitLen() <= 256 {
				add(ref.B32(v), "%d", v)
			}
		}
		add(nil, "nil")
		add([]byte{0}, "1 byte 0")
		add([]byte{5}, "1 byte 5")
		add(make([]byte, 31), "31 bytes 0")
		add(make([]byte, 33), "33 bytes 0")
		add(Fill(33, 0xff), "33 bytes ff")
		add(Fill(64, 0xff), "64 bytes ff")
	}
	weier := func() {
		g := c.G()
		add(c.Enc(g), "G")
		add(c.Enc(c.Neg(g)), "-G")
		add(c.Enc(c.MulBase(bi(2))), "2G")
		if q, ok := c.Lift(bi(0), 0); ok {
			add(c.Enc(q), "x=0")
			add(c.Comp(q), "x=0 compressed")
		}
		add(e.Args[i], "own")
		if p, ok := c.Lift(ref.I(e.Args[i][:32]), 0); ok && len(e.Args[i]) == 64 {
			add(c.Enc(p), "own x, even")
			add(c.Enc(c.Neg(p)), "own x, odd")
		}
		bad := BadPoints(c)
		for _, n := range SortedKeys(bad) {
			add(bad[n], "%s", n)
			add(Cat([]byte{4}, bad[n]), "04 %s", n)
			add(Cat([]byte{2}, bad[n][:32]), "02 %s", n)
			add(Cat([]byte{3}, bad[n][:32]), "03 %s", n)
		}
		for h := 0; h < 8; h++ {
			add(Cat([]byte{byte(h)}, c.Enc(g)), "%02x G", h)
			add(Cat([]byte{byte(h)}, c.Enc(g)[:32]), "%02x G.x", h)
			add([]byte{byte(h)}, "%02x", h)
		}
		add(nil, "nil")
		add([]byte{}, "empty")
		add(make([]byte, 33), "33 zeros")
		add(make([]byte, 65), "65 zeros")
		add(Fill(33, 0xff), "33 ff")
		add(Fill(65, 0xff), "65 ff")
		add(Fill(128, 2), "128 bytes 2")
	}
	edwards := func() {
		p := ref.EdP
		for _, y := range []*big.Int{bi(0), bi(1), bi(2), new(big.Int).Sub(p, bi(1)), p, new(big.Int).Add(p, bi(1)), new(big.Int).Sub(pow2(255), bi(1)), ref.EdG().Y, bi(9)} {
			b := ref.LE(y)
			add(b, "y=%d", y)
			add(Flip(b, 255-7), "y=%d, sign", y)
			b = Clone(b)
			b[31] |= 0x80
			add(b, "y=%d, sign bit", y)
		}
		for j, q := range ref.EdLow() {
			add(q.Enc(), "torsion %d", j)
		}
		add(nil, "nil")
		add(make([]byte, 31), "31 zeros")
		add(make([]byte, 33), "33 zeros")
		add(make([]byte, 64), "64 zeros")
	}
	blspt := func(n int) {
		g := ref.B1
		if n == 96 {
			g = ref.B2
		}
		p48, _ := new(big.Int).SetString("1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab", 16)
		for _, base := range []B{{make([]byte, n), "zero"}, {Fill(n, 0xff), "ff"}, {Clone(e.Args[i]), "own"}, {Cat(p48.Bytes(), make([]byte, n-48)), "p"}, {Cat(make([]byte, n-48), p48.Bytes()), "0,p"}, {Cat(new(big.Int).Sub(p48, bi(1)).Bytes(), make([]byte, n-48)), "p-1"}} {
			for f := 0; f < 8; f++ {
				b := Clone(base.V)
				if len(b) != n {
					continue
				}
				b[0] = b[0]&0x1f | byte(f)<<5
				add(b, "%s, flags %d", base.Name, f)
			}
		}
		for _, t := range BlsTorsion(g) {
			add(g.Comp(t.BPt), "torsion %s", t.Name)
		}
		add(nil, "nil")
		add(make([]byte, n-1), "short")
		add(make([]byte, 2*n), "double")
		add(Cat([]byte{0xc0}, make([]byte, 2*n-1)), "double, infinity")
	}
	switch nm := e.Names[i]; {
	case nm == "prikey" || nm == "scalar" || nm == "random" || nm == "prikeyInitiator" || nm == "prikeyResponder" || nm == "tmpPrikeyInitiator":
		switch {
		case c != nil:
			scalars(c.N)
		case bls:
			scalars(ref.BlsR)
		default:
			scalars(ref.EdL)
			for _, m := range []int64{2, 8, 15} {
				add(ref.LE(new(big.Int).Mul(ref.EdL, bi(m))), "%dL", m)
			}
			add(ref.LE(new(big.Int).Sub(ref.EdL, bi(1))), "L-1")
		}
	case nm == "signature" || nm == "sig" || nm == "signature 1" || nm == "signature 2":
		switch {
		case c != nil:
			own := e.Args[i]
			var vs []B
			for _, v := range []*big.Int{bi(0), bi(1), new(big.Int).Sub(c.N, bi(1)), c.N, new(big.Int).Add(c.N, bi(1)), new(big.Int).Sub(c.P, bi(1)), c.P, new(big.Int).Sub(pow2(256), bi(1))} {
				if v.BitLen() <= 256 {
					vs = append(vs, B{ref.B32(v), v.String()})
				}
			}
			vs = append(vs, B{Clone(own[:32]), "own r"}, B{Clone(own[32:64]), "own s"})
			for _, r := range vs {
				for _, s := range vs {
					b := Cat(r.V, s.V)
					if len(own) == 65 {
						for _, v := range []byte{0, 1, 2, 3, 27, 28, 255} {
							add(Cat(b, []byte{v}), "r=%s s=%s v=%d", r.Name, s.Name, v)
						}
						continue
					}
					add(b, "r=%s s=%s", r.Name, s.Name)
				}
			}
		case bls:
			blspt(96)
		default:
			own := e.Args[i]
			var ps []B
			for _, v := range []B{{Clone(own[:32]), "own"}, {make([]byte, 32), "0"}, {ref.LE(bi(1)), "1"}, {ref.LE(new(big.Int).Sub(ref.EdP, bi(1))), "-1"}, {ref.LE(ref.EdP), "p"}, {Fill(32, 0xff), "ff"}, {ref.LE(pow2(255)), "sign"}} {
				ps = append(ps, v)
			}
			for _, r := range ps {
				for _, s := range []B{{Clone(own[32:]), "own"}, {make([]byte, 32), "0"}, {ref.LE(bi(1)), "1"}, {ref.LE(ref.EdL), "L"}, {ref.LE(new(big.Int).Sub(ref.EdL, bi(1))), "L-1"}, {Fill(32, 0xff), "ff"}, {ref.LE(pow2(255)), "sign"}, {ref.LE(pow2(252)), "2^252"}} {
					add(Cat(r.V, s.V), "R=%s S=%s", r.Name, s.Name)
				}
			}
		}
		add(nil, "nil")
		add([]byte{}, "empty")
		add(e.Args[i][:32:32], "half")
		add(Cat(e.Args[i], []byte{0}), "longer")
	case nm == "ID" || nm == "uid" || nm == "IDinitiator" || nm == "IDresponder":
		for _, n := range []int{0, 1, 31, 32, 8191, 8192, 65536} {
			add(make([]byte, n), "%d bytes", n)
		}
		add(nil, "nil")
	case nm == "data" || nm == "plain" || nm == "key":
		for _, n := range []int{0, 1, 55, 56, 63, 64, 65, 111, 112, 127, 128, 129, 135, 136, 137, 4096} {
			add(make([]byte, n), "%d zeros", n)
		}
		add(nil, "nil")
	case nm == "message" || nm == "msg":
		switch {
		case e.Code == owcrypt.ECC_CURVE_PASTA:
			for _, s := range []string{"", "{}", "null", "[]", "1", `"x"`, `{"transactionPrefix":null}`, `{"transactionPrefix":[],"transactionSuffix":[],"spongeIV":[]}`,
				`{"transactionPrefix":[],"transactionSuffix":[],"spongeIV":[[0,0,0,0],[0,0,0,0],[0,0,0,0]]}`, `{"transactionPrefix":[[]],"transactionSuffix":[[]],"spongeIV":[[],[],[]]}`} {
				add([]byte(s), "%s", s)
			}
			add(nil, "nil")
		default:
			n := ref.EdL
			if c != nil {
				n = c.N
			}
			scalars(n)
		}
	case nm == "cipher":
		own := e.Args[i]
		for _, q := range SortedKeys(BadPoints(c)) {
			for _, h := range []byte{4, 0, 2, 6} {
				add(Cat([]byte{h}, BadPoints(c)[q], own[65:]), "%02x %s", h, q)
			}
		}
		for _, n := range []int{0, 1, 64, 65, 96, 97, 98} {
			add(Clone(own[:n]), "first %d", n)
		}
		add(Cat([]byte{4}, c.Enc(c.G()), make([]byte, 33)), "G, zero")
		add(nil, "nil")
	case c != nil && e.Name != "KeyAgreement_responder_step2" && nm != "Sin" && nm != "x" && nm != "y":
		weier()
	case nm == "x" && c != nil || nm == "y":
		scalars(c.P)
	case bls:
		blspt(len(e.Args[i]))
	case c == nil && len(e.Args[i]) == 32:
		edwards()
	default: // confirmations
		scalars(pow2(255))
	}
	return
}
