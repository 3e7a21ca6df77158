package kit

import (
	"fmt"
	"math/big"
	"sync"
	"verifharness/ref"

	owcrypt "github.com/blocktree/go-owcrypt"
)

// BlsScheme is one of the two BLS signature schemes.
type BlsScheme struct {
	Name string
	Code uint32
	DST  string
	Aug  bool
}

var BlsSchemes = []BlsScheme{
	{"basic", owcrypt.ECC_CURVE_BLS12381_G2_XMD_SHA_256_SSWU_RO_NUL, "BLS_SIG_BLS12381G2_XMD:SHA-256_SSWU_RO_NUL_", false},
	{"augmented", owcrypt.ECC_CURVE_BLS12381_G2_XMD_SHA_256_SSWU_RO_AUG, "BLS_SIG_BLS12381G2_XMD:SHA-256_SSWU_RO_AUG_", true},
}

var blsMemo sync.Map

// BlsHash is ref.B2.Hash, remembered.
func BlsHash(msg []byte, dst string) ref.BPt {
	k := dst + "\x00" + string(msg)
	if v, ok := blsMemo.Load(k); ok {
		return v.(ref.BPt)
	}
	v := ref.B2.Hash(msg, []byte(dst))
	blsMemo.Store(k, v)
	return v
}

// H is the point a signature multiplies.
func (s BlsScheme) H(pub, msg []byte) ref.BPt {
	if s.Aug {
		msg = Cat(pub, msg)
	}
	return BlsHash(msg, s.DST)
}

// Sig is the point of the signature of key k.
func (s BlsScheme) Sig(k *big.Int, pub, msg []byte) ref.BPt {
	return ref.B2.Mul(s.H(pub, msg), k)
}

// BlsScalars is an alphabet of scalars modulo the group order (0 included).
func BlsScalars() []S {
	var l []S
	add := func(v *big.Int, f string, a ...any) {
		if v.Sign() >= 0 && v.Cmp(ref.BlsR) < 0 {
			l = append(l, S{v, fmt.Sprintf(f, a...)})
		}
	}
	for i := int64(0); i <= 9; i++ {
		add(bi(i), "%d", i)
	}
	for i := int64(1); i <= 4; i++ {
		add(new(big.Int).Sub(ref.BlsR, bi(i)), "r-%d", i)
	}
	h := new(big.Int).Rsh(ref.BlsR, 1)
	add(h, "(r-1)/2")
	add(new(big.Int).Add(h, bi(1)), "(r+1)/2")
	lam, _ := new(big.Int).SetString("ac45a4010001a40200000000ffffffff", 16) // cube root of unity mod r
	add(lam, "lambda")
	add(new(big.Int).Mod(new(big.Int).Mul(lam, lam), ref.BlsR), "lambda^2")
	xx, _ := new(big.Int).SetString("d201000000010000", 16)
	add(xx, "|x|")
	add(new(big.Int).Mul(xx, xx), "x^2")
	for _, e := range []int{8, 31, 32, 63, 64, 65, 127, 128, 129, 191, 192, 253, 254} {
		for d := int64(-1); d <= 1; d++ {
			add(new(big.Int).Add(pow2(e), bi(d)), "2^%d%+d", e, d)
		}
	}
	for _, b := range []byte{0x55, 0x2a, 0x11, 0x70, 0x0f} {
		add(new(big.Int).SetBytes(Fill(32, b)), "%02x..", b)
	}
	for i := 0; i < 4; i++ {
		add(new(big.Int).Mod(new(big.Int).SetBytes(Stream(fmt.Sprintf("bls%d", i), 32)), ref.BlsR), "stream%d", i)
	}
	return l
}

// BP is a named point of G1 or G2.
type BP struct {
	ref.BPt
	Name string
}

var torMemo sync.Map

// BlsTorsion lists points of the curve outside the subgroup: of small order
// and of full cofactor order.
func BlsTorsion(g *ref.BGroup) []BP {
	if v, ok := torMemo.Load(g.Name); ok {
		return v.([]BP)
	}
	h, ok := new(big.Int).SetString(map[string]string{
		"G1": "396c8c005555e1568c00aaab0000aaab",
		"G2": "5d543a95414e7f1091d50792876a202cd91de4547085abaa68a205b2e5a7ddfa628f1cb4d9e82ef21537e293a6691ae1616ec6e786f0c70cf1c38e31c7238e5",
	}[g.Name], 16)
	if !ok {
		panic("cofactor")
	}
	prim := map[string][]int64{"G1": {3, 11}, "G2": {13, 23}}[g.Name]
	var l []BP
	n := int64(0)
	next := func() ref.BPt {
		for {
			n++
			if p, ok := g.Lift(bi(n), bi(1)); g.Name == "G2" && ok {
				return p
			}
			if p, ok := g.Lift(bi(n), bi(0)); g.Name == "G1" && ok {
				return p
			}
		}
	}
	for _, q := range prim {
		for {
			t := g.Mul(next(), ref.BlsR)
			// strip everything but the q-part
			c := new(big.Int).Set(h)
			for new(big.Int).Mod(c, bi(q)).Sign() == 0 {
				c.Div(c, bi(q))
			}
			t = g.Mul(t, c)
			if t.Inf {
				continue
			}
			for {
				u := g.Mul(t, bi(q))
				if u.Inf {
					break
				}
				t = u
			}
			if !g.On(t) || !g.Mul(t, bi(q)).Inf {
				panic("torsion")
			}
			l = append(l, BP{t, fmt.Sprintf("order %d", q)})
			break
		}
	}
	t := g.Mul(next(), ref.BlsR)
	l = append(l, BP{t, "cofactor order"}, BP{next(), "whole curve"})
	for i := range l {
		if g.InGroup(l[i].BPt) || !g.On(l[i].BPt) {
			panic("torsion point in the subgroup")
		}
	}
	torMemo.Store(g.Name, l)
	return l
}
