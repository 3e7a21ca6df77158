package ref

import (
	"encoding/hex"
	"math/big"
)

// Mina's Poseidon sponge and Schnorr signatures over Pallas, on math/big.

var minaK, minaM [][3]*big.Int

func init() {
	for _, r := range minaKeys {
		minaK = append(minaK, [3]*big.Int{hx(r[0]), hx(r[1]), hx(r[2])})
	}
	for _, r := range minaMds {
		minaM = append(minaM, [3]*big.Int{hx(r[0]), hx(r[1]), hx(r[2])})
	}
	if SkipSelfTest {
		return
	}
	// published digest of the empty input (little-endian); it depends on every
	// round key and matrix entry
	want, _ := hex.DecodeString("1b3251b6912d82edc78bbb0a5c88f0c6fde1781bc3e654123fa6862a4c63e617")
	for i := range want[:16] {
		want[i], want[31-i] = want[31-i], want[i]
	}
	z := new(big.Int)
	if PoseidonHash([3]*big.Int{z, z, z}, nil).Cmp(I(want)) != 0 {
		panic("ref: Poseidon does not match the published digest")
	}
}

// PoseidonPerm applies the permutation: 63 rounds of key addition, x^5 and
// the MDS matrix, then a last key addition.
func PoseidonPerm(s [3]*big.Int) [3]*big.Int {
	p := Pallas.P
	five := big.NewInt(5)
	for r := 0; r < 63; r++ {
		var t, o [3]*big.Int
		for i := range s {
			t[i] = new(big.Int).Add(s[i], minaK[r][i])
			t[i].Exp(t[i].Mod(t[i], p), five, p)
		}
		for i := range o {
			o[i] = new(big.Int)
			for j := range t {
				o[i].Add(o[i], new(big.Int).Mul(minaM[i][j], t[j]))
			}
			o[i].Mod(o[i], p)
		}
		s = o
	}
	for i := range s {
		v := new(big.Int).Add(s[i], minaK[63][i])
		s[i] = v.Mod(v, p)
	}
	return s
}

// PoseidonHash absorbs the inputs (rate 2) starting from iv.
func PoseidonHash(iv [3]*big.Int, in []*big.Int) *big.Int {
	s := iv
	for i, v := range in {
		if i > 0 && i%2 == 0 {
			s = PoseidonPerm(s)
		}
		w := new(big.Int).Add(s[i%2], v)
		s[i%2] = w.Mod(w, Pallas.P)
	}
	return PoseidonPerm(s)[0]
}

// MinaMsg is a message: field elements around the signer's key and nonce.
type MinaMsg struct {
	Prefix, Suffix []*big.Int
	IV             [3]*big.Int
}

// E is the challenge for a public key and nonce abscissa.
func (m MinaMsg) E(pub Pt, r *big.Int) *big.Int {
	in := append([]*big.Int{}, m.Prefix...)
	in = append(in, pub.X, pub.Y, r)
	in = append(in, m.Suffix...)
	return PoseidonHash(m.IV, in)
}

// MinaSign returns r and s for nonce k.
func MinaSign(d, k *big.Int, m MinaMsg) (r, s *big.Int) {
	c := Pallas
	R := c.MulBase(k)
	k = new(big.Int).Set(k)
	if R.Y.Bit(0) == 1 {
		k.Sub(c.N, k)
	}
	s = new(big.Int).Mul(m.E(c.MulBase(d), R.X), d)
	s.Add(s, k)
	return R.X, s.Mod(s, c.N)
}

// MinaVerify accepts r and s when sG - eP has abscissa r and even ordinate.
// sure is false when that point is infinity.
func MinaVerify(pub Pt, m MinaMsg, r, s *big.Int) (ok, sure bool) {
	c := Pallas
	if r.Cmp(c.P) >= 0 || s.Cmp(c.N) >= 0 {
		return false, true
	}
	e := m.E(pub, r)
	R := c.Add(c.MulBase(s), c.Neg(c.Mul(pub, e)))
	if R.Inf {
		return false, r.Sign() != 0
	}
	return R.Y.Bit(0) == 0 && R.X.Cmp(r) == 0, true
}
