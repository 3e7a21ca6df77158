package kit

import (
	"math/big"
	"verifharness/ref"

	"github.com/blocktree/go-owcrypt/pasta"
)

// Pasta limbs: four 64-bit words, least significant first.
func Limbs(v *big.Int) (out [4]uint64) {
	m := new(big.Int).SetUint64(^uint64(0))
	for i := range out {
		out[i] = new(big.Int).And(new(big.Int).Rsh(v, uint(64*i)), m).Uint64()
	}
	return
}

// FromLimbs is the inverse of Limbs.
func FromLimbs(l [4]uint64) *big.Int {
	v := new(big.Int)
	for i := 3; i >= 0; i-- {
		v.Lsh(v, 64)
		v.Or(v, new(big.Int).SetUint64(l[i]))
	}
	return v
}

// ToMont is the Montgomery representative of v modulo p.
func ToMont(v, p *big.Int) [4]uint64 {
	w := new(big.Int).Lsh(v, 256)
	return Limbs(w.Mod(w, p))
}

// FromMont returns the value of a Montgomery representative.
func FromMont(l [4]uint64, p *big.Int) *big.Int {
	r := new(big.Int).ModInverse(pow2(256), p)
	r.Mul(r, FromLimbs(l))
	return r.Mod(r, p)
}

// PField makes a base field element of pasta from an integer.
func PField(v *big.Int) (f pasta.Field) {
	f.Set(ToMont(v, ref.Pallas.P))
	return
}

// PScalar makes a scalar of pasta from an integer.
func PScalar(v *big.Int) (s pasta.Scalar) {
	s.Set(ToMont(v, ref.Pallas.N))
	return
}

// PastaValues is the alphabet of integers below p: small, near p, around the
// halves, powers of two and limb patterns, and the Montgomery constants.
func PastaValues(p *big.Int, full bool) []*big.Int {
	var l []*big.Int
	seen := map[string]bool{}
	add := func(v *big.Int) {
		if v.Sign() >= 0 && v.Cmp(p) < 0 && !seen[v.String()] {
			seen[v.String()] = true
			l = append(l, v)
		}
	}
	for i := int64(0); i < 4; i++ {
		add(bi(i))
		add(new(big.Int).Sub(p, bi(i)))
	}
	h := new(big.Int).Rsh(p, 1)
	for i := int64(-1); i <= 2; i++ {
		add(new(big.Int).Add(h, bi(i)))
	}
	for _, e := range []int{255, 256, 257, 320, 512, 768} {
		v := new(big.Int).Mod(pow2(e), p)
		add(v)
		add(new(big.Int).Sub(p, v))
		if e >= 256 {
			w := new(big.Int).ModInverse(v, p)
			add(w)
		}
	}
	for _, e := range []int{32, 64, 96, 128, 192, 224, 253, 254} {
		add(new(big.Int).Sub(pow2(e), bi(1)))
		add(pow2(e))
		add(new(big.Int).Add(pow2(e), bi(1)))
		add(new(big.Int).Sub(p, pow2(e)))
	}
	words := []uint64{0, 1, ^uint64(0)}
	tops := []uint64{0, 1, 0x3fffffffffffffff}
	if full {
		words = append(words, 1<<63, 0xffffffff)
		tops = append(tops, 1<<61, 0x4000000000000000)
	}
	for _, t := range tops {
		for _, a := range words {
			for _, b := range words {
				for _, c := range words {
					add(FromLimbs([4]uint64{a, b, c, t}))
				}
			}
		}
	}
	for i := 0; i < 6; i++ {
		add(new(big.Int).Mod(ref.I(Stream("pasta"+string(rune('a'+i)), 32)), p))
	}
	return l
}
