package kit

import (
	"crypto/ed25519"
	"crypto/sha512"
	"fmt"
	"math/big"
	"verifharness/mc"
	"verifharness/ref"

	owcrypt "github.com/blocktree/go-owcrypt"
)

// EdScheme is one of the four signature schemes on curve25519.
type EdScheme struct {
	Name string
	Code uint32
	// Pub is the public key of a private key.
	Pub func(k []byte) []byte
	// Verify decides a signature; the second result is false where the
	// properties leave the outcome open.
	Verify func(pub, msg, sig []byte) (ok, specified bool)
}

func edVerify(pub, msg, sig []byte) (bool, bool) {
	a, ok, canon := ref.EdDec(pub)
	if !ok {
		return false, true
	}
	return ref.EdVerify(a, pub, msg, sig), canon
}

// EdSchemes lists them.
var EdSchemes = []EdScheme{
	{"Ed25519", owcrypt.ECC_CURVE_ED25519_NORMAL, func(k []byte) []byte { return ed25519.NewKeyFromSeed(k)[32:] }, edVerify},
	{"ED25519", owcrypt.ECC_CURVE_ED25519, func(k []byte) []byte { return ref.EdMulBase(ref.ILE(k)).Enc() }, edVerify},
	{"X25519", owcrypt.ECC_CURVE_X25519, func(k []byte) []byte { return ref.LE(ref.EdToU(ref.EdMulBase(ref.ILE(k)).Y)) },
		func(pub, msg, sig []byte) (bool, bool) {
			ok, canon := ref.XVerify(pub, msg, sig)
			if len(pub) == 32 && ref.ILE(pub).Cmp(ref.EdP) >= 0 {
				return false, true
			}
			return ok, canon
		}},
	{"Curve25519-SHA256", owcrypt.ECC_CURVE_CURVE25519_SHA256, func(k []byte) []byte { return ref.LE(ref.EdToU(ref.EdMulBase(ref.Clamp(k)).Y)) }, ref.KVerify},
}

// Scalar is the secret scalar of a private key.
func (s EdScheme) Scalar(k []byte) *big.Int {
	switch s.Code {
	case owcrypt.ECC_CURVE_ED25519_NORMAL:
		h := sha512.Sum512(k)
		return ref.Clamp(h[:32])
	case owcrypt.ECC_CURVE_CURVE25519_SHA256:
		return ref.Clamp(k)
	}
	return ref.ILE(k)
}

// EdKeys is the alphabet of 32-byte private keys.
func EdKeys() []B {
	var l []B
	add := func(v *big.Int, f string, a ...any) {
		if v.Sign() >= 0 && v.BitLen() <= 256 {
			l = append(l, B{ref.LE(v), fmt.Sprintf(f, a...)})
		}
	}
	for i := int64(0); i < 4; i++ {
		add(bi(i), "%d", i)
	}
	for m := int64(1); m <= 15; m++ {
		v := new(big.Int).Mul(ref.EdL, bi(m))
		for d := int64(-1); d <= 1; d++ {
			add(new(big.Int).Add(v, bi(d)), "%dL%+d", m, d)
		}
	}
	for _, e := range []uint{8, 64, 127, 128, 251, 252, 253, 254, 255, 256} {
		for d := int64(-1); d <= 1; d++ {
			add(new(big.Int).Add(pow2(int(e)), bi(d)), "2^%d%+d", e, d)
		}
	}
	l = append(l, B{Fill(32, 0x55), "55.."}, B{Fill(32, 0xaa), "aa.."}, B{Fill(32, 0x88), "88.."}, B{Fill(32, 0x77), "77.."}, B{Fill(32, 0x80), "80.."})
	for i := 0; i < 4; i++ {
		l = append(l, B{Stream(fmt.Sprintf("edkey%d", i), 32), fmt.Sprintf("stream%d", i)})
	}
	return l
}

// Sign calls the library.
func (s EdScheme) Sign(x *mc.X, k, msg []byte, what string) []byte {
	var sig []byte
	var v byte
	var ret uint16
	x.Call("Signature", func() { sig, v, ret = owcrypt.Signature(k, nil, msg, s.Code) })
	x.State(s.Name, what, sig, int(ret))
	x.Assert(ret == owcrypt.SUCCESS && len(sig) == 64 && v == 0, "sign-fails/"+s.Name, "%s sign %s: code %#x, v=%d, %d bytes", s.Name, what, ret, v, len(sig))
	return sig
}

// Check compares the library's verdict with the definition.
func (s EdScheme) Check(x *mc.X, pub, msg, sig []byte, what string) bool {
	var ret uint16
	x.Call("Verify", func() { ret = owcrypt.Verify(pub, nil, msg, sig, s.Code) })
	x.State(s.Name, pub, msg, sig, int(ret))
	want, spec := s.Verify(pub, msg, sig)
	if !spec {
		return want
	}
	w := uint16(owcrypt.FAILURE)
	key := "accepts/"
	if want {
		w, key = owcrypt.SUCCESS, "rejects/"
	}
	if ret != w {
		x.Fail(key+s.Name, "%s verify %s: code %#x, want %#x; key %s message %s signature %s", s.Name, what, ret, w, mc.Hex(pub), mc.Hex(msg), mc.Hex(sig))
	}
	return want
}
