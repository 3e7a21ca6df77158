package kit

import (
	"crypto/ecdsa"
	"fmt"
	"math/big"
	"strings"
	"sync"
	"verifharness/ref"

	owcrypt "github.com/blocktree/go-owcrypt"
)

// The catalogue: every exported function of the root package under every
// algorithm code it serves, with well-formed arguments computed by the
// reference implementations.

// Out is everything a call returns.
type Out struct {
	B   [][]byte
	Ret int // the result code, or -1
	Inf int // the infinity flag, or -1
	V   int // the recovery value, or -1
	Err int // 1 for a non-nil error, 0 for nil, -1 if there is none
}

// String is the identity of a result; nil and empty slices differ.
func (o Out) String() string {
	var s strings.Builder
	for _, b := range o.B {
		if b == nil {
			s.WriteString("nil ")
		} else {
			fmt.Fprintf(&s, "%x. ", b)
		}
	}
	fmt.Fprintf(&s, "ret=%#x inf=%d v=%d err=%d", o.Ret, o.Inf, o.V, o.Err)
	return s.String()
}

// Nil reports whether no output was produced.
func (o Out) Nil() bool {
	for _, b := range o.B {
		if b != nil {
			return false
		}
	}
	return o.Inf != 1
}

// OK reports whether the call says it succeeded.
func (o Out) OK() bool {
	switch {
	case o.Ret >= 0:
		return o.Ret == int(owcrypt.SUCCESS)
	case o.Err >= 0:
		return o.Err == 0
	}
	return !o.Nil()
}

// Entry is one entry point under one algorithm code.
type Entry struct {
	Name   string // function
	Label  string // function and algorithm
	Code   uint32
	Coded  bool // takes an algorithm code
	Family string
	Names  []string // argument names
	Args   [][]byte
	N      int // digestLen or keylen; -1 if there is none
	Sizes  []int
	Rand   bool // draws entropy
	Run    func(a [][]byte, code uint32, n int) Out
}

// Call runs the entry with its own arguments.
func (e Entry) Call() Out { return e.Run(e.Args, e.Code, e.N) }

// Codes names every algorithm code.
var HashCodes = []uint32{owcrypt.HASH_ALG_SHA1, owcrypt.HASH_ALG_SHA3_256, owcrypt.HASH_ALG_SHA256, owcrypt.HASH_ALG_SHA512, owcrypt.HASH_ALG_MD4, owcrypt.HASH_ALG_MD5,
	owcrypt.HASH_ALG_RIPEMD160, owcrypt.HASH_ALG_BLAKE2B, owcrypt.HASH_ALG_BLAKE2S, owcrypt.HASH_ALG_SM3, owcrypt.HASH_ALG_DOUBLE_SHA256, owcrypt.HASH_ALG_HASH160,
	owcrypt.HASH_ALG_BLAKE256, owcrypt.HASH_ALG_BLAKE512, owcrypt.HASH_ALG_KECCAK256, owcrypt.HASH_ALG_KECCAK256_RIPEMD160, owcrypt.HASH_ALG_SHA3_256_RIPEMD160,
	owcrypt.HASH_ALG_KECCAK512, owcrypt.HASH_ALG_SHA3_512}
var hashSizes = []int{20, 32, 32, 64, 16, 16, 20, 32, 32, 32, 32, 20, 32, 64, 32, 20, 20, 64, 64}
var HmacCodes = []uint32{owcrypt.HMAC_SHA256_ALG, owcrypt.HMAC_SHA512_ALG, owcrypt.HMAC_SM3_ALG}

// CurveCodes are the ten curve codes.
var CurveCodes = []uint32{owcrypt.ECC_CURVE_SECP256K1, owcrypt.ECC_CURVE_SECP256R1, owcrypt.ECC_CURVE_SM2_STANDARD, owcrypt.ECC_CURVE_ED25519_NORMAL, owcrypt.ECC_CURVE_ED25519,
	owcrypt.ECC_CURVE_X25519, owcrypt.ECC_CURVE_CURVE25519_SHA256, owcrypt.ECC_CURVE_BLS12381_G2_XMD_SHA_256_SSWU_RO_NUL, owcrypt.ECC_CURVE_BLS12381_G2_XMD_SHA_256_SSWU_RO_AUG, owcrypt.ECC_CURVE_PASTA}
var CurveNames = []string{"secp256k1", "secp256r1", "SM2", "Ed25519", "ED25519", "X25519", "Curve25519-SHA256", "BLS-NUL", "BLS-AUG", "Pasta"}

// CodeName names a curve code.
func CodeName(c uint32) string {
	for i, k := range CurveCodes {
		if k == c {
			return CurveNames[i]
		}
	}
	return fmt.Sprintf("%#x", c)
}

// Weier returns the reference curve of a code.
func Weier(code uint32) *ref.Curve {
	switch code {
	case owcrypt.ECC_CURVE_SECP256K1:
		return ref.K1
	case owcrypt.ECC_CURVE_SECP256R1:
		return ref.R1
	case owcrypt.ECC_CURVE_SM2_STANDARD:
		return ref.SM2
	case owcrypt.ECC_CURVE_PASTA:
		return ref.Pallas
	}
	return nil
}

// MinaJSON is a well-formed Mina message of a+b elements.
func MinaJSON(m ref.MinaMsg) []byte {
	list := func(l []*big.Int) string {
		var s []string
		for _, v := range l {
			w := ToMont(v, ref.Pallas.P)
			s = append(s, fmt.Sprintf("[%d,%d,%d,%d]", w[0], w[1], w[2], w[3]))
		}
		return "[" + strings.Join(s, ",") + "]"
	}
	return []byte(`{"transactionPrefix":` + list(m.Prefix) + `,"transactionSuffix":` + list(m.Suffix) + `,"spongeIV":` + list(m.IV[:]) + `}`)
}

// Fixture holds the reference values of one curve code.
type Fixture struct {
	Code               uint32
	Name               string
	Prikey, Pub        []byte
	ID, Msg, Sig       []byte
	Point, Point2, Cmp []byte // other points, where the code has point operations
	RecSig             []byte // signature with recovery byte
}

// MakeFixture computes the fixture of a code; variant selects other keys and
// messages. Variant 1000+v has the message of v and the negated key: the
// public key differs in its sign only, and the signature is made for it.
func MakeFixture(code uint32, variant int) (f Fixture) {
	f.Code, f.Name = code, CodeName(code)
	if variant < 0 {
		n, m := 64, 64
		switch {
		case code == owcrypt.ECC_CURVE_BLS12381_G2_XMD_SHA_256_SSWU_RO_NUL || code == owcrypt.ECC_CURVE_BLS12381_G2_XMD_SHA_256_SSWU_RO_AUG:
			n, m = 48, 96
		case Weier(code) == nil:
			n = 32
		case code != owcrypt.ECC_CURVE_PASTA:
			f.RecSig = make([]byte, 65)
		}
		f.Prikey, f.Pub, f.Sig, f.Point, f.Point2, f.Cmp = make([]byte, 32), make([]byte, n), make([]byte, m), make([]byte, n), make([]byte, n), make([]byte, 33)
		return
	}
	neg := variant >= 1000
	if neg {
		variant -= 1000
	}
	lab := fmt.Sprint(f.Name, variant)
	sec := ref.I(Stream("secret"+lab, 32))
	nonce := ref.I(Stream("nonce"+lab, 32))
	in := func(v, n *big.Int) *big.Int {
		v = new(big.Int).Mod(v, new(big.Int).Sub(n, bi(2)))
		return v.Add(v, bi(1))
	}
	f.Msg = Stream("message"+lab, 32)
	if c := Weier(code); c != nil {
		d, k := in(sec, c.N), in(nonce, c.N)
		if neg {
			d.Sub(c.N, d)
			k.Sub(c.N, k)
		}
		pub := c.MulBase(d)
		f.Prikey, f.Pub = ref.B32(d), c.Enc(pub)
		f.Point, f.Point2 = c.Enc(c.MulBase(k)), c.Enc(c.MulBase(new(big.Int).Add(k, bi(5))))
		f.Cmp = c.Comp(c.MulBase(k))
		switch code {
		case owcrypt.ECC_CURVE_SM2_STANDARD:
			f.ID = []byte("1234567812345678")
			e := ref.SM2E(f.ID, pub, f.Msg)
			r, s, _, _ := ref.SM2Sign(d, k, e)
			f.Sig = RS(r, s)
			r, s, R, _ := ref.SM2Sign(d, k, ref.I(f.Msg))
			f.RecSig = append(RS(r, s), byte(R.Y.Bit(0)))
		case owcrypt.ECC_CURVE_PASTA:
			m := ref.MinaMsg{IV: [3]*big.Int{bi(1), bi(2), bi(3)}}
			for i := 0; i < 3; i++ {
				v := ref.I(Stream(fmt.Sprint("element", i, lab), 31))
				m.Prefix, m.Suffix = append(m.Prefix, v), append(m.Suffix, new(big.Int).Add(v, bi(9)))
			}
			f.Msg = MinaJSON(m)
			f.Sig = RS(ref.MinaSign(d, k, m))
		default:
			r, s, R, _ := c.ECDSASign(d, k, f.Msg)
			v := R.Y.Bit(0)
			if new(big.Int).Lsh(s, 1).Cmp(c.N) > 0 {
				s, v = new(big.Int).Sub(c.N, s), 1-v
			}
			f.Sig = RS(r, s)
			f.RecSig = append(RS(r, s), byte(v))
		}
		return
	}
	for _, s := range BlsSchemes {
		if s.Code == code {
			d := in(sec, ref.BlsR)
			if neg {
				d.Sub(ref.BlsR, d)
			}
			f.Prikey, f.Pub = ref.B32(d), ref.B1.Comp(ref.B1.Base(d))
			f.Sig = ref.B2.Comp(s.Sig(d, f.Pub, f.Msg))
			f.Point = ref.B1.Comp(ref.B1.Base(new(big.Int).Add(d, bi(5))))
			return
		}
	}
	for _, s := range EdSchemes {
		if s.Code == code {
			k := Stream("secret"+lab, 32)
			f.Prikey, f.Pub = k, s.Pub(k)
			d := s.Scalar(k)
			if neg && code != owcrypt.ECC_CURVE_CURVE25519_SHA256 && code != owcrypt.ECC_CURVE_X25519 {
				d = new(big.Int).Mod(new(big.Int).Neg(d), ref.EdL)
				f.Pub = ref.EdMulBase(d).Enc()
				if code == owcrypt.ECC_CURVE_ED25519 {
					f.Prikey = ref.LE(d)
				}
			}
			r := new(big.Int).Mod(nonce, ref.EdL)
			switch code {
			case owcrypt.ECC_CURVE_CURVE25519_SHA256:
				for i := 0; ; i++ { // the library accepts canonical, verifiable signatures only
					f.Sig = ref.KSign(d, new(big.Int).Add(r, bi(int64(i))), f.Msg)
					if ok, _ := s.Verify(f.Pub, f.Msg, f.Sig); ok {
						break
					}
				}
			case owcrypt.ECC_CURVE_X25519:
				// the Edwards key of even sign, and the sign bit kept in the signature
				a := ref.EdMulBase(d)
				e := a.Enc()
				f.Sig = ref.EdSign(d, r, ref.EdO(), e, f.Msg)
				f.Sig[63] |= e[31] & 0x80
				if ok, _ := s.Verify(f.Pub, f.Msg, f.Sig); !ok {
					panic("kit: X25519 fixture")
				}
			default:
				f.Sig = ref.EdSign(d, r, ref.EdO(), f.Pub, f.Msg)
			}
			f.Point = ref.EdMulBase(in(nonce, ref.EdL)).Enc()
			f.Point2 = ref.EdMulBase(new(big.Int).Add(in(nonce, ref.EdL), bi(5))).Enc()
			return
		}
	}
	panic("kit: no fixture")
}

var (
	catOnce  sync.Map
	CatNames []string
)

// Catalogue lists the entries; variant selects another set of arguments. The
// entries of variant -1 have no useful arguments, but cost nothing to make.
func Catalogue(variant int) []Entry {
	if v, ok := catOnce.Load(variant); ok {
		return v.([]Entry)
	}
	v := catalogue(variant)
	catOnce.Store(variant, v)
	return v
}

func catalogue(variant int) (l []Entry) {
	data := Stream(fmt.Sprint("data", variant), 77+max(variant, 0))
	add := func(e Entry) {
		if e.Label == "" {
			e.Label = e.Name + "/" + e.Family
		}
		l = append(l, e)
	}
	one := func(b []byte) Out { return Out{B: [][]byte{b}, Ret: -1, Inf: -1, V: -1, Err: -1} }
	ret := func(b []byte, r uint16) Out { return Out{B: [][]byte{b}, Ret: int(r), Inf: -1, V: -1, Err: -1} }
	inf := func(b []byte, i bool) Out {
		o := one(b)
		o.Inf = map[bool]int{true: 1}[i]
		return o
	}
	er := func(b []byte, err error) Out {
		o := one(b)
		o.Err = map[bool]int{true: 1}[err != nil]
		return o
	}
	for i, c := range HashCodes {
		add(Entry{Name: "Hash", Code: c, Coded: true, Family: fmt.Sprintf("%#x", c), Names: []string{"data"}, Args: [][]byte{data}, N: 32, Sizes: []int{hashSizes[i]},
			Run: func(a [][]byte, code uint32, n int) Out { return one(owcrypt.Hash(a[0], uint16(n), code)) }})
	}
	for i, c := range HmacCodes {
		add(Entry{Name: "Hmac", Code: c, Coded: true, Family: fmt.Sprintf("%#x", c), Names: []string{"key", "data"}, Args: [][]byte{Stream("hkey", 70), data}, N: -1, Sizes: []int{[]int{32, 64, 32}[i]},
			Run: func(a [][]byte, code uint32, n int) Out { return one(owcrypt.Hmac(a[0], a[1], code)) }})
	}
	for _, c := range CurveCodes {
		f := MakeFixture(c, variant)
		pubLen, sigLen := len(f.Pub), len(f.Sig)
		e := Entry{Code: c, Coded: true, Family: f.Name, N: -1}
		mk := func(name string, names []string, args [][]byte, sizes []int, rnd bool, run func(a [][]byte, code uint32, n int) Out) {
			e := e
			e.Name, e.Names, e.Args, e.Sizes, e.Rand, e.Run = name, names, args, sizes, rnd, run
			add(e)
		}
		sm2 := c == owcrypt.ECC_CURVE_SM2_STANDARD
		mk("GenPubkey", []string{"prikey"}, [][]byte{f.Prikey}, []int{pubLen}, false, func(a [][]byte, code uint32, n int) Out { return ret(owcrypt.GenPubkey(a[0], code)) })
		sign := func(a [][]byte, code uint32, n int) Out {
			s, v, r := owcrypt.Signature(a[0], a[1], a[2], code)
			o := ret(s, r)
			o.V = int(v)
			return o
		}
		det := c == owcrypt.ECC_CURVE_ED25519_NORMAL || len(f.Pub) == 48 || c == owcrypt.ECC_CURVE_CURVE25519_SHA256
		mk("Signature", []string{"prikey", "ID", "message"}, [][]byte{f.Prikey, f.ID, f.Msg}, []int{sigLen}, !det, sign)
		verify := func(a [][]byte, code uint32, n int) Out {
			return Out{Ret: int(owcrypt.Verify(a[0], a[1], a[2], a[3], code)), Inf: -1, V: -1, Err: -1}
		}
		mk("Verify", []string{"pubkey", "ID", "message", "signature"}, [][]byte{f.Pub, f.ID, f.Msg, f.Sig}, nil, false, verify)
		if sm2 {
			e2 := e
			e2.Family = "SM2 without ID"
			e2.Name, e2.Names, e2.Args, e2.Sizes, e2.Rand, e2.Run = "Signature", []string{"prikey", "ID", "message"}, [][]byte{f.Prikey, nil, f.Msg}, []int{64}, true, sign
			add(e2)
			e2.Name, e2.Names, e2.Args, e2.Sizes, e2.Rand, e2.Run = "Verify", []string{"pubkey", "ID", "message", "signature"}, [][]byte{f.Pub, nil, f.Msg, f.RecSig[:64:64]}, nil, false, verify
			add(e2)
		}
		if len(f.Pub) == 48 {
			f2 := MakeFixture(c, variant+100)
			mk("AggregateSignatures", []string{"signature 1", "signature 2"}, [][]byte{f.Sig, f2.Sig}, []int{96}, false, func(a [][]byte, code uint32, n int) Out { return ret(owcrypt.AggregateSignatures(code, a...)) })
		}
		if f.Point != nil && (Weier(c) != nil || c == owcrypt.ECC_CURVE_ED25519 || len(f.Pub) == 48) {
			mk("Point_mulBaseG", []string{"scalar"}, [][]byte{f.Prikey}, []int{map[int]int{64: 33, 32: 32, 48: 48}[pubLen]}, false, func(a [][]byte, code uint32, n int) Out { return one(owcrypt.Point_mulBaseG(a[0], code)) })
			mk("Point_mulBaseG_add", []string{"pointin", "scalar"}, [][]byte{f.Point, f.Prikey}, []int{pubLen}, false, func(a [][]byte, code uint32, n int) Out {
				return inf(owcrypt.Point_mulBaseG_add(a[0], a[1], code))
			})
		}
		padd := func(a [][]byte, code uint32, n int) Out { return ret(owcrypt.Point_add(a[0], a[1], code)) }
		pmul := func(a [][]byte, code uint32, n int) Out { return ret(owcrypt.Point_mul(a[0], a[1], code)) }
		if c == owcrypt.ECC_CURVE_ED25519 {
			mk("Point_add", []string{"point1", "point2"}, [][]byte{f.Point, f.Point2}, []int{32}, false, padd)
		}
		if Weier(c) != nil || c == owcrypt.ECC_CURVE_ED25519 {
			mk("GetCurveOrder", nil, nil, []int{32}, false, func(a [][]byte, code uint32, n int) Out { return one(owcrypt.GetCurveOrder(code)) })
		}
		if Weier(c) != nil {
			mk("Point_add", []string{"point1", "point2"}, [][]byte{f.Point, f.Point2}, []int{64}, false, padd)
			mk("Point_mul", []string{"pointin", "scalar"}, [][]byte{f.Point, f.Prikey}, []int{64}, false, pmul)
			e3 := e
			e3.Family = f.Name + " (other forms)"
			e3.Name, e3.Names, e3.Args, e3.Sizes, e3.Run = "Point_add", []string{"point1", "point2"}, [][]byte{f.Cmp, Cat([]byte{4}, f.Point2)}, []int{64}, padd
			add(e3)
			e3.Name, e3.Names, e3.Args, e3.Sizes, e3.Run = "Point_mul", []string{"pointin", "scalar"}, [][]byte{Cat([]byte{4}, f.Point), f.Prikey}, []int{64}, pmul
			add(e3)
			mk("PointCompress", []string{"point"}, [][]byte{f.Point}, []int{33}, false, func(a [][]byte, code uint32, n int) Out { return one(owcrypt.PointCompress(a[0], code)) })
			mk("PointDecompress", []string{"point"}, [][]byte{f.Cmp}, []int{65}, false, func(a [][]byte, code uint32, n int) Out { return one(owcrypt.PointDecompress(a[0], code)) })
		}
		if f.RecSig != nil {
			mk("RecoverPubkey", []string{"sig", "msg"}, [][]byte{f.RecSig, f.Msg}, []int{64}, false, func(a [][]byte, code uint32, n int) Out { return ret(owcrypt.RecoverPubkey(a[0], a[1], code)) })
			name := []string{"secp256k1", "secp256r1", "sm2_std"}[c&3]
			plain := func(fn string, names []string, args [][]byte, run func(a [][]byte, code uint32, n int) Out) {
				add(Entry{Name: fn, Family: f.Name, Names: names, Args: args, N: -1, Sizes: []int{64}, Run: run})
			}
			plain("Add", []string{"point1", "point2"}, [][]byte{f.Point, f.Point2}, func(a [][]byte, code uint32, n int) Out { return inf(owcrypt.Add(a[0], a[1], name)) })
			plain("Mul", []string{"pointin", "scalar"}, [][]byte{f.Point, f.Prikey}, func(a [][]byte, code uint32, n int) Out { return inf(owcrypt.Mul(a[0], a[1], name)) })
			plain("MulBaseG_Add", []string{"pointin", "scalar"}, [][]byte{f.Point, f.Prikey}, func(a [][]byte, code uint32, n int) Out { return inf(owcrypt.MulBaseG_Add(a[0], a[1], name)) })
		}
		if sm2 {
			sm := ref.SM2
			d := ref.I(f.Prikey)
			base := func(k *big.Int) ref.Pt {
				if variant < 0 {
					k = bi(1)
				}
				return sm.MulBase(k)
			}
			pt := func(k *big.Int) []byte { return sm.Enc(base(k)) }
			ct, _ := ref.SM2Encrypt(base(d), ref.I(Stream("k"+string(f.Msg), 32)), data[:45])
			mk("Encryption", []string{"pubkey", "plain"}, [][]byte{f.Pub, data[:45]}, []int{97 + 45}, true, func(a [][]byte, code uint32, n int) Out { return ret(owcrypt.Encryption(a[0], a[1], code)) })
			mk("Decryption", []string{"prikey", "cipher"}, [][]byte{f.Prikey, ct}, []int{45}, false, func(a [][]byte, code uint32, n int) Out { return ret(owcrypt.Decryption(a[0], a[1], code)) })
			dB, rA, rB := new(big.Int).Add(d, bi(1)), new(big.Int).Rsh(ref.I(f.Msg), 1), new(big.Int).Rsh(ref.I(data[:32]), 1)
			idA, idB := []byte("Alice"), []byte("Bob@")
			ka := ref.KA{IDA: idA, IDB: idB, PA: base(d), PB: base(dB), RA: base(rA), RB: base(rB), D: d, R: rA, Initiator: true, KeyLen: 40}
			_, sb, sa, _ := ka.Run()
			mk("KeyAgreement_initiator_step1", nil, nil, []int{32, 64}, true, func(a [][]byte, code uint32, n int) Out {
				k, p := owcrypt.KeyAgreement_initiator_step1(code)
				return Out{B: [][]byte{k, p}, Ret: -1, Inf: -1, V: -1, Err: -1}
			})
			e4 := e
			e4.N, e4.Name, e4.Sizes = 40, "KeyAgreement_initiator_step2", []int{40, 32}
			e4.Names = []string{"IDinitiator", "IDresponder", "prikeyInitiator", "pubkeyInitiator", "pubkeyResponder", "tmpPrikeyInitiator", "tmpPubkeyInitiator", "tmpPubkeyResponder", "Sin"}
			e4.Args = [][]byte{idA, idB, f.Prikey, f.Pub, pt(dB), ref.B32(rA), pt(rA), pt(rB), sb}
			e4.Run = func(a [][]byte, code uint32, n int) Out {
				k, s, r := owcrypt.KeyAgreement_initiator_step2(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], uint16(n), code)
				return Out{B: [][]byte{k, s}, Ret: int(r), Inf: -1, V: -1, Err: -1}
			}
			add(e4)
			e4.Name, e4.Sizes, e4.Rand = "KeyAgreement_responder_step1", []int{40, 64, 32, 32}, true
			e4.Names = []string{"IDinitiator", "IDresponder", "prikeyResponder", "pubkeyResponder", "pubkeyInitiator", "tmpPubkeyInitiator"}
			e4.Args = [][]byte{idA, idB, ref.B32(dB), pt(dB), f.Pub, pt(rA)}
			e4.Run = func(a [][]byte, code uint32, n int) Out {
				k, t, i, o, r := owcrypt.KeyAgreement_responder_step1(a[0], a[1], a[2], a[3], a[4], a[5], uint16(n), code)
				return Out{B: [][]byte{k, t, i, o}, Ret: int(r), Inf: -1, V: -1, Err: -1}
			}
			add(e4)
			e4.Name, e4.Rand = "KeyAgreement_responder_ElGamal_step1", false
			e4.Names = append(e4.Names[:6:6], "random")
			e4.Args = append(e4.Args[:6:6], ref.B32(rB))
			e4.Run = func(a [][]byte, code uint32, n int) Out {
				k, t, i, o, r := owcrypt.KeyAgreement_responder_ElGamal_step1(a[0], a[1], a[2], a[3], a[4], a[5], uint16(n), a[6], code)
				return Out{B: [][]byte{k, t, i, o}, Ret: int(r), Inf: -1, V: -1, Err: -1}
			}
			add(e4)
			mk("KeyAgreement_responder_step2", []string{"Sinitiator", "Sresponder"}, [][]byte{sa, Clone(sa)}, nil, false, func(a [][]byte, code uint32, n int) Out {
				return Out{Ret: int(owcrypt.KeyAgreement_responder_step2(a[0], a[1], code)), Inf: -1, V: -1, Err: -1}
			})
			add(Entry{Name: "ZA", Label: "ZA", Family: "SM2", Names: []string{"x", "y", "uid"}, Args: [][]byte{f.Pub[:32:32], Clone(f.Pub[32:]), f.ID}, N: -1, Sizes: []int{32}, Run: func(a [][]byte, code uint32, n int) Out {
				return er(owcrypt.ZA(&ecdsa.PublicKey{X: ref.I(a[0]), Y: ref.I(a[1])}, a[2]))
			}})
		}
		switch c {
		case owcrypt.ECC_CURVE_X25519:
			add(Entry{Name: "CURVE25519_convert_X_to_Ed", Label: "CURVE25519_convert_X_to_Ed", Family: "X25519", Names: []string{"x"}, Args: [][]byte{f.Pub}, N: -1, Sizes: []int{32}, Run: func(a [][]byte, code uint32, n int) Out { return er(owcrypt.CURVE25519_convert_X_to_Ed(a[0])) }})
		case owcrypt.ECC_CURVE_ED25519:
			add(Entry{Name: "CURVE25519_convert_Ed_to_X", Label: "CURVE25519_convert_Ed_to_X", Family: "ED25519", Names: []string{"ed"}, Args: [][]byte{f.Pub}, N: -1, Sizes: []int{32}, Run: func(a [][]byte, code uint32, n int) Out { return er(owcrypt.CURVE25519_convert_Ed_to_X(a[0])) }})
		}
	}
	return
}
