// C17: supported algorithm codes, private key domains and result codes.
package main

import (
	"bytes"
	"fmt"
	"math/big"
	"time"
	"verifharness/kit"
	"verifharness/mc"
	"verifharness/ref"

	owcrypt "github.com/blocktree/go-owcrypt"
)

func bi(v int64) *big.Int        { return big.NewInt(v) }
func sub(a, b *big.Int) *big.Int { return new(big.Int).Sub(a, b) }
func pow2(n uint) *big.Int       { return new(big.Int).Lsh(bi(1), n) }

const (
	k1   = owcrypt.ECC_CURVE_SECP256K1
	r1   = owcrypt.ECC_CURVE_SECP256R1
	sm2  = owcrypt.ECC_CURVE_SM2_STANDARD
	ed   = owcrypt.ECC_CURVE_ED25519
	past = owcrypt.ECC_CURVE_PASTA
)

// domain returns the first illegal value of a private key and whether zero is
// illegal; nil means that every 32-byte string is a key.
func domain(code uint32, signing bool) *big.Int {
	switch c := kit.Weier(code); {
	case code == sm2 && signing:
		return sub(c.N, bi(1))
	case c != nil:
		return c.N
	case code == owcrypt.ECC_CURVE_BLS12381_G2_XMD_SHA_256_SSWU_RO_NUL || code == owcrypt.ECC_CURVE_BLS12381_G2_XMD_SHA_256_SSWU_RO_AUG:
		return ref.BlsR
	}
	return nil
}

func call(x *mc.X, e kit.Entry, a [][]byte, code uint32, n int) (o kit.Out) {
	x.Call(e.Label, func() { o = e.Run(a, code, n) })
	x.State(e.Label, code, n, o.String())
	return
}

func with(a [][]byte, i int, v []byte) [][]byte {
	b := append([][]byte{}, a...)
	b[i] = v
	return b
}

// refused fails unless the call refused with one of the codes.
func refused(x *mc.X, e kit.Entry, o kit.Out, key string, codes []uint16, f string, args ...any) {
	bad := o.OK() || !o.Nil() || o.V > 0
	if o.Ret >= 0 && codes != nil {
		in := false
		for _, c := range codes {
			in = in || o.Ret == int(c)
		}
		bad = bad || !in
	}
	if bad {
		x.Fail(key+"/"+e.Name, "%s %s: got %s, want a refusal with %#x", e.Label, fmt.Sprintf(f, args...), o, codes)
	}
}

func served(x *mc.X, e kit.Entry, o kit.Out, sizes []int, key, f string, args ...any) {
	bad := !o.OK() || len(o.B) != len(sizes)
	for i := 0; !bad && i < len(sizes); i++ {
		bad = len(o.B[i]) != sizes[i]
	}
	v := 0
	if e.Name == "Signature" && (e.Code == k1 || e.Code == r1 || e.Code == sm2) {
		v = 1
	}
	if o.V > v || o.Inf > 0 {
		bad = true
	}
	if bad {
		x.Fail(key+"/"+e.Name, "%s %s: got %s, want success with sizes %v", e.Label, fmt.Sprintf(f, args...), o, sizes)
	}
}

func main() {
	mc.Main("C17", 120*time.Second, 800*time.Second, func(r *mc.Run) {
		cat := kit.Catalogue(0)
		serves := map[string]map[uint32]bool{}
		for _, e := range cat {
			if serves[e.Name] == nil {
				serves[e.Name] = map[uint32]bool{}
			}
			serves[e.Name][e.Code] = true
		}
		find := func(name string, code uint32) kit.Entry {
			for _, e := range cat {
				if e.Name == name && e.Code == code {
					return e
				}
			}
			panic(name)
		}
		r.Explore("supported codes", func(x *mc.X) {
			v := x.Choose(r.N(3, 12))
			c := kit.Catalogue(v)
			e := c[x.Choose(len(c))]
			served(x, e, call(x, e, e.Args, e.Code, e.N), e.Sizes, "unserved", "with well-formed arguments")
		})
		codes := append(append(append([]uint32{}, kit.HashCodes...), kit.HmacCodes...), kit.CurveCodes...)
		codes = append(codes, 0, 1, 2, 0xffffffff, 0x80000000, 0xffff, 0xECC0, 0xECC00000-1, 0xECC00000+10, 0xECC00000+11, 0xECC00000+16, 0xECC00000+0x100, 0xECC00000+0x200, 0xECC10000, 0xECB00000,
			0xA0000000-1, 0xA0000000+0x13, 0xA0000000+0x14, 0xA0000000+0x20, 0x50505050-1, 0x50505050+3, 0x50505050+4, 0x50505150)
		r.Explore("other codes", func(x *mc.X) {
			e := cat[x.Choose(len(cat))]
			if !e.Coded {
				return
			}
			l := codes
			for i := 0; i < 32; i++ {
				l = append(l[:len(l):len(l)], e.Code^1<<i)
			}
			for _, code := range l {
				if serves[e.Name][code] {
					continue
				}
				want := []uint16{owcrypt.ECC_WRONG_TYPE}
				if e.Name == "Point_add" || e.Name == "Point_mul" {
					want = []uint16{owcrypt.FAILURE, owcrypt.ECC_WRONG_TYPE}
				}
				refused(x, e, call(x, e, e.Args, code, e.N), "serves-unsupported", want, "with the code %#x", code)
			}
			x.Log("%s with every other code", e.Label)
		})
		// 256-bit values around every modulus in use
		var keys []kit.S
		for _, m := range []struct {
			n string
			v *big.Int
		}{{"0", bi(0)}, {"n(k1)", ref.K1.N}, {"p(k1)", ref.K1.P}, {"n(r1)", ref.R1.N}, {"p(r1)", ref.R1.P}, {"n(SM2)", ref.SM2.N}, {"p(SM2)", ref.SM2.P}, {"q", ref.Pallas.N}, {"p(Pallas)", ref.Pallas.P},
			{"2q", new(big.Int).Lsh(ref.Pallas.N, 1)}, {"3q", new(big.Int).Mul(ref.Pallas.N, bi(3))}, {"r", ref.BlsR}, {"2r", new(big.Int).Lsh(ref.BlsR, 1)}, {"L", ref.EdL}, {"2^252", pow2(252)},
			{"2^254", pow2(254)}, {"2^255", pow2(255)}, {"2^256", pow2(256)}, {"2^248", pow2(248)}, {"2^128", pow2(128)}, {"n(k1)/2", new(big.Int).Rsh(ref.K1.N, 1)}} {
			for d := int64(-3); d <= 3; d++ {
				if v := new(big.Int).Add(m.v, bi(d)); v.Sign() >= 0 && v.BitLen() <= 256 {
					keys = append(keys, kit.S{V: v, Name: fmt.Sprintf("%s%+d", m.n, d)})
				}
			}
		}
		illegal := []uint16{owcrypt.ECC_PRIKEY_ILLEGAL}
		r.Explore("private keys", func(x *mc.X) {
			code := kit.CurveCodes[x.Choose(10)]
			k := keys[x.Choose(len(keys))]
			in := func(signing bool) bool {
				d := domain(code, signing)
				return d == nil || k.V.Sign() > 0 && k.V.Cmp(d) < 0
			}
			e := find("GenPubkey", code)
			o := call(x, e, [][]byte{ref.B32(k.V)}, code, 0)
			if in(false) {
				served(x, e, o, e.Sizes, "refuses-key", "key %s", k.Name)
			} else {
				refused(x, e, o, "serves-key", illegal, "key %s", k.Name)
			}
			e = find("Signature", code)
			x.Reseed("keys")
			o = call(x, e, with(e.Args, 0, ref.B32(k.V)), code, 0)
			if in(true) {
				served(x, e, o, e.Sizes, "refuses-key", "key %s", k.Name)
			} else {
				refused(x, e, o, "serves-key", illegal, "key %s", k.Name)
			}
			if code == sm2 {
				o = call(x, e, [][]byte{ref.B32(k.V), nil, e.Args[2]}, code, 0)
				if in(true) {
					served(x, e, o, e.Sizes, "refuses-key", "key %s without ID", k.Name)
				} else {
					refused(x, e, o, "serves-key", illegal, "key %s without ID", k.Name)
				}
				for _, f := range []struct {
					n    string
					args []int
					code []uint16
				}{{"Decryption", []int{0}, illegal}, {"KeyAgreement_initiator_step2", []int{2, 5}, nil}, {"KeyAgreement_responder_step1", []int{2}, nil}, {"KeyAgreement_responder_ElGamal_step1", []int{2, 6}, nil}} {
					e := find(f.n, code)
					for _, i := range f.args {
						if !in(false) {
							refused(x, e, call(x, e, with(e.Args, i, ref.B32(k.V)), code, e.N), "serves-key", f.code, "%s %s", e.Names[i], k.Name)
						}
					}
				}
			}
			if serves["Point_mulBaseG"][code] && kit.Weier(code) != nil {
				e = find("Point_mulBaseG", code)
				o = call(x, e, [][]byte{ref.B32(k.V)}, code, 0)
				if in(false) {
					served(x, e, o, e.Sizes, "refuses-scalar", "scalar %s", k.Name)
				} else if !o.Nil() && !bytes.Equal(o.B[0], kit.Weier(code).Comp(kit.Weier(code).MulBase(new(big.Int).Mod(k.V, kit.Weier(code).N)))) {
					x.Fail("mulbase", "%s of %s: %s", e.Label, k.Name, o)
				}
			}
		})
		// lengths: every argument of fixed length, truncated and extended
		fixed := func(e kit.Entry, i int, n int) (ok bool, codes []uint16) {
			// ok: the length n may be served; codes: what a refusal reports
			switch nm := e.Names[i]; nm {
			case "data", "key", "uid", "plain", "cipher", "x", "y":
				if nm == "x" && e.Name == "CURVE25519_convert_X_to_Ed" {
					return n == 32, nil
				}
				return true, nil
			case "ID":
				return true, nil
			case "IDinitiator", "IDresponder":
				return n > 0, nil
			case "message", "msg":
				if e.Code == k1 || e.Code == r1 || e.Code == sm2 {
					if e.Name == "Signature" {
						return n == 32, []uint16{owcrypt.MESSAGE_ILLEGAL}
					}
					return n == 32, []uint16{owcrypt.FAILURE}
				}
				return true, nil
			case "scalar":
				return n == 32 || !e.Coded, nil
			case "prikey":
				return n == 32, illegal
			case "random":
				// nil asks the callee to draw one
				return n == len(e.Args[i]) || n <= 0, nil
			case "pointin", "point1", "point2":
				if (e.Name == "Point_add" || e.Name == "Point_mul") && e.Code != ed {
					return n == 33 || n == 64 || n == 65, nil
				}
				if e.Name == "Point_mulBaseG_add" && e.Code == past {
					return n == 33 || n == 64 || n == 65, nil
				}
				return n == len(e.Args[i]), nil
			case "point":
				if e.Name == "PointCompress" {
					return n == 64 || n == 65, nil
				}
				return n == 33, nil
			case "pubkey":
				if e.Name == "Encryption" {
					return n == 64, []uint16{owcrypt.ECC_PUBKEY_ILLEGAL}
				}
				if e.Code == past {
					return n == 33 || n == 64 || n == 65, []uint16{owcrypt.FAILURE}
				}
				return n == len(e.Args[i]), []uint16{owcrypt.FAILURE}
			default:
				return n == len(e.Args[i]), []uint16{owcrypt.FAILURE}
			}
		}
		r.Explore("lengths", func(x *mc.X) {
			e := cat[x.Choose(len(cat))]
			if len(e.Args) == 0 {
				return
			}
			i := x.Choose(len(e.Args))
			a := e.Args[i]
			for n := -1; n <= len(a)+r.N(40, 200); n++ {
				if ok, _ := fixed(e, i, n); ok {
					continue
				}
				_, codes := fixed(e, i, n)
				for _, pad := range []byte{0, 0xff} {
					var b []byte
					switch {
					case n < 0:
					case n <= len(a):
						b = kit.Clone(a[:n])
						if pad != 0 {
							b = kit.Clone(a[len(a)-n:])
						}
					default:
						b = kit.Cat(a, kit.Fill(n-len(a), pad))
						if pad != 0 && n%2 == 0 {
							b = kit.Cat(make([]byte, n-len(a)), a)
						}
					}
					if n == 0 {
						b = []byte{}
					}
					refused(x, e, call(x, e, with(e.Args, i, b), e.Code, e.N), "serves-length", codes, "%s of %d bytes", e.Names[i], n)
				}
			}
			x.Log("%s: %s of every other length", e.Label, e.Names[i])
		})
		// several arguments wrong at once: still refused, with no output
		r.Explore("several wrong arguments", func(x *mc.X) {
			e := cat[x.Choose(len(cat))]
			if len(e.Args) == 0 || !e.Coded || e.Name == "Hash" || e.Name == "Hmac" {
				return
			}
			a := append([][]byte{}, e.Args...)
			wrong := false
			for i := range a {
				k := x.Choose(3)
				var b []byte
				switch k {
				case 0:
					continue
				case 1:
					b = nil
				case 2:
					b = kit.Fill(len(a[i])+9, 1)
				}
				if ok, _ := fixed(e, i, len(b)); !ok || k == 1 && e.Names[i] != "ID" && e.Names[i] != "message" && e.Names[i] != "random" {
					wrong = true
				}
				a[i] = b
			}
			if wrong {
				refused(x, e, call(x, e, a, e.Code, e.N), "serves-wrong", nil, "with wrong arguments")
			}
		})
		// public keys and points that are not points
		r.Explore("points", func(x *mc.X) {
			e := cat[x.Choose(len(cat))]
			c := kit.Weier(e.Code)
			if c == nil && !e.Coded && e.Name != "ZA" {
				c = map[string]*ref.Curve{"secp256k1": ref.K1, "secp256r1": ref.R1, "SM2": ref.SM2}[e.Family]
			}
			if c == nil || e.Name == "PointCompress" || len(e.Args) == 0 {
				return
			}
			i := x.Choose(len(e.Args))
			if n := e.Names[i]; len(e.Args[i]) != 64 || n == "signature" || n == "sig" || n == "data" || n == "message" {
				return
			}
			bad := kit.BadPoints(c)
			for _, n := range kit.SortedKeys(bad) {
				if n == "zero" && e.Code == past && e.Name != "Verify" {
					continue
				}
				codes := []uint16{owcrypt.FAILURE}
				if e.Name == "Encryption" {
					codes = []uint16{owcrypt.ECC_PUBKEY_ILLEGAL}
				}
				refused(x, e, call(x, e, with(e.Args, i, bad[n]), e.Code, e.N), "serves-point", codes, "%s is %q", e.Names[i], n)
			}
		})
		r.Explore("identities", func(x *mc.X) {
			n := []int{-1, 0, 1, 16, 255, 8190, 8191, 8192, 8193, 16384, 65535, 65536, 65537, 131072}[x.Choose(14)]
			var id []byte
			if n >= 0 {
				id = kit.Fill(n, 'i')
			}
			for _, v := range []kit.Entry{find("Signature", sm2), find("Verify", sm2)} {
				o := call(x, v, with(v.Args, 1, id), sm2, -1)
				if v.Name == "Signature" && n < 8192 {
					served(x, v, o, []int{64}, "refuses-id", "ID of %d bytes", n)
				} else {
					refused(x, v, o, "serves-id", []uint16{owcrypt.FAILURE}, "ID of %d bytes", n)
				}
			}
			for _, nm := range []string{"KeyAgreement_initiator_step2", "KeyAgreement_responder_step1", "KeyAgreement_responder_ElGamal_step1"} {
				e := find(nm, sm2)
				for i := 0; i < 2; i++ {
					o := call(x, e, with(e.Args, i, id), sm2, e.N)
					if n > 0 && n < 8192 && nm != "KeyAgreement_initiator_step2" {
						served(x, e, o, e.Sizes, "refuses-id", "%s of %d bytes", e.Names[i], n)
					} else {
						refused(x, e, o, "serves-id", []uint16{owcrypt.FAILURE}, "%s of %d bytes", e.Names[i], n)
					}
				}
			}
			for _, e := range cat {
				if e.Name == "ZA" {
					o := call(x, e, with(e.Args, 2, id), 0, -1)
					if ok := n < 8192; o.OK() != ok || ok && len(o.B[0]) != 32 || !ok && len(o.B[0]) != 0 {
						x.Fail("za-id", "ZA with an ID of %d bytes: %s", n, o)
					}
				}
			}
		})
		r.Explore("confirmations", func(x *mc.X) {
			i := x.Choose(256)
			e := find("KeyAgreement_initiator_step2", sm2)
			refused(x, e, call(x, e, with(e.Args, 8, kit.Flip(e.Args[8], i)), sm2, e.N), "serves-confirmation", []uint16{owcrypt.FAILURE}, "confirmation with bit %d flipped", i)
			e = find("KeyAgreement_responder_step2", sm2)
			refused(x, e, call(x, e, with(e.Args, 0, kit.Flip(e.Args[0], i)), sm2, e.N), "serves-confirmation", []uint16{owcrypt.FAILURE}, "confirmation with bit %d flipped", i)
			refused(x, e, call(x, e, with(e.Args, 1, kit.Flip(e.Args[1], i)), sm2, e.N), "serves-confirmation", []uint16{owcrypt.FAILURE}, "own confirmation with bit %d flipped", i)
		})
		r.Explore("ciphertexts", func(x *mc.X) {
			e := find("Decryption", sm2)
			ct := e.Args[1]
			if x.Bool() {
				n := x.Choose(98)
				b := kit.Clone(ct[:n])
				refused(x, e, call(x, e, with(e.Args, 1, b), sm2, -1), "serves-ciphertext", []uint16{owcrypt.MESSAGE_ILLEGAL}, "the first %d bytes", n)
				return
			}
			n := x.Choose(len(ct))
			b := kit.Flip(ct, 8*n+n%8)
			want := []uint16{owcrypt.FAILURE}
			if n < 65 {
				want = []uint16{owcrypt.MESSAGE_ILLEGAL}
			}
			refused(x, e, call(x, e, with(e.Args, 1, b), sm2, -1), "serves-ciphertext", want, "bit %d flipped", 8*n+n%8)
		})
		r.Explore("recovery values", func(x *mc.X) {
			e := find("RecoverPubkey", kit.CurveCodes[x.Choose(3)])
			v := x.Choose(256)
			b := kit.Clone(e.Args[0])
			b[64] = byte(v)
			o := call(x, e, with(e.Args, 0, b), e.Code, -1)
			if v > 1 {
				refused(x, e, o, "serves-v", []uint16{owcrypt.FAILURE}, "recovery value %d", v)
			} else {
				served(x, e, o, []int{64}, "refuses-v", "recovery value %d", v)
			}
			for _, z := range [][]byte{make([]byte, 32), ref.B32(kit.Weier(e.Code).N)} {
				b := kit.Cat(z, e.Args[0][32:])
				refused(x, e, call(x, e, with(e.Args, 0, b), e.Code, -1), "serves-rs", []uint16{owcrypt.FAILURE}, "r = %x", z)
			}
		})
		r.Explore("aggregates", func(x *mc.X) {
			e := find("AggregateSignatures", kit.CurveCodes[7+x.Choose(2)])
			n := x.Choose(5)
			var a [][]byte
			bad := n == 0
			for i := 0; i < n; i++ {
				switch x.Choose(4) {
				case 0, 1:
					a = append(a, e.Args[i%2])
				case 2:
					a = append(a, e.Args[0][:95:95])
					bad = true
				case 3:
					a = append(a, nil)
					bad = true
				}
			}
			o := call(x, e, a, e.Code, -1)
			if bad {
				refused(x, e, o, "serves-aggregate", []uint16{owcrypt.FAILURE}, "of %d signatures", n)
			} else {
				served(x, e, o, []int{96}, "refuses-aggregate", "of %d signatures", n)
			}
			for _, c := range kit.CurveCodes {
				if c != kit.CurveCodes[7] && c != kit.CurveCodes[8] {
					refused(x, e, call(x, e, a, c, -1), "serves-unsupported", nil, "of %d signatures with the code of %s", n, kit.CodeName(c))
				}
			}
		})
		r.Explore("digest lengths", func(x *mc.X) {
			i := x.Choose(len(kit.HashCodes))
			e := find("Hash", kit.HashCodes[i])
			for _, n := range []int{1, 2, 16, 20, 31, 32, 33, 48, 63, 64, 65, 128, 255, 256, 257, 288, 512, 65535} {
				o := call(x, e, e.Args, e.Code, n)
				want := e.Sizes[0]
				switch e.Code {
				case owcrypt.HASH_ALG_BLAKE2B:
					want = n
					if n > 64 {
						want = -1
					}
				case owcrypt.HASH_ALG_BLAKE2S:
					want = n
					if n > 32 {
						want = -1
					}
				}
				if want < 0 {
					refused(x, e, o, "serves-digest-length", nil, "digest length %d", n)
				} else {
					served(x, e, o, []int{want}, "digest-size", "digest length %d", n)
				}
			}
		})
		r.Note("%d entries (function and algorithm), with arguments computed by the reference implementations", len(cat))
	})
}
