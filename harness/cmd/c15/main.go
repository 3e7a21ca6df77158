// C15: Mina signatures over Pallas.
package main

import (
	"bytes"
	"fmt"
	"math/big"
	"strings"
	"time"
	"verifharness/kit"
	"verifharness/mc"
	"verifharness/ref"

	owcrypt "github.com/blocktree/go-owcrypt"
	"github.com/blocktree/go-owcrypt/pasta"
)

const code = owcrypt.ECC_CURVE_PASTA

var c = ref.Pallas

func bi(v int64) *big.Int        { return big.NewInt(v) }
func mod(v, m *big.Int) *big.Int { return v.Mod(v, m) }
func sub(a, b *big.Int) *big.Int { return new(big.Int).Sub(a, b) }
func sum(a, b *big.Int) *big.Int { return new(big.Int).Add(a, b) }
func cat(r, s *big.Int) []byte   { return append(ref.B32(r), ref.B32(s)...) }
func shl(n uint) *big.Int        { return new(big.Int).Lsh(bi(1), n) }
func val(label string) *big.Int  { return mod(ref.I(kit.Stream(label, 32)), c.P) }
func limbs(v *big.Int) (s string) {
	l := kit.ToMont(v, c.P)
	return fmt.Sprintf("[%d,%d,%d,%d]", l[0], l[1], l[2], l[3])
}

// encode writes a message by hand, so that the encoder of the library is not trusted.
func encode(m ref.MinaMsg) []byte {
	list := func(l []*big.Int) string {
		var s []string
		for _, v := range l {
			s = append(s, limbs(v))
		}
		return "[" + strings.Join(s, ",") + "]"
	}
	return []byte(`{"transactionPrefix":` + list(m.Prefix) + `,"transactionSuffix":` + list(m.Suffix) + `,"spongeIV":` + list(m.IV[:]) + `}`)
}

func build(m ref.MinaMsg) []byte {
	var o pasta.MinaMessage
	for _, v := range m.Prefix {
		o.TransactionPrefix = append(o.TransactionPrefix, kit.PField(v))
	}
	for _, v := range m.Suffix {
		o.TransactionSuffix = append(o.TransactionSuffix, kit.PField(v))
	}
	for i := range o.SpongeIV {
		o.SpongeIV[i] = kit.PField(m.IV[i])
	}
	return o.ToBytes()
}

func clone(m ref.MinaMsg) ref.MinaMsg {
	m.Prefix = append([]*big.Int{}, m.Prefix...)
	m.Suffix = append([]*big.Int{}, m.Suffix...)
	return m
}

var ivs = func() (l [][3]*big.Int) {
	z := [3]*big.Int{bi(0), bi(0), bi(0)}
	l = append(l, z)
	for _, d := range []string{"CodaSignature*******", "MinaSignatureMainnet"} {
		var b [32]byte
		for i, ch := range []byte(d) {
			b[31-i] = ch
		}
		l = append(l, ref.PoseidonPerm([3]*big.Int{ref.I(b[:]), bi(0), bi(0)}))
	}
	return append(l, [3]*big.Int{sub(c.P, bi(1)), bi(1), val("iv")})
}()

func message(a, b, iv int) (m ref.MinaMsg) {
	for i := 0; i < a; i++ {
		m.Prefix = append(m.Prefix, val(fmt.Sprint("prefix", i)))
	}
	for i := 0; i < b; i++ {
		m.Suffix = append(m.Suffix, val(fmt.Sprint("suffix", i)))
	}
	m.IV = ivs[iv]
	return
}

func verify(x *mc.X, pub, msg, sig []byte, want bool, key, f string, a ...any) {
	var ret uint16
	x.Call("Verify", func() { ret = owcrypt.Verify(pub, nil, msg, sig, code) })
	x.State(pub, msg, sig, int(ret))
	w := uint16(owcrypt.FAILURE)
	if want {
		w = owcrypt.SUCCESS
	}
	if ret != w {
		x.Fail(key, "Mina verify %s: code %#x, want %#x; key %s signature %s", fmt.Sprintf(f, a...), ret, w, mc.Hex(pub), mc.Hex(sig))
	}
}

// judge compares the library with the reference on r, s.
func judge(x *mc.X, pub ref.Pt, m ref.MinaMsg, r, s *big.Int, key, f string, a ...any) {
	ok, sure := ref.MinaVerify(pub, m, r, s)
	if sure {
		verify(x, c.Enc(pub), encode(m), cat(r, s), ok, key, f, a...)
	}
}

func main() {
	mc.Main("C15", 150*time.Second, 800*time.Second, func(r *mc.Run) {
		var keys []kit.S
		for _, s := range kit.Scalars(c) {
			if s.V.Sign() > 0 && s.V.Cmp(c.N) < 0 {
				keys = append(keys, s)
			}
		}
		keys = append(keys, kit.S{V: mod(ref.I(kit.Stream("key", 32)), c.N), Name: "random"})
		sign := func(x *mc.X, d *big.Int, m ref.MinaMsg, msg []byte, what string) (rr, ss *big.Int) {
			var sig []byte
			var v byte
			var ret uint16
			x.Call("Signature", func() { sig, v, ret = owcrypt.Signature(ref.B32(d), nil, msg, code) })
			x.State(what, sig, int(ret))
			x.Assert(ret == owcrypt.SUCCESS && len(sig) == 64 && v == 0, "sign-fails", "Mina sign %s: %s v=%d code %#x", what, mc.Hex(sig), v, ret)
			rr, ss = ref.I(sig[:32]), ref.I(sig[32:])
			pub := c.MulBase(d)
			ok, _ := ref.MinaVerify(pub, m, rr, ss)
			x.Assert(ok, "signature", "Mina sign %s: %s is not a signature under the reference", what, mc.Hex(sig))
			verify(x, c.Enc(pub), msg, sig, true, "own", "own signature of %s", what)
			return
		}
		r.Explore("keys", func(x *mc.X) {
			s := keys[x.Choose(len(keys))]
			m := message(1, 1, 2)
			x.Reseed("keys" + s.Name)
			sign(x, s.V, m, encode(m), "key "+s.Name)
		})
		r.Explore("shapes", func(x *mc.X) {
			a, b, iv := x.Choose(r.N(7, 10)), x.Choose(r.N(7, 10)), x.Choose(4)
			m := message(a, b, iv)
			what := fmt.Sprintf("%d+%d elements, state %d", a, b, iv)
			msg := encode(m)
			if x.Bool() {
				msg = build(m)
			}
			sign(x, keys[len(keys)-1].V, m, msg, what)
		})
		r.Explore("elements", func(x *mc.X) {
			vals := kit.PastaValues(c.P, r.Thorough())
			v := vals[x.Choose(len(vals))]
			m := message(2, 2, 1)
			switch x.Choose(3) {
			case 0:
				m.Prefix[1] = v
			case 1:
				m.Suffix[0] = v
			case 2:
				m.IV[2] = v
			}
			sign(x, keys[len(keys)-1].V, m, build(m), fmt.Sprintf("element %x", v))
		})
		sizes := kit.Lengths(30, r.N(1100, 10001))
		r.Explore("long messages", func(x *mc.X) {
			i := x.Choose(r.N(30, 200) + len(sizes))
			a, b := i, i/2+1
			if j := i - r.N(30, 200); j >= 0 {
				a, b = sizes[j], 1
				if j%3 == 2 {
					a, b = b, a
				}
			}
			m := message(a, b, 1)
			sign(x, keys[0].V, m, encode(m), fmt.Sprintf("%d elements", a))
		})
		// chosen entropy; whatever nonce it leads to, the signature must hold
		pat := [][]byte{make([]byte, 32), kit.Fill(32, 0xff), ref.B32(bi(1)), ref.B32(bi(2)), ref.B32(shl(255)), ref.B32(shl(254)), ref.B32(c.N), ref.B32(sub(c.N, bi(1))), ref.B32(sum(c.N, bi(1))), ref.B32(c.P), kit.Fill(32, 0x3f)}
		for i := 0; i < r.N(24, 400); i++ {
			pat = append(pat, kit.Stream(fmt.Sprint("nonce", i), 32))
		}
		r.Explore("entropy", func(x *mc.X) {
			p := pat[x.Choose(len(pat))]
			d := keys[x.Choose(3)*5].V
			if bytes.Equal(p, make([]byte, 32)) || bytes.Equal(p, ref.B32(shl(255))) || bytes.Equal(p, ref.B32(shl(254))) {
				x.Log("the second draw is used")
			}
			tail := kit.Stream("tail", 4096)
			x.Rand().R = bytes.NewReader(kit.Cat(p, tail))
			m := message(1, 2, 2)
			rr, _ := sign(x, d, m, encode(m), fmt.Sprintf("entropy %x", p))
			x.State(rr.Bytes())
		})
		// genuine signatures for every small nonce, and what is close to them
		nonces := []*big.Int{bi(1), bi(2), bi(3), bi(4), bi(5), bi(6), sub(c.N, bi(1)), sub(c.N, bi(2)), sub(c.N, bi(3)), new(big.Int).Rsh(c.N, 1), shl(253), mod(ref.I(kit.Stream("k", 32)), c.N)}
		r.Explore("genuine", func(x *mc.X) {
			k := nonces[x.Choose(len(nonces))]
			d := keys[x.Choose(len(keys)/r.N(40, 2))*r.N(40, 2)].V
			m := message(x.Choose(3), x.Choose(2), 1)
			pub := c.MulBase(d)
			rr, ss := ref.MinaSign(d, k, m)
			judge(x, pub, m, rr, ss, "rejects-genuine", "key %x nonce %x", d, k)
			// the wrong parity: s built from the nonce that was not negated
			s2 := mod(sub(ss, new(big.Int).Lsh(mod(sub(ss, new(big.Int).Mul(m.E(pub, rr), d)), c.N), 1)), c.N)
			judge(x, pub, m, rr, s2, "accepts-parity", "odd nonce, key %x nonce %x", d, k)
			judge(x, pub, m, rr, mod(sub(c.N, ss), c.N), "accepts-forged", "negated s, key %x nonce %x", d, k)
			judge(x, pub, m, ss, rr, "accepts-forged", "swapped halves, key %x nonce %x", d, k)
			judge(x, pub, m, mod(sub(c.P, rr), c.P), ss, "accepts-forged", "negated r, key %x nonce %x", d, k)
			judge(x, c.Neg(pub), m, rr, ss, "accepts-forged", "negated key")
			judge(x, c.Add(pub, c.G()), m, rr, ss, "accepts-forged", "shifted key")
			for i := int64(-2); i <= 2; i++ {
				judge(x, pub, m, rr, mod(sum(ss, bi(i)), c.N), "accepts-forged", "s%+d", i)
				judge(x, pub, m, mod(sum(rr, bi(i)), c.P), ss, "accepts-forged", "r%+d", i)
			}
			// other representatives
			for i := int64(0); i <= 4; i++ {
				for j := int64(0); j <= 4; j++ {
					r2, s2 := sum(rr, new(big.Int).Mul(c.P, bi(i))), sum(ss, new(big.Int).Mul(c.N, bi(j)))
					if i+j > 0 && r2.BitLen() <= 256 && s2.BitLen() <= 256 {
						verify(x, c.Enc(pub), encode(m), cat(r2, s2), false, "accepts-noncanonical", "r+%dp s+%dq", i, j)
					}
				}
				// the moduli exchanged
				if s2 := sum(ss, new(big.Int).Mul(c.P, bi(i))); i > 0 && s2.BitLen() <= 256 {
					verify(x, c.Enc(pub), encode(m), cat(rr, s2), false, "accepts-noncanonical", "s+%dp", i)
				}
			}
		})
		r.Explore("small r and s", func(x *mc.X) {
			vs := []*big.Int{bi(0), bi(1), bi(2), sub(c.P, bi(1)), c.P, sum(c.P, bi(1)), sub(c.N, bi(1)), c.N, sum(c.N, bi(1)), shl(254), shl(255), sub(shl(256), bi(1))}
			rr := vs[x.Choose(len(vs))]
			for _, ss := range vs {
				for _, d := range []*big.Int{bi(1), bi(2), sub(c.N, bi(1))} {
					judge(x, c.MulBase(d), message(1, 1, 2), rr, ss, "accepts-forged", "r=%x s=%x", rr, ss)
				}
			}
		})
		m := message(2, 3, 1)
		d := keys[len(keys)-1].V
		pub := c.MulBase(d)
		R, S := ref.MinaSign(d, nonces[4], m)
		good := cat(R, S)
		r.Explore("corrupted bits", func(x *mc.X) {
			i := x.Choose(32)
			for j := 16 * i; j < 16*i+16; j++ {
				verify(x, c.Enc(pub), encode(m), kit.Flip(good, j), false, "accepts-corrupt", "signature with bit %d flipped", j)
			}
			for j := 16 * i; j < 16*i+16; j++ {
				verify(x, kit.Flip(c.Enc(pub), j), encode(m), good, false, "accepts-corrupt", "public key with bit %d flipped", j)
			}
		})
		r.Explore("other messages", func(x *mc.X) {
			o := clone(m)
			n := x.Choose(14)
			e := x.Choose(3)
			nm := []string{"plus one", "negated", "zero"}[e]
			alt := func(v *big.Int) *big.Int {
				return mod([]*big.Int{sum(v, bi(1)), sub(c.P, v), bi(0)}[e], c.P)
			}
			switch {
			case n < 2:
				o.Prefix[n] = alt(o.Prefix[n])
			case n < 5:
				o.Suffix[n-2] = alt(o.Suffix[n-2])
			case n < 8:
				o.IV[n-5] = alt(o.IV[n-5])
			case n == 8:
				o.Prefix[0], o.Prefix[1] = o.Prefix[1], o.Prefix[0]
			case n == 9:
				o.Suffix[1], o.Suffix[2] = o.Suffix[2], o.Suffix[1]
			case n == 10: // the boundary moved
				o.Prefix, o.Suffix = append(o.Prefix, o.Suffix[0]), o.Suffix[1:]
			case n == 11:
				o.Suffix = append([]*big.Int{o.Prefix[1]}, o.Suffix...)
				o.Prefix = o.Prefix[:1]
			case n == 12:
				o.Suffix = append(o.Suffix, bi(int64(e)))
			case n == 13:
				o.Suffix = o.Suffix[:2]
			}
			judge(x, pub, o, R, S, "accepts-other-message", "message change %d (%s)", n, nm)
		})
		r.Explore("key forms", func(x *mc.X) {
			e := c.Enc(pub)
			for _, f := range [][]byte{e, append([]byte{4}, e...), c.Comp(pub)} {
				verify(x, f, encode(m), good, true, "rejects-key-form", "%d-byte key", len(f))
			}
			pre := byte(x.Choose(256))
			if pre != 4 {
				verify(x, append([]byte{pre}, e...), encode(m), good, false, "accepts-key-form", "65-byte key with prefix %#x", pre)
			}
			if pre != c.Comp(pub)[0] {
				verify(x, append([]byte{pre}, e[:32]...), encode(m), good, false, "accepts-key-form", "33-byte key with prefix %#x", pre)
			}
			if l := int(pre); l < 140 && l != 33 && l != 64 && l != 65 {
				k := kit.Cat(e, e, e)[:l]
				verify(x, k, encode(m), good, false, "accepts-key-form", "%d-byte key", l)
			}
			if l := int(pre); l < 140 && l != 64 {
				s := append(append([]byte{}, good...), make([]byte, 80)...)[:l]
				verify(x, e, encode(m), s, false, "accepts-signature-length", "%d-byte signature", l)
			}
		})
		r.Explore("invalid keys", func(x *mc.X) {
			bad := kit.BadPoints(c)
			names := kit.SortedKeys(bad)
			n := names[x.Choose(len(names))]
			b := bad[n]
			for _, f := range [][]byte{b, append([]byte{4}, b...)} {
				verify(x, f, encode(m), good, false, "accepts-invalid-key", "invalid key %q", n)
				// s*G = R for any key that acts as infinity
				for _, k := range nonces[:6] {
					Q := c.MulBase(k)
					if Q.Y.Bit(0) == 1 {
						k = sub(c.N, k)
					}
					verify(x, f, encode(m), cat(Q.X, k), false, "accepts-invalid-key", "invalid key %q, s*G = R", n)
				}
			}
		})
		r.Explore("signing keys", func(x *mc.X) {
			var bad [][]byte
			for _, v := range []*big.Int{bi(0), c.N, sum(c.N, bi(1)), sum(c.N, bi(2)), new(big.Int).Lsh(c.N, 1), new(big.Int).Mul(c.N, bi(3)), shl(255), sub(shl(256), bi(1))} {
				bad = append(bad, ref.B32(v))
			}
			for l := 0; l < 70; l++ {
				if l != 32 {
					bad = append(bad, kit.Fill(l, 1))
				}
			}
			bad = append(bad, nil)
			k := bad[x.Choose(len(bad))]
			var sig []byte
			var ret uint16
			x.Call("Signature", func() { sig, _, ret = owcrypt.Signature(k, nil, encode(m), code) })
			x.State(k, sig, int(ret))
			x.Assert(sig == nil && ret == owcrypt.ECC_PRIKEY_ILLEGAL, "bad-key", "Mina sign with the key %s: %s code %#x", mc.Hex(k), mc.Hex(sig), ret)
		})
		// anything that is not JSON of the right shape
		r.Explore("malformed messages", func(x *mc.X) {
			full := encode(m)
			refuse := func(b []byte, what string) {
				var sig []byte
				var ret uint16
				x.Call("Signature", func() { sig, _, ret = owcrypt.Signature(ref.B32(d), nil, b, code) })
				x.State(what, sig, int(ret))
				x.Assert(sig == nil && ret != owcrypt.SUCCESS && ret != owcrypt.ECC_PRIKEY_ILLEGAL, "signs-malformed", "Mina sign of %s: %s code %#x", what, mc.Hex(sig), ret)
				verify(x, c.Enc(pub), b, good, false, "accepts-malformed", "%s", what)
			}
			if x.Bool() {
				n := x.Choose(16)
				for i := n * len(full) / 16; i < (n+1)*len(full)/16; i++ {
					refuse(full[:i], fmt.Sprintf("the first %d bytes", i))
				}
				return
			}
			l := []string{"[]", "1", `"x"`, "true", `{"transactionPrefix":1}`, `{"spongeIV":"a"}`, `{"transactionSuffix":[1]}`, `{"transactionSuffix":[["1",2,3,4]]}`,
				`{"transactionSuffix":[[1.5,2,3,4]]}`, `{"transactionSuffix":[[-1,2,3,4]]}`, `{"transactionSuffix":[[18446744073709551616,2,3,4]]}`, "{", "}", "{}}", "{} x", "\x00", "\xff\xfe",
				string(full) + "}", "x" + string(full), strings.Replace(string(full), ":", "", 1), strings.Replace(string(full), ",", ";", 1), string(bytes.Repeat([]byte("["), 2000))}
			refuse([]byte(l[x.Choose(len(l))]), "malformed JSON")
		})
		// layout of the JSON does not matter
		r.Explore("layout", func(x *mc.X) {
			full := string(encode(m))
			l := []string{full, " " + full + "\n", strings.ReplaceAll(full, ",", " ,\n "), strings.ReplaceAll(full, "[", "[ ")}
			verify(x, c.Enc(pub), []byte(l[x.Choose(len(l))]), good, true, "layout", "message with white space")
		})
		r.Note("the reference is Mina's Schnorr scheme over the reference group and sponge of C16")
	})
}
