// C13: BLS signatures, alone and aggregated.
package main

import (
	"bytes"
	"fmt"
	"math/big"
	"time"
	"verifharness/kit"
	"verifharness/mc"
	"verifharness/ref"

	owcrypt "github.com/blocktree/go-owcrypt"
	"github.com/blocktree/go-owcrypt/bls12_381"
)

func bi(v int64) *big.Int { return big.NewInt(v) }

func b32(v *big.Int) []byte { return v.FillBytes(make([]byte, 32)) }

func main() {
	mc.Main("C13", 150*time.Second, 800*time.Second, func(r *mc.Run) {
		var keys []kit.S
		for _, s := range kit.BlsScalars() {
			if s.V.Sign() != 0 {
				keys = append(keys, s)
			}
		}
		gen := keys[len(keys)-4:]
		B1, B2 := ref.B1, ref.B2
		pubOf := func(k *big.Int) []byte { return B1.Comp(B1.Base(k)) }
		msgs := []kit.B{{V: nil, Name: "nil"}, {V: []byte{}, Name: "empty"}, {V: []byte{0}, Name: "zero"}, {V: []byte("abc"), Name: "abc"},
			{V: kit.Stream("m", 32), Name: "32"}, {V: kit.Stream("m", 96), Name: "96"}, {V: []byte(kit.BlsSchemes[0].DST), Name: "the basic tag"},
			{V: []byte(kit.BlsSchemes[1].DST + "x"), Name: "the augmented tag x"}, {V: kit.Stream("m", 300), Name: "300"}}
		sign := func(x *mc.X, s kit.BlsScheme, k *big.Int, msg []byte, what string) []byte {
			var sig []byte
			var v byte
			var ret uint16
			x.Call("Signature", func() { sig, v, ret = owcrypt.Signature(b32(k), nil, msg, s.Code) })
			x.State(s.Name, what, sig, int(ret))
			x.Assert(ret == owcrypt.SUCCESS && v == 0, "sign-fails/"+s.Name, "BLS %s sign %s: code %#x v=%d", s.Name, what, ret, v)
			want := B2.Comp(s.Sig(k, pubOf(k), msg))
			x.Eq(sig, want, "signature/"+s.Name, "BLS %s sign %s", s.Name, what)
			return want
		}
		verify := func(x *mc.X, s kit.BlsScheme, pub, msg, sig []byte, want bool, what string) {
			var ret uint16
			x.Call("Verify", func() { ret = owcrypt.Verify(pub, nil, msg, sig, s.Code) })
			x.State(s.Name, pub, msg, sig, int(ret))
			w, key := uint16(owcrypt.FAILURE), "accepts/"
			if want {
				w, key = owcrypt.SUCCESS, "rejects/"
			}
			if ret != w {
				x.Fail(key+s.Name, "BLS %s verify %s: code %#x, want %#x; key %s message %s signature %s", s.Name, what, ret, w, mc.Hex(pub), mc.Hex(msg), mc.Hex(sig))
			}
		}
		// decide is the definition: the key of pub is k, or unknown (nil)
		// when pub was changed.
		decide := func(s kit.BlsScheme, k *big.Int, pub, msg, sig []byte) bool {
			P, err := B1.Decode(pub, true)
			if err != nil || P.Inf {
				return false
			}
			S, err := B2.Decode(sig, true)
			if err != nil {
				return false
			}
			for _, c := range []*big.Int{k, new(big.Int).Sub(ref.BlsR, k)} {
				if B1.Base(c) == P {
					return s.Sig(c, pub, msg) == S
				}
			}
			return false // another key: S = k*H(m) or garbage
		}

		r.Explore("keys and messages", func(x *mc.X) {
			s := kit.BlsSchemes[x.Choose(2)]
			k := keys[x.Choose(len(keys))]
			m := msgs[x.Choose(len(msgs))]
			var got []byte
			var ret uint16
			x.Call("GenPubkey", func() { got, ret = owcrypt.GenPubkey(b32(k.V), s.Code) })
			pub := pubOf(k.V)
			x.Assert(ret == owcrypt.SUCCESS && bytes.Equal(got, pub), "pubkey", "BLS key %s: public key %s code %#x, want %s", k.Name, mc.Hex(got), ret, mc.Hex(pub))
			what := "key " + k.Name + " message " + m.Name
			sig := sign(x, s, k.V, m.V, what)
			verify(x, s, pub, m.V, sig, true, what)
		})
		r.Explore("message lengths", func(x *mc.X) {
			s := kit.BlsSchemes[x.Choose(2)]
			n := x.Choose(r.N(260, 1100))
			m := kit.Stream("len", n)
			sig := sign(x, s, gen[0].V, m, fmt.Sprintf("%d bytes", n))
			verify(x, s, pubOf(gen[0].V), m, sig, true, fmt.Sprintf("%d bytes", n))
		})
		sizes := kit.Lengths(250, r.N(1<<20+1<<19, 1<<23+1))
		r.Explore("large messages", func(x *mc.X) {
			s := kit.BlsSchemes[x.Choose(2)]
			n := sizes[x.Choose(len(sizes))]
			m := kit.Long(n)
			sig := sign(x, s, gen[0].V, m, fmt.Sprintf("%d bytes", n))
			verify(x, s, pubOf(gen[0].V), m, sig, true, fmt.Sprintf("%d bytes", n))
		})
		// every key, message and scheme of the signer against every other
		r.Explore("other keys, messages and schemes", func(x *mc.X) {
			nk := r.N(4, 10)
			cross := append([]kit.S{}, gen[0], kit.S{V: new(big.Int).Sub(ref.BlsR, gen[0].V), Name: "negated"}, keys[0], keys[1], gen[1])
			cross = append(cross, keys[2:8]...)[:nk]
			s := kit.BlsSchemes[x.Choose(2)]
			k := cross[x.Choose(nk)]
			nm := r.N(4, len(msgs))
			m := msgs[1+x.Choose(nm-1)]
			s2 := kit.BlsSchemes[x.Choose(2)]
			k2 := cross[x.Choose(nk)]
			m2 := msgs[1+x.Choose(nm-1)]
			sig := B2.Comp(s.Sig(k.V, pubOf(k.V), m.V))
			want := s.Name == s2.Name && k.V.Cmp(k2.V) == 0 && bytes.Equal(m.V, m2.V)
			verify(x, s2, pubOf(k2.V), m2.V, sig, want, fmt.Sprintf("signed %s %s %s, checked %s %s %s", s.Name, k.Name, m.Name, s2.Name, k2.Name, m2.Name))
		})
		// the key of the augmented scheme is part of the input: moving bytes
		// between key, tag and message must not help
		r.Explore("shifted boundaries", func(x *mc.X) {
			k := gen[x.Choose(2)].V
			pub := pubOf(k)
			m := kit.Stream("b", 5)
			nul, aug := kit.BlsSchemes[0], kit.BlsSchemes[1]
			switch x.Choose(5) {
			case 0: // basic signature of key||message is not augmented
				verify(x, aug, pub, m, B2.Comp(nul.Sig(k, nil, kit.Cat(pub, m))), false, "basic signature over key and message")
			case 1:
				verify(x, nul, pub, kit.Cat(pub, m), B2.Comp(aug.Sig(k, pub, m)), false, "augmented signature as basic")
			case 2: // no augmentation at all
				verify(x, aug, pub, m, B2.Comp(ref.B2.Mul(kit.BlsHash(m, aug.DST), k)), false, "augmented without the key")
			case 3: // augmented with another key
				verify(x, aug, pub, m, B2.Comp(ref.B2.Mul(kit.BlsHash(kit.Cat(pubOf(bi(7)), m), aug.DST), k)), false, "augmented with another key")
			case 4: // tag inside the message
				verify(x, nul, pub, kit.Cat([]byte(nul.DST), m), B2.Comp(nul.Sig(k, nil, m)), false, "tag moved into the message")
				verify(x, nul, pub, kit.Cat([]byte(nul.DST), m), B2.Comp(nul.Sig(k, nil, kit.Cat([]byte(nul.DST), m))), true, "tag as a message prefix")
			}
		})
		r.Explore("bit flips", func(x *mc.X) {
			s := kit.BlsSchemes[x.Choose(2)]
			i := x.Choose(r.N(1, 4))
			k := gen[i].V
			msg := kit.Stream("flip", 3+i)
			pub := pubOf(k)
			sig := B2.Comp(s.Sig(k, pub, msg))
			n := x.Choose(768 + 384 + 8*len(msg))
			switch {
			case n < 768:
				sig = kit.Flip(sig, n)
			case n < 768+384:
				pub = kit.Flip(pub, n-768)
			default:
				msg = kit.Flip(msg, n-768-384)
			}
			verify(x, s, pub, msg, sig, decide(s, k, pub, msg, sig), fmt.Sprintf("bit %d flipped", n))
		})
		r.Explore("flags", func(x *mc.X) {
			s := kit.BlsSchemes[x.Choose(2)]
			k := gen[x.Choose(2)].V
			msg := kit.Stream("flags", 8)
			pub := pubOf(k)
			sig := B2.Comp(s.Sig(k, pub, msg))
			if x.Bool() { // nothing but flags
				sig = make([]byte, 96)
			}
			if x.Bool() {
				pub = make([]byte, 48)
			}
			sig[0] = sig[0]&0x1f | byte(x.Choose(8)<<5)
			pub[0] = pub[0]&0x1f | byte(x.Choose(8)<<5)
			verify(x, s, pub, msg, sig, decide(s, k, pub, msg, sig), fmt.Sprintf("flags %02x %02x", sig[0]&0xe0, pub[0]&0xe0))
		})
		r.Explore("coordinates above the modulus", func(x *mc.X) {
			s := kit.BlsSchemes[x.Choose(2)]
			k := bi(int64(1 + x.Choose(r.N(12, 60))))
			msg := []byte{byte(k.Int64())}
			pub := pubOf(k)
			sig := B2.Comp(s.Sig(k, pub, msg))
			lift := func(b []byte, bits int, m int64) bool {
				fl := byte(0)
				if bits == 381 {
					fl = b[0] & 0xe0
					b[0] &= 0x1f
				}
				v := new(big.Int).Add(new(big.Int).SetBytes(b), new(big.Int).Mul(ref.BlsP, bi(m)))
				if v.BitLen() > bits {
					return false
				}
				v.FillBytes(b)
				b[0] |= fl
				return true
			}
			ok := false
			switch c := x.Choose(11); c {
			case 0:
				ok = lift(sig[:48], 381, 1)
			case 1:
				ok = lift(pub, 381, 1)
			default:
				ok = lift(sig[48:], 384, int64(c-1))
			}
			if ok {
				verify(x, s, pub, msg, sig, false, "a coordinate at or above p")
			}
		})
		r.Explore("lengths", func(x *mc.X) {
			s := kit.BlsSchemes[x.Choose(2)]
			k := gen[0].V
			msg := kit.Stream("ln", 8)
			P := B1.Base(k)
			pub := B1.Comp(P)
			S := s.Sig(k, pub, msg)
			sig := B2.Comp(S)
			resize := func(b []byte, n int) []byte {
				c := make([]byte, n)
				copy(c, b)
				return c
			}
			switch x.Choose(4) {
			case 0:
				if n := x.Choose(200); n != 96 {
					verify(x, s, pub, msg, resize(sig, n), false, fmt.Sprintf("%d-byte signature", n))
				}
			case 1:
				if n := x.Choose(120); n != 48 {
					verify(x, s, resize(pub, n), msg, sig, false, fmt.Sprintf("%d-byte key", n))
				}
			case 2:
				verify(x, s, pub, msg, B2.Enc(S), false, "uncompressed signature")
			case 3:
				verify(x, s, B1.Enc(P), msg, sig, false, "uncompressed key")
			}
		})
		// points that satisfy the pairing equation but are not subgroup points
		r.Explore("outside the subgroup", func(x *mc.X) {
			s := kit.BlsSchemes[x.Choose(2)]
			k := gen[x.Choose(2)].V
			msg := kit.Stream("sub", 4)
			P := B1.Base(k)
			t1, t2 := kit.BlsTorsion(B1), kit.BlsTorsion(B2)
			c := x.Choose(len(t1) + len(t2))
			alone := x.Bool()
			if c < len(t1) {
				Q := t1[c].BPt
				if !alone {
					Q = B1.Add(Q, P)
				}
				pub := B1.Comp(Q)
				verify(x, s, pub, msg, B2.Comp(s.Sig(k, pub, msg)), false, "key off the subgroup: "+t1[c].Name)
				verify(x, s, pub, msg, B2.Comp(ref.BPt{Inf: true}), false, "key off the subgroup, no signature: "+t1[c].Name)
				return
			}
			T := t2[c-len(t1)]
			Q := T.BPt
			pub := B1.Comp(P)
			if !alone {
				Q = B2.Add(Q, s.Sig(k, pub, msg))
			}
			verify(x, s, pub, msg, B2.Comp(Q), false, "signature off the subgroup: "+T.Name)
			var agg []byte
			var ret uint16
			x.Call("AggregateSignatures", func() {
				agg, ret = owcrypt.AggregateSignatures(s.Code, B2.Comp(s.Sig(k, pub, msg)), B2.Comp(Q))
			})
			x.Assert(agg == nil && ret == owcrypt.FAILURE, "aggregate-accepts", "aggregation took a signature off the subgroup (%s): code %#x", T.Name, ret)
		})
		r.Explore("identity", func(x *mc.X) {
			s := kit.BlsSchemes[x.Choose(2)]
			m := msgs[x.Choose(len(msgs))].V
			inf1, inf2 := B1.Comp(ref.BPt{Inf: true}), B2.Comp(ref.BPt{Inf: true})
			k := gen[0].V
			switch x.Choose(3) {
			case 0:
				verify(x, s, inf1, m, inf2, false, "identity key and signature")
			case 1:
				verify(x, s, inf1, m, B2.Comp(s.Sig(k, inf1, m)), false, "identity key")
			case 2:
				verify(x, s, pubOf(k), m, inf2, false, "identity signature")
			}
		})

		// aggregation
		type part struct {
			k   *big.Int
			msg []byte
		}
		parts := []part{{gen[0].V, []byte("a")}, {gen[1].V, []byte("a")}, {gen[0].V, []byte("b")}, {gen[2].V, []byte("a")}, {new(big.Int).Sub(ref.BlsR, gen[0].V), []byte("a")}, {bi(1), []byte("a")}}
		aggregate := func(x *mc.X, s kit.BlsScheme, want ref.BPt, what string, sigs ...[]byte) []byte {
			var got []byte
			var ret uint16
			in := make([][]byte, len(sigs))
			for i := range sigs {
				in[i] = kit.Clone(sigs[i])
			}
			x.Call("AggregateSignatures", func() { got, ret = owcrypt.AggregateSignatures(s.Code, in...) })
			x.State(s.Name, what, got, int(ret))
			w := B2.Comp(want)
			x.Assert(ret == owcrypt.SUCCESS && bytes.Equal(got, w), "aggregate", "aggregate %s: %s code %#x, want %s", what, mc.Hex(got), ret, mc.Hex(w))
			return w
		}
		r.Explore("aggregates: every sequence", func(x *mc.X) {
			s := kit.BlsSchemes[0]
			n := 1 + x.Choose(r.N(3, 4))
			sum := ref.BPt{Inf: true}
			var sigs [][]byte
			var pts []ref.BPt
			name := ""
			keysum, same := ref.BPt{Inf: true}, true
			for i := 0; i < n; i++ {
				c := x.Choose(len(parts))
				p := parts[c]
				S := s.Sig(p.k, nil, p.msg)
				pts = append(pts, S)
				sum = B2.Add(sum, S)
				sigs = append(sigs, B2.Comp(S))
				keysum = B1.Add(keysum, B1.Base(p.k))
				same = same && string(p.msg) == "a"
				name += fmt.Sprint(c)
			}
			got := aggregate(x, s, sum, name, sigs...)
			if same {
				verify(x, s, B1.Comp(keysum), []byte("a"), got, !keysum.Inf, "aggregate "+name+" under the sum of the keys")
			}
			// grouping: the first i, then the rest
			for i := 1; i < n; i++ {
				a, b := ref.BPt{Inf: true}, ref.BPt{Inf: true}
				for j, p := range pts {
					if j < i {
						a = B2.Add(a, p)
					} else {
						b = B2.Add(b, p)
					}
				}
				l := aggregate(x, s, a, name+" head", sigs[:i]...)
				t := aggregate(x, s, b, name+" tail", sigs[i:]...)
				aggregate(x, s, sum, name+" regrouped", l, t)
			}
		})
		r.Explore("aggregates of many", func(x *mc.X) {
			s := kit.BlsSchemes[x.Choose(2)]
			n := []int{1, 2, 3, 8, 33, 65, 129, 257, 1025, 4097}[x.Choose(r.N(8, 10))]
			sum := ref.BPt{Inf: true}
			var sigs [][]byte
			for i := 0; i < n; i++ {
				k := bi(int64(i%7 + 1))
				S := s.Sig(k, pubOf(k), []byte{byte(i % 9)})
				sum = B2.Add(sum, S)
				sigs = append(sigs, B2.Comp(S))
			}
			aggregate(x, s, sum, fmt.Sprintf("%d", n), sigs...)
		})
		r.Explore("aggregates with a malformed part", func(x *mc.X) {
			s := kit.BlsSchemes[x.Choose(2)]
			n := 1 + x.Choose(3)
			pos := x.Choose(n)
			S := s.Sig(gen[0].V, pubOf(gen[0].V), []byte("a"))
			good := B2.Comp(S)
			un := B2.Enc(S)
			bad := [][]byte{nil, {}, good[:95], good[:1], append(kit.Clone(good), 0), append(kit.Clone(good), good...), un, un[:96], kit.Flip(good, 7), kit.Flip(good, 6), kit.Fill(96, 0), kit.Fill(96, 0xff), pubOf(bi(5)),
				append([]byte{0xe0}, make([]byte, 95)...), append([]byte{0x40}, make([]byte, 95)...), append(append([]byte{0xc0}, make([]byte, 94)...), 1)}
			c := x.Choose(len(bad))
			sigs := [][]byte{good, good, good}[:n]
			sigs[pos] = bad[c]
			var got []byte
			var ret uint16
			x.Call("AggregateSignatures", func() { got, ret = owcrypt.AggregateSignatures(s.Code, sigs...) })
			x.State(s.Name, n, pos, c, got, int(ret))
			x.Assert(got == nil && ret == owcrypt.FAILURE, "aggregate-accepts", "aggregation of %d with malformed part %d (%s) returned %s, code %#x", n, pos, mc.Hex(bad[c]), mc.Hex(got), ret)
		})
		// the package's own entry points, on inputs with and without a known tag
		r.Explore("package entry points", func(x *mc.X) {
			k := keys[x.Choose(r.N(6, len(keys)))].V
			in := [][]byte{[]byte("m"), []byte(kit.BlsSchemes[0].DST), []byte(kit.BlsSchemes[0].DST + "z"), []byte(kit.BlsSchemes[1].DST + "z"), []byte(kit.BlsSchemes[1].DST), []byte(kit.BlsSchemes[0].DST[:42]),
				[]byte("x" + kit.BlsSchemes[0].DST), kit.Stream("pk", 60)}
			m := in[x.Choose(len(in))]
			dst, rest := kit.BlsSchemes[1].DST, m
			for _, s := range kit.BlsSchemes {
				if bytes.HasPrefix(m, []byte(s.DST)) {
					dst, rest = s.DST, m[len(s.DST):]
				}
			}
			want := B2.Comp(B2.Mul(kit.BlsHash(rest, dst), k))
			var got []byte
			var err error
			x.Call("bls12_381.Sign", func() { got, err = bls12_381.Sign(b32(k), m) })
			x.State(m, k, got, err != nil)
			x.Assert(err == nil && bytes.Equal(got, want), "package-sign", "bls12_381.Sign of %q: %s %v, want %s", m, mc.Hex(got), err, mc.Hex(want))
			for _, m2 := range in {
				var ok bool
				x.Call("bls12_381.Verify", func() { ok = bls12_381.Verify(pubOf(k), m2, got) })
				x.Assert(ok == bytes.Equal(m, m2), "package-verify", "bls12_381.Verify: signed %q checked %q gave %v", m, m2, ok)
			}
		})
	})
}
