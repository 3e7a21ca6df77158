// C10: SM2 key agreement (GB/T 32918.3) between two parties and an adversary.
package main

import (
	"bytes"
	"fmt"
	"math/big"
	"time"
	"verifharness/kit"
	"verifharness/mc"
	"verifharness/ref"

	owcrypt "github.com/blocktree/go-owcrypt"
)

const code = owcrypt.ECC_CURVE_SM2_STANDARD

var c = ref.SM2

func bi(v int64) *big.Int { return big.NewInt(v) }

// side is what one party believes and knows.
type side struct {
	idA, idB       []byte
	pA, pB, rA, rB []byte // 64-byte public values (as this side sees them)
	d, r           *big.Int
	keylen         uint16
}

func (s side) ref(initiator bool) (key, sb, sa []byte, ok bool) {
	pt := func(b []byte) ref.Pt { p, _ := c.Dec(b); return p }
	if len(s.idA) == 0 || len(s.idB) == 0 || len(s.idA) >= 8192 || len(s.idB) >= 8192 {
		return nil, nil, nil, false
	}
	for _, b := range [][]byte{s.pA, s.pB, s.rA, s.rB} {
		if _, on := c.Dec(b); !on {
			return nil, nil, nil, false
		}
	}
	return ref.KA{IDA: s.idA, IDB: s.idB, PA: pt(s.pA), PB: pt(s.pB), RA: pt(s.rA), RB: pt(s.rB), D: s.d, R: s.r, Initiator: initiator, KeyLen: int(s.keylen)}.Run()
}

// respond runs the responder's first step with a given ephemeral and compares
// it with the standard.
func respond(x *mc.X, s side) (key, rB, inner, outer []byte, ok bool) {
	var ret uint16
	x.Call("responder_step1", func() {
		key, rB, inner, outer, ret = owcrypt.KeyAgreement_responder_ElGamal_step1(s.idA, s.idB, ref.B32(s.d), s.pB, s.pA, s.rA, s.keylen, ref.B32(s.r), code)
	})
	x.State("B", s.idA, s.idB, s.pA, s.pB, s.rA, int(s.keylen), key, rB, inner, outer, int(ret))
	s.rB = c.Enc(c.MulBase(s.r))
	wk, wb, wa, wok := s.ref(false)
	ok = ret == owcrypt.SUCCESS
	if !wok {
		x.Assert(!ok && len(key) == 0 && inner == nil && outer == nil, "responder-accepts", "the responder accepts: key %s code %#x", mc.Hex(key), ret)
		return nil, nil, nil, nil, false
	}
	x.Assert(ok, "responder-fails", "the responder fails with the code %#x", ret)
	x.Eq(rB, s.rB, "responder-ephemeral", "the responder's ephemeral public key")
	x.Eq(key, wk, "responder-key", "the responder's key (%d bytes)", s.keylen)
	x.Eq(outer, wb, "responder-confirmation", "the responder's S_B")
	x.Eq(inner, wa, "responder-check", "the value the responder compares S_A with")
	return
}

// initiate runs the initiator's second step and compares it with the standard.
func initiate(x *mc.X, s side, sin []byte) (key, sout []byte, ok bool) {
	var ret uint16
	x.Call("initiator_step2", func() {
		key, sout, ret = owcrypt.KeyAgreement_initiator_step2(s.idA, s.idB, ref.B32(s.d), s.pA, s.pB, ref.B32(s.r), s.rA, s.rB, sin, s.keylen, code)
	})
	x.State("A", s.idA, s.idB, s.pA, s.pB, s.rA, s.rB, sin, int(s.keylen), key, sout, int(ret))
	wk, wb, wa, wok := s.ref(true)
	wok = wok && bytes.Equal(wb, sin)
	ok = ret == owcrypt.SUCCESS
	if !wok {
		x.Assert(!ok && len(key) == 0 && len(sout) == 0, "initiator-releases", "the initiator accepts (or releases) key %s, S_A %s, code %#x", mc.Hex(key), mc.Hex(sout), ret)
		return nil, nil, false
	}
	x.Assert(ok, "initiator-fails", "the initiator fails with the code %#x", ret)
	x.Eq(key, wk, "initiator-key", "the initiator's key (%d bytes)", s.keylen)
	x.Eq(sout, wa, "initiator-confirmation", "the initiator's S_A")
	return
}

func finish(x *mc.X, sa, inner []byte) bool {
	var ret uint16
	x.Call("responder_step2", func() { ret = owcrypt.KeyAgreement_responder_step2(sa, inner, code) })
	x.State("B2", sa, inner, int(ret))
	want := len(sa) == 32 && bytes.Equal(sa, inner)
	x.Assert((ret == owcrypt.SUCCESS) == want, "responder-final", "responder_step2(%s, %s) = %#x", mc.Hex(sa), mc.Hex(inner), ret)
	return want
}

// run plays a whole exchange in which A and B may see different values.
// same says whether they see the same.
func run(x *mc.X, a, b side, same bool, what string) {
	x.Log("%s", what)
	kb, rB, inner, outer, ok := respond(x, b)
	if !ok {
		if same {
			x.Fail("honest", "%s: the responder fails in an honest run", what)
		}
		return
	}
	if a.rB == nil {
		a.rB = rB
	}
	ka, sa, ok := initiate(x, a, outer)
	if !ok {
		x.Assert(!same, "honest", "%s: the initiator fails in an honest run", what)
		x.Assert(!finish(x, sa, inner), "unconfirmed", "%s: the responder is confirmed without an initiator", what)
		return
	}
	fin := finish(x, sa, inner)
	if same {
		x.Assert(fin && bytes.Equal(ka, kb), "honest", "%s: honest run, keys %s and %s, confirmed %v", what, mc.Hex(ka), mc.Hex(kb), fin)
	} else {
		x.Fail("mismatch-accepted", "%s: the initiator accepts although the sides differ (keys %s, %s)", what, mc.Hex(ka), mc.Hex(kb))
	}
}

func main() {
	n := c.N
	keys := kit.Keys(c)
	pts := kit.Points(c, 4)
	ephs := []*big.Int{bi(1), bi(2), new(big.Int).Sub(n, bi(1)), new(big.Int).Sub(n, bi(2)), bi(17883), bi(193197), bi(107), bi(119), bi(327), new(big.Int).Lsh(bi(1), 127),
		ref.I(kit.Stream("e1", 31)), new(big.Int).Rsh(n, 1)}
	ids := [][]byte{[]byte("1234567812345678"), []byte("A"), {0}, kit.Stream("id", 64), kit.Stream("id", 8191)}
	base := func(dA, dB, rA, rB *big.Int, idA, idB []byte, l uint16) (a, b side) {
		a = side{idA: idA, idB: idB, pA: c.Enc(c.MulBase(dA)), pB: c.Enc(c.MulBase(dB)), rA: c.Enc(c.MulBase(rA)), rB: c.Enc(c.MulBase(rB)), d: dA, r: rA, keylen: l}
		b = a
		b.d, b.r = dB, rB
		return
	}
	mc.Main("C10", 150*time.Second, 800*time.Second, func(r *mc.Run) {
		std := func() (a, b side) {
			return base(ref.I(kit.Stream("dA", 31)), ref.I(kit.Stream("dBB", 31)), ref.I(kit.Stream("rAAA", 31)), ref.I(kit.Stream("rBBBB", 31)), []byte("ALICE123@YAHOO.COM"), []byte("BILL456@YAHOO.COM"), 16)
		}
		r.Explore("honest: keys and ephemerals", func(x *mc.X) {
			dA, dB := keys[x.Choose(len(keys))], keys[x.Choose(r.N(6, len(keys)))]
			for i, rA := range ephs {
				if i%3 != len(dA.Name)%3 && !r.Thorough() {
					continue
				}
				rB := ephs[(i*3+len(dB.Name))%len(ephs)]
				a, b := base(dA.V, dB.V, rA, rB, ids[i%4], ids[(i+1)%4], uint16(16+i))
				_, _, _, ok := a.ref(true)
				_, _, _, ok2 := b.ref(false)
				run(x, a, b, ok && ok2, fmt.Sprintf("dA=%s dB=%s rA=%s rB=%s", dA.Name, dB.Name, rA, rB))
			}
		})
		r.Explore("honest: identities", func(x *mc.X) {
			ia, ib := x.Choose(len(ids)), x.Choose(len(ids))
			a, b := std()
			a.idA, b.idA, a.idB, b.idB = ids[ia], ids[ia], ids[ib], ids[ib]
			run(x, a, b, true, fmt.Sprintf("identities %d, %d", ia, ib))
		})
		sizes := kit.Lengths(200, 8191)
		r.Explore("honest: identity lengths", func(x *mc.X) {
			i := x.Choose(r.N(260, 2000) + len(sizes))
			a, b := std()
			l := i + 1
			if i >= r.N(260, 2000) {
				l = sizes[i-r.N(260, 2000)]
			} else if i >= r.N(230, 1900) {
				l = 8192 - (i - r.N(230, 1900)) - 1
			}
			a.idA = kit.Stream("ida", l)
			a.idB = kit.Stream("idbb", 8192-l)
			b.idA, b.idB = a.idA, a.idB
			run(x, a, b, true, fmt.Sprintf("identities of %d and %d bytes", l, 8192-l))
		})
		kls := kit.Lengths(260, 65535)
		r.Explore("honest: key lengths", func(x *mc.X) {
			i := x.Choose(r.N(300, 4000) + len(kls))
			a, b := std()
			l := i
			if i >= r.N(300, 4000) {
				l = kls[i-r.N(300, 4000)]
			} else if i >= r.N(260, 3900) {
				l = []int{511, 512, 513, 1023, 1024, 4095, 4096, 8159, 8160, 8190, 8191, 8192, 8193, 8194, 8223, 8224, 8225, 16383, 16384, 32767, 32768, 65472, 65503, 65504, 65505, 65533, 65534, 65535}[(i-r.N(260, 3900))%28]
			}
			a.keylen, b.keylen = uint16(l), uint16(l)
			run(x, a, b, true, fmt.Sprintf("key length %d", l))
		})
		r.Explore("honest: library entropy", func(x *mc.X) {
			x.Reseed(fmt.Sprint(x.Choose(r.N(200, 2000))))
			a, b := std()
			var rAp []byte
			x.Call("initiator_step1", func() { rAp, a.rA = owcrypt.KeyAgreement_initiator_step1(code) })
			x.Assert(len(rAp) == 32 && len(a.rA) == 64, "step1", "initiator_step1 returns %d and %d bytes", len(rAp), len(a.rA))
			a.r = ref.I(rAp)
			x.Assert(a.r.Sign() > 0 && a.r.Cmp(n) < 0, "step1-range", "the ephemeral %s is not in [1, n-1]", a.r)
			x.Eq(a.rA, c.Enc(c.MulBase(a.r)), "step1-public", "the ephemeral public key")
			var key, inner, outer []byte
			var ret uint16
			x.Call("responder_step1", func() {
				key, a.rB, inner, outer, ret = owcrypt.KeyAgreement_responder_step1(a.idA, a.idB, ref.B32(b.d), b.pB, b.pA, a.rA, a.keylen, code)
			})
			x.State(key, a.rB, int(ret))
			_, on := c.Dec(a.rB)
			x.Assert(ret == owcrypt.SUCCESS && on, "honest", "responder_step1: code %#x", ret)
			// the initiator's view decides what the responder must have computed
			wk, wb, wa, _ := a.ref(true)
			x.Eq(key, wk, "responder-key", "the responder's key")
			x.Eq(outer, wb, "responder-confirmation", "S_B")
			x.Eq(inner, wa, "responder-check", "S_A")
			_, sa, _ := initiate(x, a, outer)
			x.Assert(finish(x, sa, inner), "honest", "the responder is not confirmed")
		})
		// every single deviation between the two views
		points := func(skip ...[]byte) (l [][]byte) {
			for _, p := range pts {
				e := c.Enc(p.Pt)
				dup := false
				for _, s := range skip {
					dup = dup || bytes.Equal(s, e)
				}
				if !dup {
					l = append(l, e)
				}
			}
			return
		}
		idAlts := func(id []byte) [][]byte {
			l := [][]byte{append(kit.Clone(id), 0), id[:len(id)-1], append([]byte{0}, id...), []byte("x"), kit.Stream("id", 8191), kit.Stream("id", 8192), {}, nil, bytes.ToLower(id), append(kit.Clone(id), id...)}
			for i := 0; i < len(id); i++ {
				l = append(l, kit.Flip(id, 8*i), kit.Flip(id, 8*i+7))
			}
			return l
		}
		bad := kit.BadPoints(c)
		names := kit.SortedKeys(bad)
		neg := func(b []byte) []byte { p, _ := c.Dec(b); return c.Enc(c.Neg(p)) }
		r.Explore("one side sees another value", func(x *mc.X) {
			a, b := std()
			t := &a
			who := "initiator"
			if x.Bool() {
				t, who = &b, "responder"
			}
			field := x.Choose(7)
			set := func(l [][]byte, f *[]byte, name string) {
				i := x.Choose(len(l))
				if bytes.Equal(*f, l[i]) {
					return
				}
				*f = l[i]
				run(x, a, b, false, fmt.Sprintf("the %s sees another %s (%d: %s)", who, name, i, mc.Hex(l[i])))
			}
			alts := func(own []byte) [][]byte {
				l := append(points(own), neg(own), a.pA, a.pB, a.rA, a.rB)
				for _, nm := range names {
					l = append(l, bad[nm])
				}
				l = append(l, own[:63], append(kit.Clone(own), 0), append([]byte{4}, own...), []byte{})
				return l
			}
			switch field {
			case 0:
				set(idAlts(t.idA), &t.idA, "initiator identity")
			case 1:
				set(idAlts(t.idB), &t.idB, "responder identity")
			case 2:
				set(alts(t.pA), &t.pA, "initiator public key")
			case 3:
				set(alts(t.pB), &t.pB, "responder public key")
			case 4:
				set(alts(t.rA), &t.rA, "initiator ephemeral")
			case 5:
				if t == &a {
					set(alts(t.rB), &t.rB, "responder ephemeral")
				} else { // the responder uses another ephemeral than A sees
					b.r = ephs[x.Choose(len(ephs))]
					run(x, a, b, false, "the responder uses another ephemeral")
				}
			case 6: // private values that do not belong to the public ones
				v := ephs[x.Choose(len(ephs))]
				if x.Bool() {
					t.d = v
				} else if t == &a {
					t.r = v
				} else {
					return
				}
				run(x, a, b, false, fmt.Sprintf("the %s uses a private value that is not its own", who))
			}
		})
		r.Explore("single bits of the public values", func(x *mc.X) {
			a, b := std()
			t := &a
			if x.Bool() {
				t = &b
			}
			f := []*[]byte{&t.pA, &t.pB, &t.rA, &t.rB}[x.Choose(4)]
			if f == &b.rB {
				return
			}
			*f = kit.Flip(*f, x.Choose(512))
			run(x, a, b, false, "one bit changed")
		})
		// two sides agree on exchanged roles or identities
		r.Explore("two deviations", func(x *mc.X) {
			a, b := std()
			sw := func(s *side, i int) {
				switch i {
				case 1:
					s.idA, s.idB = s.idB, s.idA
				case 2:
					s.pA, s.pB = s.pB, s.pA
				case 3:
					s.idA, s.idB, s.pA, s.pB = s.idB, s.idA, s.pB, s.pA
				case 4:
					s.rA = neg(s.rA)
				case 5:
					s.pA, s.pB = neg(s.pA), neg(s.pB)
				case 6:
					s.pA, s.rA = neg(s.pA), neg(s.rA)
				case 7:
					s.pB, s.rB = neg(s.pB), neg(s.rB)
				case 8:
					s.idA, s.idB = append(kit.Clone(s.idA), s.idB[0]), s.idB[1:]
				}
			}
			i, j := x.Choose(9), x.Choose(9)
			sw(&a, i)
			sw(&b, j)
			same := bytes.Equal(a.idA, b.idA) && bytes.Equal(a.idB, b.idB) && bytes.Equal(a.pA, b.pA) && bytes.Equal(a.pB, b.pB) && bytes.Equal(a.rA, b.rA)
			if i == j || same && i != 7 && j != 7 {
				return // both see the same (wrong) values: covered by the reference in run
			}
			run(x, a, b, false, fmt.Sprintf("deviations %d, %d", i, j))
		})
		r.Explore("confirmation to the initiator", func(x *mc.X) {
			a, b := std()
			_, _, inner, outer, _ := respond(x, b)
			k := x.Choose(256 + 80 + 8)
			sin := outer
			switch {
			case k < 256:
				sin = kit.Flip(outer, k)
			case k < 256+80:
				l := k - 256
				if l == 32 {
					return
				}
				sin = append(kit.Clone(outer), kit.Clone(outer)...)
				sin = append(sin, outer...)[:l]
			default:
				sin = [][]byte{nil, inner, make([]byte, 32), kit.Fill(32, 0xff), ref.SM3(outer), a.rA[:32], kit.Cat(outer[1:], outer[:1]), kit.Cat(outer[:31], []byte{0, outer[31]})}[k-336]
			}
			if bytes.Equal(sin, outer) {
				return
			}
			_, _, ok := initiate(x, a, sin)
			x.Assert(!ok, "bad-confirmation", "the initiator accepts S_B = %s", mc.Hex(sin))
		})
		r.Explore("confirmation to the responder", func(x *mc.X) {
			a, b := std()
			_, _, inner, outer, _ := respond(x, b)
			_, sa, _ := initiate(x, a, outer)
			k := x.Choose(256 + 80 + 8)
			sin := sa
			switch {
			case k < 256:
				sin = kit.Flip(sa, k)
			case k < 256+80:
				sin = append(append(kit.Clone(sa), sa...), sa...)[:k-256]
			default:
				sin = [][]byte{nil, outer, make([]byte, 32), kit.Fill(32, 0xff), ref.SM3(sa), a.rA[:32], kit.Cat(sa[1:], sa[:1]), kit.Cat(sa[:31], []byte{0, sa[31]})}[k-336]
			}
			ok := finish(x, sin, inner)
			x.Assert(ok == bytes.Equal(sin, sa), "bad-confirmation", "the responder accepts S_A = %s", mc.Hex(sin))
			finish(x, inner, sin)
			finish(x, sin, sin)
			finish(x, sin, nil)
		})
		// values chosen so that the shared point is infinity or an addition doubles
		r.Explore("degenerate shared points", func(x *mc.X) {
			rr := ephs[x.Choose(len(ephs))]
			f := int64(x.Choose(3)) - 1
			side := x.Choose(2)
			R := c.MulBase(rr)
			bar := append([]byte{}, ref.B32(R.X)[16:]...)
			bar[0] |= 0x80
			d := new(big.Int).Mul(ref.I(bar), rr)
			d.Mul(d, bi(f)) // -1: infinity; 1: doubling; 0: skip
			d.Mod(d, n)
			if d.Sign() == 0 {
				return
			}
			o := keys[x.Choose(4)].V
			var a, b = base(d, o, rr, ephs[9], ids[0], ids[1], 24)
			if side == 1 {
				a, b = base(o, d, ephs[9], rr, ids[0], ids[1], 24)
			}
			_, _, _, ok := a.ref(true)
			run(x, a, b, ok, fmt.Sprintf("degenerate %d", f))
			if !ok { // the initiator alone, with any confirmation
				initiate(x, a, make([]byte, 32))
			}
		})
		// the shared point chosen: coordinates with leading zero bytes
		shared := kit.Specials(c)
		r.Explore("chosen shared points", func(x *mc.X) {
			s := shared[x.Choose(len(shared))]
			rA, rB := ephs[x.Choose(4)], ephs[9]
			if x.Bool() {
				rA, rB = rB, rA
			}
			dB := ref.I(kit.Stream("dBB", 31))
			bar := func(k *big.Int) *big.Int { // (2^127 + low bits of x) k
				b := append([]byte{}, ref.B32(c.MulBase(k).X)[16:]...)
				b[0] |= 0x80
				return new(big.Int).Mul(ref.I(b), k)
			}
			tB := new(big.Int).Add(dB, bar(rB))
			tA := new(big.Int).Mul(s, new(big.Int).ModInverse(tB.Mod(tB, n), n))
			dA := tA.Sub(tA, bar(rA))
			dA.Mod(dA, n)
			a, b := base(dA, dB, rA, rB, ids[0], ids[1], 48)
			run(x, a, b, true, fmt.Sprintf("the shared point is %d*G", s))
		})
		r.Explore("ephemeral range", func(x *mc.X) {
			v := []*big.Int{bi(0), n, new(big.Int).Add(n, bi(1)), ref.I(kit.Fill(32, 0xff)), c.P}[x.Choose(5)]
			a, _ := std()
			var key, inner, outer []byte
			var ret uint16
			x.Call("responder_step1", func() {
				key, _, inner, outer, ret = owcrypt.KeyAgreement_responder_ElGamal_step1(a.idA, a.idB, ref.B32(a.d), a.pB, a.pA, a.rA, 16, ref.B32(v), code)
			})
			x.Assert(ret != owcrypt.SUCCESS && key == nil && inner == nil && outer == nil, "ephemeral-range", "the responder accepts the ephemeral %s", v)
		})
		// interleaved runs of one pair do not mix
		r.Explore("interleaved runs", func(x *mc.X) {
			type st struct {
				a, b                side
				stage               int
				kb, inner, outer, k []byte
				sa                  []byte
			}
			s := make([]st, 2)
			for i := range s {
				s[i].a, s[i].b = std()
				s[i].a.r, s[i].b.r = ephs[i+1], ephs[i+4]
				s[i].a.rA, s[i].a.rB = c.Enc(c.MulBase(ephs[i+1])), c.Enc(c.MulBase(ephs[i+4]))
				s[i].b.rA, s[i].b.rB = s[i].a.rA, s[i].a.rB
			}
			for step := 0; step < 6; step++ {
				i := x.Choose(2)
				if s[i].stage == 3 {
					i = 1 - i
				}
				switch s[i].stage {
				case 0:
					s[i].kb, _, s[i].inner, s[i].outer, _ = respond(x, s[i].b)
				case 1:
					s[i].k, s[i].sa, _ = initiate(x, s[i].a, s[i].outer)
				case 2:
					x.Assert(finish(x, s[i].sa, s[i].inner) && bytes.Equal(s[i].k, s[i].kb), "interleaved", "interleaved honest runs fail")
					finish(x, s[i].sa, s[1-i].inner)
					initiate(x, s[i].a, s[1-i].outer)
				}
				s[i].stage++
			}
		})
		r.Note("private-key ranges of the agreement are left unspecified; keylen is not confirmed by the protocol")
	})
}
