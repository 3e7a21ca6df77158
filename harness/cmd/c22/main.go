// C22: entropy. Every randomised operation is run against every scripted
// behaviour of the system randomness source in an alphabet: each consumed byte
// changed, short reads of every size, failure at every position, constant and
// repeating sources, boundary values.
package main

import (
	"bytes"
	"crypto/rand"
	"crypto/sha512"
	"encoding/gob"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"strings"
	"sync"
	"time"
	"verifharness/kit"
	"verifharness/mc"
	"verifharness/ref"

	owcrypt "github.com/blocktree/go-owcrypt"
)

// source is a scripted randomness source.
type source struct {
	s       func(i int) byte // the byte at position i
	pos     int
	chunk   int // bytes per Read at most; 0 for no limit
	failAt  int // position of the failure; -1 for none
	err     error
	partial bool // the error comes with the bytes before it
	once    bool // the source works again after it
	reads   int
	failed  bool
}

func (s *source) Read(p []byte) (int, error) {
	s.reads++
	if s.reads > 1<<20 {
		panic("mc: endless reads")
	}
	n := len(p)
	if s.chunk > 0 && n > s.chunk {
		n = s.chunk
	}
	for i := 0; i < n; i++ {
		if s.failAt >= 0 && s.pos >= s.failAt && !(s.once && s.failed) {
			if i > 0 && !s.partial {
				return i, nil
			}
			s.failed = true
			return i, s.err
		}
		p[i] = s.s(s.pos)
		s.pos++
	}
	return n, nil
}

func stream(label string) func(i int) byte {
	var b []byte
	n := 0
	return func(i int) byte {
		for i >= len(b) {
			h := sha512.Sum512([]byte(fmt.Sprintf("%s/%d", label, n)))
			b = append(b, h[:]...)
			n++
		}
		return b[i]
	}
}

// rop is a randomised operation.
type rop struct {
	kit.Entry
	Msg int // index of the message argument of a signature, or -1
}

func rops(v int) (l []rop) {
	for _, e := range kit.Catalogue(v) {
		if e.Name == "KeyAgreement_responder_ElGamal_step1" {
			e.Rand = true
			e.Label += " without random"
			if v >= 0 {
				e.Args = append([][]byte{}, e.Args...)
				e.Args[6] = nil
			}
		}
		if e.Rand {
			m := -1
			if e.Name == "Signature" {
				m = 2
			}
			l = append(l, rop{e, m})
		}
	}
	return
}

// commitment is what the result shows of the nonce.
func (o rop) commitment(r kit.Out) []byte {
	switch {
	case o.Name == "Encryption":
		if len(r.B[0]) < 65 {
			return nil
		}
		return r.B[0][1:65]
	case o.Msg >= 0:
		if len(r.B[0]) < 32 {
			return nil
		}
		return r.B[0][:32]
	}
	return r.B[1]
}

// nonce is the nonce of a result, reduced to the smaller of itself and its
// negative where the signature does not tell; nil where it cannot be told.
func (o rop) nonce(r kit.Out) (*big.Int, *big.Int) {
	low := func(k, n *big.Int) *big.Int {
		k.Mod(k, n)
		if m := new(big.Int).Sub(n, k); m.Cmp(k) < 0 {
			return m
		}
		return k
	}
	switch {
	case strings.HasPrefix(o.Name, "KeyAgreement_initiator"):
		return ref.I(r.B[0]), ref.SM2.N
	case o.Msg < 0:
		return nil, nil
	}
	sig := r.B[0]
	if len(sig) != 64 {
		return nil, nil
	}
	key, msg := o.Args[0], o.Args[2]
	R, s := ref.I(sig[:32]), ref.I(sig[32:])
	switch o.Code {
	case owcrypt.ECC_CURVE_SECP256K1, owcrypt.ECC_CURVE_SECP256R1:
		c := kit.Weier(o.Code)
		k := new(big.Int).Mul(R, ref.I(key))
		k.Add(k, ref.I(msg)).Mul(k, new(big.Int).ModInverse(s, c.N)).Mod(k, c.N)
		if new(big.Int).Mod(c.MulBase(k).X, c.N).Cmp(R) != 0 {
			return nil, nil
		}
		return low(k, c.N), c.N
	case owcrypt.ECC_CURVE_SM2_STANDARD:
		c := ref.SM2
		k := new(big.Int).Mul(s, new(big.Int).Add(ref.I(key), big.NewInt(1)))
		k.Add(k, new(big.Int).Mul(R, ref.I(key))).Mod(k, c.N)
		return k, c.N
	case owcrypt.ECC_CURVE_ED25519, owcrypt.ECC_CURVE_X25519:
		pub := ref.EdMulBase(ref.ILE(key)).Enc()
		sb := kit.Clone(sig[32:])
		if o.Code == owcrypt.ECC_CURVE_X25519 {
			sb[31] &= 0x7f
		}
		h := sha512.Sum512(kit.Cat(sig[:32], pub, msg))
		k := new(big.Int).Mul(ref.ILE(h[:]), ref.ILE(key))
		k.Sub(ref.ILE(sb), k).Mod(k, ref.EdL)
		if !bytes.Equal(ref.EdMulBase(k).Enc(), sig[:32]) {
			return nil, nil
		}
		return k, ref.EdL
	case owcrypt.ECC_CURVE_PASTA:
		var j struct {
			TransactionPrefix, TransactionSuffix, SpongeIV [][4]uint64
		}
		if json.Unmarshal(msg, &j) != nil || len(j.SpongeIV) != 3 {
			return nil, nil
		}
		var m ref.MinaMsg
		c := ref.Pallas
		for _, l := range j.TransactionPrefix {
			m.Prefix = append(m.Prefix, kit.FromMont(l, c.P))
		}
		for _, l := range j.TransactionSuffix {
			m.Suffix = append(m.Suffix, kit.FromMont(l, c.P))
		}
		for i, l := range j.SpongeIV {
			m.IV[i] = kit.FromMont(l, c.P)
		}
		k := new(big.Int).Mul(m.E(c.MulBase(ref.I(key)), R), ref.I(key))
		k.Sub(s, k).Mod(k, c.N)
		if c.MulBase(k).X.Cmp(R) != 0 {
			return nil, nil
		}
		return low(k, c.N), c.N
	}
	return nil, nil
}

// valid reports whether the result is a proper one.
func (o rop) valid(r kit.Out) (bool, string) {
	switch {
	case o.Msg >= 0:
		if !r.OK() {
			return false, r.String()
		}
		pub, _ := owcrypt.GenPubkey(o.Args[0], o.Code)
		if v := owcrypt.Verify(pub, o.Args[1], o.Args[2], r.B[0], o.Code); v != owcrypt.SUCCESS {
			return false, "the signature does not verify"
		}
	case o.Name == "Encryption":
		if !r.OK() {
			return false, r.String()
		}
		p, err := ref.SM2Decrypt(keyOf[string(o.Args[0])], r.B[0])
		if !err || !bytes.Equal(p, o.Args[1]) {
			return false, "the ciphertext does not decrypt"
		}
	case strings.HasPrefix(o.Name, "KeyAgreement_initiator"):
		if len(r.B[0]) != 32 || len(r.B[1]) != 64 {
			return false, r.String()
		}
		k := ref.I(r.B[0])
		if k.Sign() == 0 || k.Cmp(ref.SM2.N) >= 0 || !bytes.Equal(ref.SM2.Enc(ref.SM2.MulBase(k)), r.B[1]) {
			return false, "the ephemeral keys do not belong together: " + r.String()
		}
	default:
		if !r.OK() || len(r.B[1]) != 64 || !ref.SM2.On(ref.I(r.B[1][:32]), ref.I(r.B[1][32:])) {
			return false, r.String()
		}
	}
	return true, ""
}

var keyOf = map[string]*big.Int{}

// job is a call under a failing source, made in a process of its own.
type job struct {
	Entry   int
	Args    [][]byte
	Nil     []bool // arguments that are nil, which gob does not keep
	Label   string
	FailAt  int
	Err     int
	Partial bool
	Once    bool
	After   string // the stream after the failure
}

type result struct {
	OK      bool
	Commit  []byte
	Panic   string
	Str     string
	Reached bool // the failure happened
}

var errs = []error{errors.New("no entropy"), io.EOF, io.ErrUnexpectedEOF}

func child() {
	var j job
	if err := gob.NewDecoder(os.Stdin).Decode(&j); err != nil {
		panic("mc: " + err.Error())
	}
	o := rops(-1)[j.Entry]
	o.Args = j.Args
	for k := range o.Args {
		if j.Nil[k] {
			o.Args[k] = nil
		} else if o.Args[k] == nil {
			o.Args[k] = []byte{}
		}
	}
	a, b := stream(j.Label), stream(j.After)
	s := &source{failAt: j.FailAt, err: errs[j.Err], partial: j.Partial, once: j.Once}
	s.s = func(i int) byte {
		if i < j.FailAt {
			return a(i)
		}
		return b(i)
	}
	rand.Reader = s
	var res result
	func() {
		defer func() {
			if e := recover(); e != nil {
				res.Panic = fmt.Sprint(e)
			}
		}()
		r := o.Call()
		res.Str = r.String()
		if o.Name == "KeyAgreement_initiator_step1" {
			res.OK = len(r.B[1]) > 0
		} else {
			res.OK = r.OK() || !r.Nil() && len(r.B[0]) > 0
		}
		if res.OK {
			res.Commit = o.commitment(r)
		}
	}()
	res.Reached = s.failed
	if err := gob.NewEncoder(os.Stdout).Encode(&res); err != nil {
		panic("mc: " + err.Error())
	}
	os.Exit(0)
}

// fail runs a job; died reports that the process ended itself because of the
// failing source.
func fail(x *mc.X, bin string, o rop, j job, what string) (r result, died bool) {
	j.Args = o.Args
	for _, a := range o.Args {
		j.Nil = append(j.Nil, a == nil)
	}
	var in, out, errb bytes.Buffer
	if err := gob.NewEncoder(&in).Encode(j); err != nil {
		panic("mc: " + err.Error())
	}
	c := exec.Command(bin, "child")
	c.Env = append(os.Environ(), "GOMAXPROCS=1", "REF_SKIP_SELFTEST=1")
	c.Stdin, c.Stdout, c.Stderr = &in, &out, &errb
	var err error
	x.Call(what, func() {
		if err = c.Start(); err != nil {
			panic("mc: " + err.Error())
		}
		t := time.AfterFunc(40*time.Second, func() { c.Process.Kill() })
		err = c.Wait()
		if !t.Stop() {
			err = errors.New("hang")
		}
	})
	if err != nil {
		m := errb.String()
		if strings.Contains(m, "crypto/rand") && strings.Contains(m, "fatal error") {
			return r, true
		}
		if err.Error() == "hang" || strings.Contains(m, "mc: endless reads") {
			x.Fail("hang/"+what, "%s does not return when the source fails at byte %d", what, j.FailAt)
		}
		if strings.Contains(m, "mc: ") {
			fmt.Fprintf(os.Stderr, "mc: child failed: %v %s\n", err, m)
			os.Exit(3)
		}
		return r, true // it ended without giving a result
	}
	if err := gob.NewDecoder(&out).Decode(&r); err != nil {
		panic("mc: " + err.Error())
	}
	return r, false
}

func main() {
	if len(os.Args) > 1 && os.Args[1] == "child" {
		child()
	}
	mc.HangLimit = 60 * time.Second
	mc.Main("C22", 120*time.Second, 800*time.Second, func(r *mc.Run) {
		ops := [2][]rop{rops(0), rops(1)}
		for v := 0; v < 2; v++ {
			f := kit.MakeFixture(owcrypt.ECC_CURVE_SM2_STANDARD, v)
			keyOf[string(f.Pub)] = ref.I(f.Prikey)
		}
		n := len(ops[0])
		call := func(x *mc.X, o rop, s *source) kit.Out {
			x.Rand().R = s
			var out kit.Out
			x.Call(o.Label, func() { out = o.Call() })
			x.State(o.Label, out.String())
			return out
		}
		plain := func(label string) *source { return &source{s: stream(label), failAt: -1} }
		check := func(x *mc.X, o rop, out kit.Out, what string) {
			if ok, why := o.valid(out); !ok {
				x.Fail("invalid/"+o.Label, "%s with %s: %s", o.Label, what, why)
			}
		}
		// drawn is what a call consumes under the base stream
		var memo sync.Map
		drawn := func(x *mc.X, v, i int) (int, kit.Out) {
			type m struct {
				n int
				o kit.Out
			}
			k := v*n + i
			if e, ok := memo.Load(k); ok {
				return e.(m).n, e.(m).o
			}
			s := plain("base")
			o := call(x, ops[v][i], s)
			memo.Store(k, m{s.pos, o})
			return s.pos, o
		}

		r.Explore("every call draws", func(x *mc.X) {
			v := x.Choose(2)
			o := ops[v][x.Choose(n)]
			label := fmt.Sprintf("draw%d", x.Choose(r.N(6, 30)))
			s := plain(label)
			var last []byte
			seen := map[string]bool{}
			for i := 0; i < 4; i++ {
				before := s.pos
				out := call(x, o, s)
				check(x, o, out, "a good source")
				if d := s.pos - before; d < 16 {
					x.Fail("entropy/"+o.Label, "%s draws %d bytes in call %d", o.Label, d, i+1)
				}
				last = o.commitment(out)
				if seen[string(last)] {
					x.Fail("reuse/"+o.Label, "%s: call %d has the nonce of an earlier call", o.Label, i+1)
				}
				seen[string(last)] = true
			}
			x.Log("%s: %d bytes for four calls, last commitment %x", o.Label, s.pos, last)
		})

		// each consumed byte matters: under some base stream a change of it
		// changes the nonce
		flips := []byte{1, 0xff, 0x20, 2, 4, 8, 0x10}
		r.Explore("each byte consumed", func(x *mc.X) {
			v := x.Choose(2)
			i := x.Choose(n)
			o := ops[v][i]
			d, _ := drawn(x, v, i)
			p := x.Choose(d)
			f := flips[x.Choose(r.N(2, len(flips)))]
			for k := 0; ; k++ {
				b := fmt.Sprintf("base%d", k)
				x0 := call(x, o, plain(b))
				g := stream(b)
				x1 := call(x, o, &source{failAt: -1, s: func(i int) byte {
					if i == p {
						return g(i) ^ f
					}
					return g(i)
				}})
				check(x, o, x1, "a changed byte")
				if !bytes.Equal(o.commitment(x0), o.commitment(x1)) {
					x.Log("%s: byte %d of %d matters", o.Label, p, d)
					return
				}
				if k == 3 {
					x.Fail("influence/"+o.Label, "%s: byte %d of the %d drawn does not influence the nonce (xor %#x)", o.Label, p, d, f)
				}
			}
		})

		r.Explore("short reads", func(x *mc.X) {
			v := x.Choose(2)
			i := x.Choose(n)
			o := ops[v][i]
			d, want := drawn(x, v, i)
			c := 1 + x.Choose(d)
			s := plain("base")
			s.chunk = c
			out := call(x, o, s)
			x.Assert(out.String() == want.String(), "short-reads/"+o.Label, "%s: reads of %d bytes at most change the result: %s, otherwise %s", o.Label, c, out, want)
		})

		bins := []string{os.Args[0]}
		if b := os.Getenv("C22_OLD"); b != "" {
			bins = append([]string{b}, bins...)
		} else {
			r.Note("no Go 1.23 toolchain: crypto/rand.Read ends the process on failures")
		}
		r.Explore("a failing source", func(x *mc.X) {
			bin := bins[x.Choose(r.N(1, len(bins)))]
			i := x.Choose(n)
			o := ops[0][i]
			d, _ := drawn(x, 0, i)
			p := x.Choose(d)
			e := x.Choose(len(errs))
			j := job{Entry: i, Label: "base", After: "after", FailAt: p, Err: e, Partial: x.Bool()}
			res, died := fail(x, bin, o, j, o.Label)
			x.State(o.Label, p, e, res.Str, died)
			if !died && res.OK {
				x.Fail("failing-source/"+o.Label, "%s gives a result although the source fails for good at byte %d with %q: %s", o.Label, p, errs[e], res.Str)
			}
		})
		r.Explore("a source that fails once", func(x *mc.X) {
			i := x.Choose(n)
			o := ops[0][i]
			d, _ := drawn(x, 0, i)
			p := x.Choose(d)
			j := job{Entry: i, Label: "base", After: "after 1", FailAt: p, Partial: x.Bool(), Once: true}
			a, died := fail(x, bins[0], o, j, o.Label)
			if died || !a.OK {
				return
			}
			j.After = "after 2"
			b, _ := fail(x, bins[0], o, j, o.Label)
			x.State(o.Label, p, a.Str, b.Str)
			if b.OK && bytes.Equal(a.Commit, b.Commit) {
				x.Fail("failing-once/"+o.Label, "%s: after a failure at byte %d the rest of the entropy does not influence the nonce", o.Label, p)
			}
		})

		// A source that repeats itself: nonces of different messages differ.
		r.Explore("a repeating source", func(x *mc.X) {
			i := x.Choose(n)
			o := ops[0][i]
			c := x.Choose(r.N(48, 256) + 8)
			if !r.Thorough() {
				if c < 48 {
					c = c * 16 / 3
				} else {
					c += 256 - 48
				}
			}
			var f func(i int) byte
			switch {
			case c < 256:
				f = func(int) byte { return byte(c) }
			default:
				k := 1 << (c - 256)
				g := stream("period")
				f = func(i int) byte { return g(i % k) }
			}
			pasta := o.Code == owcrypt.ECC_CURVE_PASTA && o.Msg >= 0
			zero := c == 0 || pasta && c&0x3f == 0 && c < 256
			if zero && (o.Msg < 0 || pasta) && !strings.HasPrefix(o.Name, "Encryption") {
				return // a zero scalar at every attempt
			}
			var msgs [][]byte
			if o.Msg < 0 || pasta {
				msgs = [][]byte{nil}
			} else {
				m := o.Args[o.Msg]
				msgs = append(msgs, m)
				for b := 0; b < 8*len(m); b += r.N(37, 5) {
					q := kit.Clone(m)
					q[b/8] ^= 1 << (b % 8)
					msgs = append(msgs, q)
				}
				q := kit.Clone(m)
				q[len(q)-1] ^= 1
				msgs = append(msgs, q)
				if o.Code == owcrypt.ECC_CURVE_ED25519 || o.Code == owcrypt.ECC_CURVE_X25519 {
					msgs = append(msgs, nil, m[:len(m)-1], append(kit.Clone(m), 0), kit.Stream("long", 500))
				}
			}
			seen := map[string]string{}
			for _, m := range msgs {
				p := o
				if o.Msg >= 0 && !pasta {
					p.Args = append([][]byte{}, o.Args...)
					p.Args[o.Msg] = m
				}
				out := call(x, p, &source{s: f, failAt: -1})
				check(x, p, out, fmt.Sprintf("the source %d", c))
				id := string(p.commitment(out))
				if k, _ := p.nonce(out); k != nil {
					id = k.String()
				}
				if w, ok := seen[id]; ok {
					x.Fail("nonce-reuse/"+o.Label, "%s: under a source that repeats itself (%d) the messages %s and %x have the same nonce", o.Label, c, w, m)
				}
				seen[id] = fmt.Sprintf("%x", m)
			}
		})

		// Boundary values at the head of the stream.
		var heads []*big.Int
		for _, m := range []*big.Int{ref.SM2.N, ref.Pallas.N, ref.K1.N, ref.EdL} {
			for d := int64(-2); d <= 2; d++ {
				heads = append(heads, new(big.Int).Add(m, big.NewInt(d)))
			}
		}
		for b := 0; b <= 256; b += r.N(8, 1) {
			for d := int64(-1); d <= 1; d++ {
				v := new(big.Int).Lsh(big.NewInt(1), uint(b))
				if v.Add(v, big.NewInt(d)).Sign() > 0 && v.BitLen() <= 256 {
					heads = append(heads, v)
				}
			}
		}
		r.Explore("boundary values", func(x *mc.X) {
			v, i := x.Choose(2), x.Choose(n)
			o := ops[v][i]
			seen := map[string]*big.Int{}
			for _, h := range heads {
				b := ref.B32(h)
				red := new(big.Int).Mod(h, ref.SM2.N)
				if o.Code == owcrypt.ECC_CURVE_PASTA {
					red.Mod(h, new(big.Int).Lsh(big.NewInt(1), 254)).Mod(red, ref.Pallas.N)
				}
				if red.Sign() == 0 && strings.HasPrefix(o.Name, "KeyAgreement") {
					continue
				}
				g := stream("tail" + h.String())
				out := call(x, o, &source{failAt: -1, s: func(i int) byte {
					if i < 32 {
						return b[i]
					}
					return g(i)
				}})
				check(x, o, out, fmt.Sprintf("a source beginning with %x", h))
				id := string(o.commitment(out))
				d, _ := drawn(x, v, i)
				if d < 32 {
					red = ref.I(b[:d])
				}
				w := seen[id]
				if w != nil && w.Cmp(red) != 0 {
					// a nonce and its negative have the same abscissa
					if s := new(big.Int).Add(w, red); o.Msg >= 0 && (s.Cmp(ref.Pallas.N) == 0 || s.Cmp(ref.SM2.N) == 0) {
						continue
					}
					x.Fail("collision/"+o.Label, "%s: different entropy (%x and %x) gives the same nonce", o.Label, w, h)
				}
				seen[id] = red
			}
		})

		// The nonces fill their range: over many streams every bit takes both
		// values, and the extremes come close to the ends.
		r.Explore("range", func(x *mc.X) {
			o := ops[x.Choose(2)][x.Choose(n)]
			var or, and *big.Int
			var mod *big.Int
			seen := map[string]bool{}
			N := r.N(160, 1200)
			for i := 0; i < N; i++ {
				out := call(x, o, plain(fmt.Sprintf("range%d", i)))
				check(x, o, out, "a good source")
				id := string(o.commitment(out))
				x.Assert(!seen[id], "collision/"+o.Label, "%s: two streams give the same nonce", o.Label)
				seen[id] = true
				k, m := o.nonce(out)
				if k == nil {
					continue
				}
				mod = m
				if or == nil {
					or, and = new(big.Int).Set(k), new(big.Int).Set(k)
				}
				or.Or(or, k)
				and.And(and, k)
			}
			if or == nil {
				return
			}
			for b := 0; b < mod.BitLen()-3; b++ {
				if or.Bit(b) == 0 || and.Bit(b) == 1 {
					x.Fail("range/"+o.Label, "%s: bit %d of the nonce is the same in %d calls", o.Label, b, N)
				}
			}
		})

		// The first draw is no valid nonce: a later one is used.
		r.Explore("a zero before good entropy", func(x *mc.X) {
			i := x.Choose(n)
			o := ops[0][i]
			if strings.HasPrefix(o.Name, "KeyAgreement") {
				return
			}
			d, _ := drawn(x, 0, i)
			k := 1 + x.Choose(3)
			g := stream("good")
			s := &source{failAt: -1}
			s.s = func(i int) byte {
				if i < k*d {
					return 0
				}
				return g(i)
			}
			out := call(x, o, s)
			check(x, o, out, "zeros first")
			if q, _ := o.nonce(out); q != nil && q.Sign() == 0 {
				x.Fail("zero/"+o.Label, "%s uses the nonce 0", o.Label)
			}
		})
	})
}
