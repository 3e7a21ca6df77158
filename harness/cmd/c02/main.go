// C02: streaming hash objects as state machines over Write, Sum, Read, Clone
// and Reset. The reference state of an object is the byte string written since
// creation or Reset (and, for SHAKE, the number of bytes read).
package main

import (
	"bytes"
	"hash"
	"sync"
	"time"
	"verifharness/kit"
	"verifharness/mc"
	"verifharness/ref"

	"github.com/blocktree/go-owcrypt/blake256"
	"github.com/blocktree/go-owcrypt/blake2s"
	"github.com/blocktree/go-owcrypt/blake512"
	"github.com/blocktree/go-owcrypt/sha3"
	"github.com/blocktree/go-owcrypt/sm3"
)

// typ is a kind of hash object together with its specification.
type typ struct {
	name        string
	block, size int
	mk          func() hash.Hash
	f           func(m []byte) []byte

	mu  sync.Mutex
	tab map[int][]byte
}

const maxStream = 1 << 13

var stream = kit.Stream("c02-stream", maxStream)

// digest of the first n stream bytes
func (t *typ) want(n int) []byte {
	t.mu.Lock()
	d, ok := t.tab[n]
	t.mu.Unlock()
	if !ok {
		d = t.f(stream[:n:n])
		t.mu.Lock()
		if t.tab == nil {
			t.tab = map[int][]byte{}
		}
		t.tab[n] = d
		t.mu.Unlock()
	}
	return d
}

func must(h hash.Hash, err error) hash.Hash {
	if err != nil {
		panic(err)
	}
	return h
}

func types() []*typ {
	var l []*typ
	add := func(name string, block, size int, mk func() hash.Hash, f func([]byte) []byte) {
		l = append(l, &typ{name: name, block: block, size: size, mk: mk, f: f})
	}
	kk := func(rate int, ds byte, n int) func([]byte) []byte {
		return func(m []byte) []byte { return ref.Keccak(m, rate, ds, n) }
	}
	add("sm3", 64, 32, sm3.New, ref.SM3)
	add("sha3-224", 144, 28, sha3.New224, kk(144, 6, 28))
	add("sha3-256", 136, 32, sha3.New256, kk(136, 6, 32))
	add("sha3-384", 104, 48, sha3.New384, kk(104, 6, 48))
	add("sha3-512", 72, 64, sha3.New512, kk(72, 6, 64))
	add("keccak256", 136, 32, sha3.NewKeccak256, kk(136, 1, 32))
	add("keccak512", 72, 64, sha3.NewKeccak512, kk(72, 1, 64))
	b1 := func(salt []byte, n int) func([]byte) []byte {
		return func(m []byte) []byte { return ref.Blake256(m, salt, n) }
	}
	b5 := func(salt []byte, n int) func([]byte) []byte {
		return func(m []byte) []byte { return ref.Blake512(m, salt, n) }
	}
	s16, s32 := kit.Stream("salt", 16), kit.Stream("salt", 32)
	add("blake256", 64, 32, blake256.New, b1(nil, 256))
	add("blake224", 64, 28, blake256.New224, b1(nil, 224))
	add("blake256-salt", 64, 32, func() hash.Hash { return blake256.NewSalt(kit.Clone(s16)) }, b1(s16, 256))
	add("blake224-salt", 64, 28, func() hash.Hash { return blake256.New224Salt(kit.Clone(s16)) }, b1(s16, 224))
	add("blake512", 128, 64, blake512.New, b5(nil, 512))
	add("blake384", 128, 48, blake512.New384, b5(nil, 384))
	add("blake512-salt", 128, 64, func() hash.Hash { return blake512.NewSalt(kit.Clone(s32)) }, b5(s32, 512))
	add("blake384-salt", 128, 48, func() hash.Hash { return blake512.New384Salt(kit.Clone(s32)) }, b5(s32, 384))
	b2 := func(name string, c ref.B2S) {
		add(name, 64, c.Size, func() hash.Hash {
			cfg := &blake2s.Config{Size: uint8(c.Size), Key: kit.Clone(c.Key), Salt: kit.Clone(c.Salt), Person: kit.Clone(c.Person)}
			if c.Tree {
				cfg.Tree = &blake2s.Tree{Fanout: c.Fanout, MaxDepth: c.Depth, LeafSize: c.Leaf, NodeOffset: c.Offset, NodeDepth: c.NodeDepth, InnerHashSize: c.InnerLen, IsLastNode: c.Last}
			}
			h := must(blake2s.New(cfg))
			// the object keeps nothing of the caller's configuration
			for _, b := range [][]byte{cfg.Key, cfg.Salt, cfg.Person} {
				for i := range b {
					b[i] ^= 0x55
				}
			}
			cfg.Size ^= 7
			if cfg.Tree != nil {
				*cfg.Tree = blake2s.Tree{}
			}
			return h
		}, func(m []byte) []byte { return ref.Blake2s(m, c) })
	}
	k := kit.Stream("key", 32)
	b2("blake2s", ref.B2S{Size: 32})
	b2("blake2s-1", ref.B2S{Size: 1})
	b2("blake2s-20", ref.B2S{Size: 20})
	b2("blake2s-key32", ref.B2S{Size: 32, Key: k})
	b2("blake2s-key1", ref.B2S{Size: 16, Key: k[:1]})
	b2("blake2s-salt-person", ref.B2S{Size: 32, Salt: k[:8], Person: k[8:16]})
	b2("blake2s-short-salt", ref.B2S{Size: 31, Salt: k[:3], Person: k[8:9], Key: k[:16]})
	b2("blake2s-tree-last", ref.B2S{Size: 32, Tree: true, Fanout: 2, Depth: 3, Leaf: 0x01020304, Offset: 0x0a0b0c0d0e0f, NodeDepth: 1, InnerLen: 32, Last: true, Key: k[:7]})
	b2("blake2s-tree", ref.B2S{Size: 32, Tree: true, Fanout: 0, Depth: 255, Leaf: 4096, Offset: 1<<48 - 1, NodeDepth: 255, InnerLen: 16})
	add("blake2s.New256", 64, 32, blake2s.New256, func(m []byte) []byte { return ref.Blake2s(m, ref.B2S{Size: 32}) })
	add("blake2s.New(nil)", 64, 32, func() hash.Hash { return must(blake2s.New(nil)) }, func(m []byte) []byte { return ref.Blake2s(m, ref.B2S{Size: 32}) })
	add("blake2s.NewMAC", 64, 24, func() hash.Hash { return blake2s.NewMAC(24, kit.Clone(k[:20])) }, func(m []byte) []byte { return ref.Blake2s(m, ref.B2S{Size: 24, Key: k[:20]}) })
	return l
}

// obj is a live object and its reference state.
type obj struct {
	h hash.Hash
	n int
}

func (o *obj) write(x *mc.X, t *typ, n int) {
	p := kit.Clone(stream[o.n : o.n+n])
	var k int
	var err error
	x.Call(t.name+".Write", func() { k, err = o.h.Write(p) })
	if k != n || err != nil {
		x.Fail("write/"+t.name, "%s: Write of %d bytes returned %d, %v", t.name, n, k, err)
	}
	if !bytes.Equal(p, stream[o.n:o.n+n]) {
		x.Fail("write-mutates/"+t.name, "%s: Write changed its argument", t.name)
	}
	for i := range p {
		p[i] ^= 0xff // the caller may reuse its buffer
	}
	o.n += n
}

func (o *obj) sum(x *mc.X, t *typ, prefix []byte) {
	var got []byte
	keep := kit.Clone(prefix)
	x.Call(t.name+".Sum", func() { got = o.h.Sum(prefix) })
	want := append(kit.Clone(keep), t.want(o.n)...)
	if !bytes.Equal(got, want) {
		x.Fail("sum/"+t.name, "%s: Sum(%s) after %d bytes: got %s, want %s", t.name, mc.Hex(keep), o.n, mc.Hex(got), mc.Hex(want))
	}
	if !bytes.Equal(prefix, keep) {
		x.Fail("sum-prefix/"+t.name, "%s: Sum changed the bytes of its argument", t.name)
	}
	for i := range got {
		got[i] ^= 0xff // the caller may overwrite what it got
	}
}

func main() {
	mc.Main("C02", 110*time.Second, 700*time.Second, func(r *mc.Run) {
		ts := types()
		// the declared sizes
		r.Explore("sizes", func(x *mc.X) {
			t := ts[x.Choose(len(ts))]
			var h hash.Hash
			x.Call("New", func() { h = t.mk() })
			x.State(t.name, h.Size(), h.BlockSize())
			x.Assert(h.Size() == t.size, "size", "%s: Size() = %d, want %d", t.name, h.Size(), t.size)
			x.Assert(h.BlockSize() == t.block, "blocksize", "%s: BlockSize() = %d, want %d", t.name, h.BlockSize(), t.block)
		})
		// every split of a message in two writes, with and without an
		// intermediate Sum
		r.Explore("two-writes", func(x *mc.X) {
			t := ts[x.Choose(len(ts))]
			a := x.Choose(2*t.block + 2)
			mid := x.Bool()
			for b := 0; b <= r.N(2*t.block+1, 5*t.block+1); b++ {
				o := &obj{h: t.mk()}
				o.write(x, t, a)
				if mid {
					o.sum(x, t, nil)
				}
				o.write(x, t, b)
				x.State(t.name, a, b, mid)
				o.sum(x, t, nil)
			}
			x.Log("%s: %d bytes, then 0..%d bytes, Sum between: %v", t.name, a, 2*t.block+1, mid)
		})
		// every sequence of operations on two live objects of one type
		prefix := func(kind int) []byte {
			switch kind {
			case 0:
				return nil
			case 1: // room for the digest behind the slice
				b := kit.Fill(120, 0xa5)
				return b[:7]
			}
			return kit.Fill(3, 0x11)[:3:3]
		}
		seq := func(name string, objs, depth int, lens func(b int) []int) {
			r.Explore(name, func(x *mc.X) {
				t := ts[x.Choose(len(ts))]
				l := lens(t.block)
				var os []*obj
				for i := 0; i < objs; i++ {
					os = append(os, &obj{h: t.mk()})
				}
				for i := 0; i < depth; i++ {
					c := x.Choose(objs * (len(l) + 3))
					o := os[c%objs]
					c /= objs
					switch {
					case c < len(l):
						x.Log("object %d: write %d", c%objs, l[c])
						o.write(x, t, l[c])
					case c == len(l):
						x.Log("sum(nil)")
						o.sum(x, t, nil)
					case c == len(l)+1:
						x.Log("sum with spare capacity")
						o.sum(x, t, prefix(1))
					default:
						x.Log("reset")
						x.Call(t.name+".Reset", func() { o.h.Reset() })
						o.n = 0
					}
				}
				for i, o := range os {
					x.State(t.name, i, o.n)
					o.sum(x, t, prefix(2))
					o.sum(x, t, nil)
				}
			})
		}
		seq("one-object", 1, r.N(4, 5), func(b int) []int { return []int{1, b - 9, b - 8, b - 1, b, b + 1, 2*b + 1} })
		seq("two-objects", 2, r.N(3, 4), func(b int) []int { return []int{0, 3, b - 1, b, b + b/2} })
		// many equal small writes
		r.Explore("chunked", func(x *mc.X) {
			t := ts[x.Choose(len(ts))]
			c := x.Choose(r.N(2*t.block+2, 3*t.block+2))
			if c == 0 {
				return
			}
			o := &obj{h: t.mk()}
			every := 1 + c%3
			for i := 0; o.n+c <= 8*t.block; i++ {
				o.write(x, t, c)
				if i%every == 0 {
					o.sum(x, t, nil)
				}
				x.State(t.name, c, o.n)
			}
			o.sum(x, t, nil)
		})
		// large writes on their own, after and before small ones
		sizes := kit.Lengths(1000, r.N(1<<20+1, 1<<23+1))
		r.Explore("large", func(x *mc.X) {
			t := ts[x.Choose(len(ts))]
			part := x.Choose(8)
			for i, n := range sizes {
				if i%8 != part {
					continue
				}
				pre := []int{0, 1, t.block - 1, t.block}[(i/8)%4]
				h := t.mk()
				if i%2 == 1 { // an object used before
					h.Write(kit.Long(t.block + 3))
					h.Reset()
				}
				var got []byte
				x.Call(t.name, func() {
					h.Write(kit.Long(pre))
					h.Write(kit.Long(n))
					got = h.Sum(nil)
				})
				want := t.f(kit.Cat(kit.Long(pre), kit.Long(n)))
				x.State(t.name, n, got)
				x.Eq(got, want, "large/"+t.name, "%s: writes of %d and %d bytes", t.name, pre, n)
				if i%8 == i%3 {
					x.Call(t.name, func() {
						h.Write(kit.Long(5))
						got = h.Sum(nil)
					})
					x.Eq(got, t.f(kit.Cat(kit.Long(pre), kit.Long(n), kit.Long(5))), "large/"+t.name, "%s: writes of %d, %d and 5 bytes", t.name, pre, n)
				}
			}
		})
		// Sum into every amount of spare capacity
		r.Explore("sum-capacity", func(x *mc.X) {
			t := ts[x.Choose(len(ts))]
			for n := 0; n <= t.block+1; n += t.block/8 + 1 {
				for l := 0; l <= 3; l++ {
					for spare := 0; spare <= t.size+9; spare++ {
						o := &obj{h: t.mk()}
						o.write(x, t, n)
						buf := kit.Fill(l+spare+8, 0xc3)
						o.sum(x, t, buf[:l:l+spare])
						if !bytes.Equal(buf[l+spare:], kit.Fill(8, 0xc3)) {
							x.Fail("sum-overrun/"+t.name, "%s: Sum wrote past the capacity of its argument", t.name)
						}
						x.State(t.name, n, l, spare)
						o.sum(x, t, nil)
					}
				}
			}
		})
		// objects of different types interleaved, created in between
		r.Explore("mixed-types", func(x *mc.X) {
			i := x.Choose(len(ts))
			j := x.Choose(len(ts))
			a, b := ts[i], ts[j]
			oa := &obj{h: a.mk()}
			oa.write(x, a, a.block/2)
			ob := &obj{h: b.mk()}
			ob.write(x, b, b.block+3)
			oa.write(x, a, a.block)
			ob.sum(x, b, nil)
			oa.sum(x, a, nil)
			ob.h.Reset()
			ob.n = 0
			oa.write(x, a, 5)
			oa.sum(x, a, nil)
			ob.sum(x, b, nil)
			x.State(i, j, oa.n)
		})
		blake2sConfigs(r)
		shake(r)
		r.Note("messages are prefixes of one fixed pseudo-random stream, so an object's reference state is the number of bytes written")
	})
}

// every construction parameter of BLAKE2s
func blake2sConfigs(r *mc.Run) {
	k := kit.Stream("cfg", 64)
	check := func(x *mc.X, c ref.B2S) {
		cfg := &blake2s.Config{Size: uint8(c.Size), Key: kit.Clone(c.Key), Salt: kit.Clone(c.Salt), Person: kit.Clone(c.Person)}
		if c.Tree {
			cfg.Tree = &blake2s.Tree{Fanout: c.Fanout, MaxDepth: c.Depth, LeafSize: c.Leaf, NodeOffset: c.Offset, NodeDepth: c.NodeDepth, InnerHashSize: c.InnerLen, IsLastNode: c.Last}
		}
		bad := c.Size > 32 || len(c.Key) > 32 || len(c.Salt) > 8 || len(c.Person) > 8 || c.Tree && (c.InnerLen > 32 || c.Offset >= 1<<48)
		var h hash.Hash
		var err error
		x.Call("blake2s.New", func() { h, err = blake2s.New(cfg) })
		x.State(c.Size, c.Key, c.Salt, c.Person, c.Fanout, c.Depth, c.NodeDepth, c.InnerLen, bad)
		if bad {
			x.Assert(err != nil, "blake2s-config", "blake2s.New accepts %+v", c)
			return
		}
		if err != nil {
			x.Fail("blake2s-config", "blake2s.New refuses %+v: %v", c, err)
		}
		for _, n := range []int{0, 1, 64, 100} {
			h.Reset()
			h.Write(stream[:n])
			want := ref.Blake2s(stream[:n:n], c)
			got := h.Sum(nil)
			if !bytes.Equal(got, want) {
				x.Fail("blake2s-param", "blake2s with %+v over %d bytes: got %s, want %s", c, n, mc.Hex(got), mc.Hex(want))
			}
			if !bytes.Equal(h.Sum(nil), want) {
				x.Fail("blake2s-param", "blake2s with %+v: second Sum differs", c)
			}
		}
	}
	r.Explore("blake2s-size-key", func(x *mc.X) {
		size := 1 + x.Choose(36)
		for kl := 0; kl <= 34; kl++ {
			check(x, ref.B2S{Size: size, Key: k[:kl]})
		}
	})
	r.Explore("blake2s-salt-person", func(x *mc.X) {
		sl := x.Choose(11)
		for pl := 0; pl <= 10; pl++ {
			check(x, ref.B2S{Size: 32, Salt: k[:sl], Person: k[20 : 20+pl]})
			check(x, ref.B2S{Size: 20, Salt: k[:sl], Person: k[20 : 20+pl], Key: k[:5], Tree: true, Fanout: 2, Depth: 2})
		}
	})
	r.Explore("blake2s-tree", func(x *mc.X) {
		bs := []byte{0, 1, 2, 0x80, 0xff}
		c := ref.B2S{Size: 32, Tree: true}
		c.Fanout = bs[x.Choose(5)]
		c.Depth = bs[x.Choose(5)]
		c.NodeDepth = bs[x.Choose(5)]
		c.InnerLen = []byte{0, 1, 16, 32, 33, 255}[x.Choose(6)]
		c.Last = x.Bool()
		for _, leaf := range []uint32{0, 1, 0x100, 0x10000, 0x1000000, 0xffffffff} {
			for _, off := range []uint64{0, 1, 1 << 8, 1 << 16, 1 << 24, 1 << 31, 1 << 32, 1 << 40, 1<<48 - 1, 1 << 48, 1 << 63} {
				c.Leaf, c.Offset = leaf, off
				check(x, c)
			}
		}
	})
	// the byte counter of BLAKE2s has two words
	r.Explore("past 2^32 bytes", func(x *mc.X) {
		chunk := kit.Long(1 << 20)
		tails := []int{1<<20 - 65, 1<<20 - 64, 1<<20 - 1, 1 << 20, 1<<20 + 1, 1<<20 + 63, 1<<20 + 64, 1<<20 + 65, 1<<20 + 1000}
		want := make(chan [][]byte)
		go func() { want <- ref.Blake2sTail(chunk, 1<<32-1<<20, tails) }()
		h := blake2s.New256()
		var got [][]byte
		x.Call("Write", func() {
			for i := 0; i < 4095; i++ {
				h.Write(chunk)
			}
			done := 0
			for _, n := range tails {
				for done < n {
					k := min(n-done, len(chunk)-done%len(chunk))
					h.Write(chunk[done%len(chunk) : done%len(chunk)+k])
					done += k
				}
				got = append(got, h.Sum(nil))
			}
		})
		w := <-want
		for i, n := range tails {
			x.State(n, got[i])
			x.Eq(got[i], w[i], "counter", "BLAKE2s after 2^32 - 2^20 + %d bytes", n)
		}
	})
	// every salt bit of BLAKE
	r.Explore("blake-salt-bit", func(x *mc.X) {
		w := x.Choose(4)
		n := 16
		if w >= 2 {
			n = 32
		}
		for i := 0; i <= 8*n; i++ {
			salt := make([]byte, n)
			if i < 8*n {
				salt = kit.Flip(salt, i)
			}
			for _, m := range []int{0, 1, 55, 64, 111, 128, 130} {
				var h hash.Hash
				var want []byte
				switch w {
				case 0:
					h, want = blake256.NewSalt(salt), ref.Blake256(stream[:m], salt, 256)
				case 1:
					h, want = blake256.New224Salt(salt), ref.Blake256(stream[:m], salt, 224)
				case 2:
					h, want = blake512.NewSalt(salt), ref.Blake512(stream[:m], salt, 512)
				case 3:
					h, want = blake512.New384Salt(salt), ref.Blake512(stream[:m], salt, 384)
				}
				x.Call("salted", func() { h.Write(stream[:m]) })
				got := h.Sum(nil)
				x.State(w, got)
				x.Eq(got, want, "salt", "salted BLAKE (kind %d) salt bit %d over %d bytes", w, i, m)
				h.Reset()
				h.Write(stream[:m])
				x.Eq(h.Sum(nil), want, "salt-reset", "salted BLAKE (kind %d) after Reset", w)
			}
		}
	})
}

type shakeObj struct {
	h sha3.ShakeHash
	n int // bytes absorbed
	m int // bytes squeezed
	s bool
}

func shake(r *mc.Run) {
	var mu sync.Mutex
	tab := map[[2]int][]byte{}
	out := func(rate, n int) []byte {
		mu.Lock()
		defer mu.Unlock()
		if o, ok := tab[[2]int{rate, n}]; ok {
			return o
		}
		o := ref.Keccak(stream[:n], rate, 0x1f, 3000)
		tab[[2]int{rate, n}] = o
		return o
	}
	mk := func(rate int) sha3.ShakeHash {
		if rate == 168 {
			return sha3.NewShake128()
		}
		return sha3.NewShake256()
	}
	read := func(x *mc.X, rate int, o *shakeObj, n int) {
		buf := kit.Fill(n+4, 0x77)
		var k int
		var err error
		x.Call("Shake.Read", func() { k, err = o.h.Read(buf[:n]) })
		o.s = true
		want := out(rate, o.n)[o.m : o.m+n]
		if k != n || err != nil || !bytes.Equal(buf[:n], want) || !bytes.Equal(buf[n:], kit.Fill(4, 0x77)) {
			x.Fail("shake-read", "SHAKE (rate %d) after absorbing %d and squeezing %d bytes: Read(%d) = %d, %v, %s, want %s", rate, o.n, o.m, n, k, err, mc.Hex(buf[:n]), mc.Hex(want))
		}
		o.m += n
	}
	write := func(x *mc.X, o *shakeObj, n int) {
		p := kit.Clone(stream[o.n : o.n+n])
		var k int
		x.Call("Shake.Write", func() { k, _ = o.h.Write(p) })
		x.Assert(k == n, "shake-write", "SHAKE Write(%d) returned %d", n, k)
		for i := range p {
			p[i] ^= 0xff
		}
		o.n += n
	}
	r.Explore("shake-two-reads", func(x *mc.X) {
		rate := []int{136, 168}[x.Choose(2)]
		a := x.Choose(2*rate + 2)
		for b := 0; b <= 2*rate+1; b++ {
			o := &shakeObj{h: mk(rate)}
			write(x, o, 20)
			read(x, rate, o, a)
			read(x, rate, o, b)
			x.State(rate, a, b)
		}
	})
	r.Explore("shake-two-writes", func(x *mc.X) {
		rate := []int{136, 168}[x.Choose(2)]
		a := x.Choose(2*rate + 2)
		for b := 0; b <= 2*rate+1; b++ {
			o := &shakeObj{h: mk(rate)}
			write(x, o, a)
			write(x, o, b)
			x.State(rate, a, b)
			read(x, rate, o, 33)
		}
	})
	sizes := kit.Lengths(500, r.N(1<<20+1, 1<<23+1))
	r.Explore("shake-large", func(x *mc.X) {
		rate := []int{136, 168}[x.Choose(2)]
		n := sizes[x.Choose(len(sizes))]
		in := []int{0, 7, n}[x.Choose(r.N(2, 3))]
		if n < 70000 {
			in = n
		}
		h := mk(rate)
		got := make([]byte, n+9)
		x.Call("Shake", func() {
			h.Write(kit.Long(in))
			h.Read(got[:n])
			h.Read(got[n:])
		})
		x.State(rate, n, in, got)
		if w := ref.Keccak(kit.Long(in), rate, 0x1f, n+9); !bytes.Equal(got, w) {
			x.Fail("shake-large", "SHAKE with rate %d: %d bytes read at once after %d written differ", rate, n, in)
		}
	})
	// every sequence of operations; Clone adds an object, all stay live
	r.Explore("shake-sequence", func(x *mc.X) {
		rate := []int{136, 168}[x.Choose(2)]
		os := []*shakeObj{{h: mk(rate)}}
		depth := r.N(5, 6)
		for i := 0; i < depth; i++ {
			o := os[x.Choose(len(os))]
			const nr = 4
			rd := []int{1, rate - 1, rate, rate + 1}
			wr := []int{1, rate - 1, rate, rate + 1}
			n := nr + 2
			if !o.s {
				n += len(wr)
			} else {
				n++
			}
			c := x.Choose(n)
			switch {
			case o.s && c == nr+2:
				// documented: refused with a panic, which leaves the object as it was
				x.Log("write after read")
				x.Assert(x.Try("Shake.Write", func() { o.h.Write([]byte{1}) }) != "", "shake-write-after-read", "SHAKE Write after Read does not panic")
			case c < nr:
				x.Log("read %d", rd[c])
				read(x, rate, o, rd[c])
			case c == nr:
				if len(os) >= 3 {
					return
				}
				x.Log("clone")
				var cl sha3.ShakeHash
				x.Call("Shake.Clone", func() { cl = o.h.Clone() })
				os = append(os, &shakeObj{h: cl, n: o.n, m: o.m, s: o.s})
			case c == nr+1:
				x.Log("reset")
				x.Call("Shake.Reset", func() { o.h.Reset() })
				o.n, o.m, o.s = 0, 0, false
			default:
				x.Log("write %d", wr[c-nr-2])
				write(x, o, wr[c-nr-2])
			}
		}
		for i, o := range os {
			x.State(rate, i, o.n, o.m, o.s)
			read(x, rate, o, 40)
			read(x, rate, o, rate)
		}
	})
}
