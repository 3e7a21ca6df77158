// C19: entry points never modify or alias the caller's memory.
package main

import (
	"bytes"
	"crypto/ecdsa"
	"fmt"
	"math/big"
	"time"
	"unsafe"
	"verifharness/kit"
	"verifharness/mc"
	"verifharness/ref"

	owcrypt "github.com/blocktree/go-owcrypt"
)

// layout places argument values in memory.
type layout struct {
	name  string
	place func(vals [][]byte) (args, bufs [][]byte)
}

func exact(b []byte) []byte {
	if b == nil {
		return nil
	}
	c := make([]byte, len(b))
	copy(c, b)
	return c[:len(c):len(c)]
}

func padded(front, back int, fill byte) layout {
	return layout{fmt.Sprintf("%d bytes %#x before, %d behind", front, fill, back), func(vals [][]byte) (args, bufs [][]byte) {
		for _, v := range vals {
			if v == nil {
				args = append(args, nil)
				continue
			}
			b := kit.Cat(kit.Fill(front, fill), v, kit.Fill(back, fill))
			args, bufs = append(args, b[front:front+len(v)]), append(bufs, b)
		}
		return
	}}
}

// packed puts all arguments into one buffer, in the order given by perm.
func packed(rev bool) layout {
	return layout{fmt.Sprintf("adjacent in one buffer, reversed %v", rev), func(vals [][]byte) (args, bufs [][]byte) {
		n := 0
		for _, v := range vals {
			n += len(v)
		}
		b := make([]byte, n, n+9)
		args = make([][]byte, len(vals))
		n = 0
		for i := range vals {
			if rev {
				i = len(vals) - 1 - i
			}
			if vals[i] != nil {
				copy(b[n:], vals[i])
				args[i] = b[n : n+len(vals[i])]
				n += len(vals[i])
			}
		}
		return args, [][]byte{b[:cap(b)]}
	}}
}

// shared lets an argument that is a prefix of another share its memory.
var shared = layout{"equal arguments share memory", func(vals [][]byte) (args, bufs [][]byte) {
	args = make([][]byte, len(vals))
	for i, v := range vals {
		if v == nil {
			continue
		}
		for j, w := range vals[:i] {
			if args[i] == nil && bytes.HasPrefix(w, v) && w != nil {
				args[i] = args[j][:len(v)]
			}
		}
		if args[i] == nil {
			args[i] = exact(v)
			bufs = append(bufs, args[i])
		}
	}
	return
}}

func trash(b []byte) {
	b = b[:cap(b)]
	for i := range b {
		b[i] ^= 0x5a
	}
}

func snapshot(l [][]byte) [][]byte {
	c := make([][]byte, len(l))
	for i := range l {
		c[i] = bytes.Clone(l[i][:cap(l[i])])
	}
	return c
}

// start is where a slice begins, as an address for comparison only.
func start(b []byte) uintptr { return uintptr(unsafe.Pointer(unsafe.SliceData(b))) }

func overlap(a, b []byte) bool {
	return len(a) > 0 && len(b) > 0 && start(a) < start(b)+uintptr(len(b)) && start(b) < start(a)+uintptr(len(a))
}

func call(x *mc.X, e kit.Entry, a [][]byte) (o kit.Out) {
	x.Reseed("C19")
	x.Call(e.Label, func() { o = e.Run(a, e.Code, e.N) })
	return
}

func clones(vals [][]byte) [][]byte {
	var l [][]byte
	for _, v := range vals {
		l = append(l, exact(v))
	}
	return l
}

// check runs e on vals under every layout.
func check(x *mc.X, e kit.Entry, vals [][]byte, layouts []layout, what string) {
	a0 := clones(vals)
	o := call(x, e, a0)
	want := o.String()
	x.State(e.Label, want, what)
	for i := range a0 {
		if !bytes.Equal(a0[i], vals[i]) {
			x.Fail("writes-argument/"+e.Name, "%s (%s) changes its argument %s from %x to %x", e.Label, what, e.Names[i], vals[i], a0[i])
		}
	}
	for i, b := range o.B {
		for j, a := range a0 {
			if overlap(b, a) {
				x.Fail("returns-argument/"+e.Name, "%s (%s) returns memory of its argument %s", e.Label, what, e.Names[j])
			}
		}
		for j := range o.B[:i] {
			if overlap(b, o.B[j]) {
				x.Fail("results-overlap/"+e.Name, "%s (%s): the results %d and %d share memory", e.Label, what, j, i)
			}
		}
	}
	for _, l := range layouts {
		args, bufs := l.place(vals)
		before := snapshot(bufs)
		hdr := append([][]byte{}, args...)
		p := call(x, e, args)
		if got := p.String(); got != want {
			x.Fail("depends-on-layout/"+e.Name, "%s (%s) with the arguments %s: got %s, want %s", e.Label, what, l.name, got, want)
		}
		for i := range bufs {
			if after := bufs[i][:cap(bufs[i])]; !bytes.Equal(before[i], after) {
				x.Fail("writes-memory/"+e.Name, "%s (%s) with the arguments %s: memory of the caller changed from %x to %x", e.Label, what, l.name, before[i], after)
			}
		}
		for i := range hdr {
			if i < len(args) && (len(args[i]) != len(hdr[i]) || start(args[i]) != start(hdr[i])) {
				x.Fail("moves-argument/"+e.Name, "%s (%s): argument slice %d was replaced", e.Label, what, i)
			}
		}
		// results and arguments are independent of each other
		for _, b := range bufs {
			trash(b)
		}
		if got := p.String(); got != want {
			x.Fail("result-follows-argument/"+e.Name, "%s (%s): after the arguments are overwritten the result is %s, was %s", e.Label, what, got, want)
		}
		after := snapshot(bufs)
		for _, b := range p.B {
			trash(b)
		}
		for i := range bufs {
			if !bytes.Equal(after[i], bufs[i][:cap(bufs[i])]) {
				x.Fail("argument-follows-result/"+e.Name, "%s (%s): overwriting the result changes the caller's arguments", e.Label, what)
			}
		}
	}
	// overwriting everything a call returned leaves later calls and earlier results alone
	q := call(x, e, clones(vals))
	if got := q.String(); got != want {
		x.Fail("result-is-state/"+e.Name, "%s (%s) after earlier results were overwritten: got %s, want %s", e.Label, what, got, want)
	}
	if got := o.String(); got != want {
		x.Fail("result-shared/"+e.Name, "%s (%s): the first result became %s, was %s", e.Label, what, got, want)
	}
	for _, b := range q.B {
		trash(b)
	}
	if got := o.String(); got != want {
		x.Fail("result-shared/"+e.Name, "%s (%s): overwriting a later result changed the first to %s, was %s", e.Label, what, got, want)
	}
}

func main() {
	mc.Main("C19", 150*time.Second, 850*time.Second, func(r *mc.Run) {
		cat := kit.Everything(0)
		ls := []layout{padded(1, 1, 0xa5), padded(16, 80, 0), padded(7, 200, 0xff), packed(false), packed(true), shared}
		r.Explore("well-formed arguments", func(x *mc.X) {
			v := x.Choose(r.N(3, 10))
			c := kit.Everything(v)
			e := c[x.Choose(len(c))]
			l := append([]layout{}, ls...)
			for n := 1; n < r.N(34, 140); n++ {
				l = append(l, padded(n%3, n, byte(n)))
			}
			check(x, e, e.Args, l, "its own arguments")
			x.Log("%s in %d layouts", e.Label, len(l))
		})
		// failing paths and degenerate values
		r.Explore("degenerate arguments", func(x *mc.X) {
			e := cat[x.Choose(len(cat))]
			if len(e.Args) == 0 {
				return
			}
			i := x.Choose(len(e.Args))
			d := kit.Degenerate(e, i)
			v := d[x.Choose(len(d))]
			if !r.Thorough() && len(v.V) > 70000 {
				return
			}
			a := append([][]byte{}, e.Args...)
			a[i] = v.V
			l := ls
			if !r.Thorough() {
				l = ls[1:4:4]
			}
			check(x, e, a, l, e.Names[i]+" = "+v.Name)
		})
		// one buffer passed for several arguments
		r.Explore("repeated arguments", func(x *mc.X) {
			e := cat[x.Choose(len(cat))]
			if len(e.Args) < 2 {
				return
			}
			i := x.Choose(len(e.Args))
			a := append([][]byte{}, e.Args...)
			for j := range a {
				if j != i && len(a[i]) > 0 && x.Bool() {
					a[j] = a[i]
					if n := len(e.Args[j]); n < len(a[i]) && n > 0 {
						a[j] = a[i][:n]
					}
				}
			}
			check(x, e, a, []layout{shared, packed(false)}, fmt.Sprintf("several arguments from %s", e.Names[i]))
		})
		lengths := []int{0, 1, 3, 31, 32, 33, 55, 56, 57, 63, 64, 65, 71, 72, 73, 111, 112, 113, 119, 120, 127, 128, 129, 135, 136, 137, 143, 144, 145, 199, 200, 201, 255, 256, 257, 1000}
		r.Explore("data lengths", func(x *mc.X) {
			e := cat[x.Choose(len(cat))]
			for i, nm := range e.Names {
				ok := nm == "data" || nm == "key" || nm == "plain" || nm == "uid" || nm == "ID" && e.Family == "SM2" || (nm == "IDinitiator" || nm == "IDresponder") || nm == "message" && len(e.Args[0]) != 64 && kit.Weier(e.Code) == nil
				if !ok {
					continue
				}
				for _, n := range lengths {
					a := append([][]byte{}, e.Args...)
					a[i] = kit.Stream(nm, n)
					check(x, e, a, []layout{ls[0], ls[2]}, fmt.Sprintf("%s of %d bytes", nm, n))
				}
			}
		})
		// overwriting the results of one entry leaves every other entry alone
		want := make([]string, len(cat))
		r.Explore("expected results", func(x *mc.X) {
			i := x.Choose(len(cat))
			want[i] = call(x, cat[i], clones(cat[i].Args)).String()
		})
		r.Explore("results overwritten before other calls", func(x *mc.X) {
			i := x.Choose(len(cat))
			o := call(x, cat[i], clones(cat[i].Args))
			for _, b := range o.B {
				trash(b)
			}
			for j := range cat {
				if got := call(x, cat[j], clones(cat[j].Args)).String(); want[j] != "" && got != want[j] {
					x.Fail("result-is-state/"+cat[i].Name, "%s after the result of %s was overwritten: got %s, want %s", cat[j].Label, cat[i].Label, got, want[j])
				}
			}
			x.State("overwritten", cat[i].Label)
		})
		r.Explore("hash digests of every length", func(x *mc.X) {
			e := cat[x.Choose(len(cat))]
			if e.Name != "Hash" {
				return
			}
			for n := 0; n < 70; n++ {
				f := e
				f.N = n
				for _, d := range []int{0, 50, 64, 128} {
					check(x, f, [][]byte{kit.Stream("d", d+n)}, ls[1:3], fmt.Sprintf("digest length %d", n))
				}
			}
		})
		r.Explore("key agreement lengths", func(x *mc.X) {
			e := cat[x.Choose(len(cat))]
			if e.N < 0 || e.Name == "Hash" {
				return
			}
			e.N = []int{0, 1, 16, 31, 32, 33, 48, 64, 65, 96, 97, 100, 1000}[x.Choose(13)]
			check(x, e, e.Args, ls, fmt.Sprintf("key length %d", e.N))
		})
		// the key structure given to ZA
		r.Explore("ZA", func(x *mc.X) {
			v := []*big.Int{big.NewInt(0), big.NewInt(5), ref.SM2.Gx, new(big.Int).Lsh(big.NewInt(1), 255), new(big.Int).Lsh(big.NewInt(1), 300), big.NewInt(-7)}
			a, b := v[x.Choose(len(v))], v[x.Choose(len(v))]
			p := &ecdsa.PublicKey{X: new(big.Int).Set(a), Y: new(big.Int).Set(b)}
			px, py := p.X, p.Y
			var z []byte
			x.Call("ZA", func() { z, _ = owcrypt.ZA(p, []byte("id")) })
			if p.X != px || p.Y != py || px.Cmp(a) != 0 || py.Cmp(b) != 0 || p.Curve != nil {
				x.Fail("writes-argument/ZA", "ZA changes the public key %x, %x to %x, %x", a, b, p.X, p.Y)
			}
			w := string(z)
			trash(z)
			var z2 []byte
			x.Call("ZA", func() { z2, _ = owcrypt.ZA(p, []byte("id")) })
			if string(z2) != w {
				x.Fail("result-is-state/ZA", "ZA gives %x, then %x", w, z2)
			}
			x.State(z2)
		})
		objects(r)
		r.Note("%d entries; the memory of every argument is compared over its whole backing array", len(cat))
	})
}
