// C18: no input makes an entry point panic or hang.
package main

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"fmt"
	"math/big"
	"strings"
	"time"
	"verifharness/kit"
	"verifharness/mc"

	owcrypt "github.com/blocktree/go-owcrypt"
)

func call(x *mc.X, e kit.Entry, a [][]byte, code uint32, n int, f string, args ...any) {
	var o kit.Out
	if p := x.Try(e.Label, func() { o = e.Run(a, code, n) }); p != "" {
		x.Log("%s", fmt.Sprintf(f, args...))
		for i, b := range a {
			if i < len(e.Names) {
				x.Log("  %s = %s", e.Names[i], mc.Hex(b))
			}
		}
		x.Fail("panic/"+e.Name, "%s panics with %s (code %#x, n %d): %s", e.Label, fmt.Sprintf(f, args...), code, n, p)
	}
	x.State(e.Label, code, n, o.Ret, o.Inf, o.V, o.Err, len(o.B) > 0 && o.B[0] != nil, fmt.Sprintf(f, args...))
}

func with(a [][]byte, i int, v []byte) [][]byte {
	b := append([][]byte{}, a...)
	b[i] = v
	return b
}

func main() {
	mc.HangLimit = 60 * time.Second
	mc.Main("C18", 150*time.Second, 850*time.Second, func(r *mc.Run) {
		cat := kit.Catalogue(0)
		slow := func(e kit.Entry) bool { return strings.HasPrefix(e.Family, "BLS") }
		pick := func(x *mc.X) (kit.Entry, int) {
			e := cat[x.Choose(len(cat))]
			if len(e.Args) == 0 {
				return e, -1
			}
			return e, x.Choose(len(e.Args))
		}
		// every argument at every length and filling
		r.Explore("lengths", func(x *mc.X) {
			e, i := pick(x)
			if i < 0 {
				return
			}
			own := e.Args[i]
			if len(own) == 0 {
				own = []byte{1}
			}
			fill := []int{0, 1, 2, 6, 3, 4, 5}[x.Choose(r.N(4, 7))]
			ns := []int{}
			for n := 0; n <= len(own)+r.N(70, 400) || n <= 160; n++ {
				ns = append(ns, n)
			}
			for _, n := range []int{127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 8190, 8191, 8192, 8193, 16384, 32767, 32768, 65535, 65536, 65537, 131072} {
				if n > ns[len(ns)-1] {
					ns = append(ns, n)
				}
			}
			if r.Thorough() {
				ns = append(ns, 1<<20, 1<<20+1, 1<<22)
			}
			call(x, e, with(e.Args, i, nil), e.Code, e.N, "%s nil", e.Names[i])
			linear := e.Names[i] == "scalar" && !e.Coded // time proportional to the length
			for _, n := range ns {
				if linear && n > r.N(520, 4100) {
					break
				}
				var b []byte
				switch fill {
				case 0:
					b = make([]byte, n)
				case 1:
					b = kit.Fill(n, 0xff)
				case 2: // own bytes, then zeros
					b = make([]byte, n)
					copy(b, own)
				case 3: // own bytes repeated
					b = make([]byte, n)
					for j := range b {
						b[j] = own[j%len(own)]
					}
				case 4, 5, 6: // point headers
					b = make([]byte, n)
					copy(b[min(1, n):], own)
					if n > 0 {
						b[0] = byte(fill - 2)
					}
				}
				call(x, e, with(e.Args, i, b), e.Code, e.N, "%s of %d bytes, filling %d", e.Names[i], n, fill)
			}
		})
		r.Explore("one byte changed", func(x *mc.X) {
			e, i := pick(x)
			if i < 0 {
				return
			}
			own := e.Args[i]
			for j := range own {
				if !r.Thorough() && len(own) > 200 && j%9 != 0 {
					continue
				}
				vals := []byte{0, 1, 0x7f, 0x80, 0xff, own[j] ^ 1, own[j] ^ 0x80, own[j] + 1, own[j] - 1}
				if j == 0 || j == len(own)-1 || j == 31 || j == 32 || j == 64 || r.Thorough() && !slow(e) {
					vals = nil
					for v := 0; v < 256; v++ {
						vals = append(vals, byte(v))
					}
				}
				if slow(e) && !r.Thorough() && j != 0 {
					vals = vals[:5]
				}
				for _, v := range vals {
					b := kit.Clone(own)
					b[j] = v
					call(x, e, with(e.Args, i, b), e.Code, e.N, "byte %d of %s set to %#x", j, e.Names[i], v)
				}
			}
		})
		// degenerate values in every pair of arguments
		r.Explore("degenerate values", func(x *mc.X) {
			e, i := pick(x)
			if i < 0 {
				return
			}
			l := kit.Degenerate(e, i)
			v := l[x.Choose(len(l))]
			a := with(e.Args, i, v.V)
			call(x, e, a, e.Code, e.N, "%s = %s", e.Names[i], v.Name)
			for j := i + 1; j < len(e.Args); j++ {
				m := kit.Degenerate(e, j)
				for k, w := range m {
					if !r.Thorough() && (len(l)*len(m) > 3000 && (k+len(v.Name))%4 != 0 || slow(e) && (k+len(v.Name))%8 != 0) {
						continue
					}
					call(x, e, with(a, j, w.V), e.Code, e.N, "%s = %s, %s = %s", e.Names[i], v.Name, e.Names[j], w.Name)
				}
			}
		})
		// all arguments of one kind or another at once
		r.Explore("all arguments", func(x *mc.X) {
			e := cat[x.Choose(len(cat))]
			k := 6
			if len(e.Args) > 4 {
				k = 3
			}
			if len(e.Args) > 7 && !r.Thorough() {
				k = 2
			}
			if len(e.Args) == 0 {
				return
			}
			a := make([][]byte, len(e.Args))
			var rec func(i int, s string)
			rec = func(i int, s string) {
				if i == len(a) {
					call(x, e, a, e.Code, e.N, "the arguments %s", s)
					return
				}
				for c := 0; c < k; c++ {
					own := e.Args[i]
					a[i] = [][]byte{nil, own, kit.Fill(len(own), 0xff), make([]byte, len(own)), {}, own[: len(own)/2 : len(own)/2]}[c]
					rec(i+1, s+[]string{"nil ", "own ", "ff ", "zero ", "empty ", "half "}[c])
				}
			}
			c := x.Choose(k)
			own := e.Args[0]
			a[0] = [][]byte{nil, own, kit.Fill(len(own), 0xff), make([]byte, len(own)), {}, own[: len(own)/2 : len(own)/2]}[c]
			rec(1, []string{"nil ", "own ", "ff ", "zero ", "empty ", "half "}[c])
		})
		// every code with the arguments of every other code
		codes := append(append(append([]uint32{}, kit.HashCodes...), kit.HmacCodes...), kit.CurveCodes...)
		codes = append(codes, 0, 1, 2, 3, 0xff, 0xffff, 0x7fffffff, 0x80000000, 0xffffffff, 0xECC00000-1, 0xECC00000+10, 0xECC00000+16, 0xECC10000, 0xA0000000-1, 0xA0000014, 0x50505050-1, 0x50505054)
		r.Explore("codes", func(x *mc.X) {
			e := cat[x.Choose(len(cat))]
			if !e.Coded {
				return
			}
			all := codes
			for i := 0; i < 32; i++ {
				all = append(all[:len(all):len(all)], e.Code^1<<i)
			}
			for _, c := range all {
				call(x, e, e.Args, c, e.N, "the code %#x", c)
				for i := range e.Args {
					call(x, e, with(e.Args, i, nil), c, e.N, "the code %#x and %s nil", c, e.Names[i])
					call(x, e, with(e.Args, i, []byte{}), c, e.N, "the code %#x and %s empty", c, e.Names[i])
				}
			}
		})
		// arguments that belong to other codes, mixed
		r.Explore("foreign arguments", func(x *mc.X) {
			var names []string
			by := map[string][]kit.Entry{}
			for _, e := range cat {
				if e.Coded && e.Name != "Hash" && e.Name != "Hmac" && len(e.Args) > 0 && !strings.HasPrefix(e.Name, "KeyAgreement") {
					if by[e.Name] == nil {
						names = append(names, e.Name)
					}
					by[e.Name] = append(by[e.Name], e)
				}
			}
			l := by[names[x.Choose(len(names))]]
			e := l[x.Choose(len(l))]
			k := len(e.Args)
			a := make([][]byte, k)
			var rec func(i int)
			rec = func(i int) {
				if i == k {
					call(x, e, a, e.Code, e.N, "foreign arguments")
					return
				}
				seen := map[int]int{}
				for _, f := range l {
					if i >= len(f.Args) {
						continue
					}
					n := len(f.Args[i])
					if seen[n]++; !r.Thorough() && k > 2 && seen[n] > 2 {
						continue
					}
					a[i] = f.Args[i]
					rec(i + 1)
				}
			}
			rec(0)
		})
		ends := kit.Lengths(100, 65535)
		for i := 0; i < 66; i++ {
			ends = append(ends, 65535-i)
		}
		r.Explore("lengths asked for", func(x *mc.X) {
			e := cat[x.Choose(len(cat))]
			if e.N < 0 {
				return
			}
			part := x.Choose(16)
			step := 1
			if e.Name != "Hash" {
				step = r.N(257, 17)
			}
			for n := part * 4096; n < (part+1)*4096; n += step {
				call(x, e, e.Args, e.Code, n, "the length %d", n)
				if e.Name == "Hash" && n < 300 {
					call(x, e, [][]byte{nil}, e.Code, n, "no data and the length %d", n)
				}
			}
			if e.Name != "Hash" && part == 0 {
				for n := 0; n < r.N(100, 300); n++ {
					call(x, e, e.Args, e.Code, n, "the length %d", n)
				}
			}
			if e.Name != "Hash" {
				for i, n := range ends {
					if i%16 == part {
						call(x, e, e.Args, e.Code, n, "the length %d", n)
					}
				}
			}
		})
		mina := kit.Catalogue(0)
		var sign, verify kit.Entry
		for _, e := range mina {
			if e.Code == owcrypt.ECC_CURVE_PASTA && e.Name == "Signature" {
				sign = e
			}
			if e.Code == owcrypt.ECC_CURVE_PASTA && e.Name == "Verify" {
				verify = e
			}
		}
		both := func(x *mc.X, m []byte, f string, a ...any) {
			call(x, sign, with(sign.Args, 2, m), sign.Code, -1, f, a...)
			if r.Thorough() {
				call(x, verify, with(verify.Args, 2, m), verify.Code, -1, f, a...)
			}
		}
		r.Explore("Mina messages, damaged", func(x *mc.X) {
			m := sign.Args[2]
			part, parts := x.Choose(32), 32
			for i := part; i < len(m); i += parts * r.N(2, 1) {
				both(x, m[:i:i], "the message cut at %d", i)
				both(x, kit.Cat(m[:i], m[i+1:]), "byte %d of the message left out", i)
				chars := "{}[],:\"-e.0 \x00n\\\xff"
				if !r.Thorough() {
					chars = "{}[],:\"-\x00"
				}
				for k, c := range []byte(chars) {
					if !r.Thorough() && (k+i)%3 != 0 {
						continue
					}
					b := kit.Clone(m)
					b[i] = c
					both(x, b, "byte %d of the message set to %q", i, c)
				}
			}
		})
		r.Explore("Mina messages, shapes", func(x *mc.X) {
			big := "18446744073709551616"
			vals := []string{"", "null", "[]", "[[]]", "[null]", "[[1]]", "[[1,2,3,4,5]]", "[[1,2,3,4],[1,2,3,4],[1,2,3,4]]", "[[1,2,3,4],[1,2,3,4],[1,2,3,4],[1,2,3,4]]", "[[-1,0,0,0]]", "[[" + big + ",0,0,0]]", "[[1e999,0,0,0]]", "[[1.5,0,0,0]]",
				"[[18446744073709551615,18446744073709551615,18446744073709551615,18446744073709551615]]", `"x"`, "{}", "5", "true", "[" + strings.Repeat("[1,2,3,4],", r.N(300, 5000)) + "[1,2,3,4]]", "[[[[[1]]]]]", "[[1,2,3,4],null,[]]", strings.Repeat("[", 20000), strings.Repeat("[", 9000) + strings.Repeat("]", 9000)}
			p := []string{vals[x.Choose(len(vals))], vals[x.Choose(len(vals))]}
			for k, v := range vals {
				if !r.Thorough() && (k+len(p[0])+len(p[1]))%3 != 0 {
					continue
				}
				var f []string
				for i, n := range []string{"transactionPrefix", "transactionSuffix", "spongeIV"} {
					if s := append(p, v)[i]; s != "" {
						f = append(f, `"`+n+`":`+s)
					}
				}
				m := "{" + strings.Join(f, ",") + "}"
				if len(m) < 300 {
					x.Log("%s", m)
				}
				both(x, []byte(m), "the message %.200s", m)
			}
		})
		r.Explore("ZA", func(x *mc.X) {
			v := []*big.Int{nil, big.NewInt(0), big.NewInt(1), big.NewInt(-1), new(big.Int).Lsh(big.NewInt(1), 255), new(big.Int).Lsh(big.NewInt(1), 256), new(big.Int).Lsh(big.NewInt(-1), 256), new(big.Int).Lsh(big.NewInt(1), 4096)}
			p := &ecdsa.PublicKey{X: v[x.Choose(len(v))], Y: v[x.Choose(len(v))]}
			switch x.Choose(3) {
			case 1:
				p.Curve = elliptic.P256()
			case 2:
				p = nil
			}
			n := []int{-1, 0, 1, 8191, 8192, 65536}[x.Choose(6)]
			var id []byte
			if n >= 0 {
				id = make([]byte, n)
			}
			x.Call("ZA", func() { owcrypt.ZA(p, id) })
			x.State("ZA", n)
		})
		r.Explore("curve names", func(x *mc.X) {
			n := []string{"", "secp256k1", "secp256r1", "sm2_std", "SM2", "secp256k1\x00", "ed25519", "pasta", strings.Repeat("a", 100000)}[x.Choose(9)]
			vals := [][]byte{nil, {}, make([]byte, 32), make([]byte, 64), make([]byte, 65), kit.Fill(33, 2), kit.Fill(64, 0xff), cat[0].Args[0]}
			a, b := vals[x.Choose(len(vals))], vals[x.Choose(len(vals))]
			x.Call("Add", func() { owcrypt.Add(a, b, n) })
			x.Call("Mul", func() { owcrypt.Mul(a, b, n) })
			x.Call("MulBaseG_Add", func() { owcrypt.MulBaseG_Add(a, b, n) })
			x.State(n, a, b)
		})
		r.Explore("aggregates", func(x *mc.X) {
			code := []uint32{kit.CurveCodes[7], kit.CurveCodes[8], kit.CurveCodes[0], 0}[x.Choose(4)]
			var e kit.Entry
			for _, f := range cat {
				if f.Name == "AggregateSignatures" && f.Code == kit.CurveCodes[7] {
					e = f
				}
			}
			if x.Bool() {
				x.Call("AggregateSignatures", func() { owcrypt.AggregateSignatures(code) })
				x.Call("AggregateSignatures", func() { owcrypt.AggregateSignatures(code, [][]byte(nil)...) })
				x.Call("AggregateSignatures", func() { owcrypt.AggregateSignatures(code, nil, nil, nil) })
				x.Call("AggregateSignatures", func() { owcrypt.AggregateSignatures(code, make([][]byte, 3000)...) })
				var l [][]byte
				for i := 0; i < r.N(50, 300); i++ {
					l = append(l, e.Args[i%2])
				}
				x.Call("AggregateSignatures", func() { owcrypt.AggregateSignatures(code, l...) })
				return
			}
			d := kit.Degenerate(e, 0)
			v := d[x.Choose(len(d))]
			call(x, e, [][]byte{v.V}, code, -1, "one signature %s", v.Name)
			call(x, e, [][]byte{v.V, v.V, e.Args[1]}, code, -1, "the signature %s twice", v.Name)
		})
		// large data
		r.Explore("large data", func(x *mc.X) {
			e, i := pick(x)
			if i < 0 {
				return
			}
			for _, n := range []int{4096, 10000, 1 << 16, 1<<18 - 1, 1 << 18, 1<<18 + 1, r.N(1<<20, 1<<23)} {
				if e.Names[i] == "scalar" && !e.Coded {
					n >>= 5
				}
				if (e.Family == "Pasta" || slow(e)) && n > 1<<18 {
					continue
				}
				call(x, e, with(e.Args, i, kit.Fill(n, 4)), e.Code, e.N, "%s of %d bytes", e.Names[i], n)
			}
		})
		r.Note("the randomness source yields a pseudorandom stream; sources that fail or repeat are in C22")
	})
}
