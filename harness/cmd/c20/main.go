// C20: results do not depend on the history of calls.
//
// Every execution runs a sequence of calls in a process of its own, and every
// call of the sequence must return what it returns as the first call of a
// fresh process.
package main

import (
	"bytes"
	"crypto/rand"
	"encoding/gob"
	"fmt"
	"os"
	"os/exec"
	"runtime/debug"
	"strings"
	"sync"
	"time"
	"verifharness/kit"
	"verifharness/mc"
)

// op is one call. Nil arguments are marked, because gob does not keep them.
type op struct {
	Entry int
	Args  [][]byte
	Nil   []bool
	Code  uint32
	N     int
	Name  string
}

type job struct {
	Ops []op
	Seq []int
}

type result struct{ Out []string }

var skeleton []kit.Entry

func mk(entry int, args [][]byte, code uint32, n int, f string, a ...any) op {
	o := op{Entry: entry, Code: code, N: n, Name: fmt.Sprintf(f, a...)}
	for _, b := range args {
		o.Args = append(o.Args, b)
		o.Nil = append(o.Nil, b == nil)
	}
	return o
}

// child runs a job read from stdin.
func child() {
	debug.SetGCPercent(400)
	var j job
	if err := gob.NewDecoder(os.Stdin).Decode(&j); err != nil {
		panic("mc: " + err.Error())
	}
	skeleton = kit.Everything(-1)
	var res result
	src := &mc.Script{}
	rand.Reader = src
	for _, i := range j.Seq {
		o := j.Ops[i]
		var args [][]byte
		for k := range o.Args {
			if o.Nil[k] {
				args = append(args, nil)
			} else {
				args = append(args, append(make([]byte, 0, len(o.Args[k])), o.Args[k]...))
			}
		}
		*src = mc.Script{}
		var s string
		func() {
			defer func() {
				if e := recover(); e != nil {
					s = fmt.Sprint("panic: ", e)
				}
			}()
			s = skeleton[o.Entry].Run(args, o.Code, o.N).String()
		}()
		res.Out = append(res.Out, fmt.Sprintf("%s drawn=%d", s, src.Drawn))
	}
	if err := gob.NewEncoder(os.Stdout).Encode(&res); err != nil {
		panic("mc: " + err.Error())
	}
	os.Exit(0)
}

// run runs the sequence in a new process and returns the results.
func run(x *mc.X, ops []op, seq []int, what string) []string {
	var in, out, errb bytes.Buffer
	if err := gob.NewEncoder(&in).Encode(job{ops, seq}); err != nil {
		panic("mc: " + err.Error())
	}
	c := exec.Command(os.Args[0], "child")
	c.Env = append(os.Environ(), "GOMAXPROCS=1", "REF_SKIP_SELFTEST=1")
	c.Stdin, c.Stdout, c.Stderr = &in, &out, &errb
	var err error
	x.Call(what, func() { err = c.Run() })
	for i := 1; i < len(seq); i++ {
		x.Step()
	}
	var r result
	if err == nil {
		err = gob.NewDecoder(&out).Decode(&r)
	}
	if err != nil || len(r.Out) != len(seq) {
		m := errb.String()
		if len(m) > 1500 {
			m = m[:1500]
		}
		if strings.Contains(m, "mc: ") || m == "" {
			fmt.Fprintf(os.Stderr, "mc: child failed: %v %s\n", err, m)
			os.Exit(3)
		}
		x.Fail("crash", "the process running %s ended: %v\n%s", what, err, m)
	}
	return r.Out
}

func main() {
	if len(os.Args) > 1 && os.Args[1] == "child" {
		child()
	}
	mc.Main("C20", 300*time.Second, 850*time.Second, func(r *mc.Run) {
		v0, v1 := kit.Everything(0), kit.Everything(1)
		var ops []op
		valid := len(v0)
		for i, e := range v0 {
			ops = append(ops, mk(i, e.Args, e.Code, e.N, "%s", e.Label))
		}
		for i, e := range v1 {
			ops = append(ops, mk(i, e.Args, e.Code, e.N, "%s (other arguments)", e.Label))
		}
		// degenerate and failing calls
		per := r.N(3, 16)
		for i, e := range v0 {
			for a := range e.Args {
				d := kit.Degenerate(e, a)[1:]
				for k := 0; k < per; k++ {
					v := d[(k*len(d)/per+7*a+i)%len(d)]
					if len(v.V) > 20000 {
						continue
					}
					args := append([][]byte{}, e.Args...)
					args[a] = v.V
					ops = append(ops, mk(i, args, e.Code, e.N, "%s with %s = %s", e.Label, e.Names[a], v.Name))
				}
			}
			if e.Coded {
				ops = append(ops, mk(i, e.Args, 0xECC000FF, e.N, "%s with an unknown code", e.Label))
			}
			if e.N >= 0 {
				for _, n := range []int{0, 1, 33, 64, 65, 1000} {
					ops = append(ops, mk(i, e.Args, e.Code, n, "%s with length %d", e.Label, n))
				}
			}
		}
		var memo sync.Map
		fresh := func(x *mc.X, i int) string {
			if v, ok := memo.Load(i); ok {
				return v.(string)
			}
			s := run(x, ops[i:i+1], []int{0}, ops[i].Name)[0]
			memo.Store(i, s)
			return s
		}
		r.Explore("every call in a fresh process", func(x *mc.X) {
			i := x.Choose(len(ops))
			a := fresh(x, i)
			x.State(ops[i].Name, a)
			if i < valid || r.Thorough() {
				if b := run(x, ops[i:i+1], []int{0}, ops[i].Name)[0]; a != b {
					x.Fail("undetermined/"+v0[ops[i].Entry].Name, "%s gives %s in one fresh process and %s in another", ops[i].Name, a, b)
				}
			}
		})
		// check runs a sequence of ops and compares every result
		check := func(x *mc.X, seq []int, key string) {
			want := make([]string, len(seq))
			for k, i := range seq {
				want[k] = fresh(x, i)
			}
			got := run(x, ops, seq, "a sequence of calls")
			for k, i := range seq {
				if got[k] != want[k] {
					h := ""
					for _, p := range seq[max(0, k-3):k] {
						h += ops[p].Name + "; "
					}
					for _, p := range seq[:k+1] {
						x.Log("%s", ops[p].Name)
					}
					x.Fail(key+"/"+v0[ops[i].Entry].Name, "%s after %d calls, the last of which are %s: got %s, in a fresh process %s", ops[i].Name, k, h, got[k], want[k])
				}
			}
			x.State(fmt.Sprint(seq))
		}
		// every ordered pair: p directly before s, for all s
		r.Explore("ordered pairs", func(x *mc.X) {
			p := x.Choose(len(ops))
			pe := v0[ops[p].Entry]
			var seq []int
			for s := 0; s < valid; s++ {
				se := v0[s]
				if !r.Thorough() && p >= valid && se.Family != pe.Family && se.Name != pe.Name && (s+p)%24 != 0 {
					continue
				}
				seq = append(seq, p, s)
			}
			seq = append(seq, p, p)
			check(x, seq, "history")
			x.Log("%s before %d others", ops[p].Name, len(seq)/2)
		})
		r.Explore("a valid call, then a failing one", func(x *mc.X) {
			p := x.Choose(valid)
			var seq []int
			for s := valid; s < len(ops); s++ {
				pe, se := v0[p], v0[ops[s].Entry]
				if !r.Thorough() && (se.Family != pe.Family || se.Name != pe.Name && (s+p)%4 != 0) {
					continue
				}
				seq = append(seq, p, s)
			}
			check(x, seq, "history")
		})
		// calls of one function that share some of their arguments: the two
		// sets of arguments mixed in every way
		vn := kit.Everything(1000) // the negated keys
		mixes := func(i int, v []kit.Entry) (l []op) {
			e, f := v0[i], v[i]
			k := len(e.Args)
			for m := 0; m < 1<<k; m++ {
				n := 0
				args := make([][]byte, k)
				for a := range args {
					args[a] = e.Args[a]
					if m>>a&1 == 1 {
						args[a] = f.Args[a]
						n++
					}
				}
				if k > 4 && n > 1 && n < k-1 {
					continue
				}
				l = append(l, mk(i, args, e.Code, e.N, "%s with the arguments %b of the other set", e.Label, m))
			}
			return
		}
		// two orders of the same calls give the same results
		orders := func(x *mc.X, l []op, what string, seqs ...[]int) {
			res := map[int]string{}
			at := map[int]string{}
			for q, seq := range seqs {
				for k, s := range run(x, l, seq, what) {
					i := seq[k]
					if w, ok := res[i]; ok && w != s {
						x.Fail("history/"+v0[l[i].Entry].Name, "%s gives %s as call %d of order %d, and %s as %s", l[i].Name, s, k, q, w, at[i])
					} else if !ok {
						res[i], at[i] = s, fmt.Sprintf("call %d of order %d", k, q)
					}
				}
			}
			for i := range l {
				x.State(l[i].Name, res[i])
			}
		}
		pairs := func(n int) (a, b []int) {
			for i := 0; i < n; i++ {
				for j := 0; j < n; j++ {
					a = append(a, i, j)
				}
			}
			for i := range a {
				b = append(b, a[len(a)-1-i])
			}
			return
		}
		r.Explore("shared arguments", func(x *mc.X) {
			i := x.Choose(len(v0))
			if len(v0[i].Args) == 0 {
				return
			}
			l := mixes(i, v1)
			if x.Bool() {
				l = mixes(i, vn)
			}
			a, b := pairs(len(l))
			seqs := [][]int{a}
			for j := range l {
				seqs = append(seqs, []int{j})
			}
			if len(l) > 16 && !r.Thorough() {
				// adjacent pairs only: own, mix, own, ...
				a = nil
				for j := range l {
					a = append(a, 0, j, len(l)-1, j)
				}
				seqs = [][]int{a, {0}, {len(l) - 1}}
				for j := 1; j < len(l); j += 3 {
					seqs = append(seqs, []int{j})
				}
			}
			if r.Thorough() {
				seqs = append(seqs, b)
			}
			orders(x, l, v0[i].Label, seqs...)
		})
		// the same arguments under different codes and functions
		r.Explore("same arguments under other codes", func(x *mc.X) {
			i := x.Choose(len(v0))
			e := v0[i]
			if !e.Coded || len(e.Args) == 0 || e.Name == "Hash" && i > 0 || e.Name == "Hmac" && e.Code != kit.HmacCodes[0] {
				return
			}
			codes := kit.CurveCodes
			switch e.Name {
			case "Hash":
				codes = kit.HashCodes
			case "Hmac":
				codes = kit.HmacCodes
			}
			var l []op
			for _, c := range codes {
				l = append(l, mk(i, e.Args, c, e.N, "%s with the code %#x", e.Label, c))
			}
			a, b := pairs(len(l))
			seqs := [][]int{a, b}
			for j := range l {
				if r.Thorough() || (i+j)%5 == 0 {
					seqs = append(seqs, []int{j})
				}
			}
			orders(x, l, e.Label, seqs...)
		})
		// arguments that differ in one byte
		r.Explore("arguments that differ in one byte", func(x *mc.X) {
			i := x.Choose(len(v0))
			e := v0[i]
			if len(e.Args) == 0 {
				return
			}
			a := x.Choose(len(e.Args))
			l := []op{mk(i, e.Args, e.Code, e.N, "%s", e.Label)}
			n := len(e.Args[a])
			step := max(1, n/r.N(17, 150))
			for j := 0; j < n; j += step {
				args := append([][]byte{}, e.Args...)
				args[a] = kit.Flip(args[a], 8*j+j%8)
				l = append(l, mk(i, args, e.Code, e.N, "%s with byte %d of %s changed", e.Label, j, e.Names[a]))
			}
			args := append([][]byte{}, e.Args...)
			args[a] = append(kit.Clone(args[a]), 0)
			l = append(l, mk(i, args, e.Code, e.N, "%s with %s longer", e.Label, e.Names[a]))
			if n > 0 {
				args = append([][]byte{}, e.Args...)
				args[a] = kit.Clone(e.Args[a][:n-1])
				l = append(l, mk(i, args, e.Code, e.N, "%s with %s shorter", e.Label, e.Names[a]))
			}
			var f, b []int
			for j := range l {
				f = append(f, 0, j)
			}
			for j := range l {
				b = append(b, len(l)-1-j)
			}
			orders(x, l, e.Label, f, b)
		})
		r.Explore("repetition", func(x *mc.X) {
			i := x.Choose(len(v0))
			n := r.N(70, 600)
			if len(v0[i].Args) > 4 || v0[i].Name == "RecoverPubkey" {
				n /= 2
			}
			if v0[i].Name == "Hash" || v0[i].Name == "Hmac" || v0[i].Name == "GetCurveOrder" || v0[i].Name == "Point_add" || v0[i].Name == "Add" {
				n = 3000
			}
			check(x, make1(n, i), "repetition")
		})
		// one function with many arguments, so that whatever keeps results for
		// later calls fills up, wraps around or collides
		var fill sync.Once
		var rows [][]kit.Entry
		r.Explore("many arguments", func(x *mc.X) {
			fill.Do(func() {
				rows = make([][]kit.Entry, r.N(140, 700))
				var wg sync.WaitGroup
				for w := 0; w < 8; w++ {
					wg.Add(1)
					go func(w int) {
						defer wg.Done()
						for v := w; v < len(rows); v += 8 {
							rows[v] = kit.Everything(v)
						}
					}(w)
				}
				wg.Wait()
			})
			i := x.Choose(len(v0))
			if len(v0[i].Args) == 0 {
				return
			}
			var l []op
			for v, row := range rows {
				l = append(l, mk(i, row[i].Args, row[i].Code, row[i].N, "%s with arguments %d", v0[i].Label, v))
			}
			var f, b []int
			for again := 0; again < 2; again++ {
				for j := range l {
					f = append(f, j)
					b = append(b, len(l)-1-j)
				}
			}
			orders(x, l, v0[i].Label, f, b)
		})
		// one argument of one function with many more values
		r.Explore("many values", func(x *mc.X) {
			e := v0[x.Choose(len(v0))]
			var ks []int
			for k, nm := range e.Names {
				switch {
				case k >= len(e.Args) || len(e.Args[k]) < 3:
				case strings.HasPrefix(nm, "prikey"), strings.HasPrefix(nm, "ID"), nm == "data", nm == "scalar", nm == "message", nm == "key", nm == "plain", nm == "uid", nm == "salt":
					ks = append(ks, k)
				}
			}
			if len(ks) == 0 {
				return
			}
			k := ks[x.Choose(len(ks))]
			n := r.N(300, 1500)
			if e.Family == "hash" || strings.HasPrefix(e.Family, "0x") {
				n *= 10
			}
			i := 0
			for v0[i].Label != e.Label {
				i++
			}
			var l []op
			var f, b []int
			for v := 0; v < n; v++ {
				a := append([][]byte{}, e.Args...)
				a[k] = append([]byte{}, a[k]...)
				m := len(a[k]) / 2
				a[k][m] ^= byte(v)
				a[k][m+1] ^= byte(v >> 8)
				l = append(l, mk(i, a, e.Code, e.N, "%s with %s %d", e.Label, e.Names[k], v))
				f = append(f, v)
				b = append(b, n-1-v)
			}
			orders(x, l, e.Label, append(f, f...), b)
		})
		r.Explore("rotations of all calls", func(x *mc.X) {
			k := x.Choose(valid) * 7
			step := []int{1, 5, 11, 59}[x.Choose(r.N(1, 4))]
			var seq []int
			for j := 0; j < valid; j++ {
				seq = append(seq, (k+j*step)%valid)
			}
			if k%3 != 0 && !r.Thorough() {
				return
			}
			check(x, seq, "history")
		})
		if r.Thorough() {
			// triples of calls that use one algorithm
			r.Explore("ordered triples", func(x *mc.X) {
				p := x.Choose(valid)
				q := x.Choose(valid)
				if v0[p].Family != v0[q].Family {
					return
				}
				var seq []int
				for s := 0; s < valid; s++ {
					if v0[s].Family == v0[p].Family {
						seq = append(seq, p, q, s)
					}
				}
				check(x, seq, "history")
			})
		}
		r.Extra("calls", len(ops))
		r.Note("%d calls: %d well-formed ones, the others with other, degenerate or malformed arguments; every sequence runs in a process of its own with a fixed entropy stream per call", len(ops), valid)
	})
}

func make1(n, i int) []int {
	l := make([]int, n)
	for j := range l {
		l[j] = i
	}
	return l
}
