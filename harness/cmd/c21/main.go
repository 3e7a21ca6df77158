// C21: concurrent calls do not interfere.
//
// The same program is built several ways (see run.sh). The orchestrating
// process enumerates groups of calls and schedules; every execution runs in a
// child process under the scheduler of vsched, which lets exactly one thread
// run at a time and creates no happens-before edges of its own.
package main

import (
	"bytes"
	"crypto/rand"
	"encoding/gob"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"
	"verifharness/kit"
	"verifharness/mc"
	"verifharness/vsched"
)

// catalogue lists the operations, hash objects driven through their whole
// interface among them.
func catalogue(v int) []kit.Entry { return kit.Everything(v) }

// op is one call. Nil arguments are marked, because gob does not keep them.
type op struct {
	Entry int
	Args  [][]byte
	Nil   []bool
	Code  uint32
	N     int
	Name  string
}

type thread struct {
	Op    int // index into Ops
	Share int // thread whose argument slices it uses as well, or -1
}

type job struct {
	Ops     []op
	Threads []thread
	Post    []int // operations run one after the other when the threads have ended
	Cfg     vsched.Config
	DFS     bool     // explore every schedule within the bounds of Cfg
	Want    []string // then: the result every thread must give
	Seconds int
}

type result struct {
	Out    []string // of the threads, then of Post
	Rep    vsched.Report
	Runs   int  // schedules explored
	Capped bool // time ran out
	Bad    int  // then: thread with a wrong result, or -1
}

const maxThreads = 256

var scripts [maxThreads]*mc.Script

type reader struct{}

//go:norace
func pick() *mc.Script { return scripts[vsched.Thread()] }

func (reader) Read(p []byte) (int, error) { return pick().Read(p) }

func child() {
	debug.SetGCPercent(400)
	var j job
	if err := gob.NewDecoder(os.Stdin).Decode(&j); err != nil {
		panic("mc: " + err.Error())
	}
	skeleton := catalogue(-1)
	rand.Reader = reader{}
	once := func(cfg vsched.Config) ([]string, vsched.Report) {
		args := make([][][]byte, len(j.Threads)+len(j.Post))
		out := make([]string, len(j.Threads)+len(j.Post))
		var fns []func()
		all := append([]thread{}, j.Threads...)
		for _, p := range j.Post {
			all = append(all, thread{p, -1})
		}
		for t, th := range all {
			o := j.Ops[th.Op]
			if th.Share >= 0 {
				args[t] = args[th.Share]
			} else {
				for k := range o.Args {
					if o.Nil[k] {
						args[t] = append(args[t], nil)
					} else {
						args[t] = append(args[t], append(make([]byte, 0, len(o.Args[k])), o.Args[k]...))
					}
				}
			}
			scripts[t] = &mc.Script{}
			t := t
			fns = append(fns, func() {
				var s string
				func() {
					defer func() {
						if e := recover(); e != nil {
							s = fmt.Sprint("panic: ", e)
						}
					}()
					s = skeleton[o.Entry].Run(args[t], o.Code, o.N).String()
				}()
				out[t] = s
			})
		}
		k := len(j.Threads)
		rep := vsched.Run(fns[:k], cfg)
		if !rep.Deadlock {
			for t := k; t < len(fns); t++ {
				scripts[0] = scripts[t]
				fns[t]()
			}
		}
		return out, rep
	}
	var res result
	res.Bad = -1
	if !j.DFS {
		res.Out, res.Rep = once(j.Cfg)
		res.Runs = 1
	} else {
		stack := [][]int{nil}
		end := time.Now().Add(time.Duration(j.Seconds) * time.Second)
		for len(stack) > 0 && res.Bad < 0 {
			p := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			c := j.Cfg
			c.Prefix = p
			out, rep := once(c)
			res.Runs++
			res.Out, res.Rep = out, rep
			if rep.Deadlock {
				break
			}
			for t := range out {
				if out[t] != j.Want[t] {
					res.Bad = t
				}
			}
			for i := len(p); i < len(rep.Choices); i++ {
				for a := rep.Arity[i] - 1; a >= 1; a-- {
					stack = append(stack, append(append([]int{}, rep.Choices[:i]...), a))
				}
			}
			if time.Now().After(end) {
				res.Capped = len(stack) > 0
				break
			}
		}
	}
	if err := gob.NewEncoder(os.Stdout).Encode(&res); err != nil {
		panic("mc: " + err.Error())
	}
	os.Exit(0)
}

var bins = os.Getenv("C21_BINS")

func bin(name string) string { return filepath.Join(bins, name) }

func have(name string) bool { _, err := os.Stat(bin(name)); return err == nil }

// spawn runs a job in a child process built the given way.
func spawn(x *mc.X, build string, j job, what string) (r result) {
	var in, out, errb bytes.Buffer
	// only the operations the job uses
	idx := map[int]int{}
	var ops []op
	ths := append([]thread{}, j.Threads...)
	for i, t := range ths {
		if _, ok := idx[t.Op]; !ok {
			idx[t.Op] = len(ops)
			ops = append(ops, j.Ops[t.Op])
		}
		ths[i].Op = idx[t.Op]
	}
	post := append([]int{}, j.Post...)
	for i, t := range post {
		if _, ok := idx[t]; !ok {
			idx[t] = len(ops)
			ops = append(ops, j.Ops[t])
		}
		post[i] = idx[t]
	}
	full := j.Ops
	orig := j.Threads
	j.Ops, j.Threads, j.Post = ops, ths, post
	if err := gob.NewEncoder(&in).Encode(j); err != nil {
		panic("mc: " + err.Error())
	}
	c := exec.Command(bin(build), "child")
	c.Env = append(os.Environ(), "GOMAXPROCS=1", "REF_SKIP_SELFTEST=1", "GORACE=history_size=100000 atexit_sleep_ms=0")
	c.Stdin, c.Stdout, c.Stderr = &in, &out, &errb
	var err error
	t0 := time.Now()
	x.Call(what, func() { err = c.Run() })
	if os.Getenv("C21_TIME") != "" {
		fmt.Fprintf(os.Stderr, "%s %d threads: wall %v user %v sys %v\n", build, len(j.Threads), time.Since(t0), c.ProcessState.UserTime(), c.ProcessState.SystemTime())
	}
	for range j.Threads[1:] {
		x.Step()
	}
	m := errb.String()
	if i := strings.Index(m, "WARNING: DATA RACE"); i >= 0 {
		for _, t := range orig {
			x.Log("thread: %s", full[t.Op].Name)
		}
		m = m[i:]
		if len(m) > 6000 {
			m = m[:6000]
		}
		for _, l := range strings.Split(m, "\n") {
			x.Log("%s", l)
		}
		x.Fail("race/"+racer(m), "%s: unsynchronised accesses to shared memory: %s", what, strings.Join(frames(m), " / "))
	}
	if err == nil {
		err = gob.NewDecoder(&out).Decode(&r)
	}
	if err != nil {
		if len(m) > 1500 {
			m = m[:1500]
		}
		if strings.Contains(m, "mc: ") || m == "" {
			fmt.Fprintf(os.Stderr, "mc: child failed: %v %s\n", err, m)
			os.Exit(3)
		}
		x.Fail("crash", "%s: the process ended: %v\n%s", what, err, m)
	}
	return
}

// frames are the library functions a race report names.
func frames(m string) (l []string) {
	seen := map[string]bool{}
	for _, s := range strings.Split(m, "\n") {
		s = strings.TrimSpace(s)
		if strings.Contains(s, "/go-owcrypt") && strings.HasSuffix(s, ")") && !seen[s] && len(l) < 6 {
			seen[s] = true
			l = append(l, strings.TrimPrefix(s, "github.com/blocktree/"))
		}
	}
	return
}

func racer(m string) string {
	if f := frames(m); len(f) > 0 {
		return f[0]
	}
	return "?"
}

func main() {
	if len(os.Args) > 1 && os.Args[1] == "child" {
		child()
	}
	mc.Main("C21", 200*time.Second, 850*time.Second, func(r *mc.Run) {
		v0, v1 := catalogue(0), catalogue(1)
		var ops []op
		add := func(l []kit.Entry) {
			for i, e := range l {
				o := op{Entry: i, Code: e.Code, N: e.N, Name: e.Label}
				for _, b := range e.Args {
					o.Args = append(o.Args, b)
					o.Nil = append(o.Nil, b == nil)
				}
				ops = append(ops, o)
			}
		}
		add(v0)
		add(v1) // ops[n+i] is ops[i] with other arguments
		n := len(v0)
		sched := have("inst-race") && have("inst")
		if !sched {
			r.Note("the library could not be instrumented; schedules are explored at call granularity only")
		}
		var (
			mu        sync.Mutex
			syncing   = map[int]bool{}
			points    int
			schedules int
			cut       int
		)
		count := func(k int) { mu.Lock(); schedules += k; mu.Unlock() }
		var memo sync.Map
		alone := func(x *mc.X, i int) string {
			if v, ok := memo.Load(i); ok {
				return v.(string)
			}
			b := "race"
			if sched {
				b = "inst"
			}
			q := spawn(x, b, job{Ops: ops, Threads: []thread{{i, -1}}}, ops[i].Name)
			mu.Lock()
			points += q.Rep.Points
			if q.Rep.Syncs > 0 {
				syncing[i%n] = true
			}
			mu.Unlock()
			memo.Store(i, q.Out[0])
			return q.Out[0]
		}
		compare := func(x *mc.X, j job, q result, what string) {
			if q.Rep.Deadlock {
				x.Fail("deadlock", "%s: the calls wait for each other under schedule %v", what, q.Rep.Choices)
			}
			all := append([]thread{}, j.Threads...)
			for _, p := range j.Post {
				all = append(all, thread{p, -1})
			}
			for t, th := range all {
				if w := alone(x, th.Op); q.Out[t] != w {
					for _, o := range j.Threads {
						x.Log("thread: %s", ops[o.Op].Name)
					}
					what := what
					if t >= len(j.Threads) {
						what += ", after both"
					}
					x.Fail("interference/"+v0[ops[th.Op].Entry].Name, "%s: %s gives %s, alone %s (schedule %v)", what, ops[th.Op].Name, q.Out[t], w, q.Rep.Choices)
				}
			}
		}
		r.Explore("every call alone", func(x *mc.X) {
			i := x.Choose(len(ops))
			x.State(ops[i].Name, alone(x, i))
		})
		// Calls that run in one process without any ordering between them:
		// the race detector sees every pair of conflicting accesses whichever
		// schedule was taken.
		r.Explore("pairs without order", func(x *mc.X) {
			build := []string{"race", "race-generic"}[x.Choose(2)]
			a := x.Choose(n)
			if build == "race-generic" && !r.Thorough() && v0[a].Family != "bls" && !strings.Contains(v0[a].Label, "BLS") && !strings.Contains(strings.ToLower(v0[a].Label), "keccak") && !strings.Contains(strings.ToLower(v0[a].Label), "sha3") {
				return
			}
			if !have(build) {
				return
			}
			th := []thread{{a, -1}, {n + a, -1}, {a, 0}}
			var far []int
			for b := range v0 {
				if b == a {
					continue
				}
				if v0[b].Family == v0[a].Family {
					th = append(th, thread{n + b, -1})
				} else {
					far = append(far, b)
				}
			}
			k := r.N(6, len(far))
			for i := 0; i < k; i++ {
				th = append(th, thread{far[(i*len(far)/k+a)%len(far)], -1})
			}
			// no more than 20 others at a time
			for s := 3; s == 3 || s < len(th); s += 20 {
				g := append(append([]thread{}, th[:3]...), th[min(s, len(th)):min(s+20, len(th))]...)
				j := job{Ops: ops, Threads: g, Cfg: vsched.Config{Sync: true}}
				what := fmt.Sprintf("%s beside itself and %d other calls", ops[a].Name, len(g)-3)
				q := spawn(x, build, j, what)
				compare(x, j, q, what)
				count(1)
				x.State(build, a, s)
			}
		})
		if !sched {
			return
		}
		// Schedules over synchronisation operations, a new process each.
		var sy []int
		for i := range syncing {
			sy = append(sy, i)
		}
		sort.Ints(sy)
		type pair struct{ a, b int }
		var pairs []pair
		for _, i := range sy {
			pairs = append(pairs, pair{i, n + i}, pair{i, i})
		}
		for _, i := range sy {
			for _, k := range sy {
				if k != i && v0[i].Family == v0[k].Family {
					pairs = append(pairs, pair{i, n + k})
				}
			}
		}
		r.Extra("synchronising_calls", len(sy))
		bounds := r.N(2, 3)
		if len(pairs) > 0 {
			r.Explore("schedules over synchronisation operations", func(x *mc.X) {
				p := pairs[x.Choose(len(pairs))]
				used := len(x.Forced()) - 1
				var pre []int
				if used > 0 {
					pre = x.Forced()[1:]
				}
				j := job{Ops: ops, Threads: []thread{{p.a, -1}, {p.b, -1}}, Post: []int{p.a, p.b}, Cfg: vsched.Config{Sync: true, Bound: bounds, Prefix: pre}}
				what := fmt.Sprintf("%s with %s", ops[p.a].Name, ops[p.b].Name)
				q := spawn(x, "inst-race", j, what)
				for i := range q.Rep.Choices {
					x.Choose(q.Rep.Arity[i])
				}
				compare(x, j, q, what)
				count(1)
				x.State(p.a, p.b, fmt.Sprint(q.Rep.Choices))
			})
		}
		// Schedules over accesses to package variables and function entries,
		// the first in a new process, the others after it.
		pairs = nil
		for i := range v0 {
			pairs = append(pairs, pair{i, n + i}, pair{i, i})
		}
		for i := range v0 {
			for k := range v0 {
				if k != i && v0[i].Family == v0[k].Family && (r.Thorough() || (i*7+k)%11 == 0) {
					pairs = append(pairs, pair{i, n + k})
				}
			}
		}
		r.Explore("schedules over shared state", func(x *mc.X) {
			p := pairs[x.Choose(len(pairs))]
			j := job{Ops: ops, Threads: []thread{{p.a, -1}, {p.b, -1}}, Post: []int{p.a, p.b}, DFS: true, Seconds: r.N(6, 20),
				Cfg: vsched.Config{Bound: 1, Cap: r.N(1, 3)}, Want: []string{alone(x, p.a), alone(x, p.b), alone(x, p.a), alone(x, p.b)}}
			what := fmt.Sprintf("%s with %s", ops[p.a].Name, ops[p.b].Name)
			q := spawn(x, "inst", j, what)
			count(q.Runs)
			if q.Capped {
				mu.Lock()
				cut++
				mu.Unlock()
			}
			if q.Bad >= 0 || q.Rep.Deadlock {
				compare(x, j, q, what)
				x.Fail("interference/"+ops[p.a].Name, "%s: a result differs under schedule %v", what, q.Rep.Choices)
			}
			x.State(p.a, p.b, q.Runs)
			x.Log("%s: %d schedules", what, q.Runs)
		})
		// the same with every schedule in a new process
		if r.Thorough() {
			r.Explore("schedules over shared state, each in a new process", func(x *mc.X) {
				i := x.Choose(n)
				var pre []int
				if f := x.Forced(); len(f) > 1 {
					pre = f[1:]
				}
				j := job{Ops: ops, Threads: []thread{{i, -1}, {n + i, -1}}, Post: []int{i, n + i}, Cfg: vsched.Config{Bound: 1, Cap: 1, Prefix: pre}}
				what := fmt.Sprintf("%s twice", ops[i].Name)
				q := spawn(x, "inst", j, what)
				for k := range q.Rep.Choices {
					x.Choose(q.Rep.Arity[k])
				}
				compare(x, j, q, what)
				count(1)
				x.State(i, fmt.Sprint(q.Rep.Choices))
			})
		}
		r.Extra("schedules", schedules)
		r.Extra("scheduling_points_per_pass", points)
		r.Extra("pairs_cut_short", cut)
	})
}
