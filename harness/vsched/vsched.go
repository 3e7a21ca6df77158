// Package vsched is a cooperative scheduler for the code under test. The
// instrumented library calls it at every scheduling point; exactly one thread
// runs at a time, and which one continues at a point is decided by a prescribed
// list of choices.
//
// Nothing here is visible to the race detector: handing over the baton creates
// no happens-before edge.
package vsched

import (
	"runtime"
	"sync"
)

// Config selects one schedule.
type Config struct {
	Prefix []int // the choices at the first choice points; later ones are 0
	Bound  int   // preemptions allowed
	Cap    int   // occurrences of one site per thread at which it may be preempted
	Sync   bool  // preempt at synchronisation operations only
}

// Report is what a schedule looked like.
type Report struct {
	Choices, Arity []int
	Points         int // scheduling points passed
	Syncs          int // of which synchronisation operations
	Deadlock       bool
	Sites          []int // site of each choice point; -1 for thread ends and blocking
}

const (
	maxThreads = 256
	maxSites   = 1 << 15
	maxChoices = 1 << 16
)

var (
	active   bool
	cur      int
	nthreads int
	state    [maxThreads]int8 // 0 ready, 1 blocked, 2 ended
	waitFor  [maxThreads]uintptr
	prefix   []int
	nprefix  int
	bound    int
	limit    int32
	syncOnly bool
	choices  [maxChoices]int32
	arity    [maxChoices]int32
	siteAt   [maxChoices]int32
	nchoice  int
	preempts int
	points   int
	syncs    int
	root     [maxThreads]int
	idle     int
	dead     bool
	seen     [maxThreads][]int32
	done     sync.WaitGroup
	extra    []func()
)

// choose resolves a choice point with n alternatives.
//
//go:norace
//go:noinline
func choose(n, site int) int {
	if n <= 1 || nchoice >= maxChoices {
		return 0
	}
	c := 0
	if nchoice < nprefix {
		c = prefix[nchoice]
	}
	if c >= n {
		panic("mc: schedule diverged")
	}
	choices[nchoice], arity[nchoice], siteAt[nchoice] = int32(c), int32(n), int32(site)
	nchoice++
	return c
}

//go:norace
//go:noinline
func ready(except int) int {
	n := 0
	for i := 0; i < nthreads; i++ {
		if i != except && state[i] == 0 {
			n++
		}
	}
	return n
}

// nth returns the k-th ready thread after except, in cyclic order.
//
//go:norace
//go:noinline
func nth(k, except int) int {
	for d := 1; d <= nthreads; d++ {
		i := (except + d) % nthreads
		if i != except && state[i] == 0 {
			if k == 0 {
				return i
			}
			k--
		}
	}
	return -1
}

//go:norace
//go:noinline
func wait(me int) {
	for cur != me {
		runtime.Gosched()
	}
}

//go:norace
//go:noinline
func point(site int, isSync bool) {
	points++
	if isSync {
		syncs++
	}
	if idle++; idle > 1<<25 { // a loop that waits for another thread
		idle = 0
		if ready(cur) > 0 {
			me := cur
			cur = nth(0, me)
			wait(me)
		}
		return
	}
	if syncOnly && !isSync {
		return
	}
	if !isSync {
		if seen[cur][site] >= limit {
			return
		}
		seen[cur][site]++
	}
	if preempts >= bound {
		return
	}
	n := ready(cur)
	if n == 0 {
		return
	}
	if c := choose(n+1, site); c > 0 {
		preempts++
		idle = 0
		me := cur
		cur = nth(c-1, me)
		wait(me)
	}
}

// P is a point before a statement that mentions shared state.
//
//go:norace
func P(site int) {
	if active {
		point(site, false)
	}
}

// S is a point before a synchronisation operation.
//
//go:norace
func S() {
	if active {
		point(0, true)
	}
}

// Active reports whether threads are under control.
//
//go:norace
func Active() bool { return active }

// Thread is the index of the running thread among those given to Run; the
// threads that one starts count as it.
//
//go:norace
func Thread() int {
	if cur < 0 {
		return 0
	}
	return root[cur]
}

// Block stops the current thread until Wake(obj).
//
//go:norace
//go:noinline
func Block(obj uintptr) {
	me := cur
	state[me] = 1
	waitFor[me] = obj
	idle = 0
	n := ready(me)
	if n == 0 {
		stuck()
	}
	cur = nth(choose(n, -1), me)
	wait(me)
}

// stuck ends a run in which no thread can continue.
//
//go:norace
func stuck() {
	dead = true
	active = false
	cur = -1
	select {}
}

// Wake makes the threads blocked on obj ready.
//
//go:norace
//go:noinline
func Wake(obj uintptr) {
	for i := 0; i < nthreads; i++ {
		if state[i] == 1 && waitFor[i] == obj {
			state[i] = 0
		}
	}
}

//go:norace
//go:noinline
func end(me int) {
	state[me] = 2
	idle = 0
	n := ready(me)
	if n == 0 {
		for i := 0; i < nthreads; i++ {
			if state[i] == 1 {
				dead = true
			}
		}
		active = false
		cur = -1
		return
	}
	cur = nth(choose(n, -1), me)
}

// Go starts a thread of the code under test.
func Go(f func()) {
	if !Active() {
		go f()
		return
	}
	spawn(f)
	S()
}

//go:norace
//go:noinline
func spawn(f func()) {
	me := nthreads
	if me >= maxThreads {
		panic("mc: too many threads")
	}
	nthreads++
	state[me] = 0
	root[me] = root[cur]
	if seen[me] == nil {
		seen[me] = make([]int32, maxSites)
	}
	start(me, f, false)
}

func start(me int, f func(), join bool) {
	go func() {
		wait(me)
		f()
		if join {
			done.Done()
		}
		end(me)
	}()
}

//go:norace
func setup(n int, c Config) {
	nthreads, nchoice, preempts, points, syncs, idle, dead = n, 0, 0, 0, 0, 0, false
	prefix, nprefix, bound, limit, syncOnly = c.Prefix, len(c.Prefix), c.Bound, int32(c.Cap), c.Sync
	for i := 0; i < n; i++ {
		state[i], root[i] = 0, i
		if seen[i] == nil {
			seen[i] = make([]int32, maxSites)
		}
		for j := range seen[i] {
			seen[i][j] = 0
		}
	}
	cur = -2
}

//go:norace
func begin() {
	active = true
	cur = 0
}

//go:norace
func report() (r Report) {
	for i := 0; i < nchoice; i++ {
		r.Choices = append(r.Choices, int(choices[i]))
		r.Arity = append(r.Arity, int(arity[i]))
		r.Sites = append(r.Sites, int(siteAt[i]))
	}
	r.Points, r.Syncs, r.Deadlock = points, syncs, dead
	return
}

//go:norace
func stopped() bool { return dead }

// Run runs the threads under one schedule. Thread 0 starts.
func Run(fns []func(), c Config) Report {
	setup(len(fns), c)
	done.Add(len(fns))
	for i, f := range fns {
		start(i, f, true)
	}
	begin()
	wait(-1)
	if !stopped() {
		done.Wait()
	}
	return report()
}
