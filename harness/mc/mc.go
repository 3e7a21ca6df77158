// Package mc is a small stateless model checker for sequential and
// environment-driven code.
//
// A check is a set of spaces. A space is a driver function that builds one
// execution of the code under test by asking the explorer to resolve choice
// points (x.Choose, x.Pick). Explore runs the driver once for every possible
// resolution of its choices: it re-executes a recorded prefix and takes the
// first alternative at every later point, then backtracks over every
// alternative, until the choice tree is exhausted (or the time budget ends, in
// which case the run is reported as not exhaustive). The driver compares every
// step with a reference model and reports disagreements with x.Fail.
package mc

import (
	"crypto/rand"
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"hash/maphash"
	"io"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Run is one run of one check.
type Run struct {
	Prop  string
	Tier  string
	Seed  int64
	Root  string
	start time.Time
	dead  time.Time

	transitions atomic.Int64
	traces      atomic.Int64
	seenMu      [64]sync.Mutex
	seen        [64]map[uint64]struct{}
	hseed       maphash.Seed

	mu         sync.Mutex
	samples    []string
	spaces     []spaceStat
	violations []*Violation
	known      []knownFinding
	knownHit   map[string]int
	capped     bool
	Notes      []string
	extra      map[string]any

	replayOnly *Violation
}

type spaceStat struct {
	Name       string `json:"name"`
	Executions int64  `json:"executions"`
	Exhausted  bool   `json:"exhausted"`
	Outcomes   int    `json:"distinct_outcomes"`
	Wall       string `json:"wall"`
}

type knownFinding struct{ key, what string }

// Violation is one counterexample.
type Violation struct {
	Property string   `json:"property"`
	Space    string   `json:"space"`
	Key      string   `json:"key"`
	Message  string   `json:"message"`
	Choices  []int    `json:"choices"`
	Arity    []int    `json:"arity"`
	Trace    []string `json:"trace"`
	Check    string   `json:"check,omitempty"` // C23: the check and the build it ran in
	Build    string   `json:"build,omitempty"`
}

// Thorough reports whether this is a thorough run.
func (r *Run) Thorough() bool { return r.Tier == "thorough" }

// N returns q in the quick tier and t in the thorough tier.
func (r *Run) N(q, t int) int {
	if r.Thorough() {
		return t
	}
	return q
}

// Note records a remark that goes into the evidence.
func (r *Run) Note(f string, a ...any) {
	r.mu.Lock()
	r.Notes = append(r.Notes, fmt.Sprintf(f, a...))
	r.mu.Unlock()
}

// Extra records an additional coverage figure.
func (r *Run) Extra(k string, v any) {
	r.mu.Lock()
	r.extra[k] = v
	r.mu.Unlock()
}

func (r *Run) Left() time.Duration { return time.Until(r.dead) }

func (r *Run) addState(h uint64) {
	i := h & 63
	r.seenMu[i].Lock()
	r.seen[i][h] = struct{}{}
	r.seenMu[i].Unlock()
}

func (r *Run) stateCount() int64 {
	n := 0
	for i := range r.seen {
		r.seenMu[i].Lock()
		n += len(r.seen[i])
		r.seenMu[i].Unlock()
	}
	return int64(n)
}

// X is one execution.
type X struct {
	R       *Run
	space   string
	prefix  []int
	choices []int
	arity   []int
	trace   []string
	rnd     *Script
	outcome maphash.Hash
	callAt  atomic.Int64
	callNm  atomic.Value
	failed  bool
}

type abort struct{}

// Choose resolves a choice point with n alternatives.
func (x *X) Choose(n int) int {
	if n <= 0 {
		panic("mc: empty choice")
	}
	i := len(x.choices)
	c := 0
	if i < len(x.prefix) {
		c = x.prefix[i]
	}
	if c >= n {
		fmt.Fprintf(os.Stderr, "mc: replay diverged in %s: choice %d of %d\n", x.space, c, n)
		panic(fmt.Sprintf("mc: replay diverged in %s at %d", x.space, i))
	}
	x.choices = append(x.choices, c)
	x.arity = append(x.arity, n)
	return c
}

// Forced is the prescribed part of the choices of this execution. A driver
// whose choice points lie in another process hands it over and then reports
// the choice points with Choose.
func (x *X) Forced() []int { return x.prefix }

// Bool resolves a binary choice.
func (x *X) Bool() bool { return x.Choose(2) == 1 }

// Log adds a line to the trace of this execution.
func (x *X) Log(f string, a ...any) {
	if len(x.trace) < 400 {
		x.trace = append(x.trace, fmt.Sprintf(f, a...))
	}
}

// State records a visited state (everything the oracle can observe).
func (x *X) State(parts ...any) {
	var h maphash.Hash
	h.SetSeed(x.R.hseed)
	h.WriteString(x.space)
	for _, p := range parts {
		put(&h, p)
		put(&x.outcome, p)
	}
	x.R.addState(h.Sum64())
}

func put(h *maphash.Hash, p any) {
	switch v := p.(type) {
	case []byte:
		var n [8]byte
		binary.LittleEndian.PutUint64(n[:], uint64(len(v)))
		if v == nil {
			h.WriteByte(0)
		} else {
			h.WriteByte(1)
		}
		h.Write(n[:])
		h.Write(v)
	case string:
		h.WriteString(v)
		h.WriteByte(0)
	case int:
		var n [8]byte
		binary.LittleEndian.PutUint64(n[:], uint64(v))
		h.Write(n[:])
	default:
		fmt.Fprintf(h, "%v|", v)
	}
}

// Call runs one operation of the code under test: it counts a transition,
// turns a panic into a violation and is watched for termination.
func (x *X) Call(name string, f func()) {
	if p := x.Try(name, f); p != "" {
		x.Fail("panic/"+name, "%s panics: %s", name, p)
	}
}

// Try is Call, but hands a panic back to the caller.
func (x *X) Try(name string, f func()) (pan string) {
	x.R.transitions.Add(1)
	x.callNm.Store(name)
	t0 := time.Now()
	x.callAt.Store(t0.UnixNano())
	defer func() {
		x.callAt.Store(0)
		if profile {
			v, _ := profTime.LoadOrStore(name, new(atomic.Int64))
			v.(*atomic.Int64).Add(int64(time.Since(t0)))
		}
		if e := recover(); e != nil {
			if _, ok := e.(abort); ok {
				panic(e)
			}
			pan = fmt.Sprint(e)
			if os.Getenv("MC_STACK") != "" {
				fmt.Fprintf(os.Stderr, "%s\n", debug.Stack())
			}
		}
	}()
	f()
	return ""
}

var (
	profile  = os.Getenv("MC_PROFILE") != ""
	profTime sync.Map
)

func printProfile() {
	type e struct {
		n string
		d time.Duration
	}
	var l []e
	profTime.Range(func(k, v any) bool {
		l = append(l, e{k.(string), time.Duration(v.(*atomic.Int64).Load())})
		return true
	})
	sort.Slice(l, func(i, j int) bool { return l[i].d > l[j].d })
	for i, v := range l {
		if i < 25 {
			fmt.Fprintf(os.Stderr, "%-50s %v\n", v.n, v.d)
		}
	}
}

// Step counts a transition without the protection of Call.
func (x *X) Step() { x.R.transitions.Add(1) }

// Fail reports a violation and ends this execution. key identifies the kind of
// failure (for the known-findings file), independent of incidental data.
func (x *X) Fail(key, f string, a ...any) {
	x.Report(key, f, a...)
	panic(abort{})
}

// Report reports a violation and lets the execution continue.
func (x *X) Report(key, f string, a ...any) {
	x.failed = true
	v := &Violation{Property: x.R.Prop, Space: x.space, Key: key, Message: fmt.Sprintf(f, a...),
		Choices: append([]int{}, x.choices...), Arity: append([]int{}, x.arity...), Trace: append([]string{}, x.trace...)}
	x.R.report(v)
}

// Assert is Fail if !ok.
func (x *X) Assert(ok bool, key, f string, a ...any) {
	if !ok {
		x.Fail(key, f, a...)
	}
}

// Eq fails unless the two byte strings are equal.
func (x *X) Eq(got, want []byte, key, f string, a ...any) {
	if string(got) != string(want) {
		x.Fail(key, "%s: got %s, want %s", fmt.Sprintf(f, a...), Hex(got), Hex(want))
	}
}

// Hex renders bytes for traces.
func Hex(b []byte) string {
	if b == nil {
		return "nil"
	}
	if len(b) > 200 {
		return fmt.Sprintf("%s...(%d bytes)", hex.EncodeToString(b[:200]), len(b))
	}
	return hex.EncodeToString(b)
}

func (r *Run) report(v *Violation) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for _, k := range r.known {
		if k.key == v.Key {
			r.knownHit[k.key]++
			return
		}
	}
	if len(r.violations) < 200 {
		r.violations = append(r.violations, v)
	}
}

func (r *Run) failedEnough() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return len(r.violations) >= 5
}

// ---- entropy ----

// Script is the randomness source of one execution. It hands out a
// deterministic stream unless the driver installs a reader of its own.
type Script struct {
	R     io.Reader
	ctr   uint64
	key   [32]byte
	buf   []byte
	Drawn int
}

func (s *Script) Read(p []byte) (int, error) {
	if s.R != nil {
		n, err := s.R.Read(p)
		s.Drawn += n
		return n, err
	}
	for i := range p {
		if len(s.buf) == 0 {
			var c [40]byte
			copy(c[:], s.key[:])
			binary.BigEndian.PutUint64(c[32:], s.ctr)
			s.ctr++
			h := sha256.Sum256(c[:])
			s.buf = h[:]
		}
		p[i] = s.buf[0]
		s.buf = s.buf[1:]
	}
	s.Drawn += len(p)
	return len(p), nil
}

// Rand returns the randomness source of this execution.
func (x *X) Rand() *Script { return x.rnd }

// Reseed restarts the deterministic stream under the given label.
func (x *X) Reseed(label string) {
	x.rnd.R = nil
	x.rnd.buf = nil
	x.rnd.ctr = 0
	x.rnd.Drawn = 0
	x.rnd.key = sha256.Sum256([]byte(fmt.Sprintf("%d/%s", x.R.Seed, label)))
}

type router struct {
	m        sync.Map
	mu       sync.Mutex
	fallback Script
}

var rt = &router{}

func goid() int64 {
	var b [40]byte
	n := runtime.Stack(b[:], false)
	s := string(b[10:n])
	i := strings.IndexByte(s, ' ')
	id, _ := strconv.ParseInt(s[:i], 10, 64)
	return id
}

func (t *router) Read(p []byte) (int, error) {
	if s, ok := t.m.Load(goid()); ok {
		return s.(*Script).Read(p)
	}
	t.mu.Lock()
	defer t.mu.Unlock()
	return t.fallback.Read(p)
}

// BindRand makes s the randomness source of the calling goroutine.
func BindRand(s *Script) { rt.m.Store(goid(), s) }

// ---- exploration ----

// Explore enumerates every execution of body.
func (r *Run) Explore(name string, body func(x *X)) {
	if r.replayOnly != nil {
		if r.replayOnly.Space == name {
			x := r.exec(name, body, r.replayOnly.Choices)
			for _, l := range x.trace {
				fmt.Println("  ", l)
			}
		}
		return
	}
	if skip := os.Getenv("MC_SKIP"); skip != "" {
		for _, s := range strings.Split(skip, "|") {
			if strings.Contains(name, s) {
				return
			}
		}
	}
	if only := os.Getenv("MC_SPACE"); only != "" {
		in := false
		for _, s := range strings.Split(only, "|") {
			in = in || strings.Contains(name, s)
		}
		if !in {
			return
		}
	}
	t0 := time.Now()
	var (
		mu      sync.Mutex
		cond    = sync.NewCond(&mu)
		stack   = [][]int{nil}
		busy    int
		execs   int64
		stop    bool
		outs    = map[uint64]struct{}{}
		cutoff  bool
		workers = runtime.GOMAXPROCS(0)
	)
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				for len(stack) == 0 && busy > 0 && !stop {
					cond.Wait()
				}
				if stop || len(stack) == 0 {
					cond.Broadcast()
					mu.Unlock()
					return
				}
				p := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				busy++
				execs++
				mu.Unlock()

				x := r.exec(name, body, p)

				mu.Lock()
				busy--
				if len(outs) < 1<<20 {
					outs[x.outcome.Sum64()] = struct{}{}
				}
				// push the alternatives so that the simplest is explored next
				for i := len(p); i < len(x.choices); i++ {
					for alt := x.arity[i] - 1; alt >= 1; alt-- {
						q := make([]int, i+1)
						copy(q, x.choices[:i])
						q[i] = alt
						stack = append(stack, q)
					}
				}
				if r.failedEnough() {
					stop = true
				}
				if time.Now().After(r.dead) && (len(stack) > 0 || busy > 0) {
					stop, cutoff = true, true
				}
				cond.Broadcast()
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	r.mu.Lock()
	if cutoff {
		r.capped = true
	}
	r.spaces = append(r.spaces, spaceStat{name, execs, !cutoff && !stop, len(outs), time.Since(t0).Round(time.Millisecond).String()})
	r.mu.Unlock()
	if os.Getenv("MC_VERBOSE") != "" {
		fmt.Fprintf(os.Stderr, "%-40s %8d executions %6d outcomes %8s exhausted=%v\n", name, execs, len(outs), time.Since(t0).Round(time.Millisecond), !cutoff && !stop)
	}
}

var live sync.Map // *X -> struct{}

func (r *Run) exec(name string, body func(x *X), prefix []int) (x *X) {
	x = &X{R: r, space: name, prefix: prefix, rnd: &Script{}}
	x.outcome.SetSeed(r.hseed)
	x.Reseed(name + fmt.Sprint(prefix))
	BindRand(x.rnd)
	live.Store(x, struct{}{})
	defer live.Delete(x)
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(abort); !ok {
				if m := fmt.Sprint(e); strings.HasPrefix(m, "mc: ") {
					fmt.Fprintf(os.Stderr, "%s in %s %v\n%s\n", m, name, x.choices, debug.Stack())
					os.Exit(3)
				}
				// the driver choked on what the code under test returned
				// (a result of the wrong size, a missing result)
				x.Report("malformed", "malformed result: %v at %s", e, site())
			}
		}
		r.traces.Add(1)
		r.mu.Lock()
		if len(r.samples) < 12 && len(x.trace) > 0 && (len(r.samples) == 0 || r.traces.Load()%97 == 1) {
			s := x.trace
			if len(s) > 12 {
				s = s[:12]
			}
			r.samples = append(r.samples, name+": "+strings.Join(s, "; "))
		}
		r.mu.Unlock()
	}()
	body(x)
	return x
}

func site() string {
	for _, l := range strings.Split(string(debug.Stack()), "\n") {
		if strings.Contains(l, "/verif/harness/") && !strings.Contains(l, "/mc/mc.go") {
			return strings.TrimSpace(l)
		}
	}
	return "?"
}

// HangLimit is how long one call may take. Every call normally takes
// milliseconds.
var HangLimit = 150 * time.Second

// a call that is still running after 10 s while the heap has this size is
// taken as one that never ends
const heapLimit = 20 << 30

func (r *Run) watchdog() {
	for {
		time.Sleep(2 * time.Second)
		now := time.Now().UnixNano()
		limit := HangLimit
		if d, err := time.ParseDuration(os.Getenv("MC_HANG")); err == nil {
			limit = d
		}
		var ms runtime.MemStats
		if runtime.ReadMemStats(&ms); ms.HeapAlloc > heapLimit {
			limit = 10 * time.Second
		}
		live.Range(func(k, _ any) bool {
			x := k.(*X)
			at := x.callAt.Load()
			if at != 0 && now-at > int64(limit) {
				nm, _ := x.callNm.Load().(string)
				r.report(&Violation{Property: r.Prop, Space: x.space, Key: "hang/" + nm,
					Message: fmt.Sprintf("%s has not returned after %v (it normally takes milliseconds; heap %d MB)", nm, limit, ms.HeapAlloc>>20),
					Choices: append([]int{}, x.choices...), Trace: append([]string{}, x.trace...)})
				r.finish()
			}
			return true
		})
	}
}

// Main runs a check and exits.
func Main(prop string, quick, thorough time.Duration, body func(r *Run)) {
	if strconv.IntSize == 32 {
		debug.SetMemoryLimit(1500 << 20)
	} else {
		debug.SetGCPercent(800)
	}
	tier := "quick"
	if len(os.Args) > 1 {
		tier = os.Args[1]
	}
	r := &Run{Prop: prop, Tier: tier, Seed: 1, Root: "/verif", start: time.Now(), hseed: maphash.MakeSeed(),
		knownHit: map[string]int{}, extra: map[string]any{}}
	if s := os.Getenv("VERIF_ROOT"); s != "" {
		r.Root = s
	}
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		r.Seed = s
	}
	for i := range r.seen {
		r.seen[i] = map[uint64]struct{}{}
	}
	if tier == "replay" {
		b, err := os.ReadFile(os.Args[2])
		if err == nil {
			r.replayOnly = &Violation{}
			err = json.Unmarshal(b, r.replayOnly)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		r.Tier = "quick"
		if len(os.Args) > 3 {
			r.Tier = os.Args[3]
		}
	}
	budget := quick
	if r.Tier == "thorough" {
		budget = thorough
	}
	if s := os.Getenv("MC_BUDGET"); s != "" {
		if d, err := time.ParseDuration(s); err == nil {
			budget = d
		}
	}
	r.dead = r.start.Add(budget)
	r.loadKnown()
	rand.Reader = rt
	go r.watchdog()
	body(r)
	r.finish()
}

func (r *Run) loadKnown() {
	b, err := os.ReadFile(filepath.Join(r.Root, "known_findings.txt"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		// known: property=C01 key=<key> <what fails>
		f := strings.SplitN(l, " ", 4)
		if len(f) == 4 && f[0] == "known:" && f[1] == "property="+r.Prop && strings.HasPrefix(f[2], "key=") {
			r.known = append(r.known, knownFinding{strings.TrimPrefix(f[2], "key="), f[3]})
		}
	}
}

var finishOnce sync.Mutex

func (r *Run) finish() {
	finishOnce.Lock() // never released: the first caller ends the process
	r.mu.Lock()
	defer r.mu.Unlock()
	wall := time.Since(r.start).Seconds()
	if profile {
		printProfile()
	}
	for _, k := range r.known {
		if r.knownHit[k.key] > 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.Prop, k.what)
		}
	}
	if r.replayOnly != nil {
		for _, v := range r.violations {
			fmt.Printf("reproduced: %s\n", v.Message)
		}
		if len(r.violations) > 0 {
			os.Exit(1)
		}
		fmt.Println("not reproduced")
		os.Exit(0)
	}
	exhaustive := !r.capped
	for _, s := range r.spaces {
		exhaustive = exhaustive && s.Exhausted
	}
	cov := map[string]any{
		"states": r.stateCount(), "transitions": r.transitions.Load(),
		"traces_validated_against_impl": r.traces.Load(), "samples": r.samples,
		"exhaustive": exhaustive, "spaces": r.spaces,
	}
	for k, v := range r.extra {
		cov[k] = v
	}
	ev := map[string]any{"property": r.Prop, "tier": r.Tier, "seed": r.Seed, "level": "model_checking",
		"coverage": cov, "wall_s": wall, "violations": len(r.violations), "assumptions": r.Notes}
	if r.Notes == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(r.Root, "evidence"), 0o755)
	// C23 runs the other checks in other builds, under its own name.
	as, build, out := os.Getenv("MC_AS"), os.Getenv("MC_BUILD"), filepath.Join(r.Root, "evidence", r.Prop+".json")
	name := r.Prop
	if as != "" {
		out = os.Getenv("MC_EVIDENCE")
		name = as + "-" + build + "-" + r.Prop
	} else {
		as = r.Prop
	}
	if err := os.WriteFile(out, append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	fmt.Printf("%s %s: states=%d transitions=%d executions=%d exhaustive=%v wall=%.1fs\n", r.Prop, r.Tier,
		r.stateCount(), r.transitions.Load(), r.traces.Load(), exhaustive, wall)
	if len(r.violations) == 0 {
		os.Exit(0)
	}
	sort.SliceStable(r.violations, func(i, j int) bool {
		return len(r.violations[i].Trace) < len(r.violations[j].Trace)
	})
	dir := filepath.Join(r.Root, "evidence", "replay")
	os.MkdirAll(dir, 0o755)
	for i, v := range r.violations {
		if i >= 5 {
			break
		}
		path := filepath.Join(dir, fmt.Sprintf("%s-%d.json", name, i))
		if as != r.Prop {
			v.Property, v.Check, v.Build = as, r.Prop, build
		}
		b, _ := json.MarshalIndent(v, "", " ")
		os.WriteFile(path, append(b, '\n'), 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", as, path)
		fmt.Printf("  [%s] %s\n", v.Space, v.Message)
	}
	os.Exit(1)
}
