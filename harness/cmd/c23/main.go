// C23: builds. The library selects assembly or portable code by build tags, by
// the processor's features and by the word size. This check explores the bounded
// spaces of the other checks again in each of those builds: the oracle is the
// same independent reference, so any build that computes something else is seen.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"time"
)

type build struct {
	name   string
	tags   string
	env    []string // for the build
	run    []string // for the run
	quick  []string
	deep   []string
	budget time.Duration // per check in the quick tier
}

var all = strings.Fields("c01 c02 c03 c04 c05 c06 c07 c08 c09 c10 c11 c12 c13 c14 c15 c16 c17 c18 c19")

// The quick tier leaves out the spaces that are slow in a build and say little
// about it: "c14-x|y" is C14 without the spaces whose names contain x or y, and
// "c14+x" only those with x. The thorough tier runs every space.
var builds = []build{
	{name: "portable", tags: "generic appengine purego", quick: []string{"c02-past", "c14-engine|register|infinities", "c13+other keys|aggregates"}, deep: strings.Fields("c01 c02 c13 c14 c17 c18 c19")},
	{name: "noadx", run: []string{"GODEBUG=cpu.adx=off,cpu.bmi2=off"}, quick: []string{"c14+field words|patterned|multiples|pairs|hash|bilinearity", "c13+other keys|aggregates"}, deep: []string{"c13", "c14", "c17"}},
	{name: "386", env: []string{"GOARCH=386", "CGO_ENABLED=0"}, quick: []string{"c01", "c02-past", "c03", "c12-verification point|recoding", "c14+field words|patterned|pairs|hash|flips|multiples|unequal",
		"c16", "c15-genuine", "c17", "c11-counters", "c04-chains|small multiples", "c05", "c13+other keys|aggregates of many|message lengths|package", "c08+signing|constructed|lengths|ranges|ZA", "c09", "c10"}, deep: all},
	{name: "386portable", tags: "generic appengine purego", env: []string{"GOARCH=386", "CGO_ENABLED=0"}, quick: []string{"c02-past"}, deep: []string{"c01", "c02"}},
}

var root = "/verif"

func (b *build) compile(dir, check string) (string, string) {
	out := filepath.Join(dir, b.name+"-"+check)
	args := []string{"build", "-o", out}
	if b.tags != "" {
		args = append(args, "-tags", b.tags)
	}
	c := exec.Command("go", append(args, "./cmd/"+check)...)
	c.Env = append(os.Environ(), b.env...)
	c.Dir = filepath.Join(root, "harness")
	if m, err := c.CombinedOutput(); err != nil {
		return "", string(m)
	}
	return out, ""
}

func (b *build) command(bin, check, evidence string, args ...string) *exec.Cmd {
	c := exec.Command(bin, args...)
	c.Env = append(append(os.Environ(), b.run...), "MC_AS=C23", "MC_BUILD="+b.name, "MC_EVIDENCE="+evidence)
	if check != "c01" && check != "c13" {
		c.Env = append(c.Env, "REF_SKIP_SELFTEST=1")
	}
	return c
}

func main() {
	if s := os.Getenv("VERIF_ROOT"); s != "" {
		root = s
	}
	tier := "quick"
	if len(os.Args) > 1 {
		tier = os.Args[1]
	}
	dir, err := os.MkdirTemp("", "c23.")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	rc := run(dir, tier)
	os.RemoveAll(dir)
	os.Exit(rc)
}

func replay(dir, file string) int {
	var v struct{ Check, Build string }
	b, err := os.ReadFile(file)
	if err == nil {
		err = json.Unmarshal(b, &v)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	for i := range builds {
		if b := &builds[i]; b.name == v.Build {
			bin, m := b.compile(dir, strings.ToLower(v.Check))
			if bin == "" {
				fmt.Fprintln(os.Stderr, m)
				return 2
			}
			c := b.command(bin, "", filepath.Join(dir, "ev"), append([]string{"replay", file}, os.Args[3:]...)...)
			c.Stdout, c.Stderr = os.Stdout, os.Stderr
			if c.Run() != nil {
				return 1
			}
			return 0
		}
	}
	fmt.Fprintln(os.Stderr, "no such build")
	return 3
}

var summary = regexp.MustCompile(`states=(\d+) transitions=(\d+) executions=(\d+) exhaustive=(\w+)`)

func run(dir, tier string) int {
	if tier == "replay" {
		return replay(dir, os.Args[2])
	}
	start := time.Now()
	limit := 850 * time.Second
	if tier == "quick" {
		limit = 600 * time.Second
	}
	violations := 0
	var notes []string
	note := func(f string, a ...any) {
		s := fmt.Sprintf(f, a...)
		notes = append(notes, s)
		fmt.Fprintln(os.Stderr, "C23:", s)
	}
	violation := func(name, text string) {
		violations++
		p := filepath.Join(root, "evidence", "replay", "C23-"+name+".txt")
		os.MkdirAll(filepath.Dir(p), 0o755)
		os.WriteFile(p, []byte(text), 0o644)
		fmt.Printf("VIOLATION property=C23 replay=%s\n", p)
		fmt.Println("  " + strings.SplitN(strings.TrimSpace(text), "\n", 2)[0])
	}
	states, trans, execs, exhaustive := 0, 0, 0, true
	type space struct {
		Build, Check string
		States       int     `json:"states"`
		Transitions  int     `json:"transitions"`
		Executions   int     `json:"executions"`
		Exhaustive   bool    `json:"exhaustive"`
		Wall         float64 `json:"wall_s"`
	}
	var spaces []space

	for i := range builds {
		b := &builds[i]
		checks := b.quick
		if tier == "thorough" {
			checks = b.deep
		}
		// the library itself has to compile in this build
		args := []string{"build"}
		if b.tags != "" {
			args = append(args, "-tags", b.tags)
		}
		c := exec.Command("go", append(args, "github.com/blocktree/go-owcrypt", "github.com/blocktree/go-owcrypt/bls12_381", "github.com/blocktree/go-owcrypt/pasta",
			"github.com/blocktree/go-owcrypt/sha3", "github.com/blocktree/go-owcrypt/eddsa")...)
		c.Env = append(os.Environ(), b.env...)
		c.Dir = filepath.Join(root, "harness")
		if m, err := c.CombinedOutput(); err != nil {
			if strings.Contains(string(m), "go-owcrypt") {
				violation(b.name+"-build", "the library does not compile for "+b.name+"\n"+string(m))
			} else {
				note("%s: nothing compiles for this build: %.200s", b.name, m)
			}
			continue
		}
		names := make([]string, len(checks))
		filter := make([]string, len(checks))
		for j, k := range checks {
			names[j] = k[:3]
			if len(k) > 3 {
				filter[j] = map[byte]string{'+': "MC_SPACE=", '-': "MC_SKIP="}[k[3]] + k[4:]
			}
		}
		checks = names
		bins := make([]string, len(checks))
		errs := make([]string, len(checks))
		var wg sync.WaitGroup
		sem := make(chan int, 4)
		for j, k := range checks {
			wg.Add(1)
			go func(j int, k string) {
				defer wg.Done()
				sem <- 1
				bins[j], errs[j] = b.compile(dir, k)
				<-sem
			}(j, k)
		}
		wg.Wait()
		for j, k := range checks {
			if bins[j] == "" {
				note("%s: %s does not compile: %.300s", b.name, k, errs[j])
				return 2
			}
			left := limit - time.Since(start)
			if left < 2*time.Second {
				exhaustive = false
				note("%s: %s not run: out of time", b.name, k)
				os.Remove(bins[j])
				continue
			}
			t0 := time.Now()
			ev := filepath.Join(dir, "ev.json")
			c := b.command(bins[j], k, ev, tier)
			if tier == "thorough" {
				// the thorough tier of C23 is the quick bounds of every check in
				// every build: their thorough bounds take hours together
				c = b.command(bins[j], k, ev, "quick")
			}
			c.Env = append(c.Env, fmt.Sprintf("MC_BUDGET=%v", min(left, 300*time.Second)))
			if filter[j] != "" {
				c.Env = append(c.Env, filter[j])
			}
			var stderr strings.Builder
			c.Stderr = &stderr
			out, err := c.Output()
			os.Remove(bins[j])
			rc := 0
			if err != nil {
				rc = -1
				if e, ok := err.(*exec.ExitError); ok {
					rc = e.ExitCode()
				} else {
					note("%s: the sandbox does not run this build: %v", b.name, err)
					break
				}
			}
			for _, l := range strings.Split(string(out), "\n") {
				if strings.HasPrefix(l, "VIOLATION") || strings.HasPrefix(l, "KNOWN-FINDING") || strings.HasPrefix(l, "  ") {
					fmt.Println(l)
				}
			}
			switch {
			case rc == 1:
				violations++
			case rc != 0:
				e := stderr.String()
				m := regexp.MustCompile(`(?m)^(fatal error:|panic:|unexpected fault address|SIGSEGV|runtime: goroutine stack exceeds).*`).FindString(e)
				if m == "" || strings.Contains(e, "out of memory") || strings.Contains(e, "cannot allocate") || strings.Contains(e, "panic: mc: ") {
					note("%s: %s exited with %d: %.600s", b.name, k, rc, e)
					return 2
				}
				violation(b.name+"-"+k+"-crash", "the process crashed: "+m+"\n"+e)
			}
			if m := summary.FindStringSubmatch(string(out)); m != nil {
				s := space{Build: b.name, Check: strings.ToUpper(k), Wall: time.Since(t0).Seconds(), Exhaustive: m[4] == "true"}
				fmt.Sscan(m[1], &s.States)
				fmt.Sscan(m[2], &s.Transitions)
				fmt.Sscan(m[3], &s.Executions)
				states, trans, execs, exhaustive = states+s.States, trans+s.Transitions, execs+s.Executions, exhaustive && s.Exhaustive
				spaces = append(spaces, s)
				if os.Getenv("MC_VERBOSE") != "" {
					fmt.Fprintf(os.Stderr, "%+v\n", s)
				}
			}
		}
	}
	wall := time.Since(start).Seconds()
	if notes == nil {
		notes = []string{}
	}
	var names []string
	for i := range builds {
		names = append(names, strings.TrimSpace(builds[i].name+" "+builds[i].tags+" "+strings.Join(append(builds[i].env, builds[i].run...), " ")))
	}
	ev := map[string]any{"property": "C23", "tier": tier, "seed": 1, "level": "model_checking",
		"coverage": map[string]any{"states": states, "transitions": trans, "traces_validated_against_impl": execs, "exhaustive": exhaustive,
			"spaces": spaces, "builds": names, "samples": []string{}},
		"wall_s": wall, "violations": violations, "assumptions": notes}
	j, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(root, "evidence", "C23.json"), append(j, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	fmt.Printf("C23 %s: states=%d transitions=%d executions=%d exhaustive=%v wall=%.1fs\n", tier, states, trans, execs, exhaustive, wall)
	if violations > 0 {
		return 1
	}
	return 0
}
