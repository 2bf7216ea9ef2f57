// Package engine runs exhaustive enumerations over the implementation: worker pool, watchdog, violation
// collection, evidence and replay files.
package engine

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Run is the state of one check run.
type Run struct {
	Wide       bool
	Prop, Tier string
	Seed       int
	Workers    int
	Start      time.Time
	Deadline   time.Time
	Out        *os.File // the real stdout
	VerifDir   string
	GQL        string // path of the gql binary built from /repo
	Scratch    string

	states, transitions, traces int64
	mu                          sync.Mutex
	outcomes                    map[string]int64
	samples                     []any
	spaces                      []map[string]any
	viols                       []Violation
	notes                       []string
	assumptions                 []string
	incomplete                  atomic.Bool
	stop                        atomic.Bool
	cur                         []curCase
	traceFile                   *os.File
}

type curCase struct {
	mu   sync.Mutex
	at   time.Time
	desc func() string
}

// Violation is one observed counterexample.
type Violation struct {
	Key    string // stable identification (for known findings)
	What   string
	Replay any
	order  int64
}

// Thorough tells the tier.
func (r *Run) Thorough() bool { return r.Tier == "thorough" }

// Big tells whether the large variants of the spaces are used: in the thorough tier, and in the quick tier of the checks
// which can afford them.
func (r *Run) Big() bool { return r.Wide || r.Thorough() }

// Pick returns t when the large variants of the spaces are used and q otherwise.
func Pick[T any](r *Run, q, t T) T {
	if r.Big() {
		return t
	}
	return q
}

// AddStates counts distinct model states.
func (r *Run) AddStates(n int) { atomic.AddInt64(&r.states, int64(n)) }

// AddTransitions counts transitions (compared pairs, steps, calls).
func (r *Run) AddTransitions(n int) { atomic.AddInt64(&r.transitions, int64(n)) }

// AddTraces counts model behaviours replayed on the implementation.
func (r *Run) AddTraces(n int) { atomic.AddInt64(&r.traces, int64(n)) }

// Outcome counts an observed outcome class.
func (r *Run) Outcome(s string) {
	r.mu.Lock()
	r.outcomes[s]++
	r.mu.Unlock()
}

// Outcomes merges counted outcomes.
func (r *Run) Outcomes(m map[string]int64) {
	r.mu.Lock()
	for k, v := range m {
		r.outcomes[k] += v
	}
	r.mu.Unlock()
}

// Sample keeps up to 6 actual cases.
func (r *Run) Sample(s any) {
	r.mu.Lock()
	if len(r.samples) < 6 {
		r.samples = append(r.samples, s)
	}
	r.mu.Unlock()
}

// Space documents an explored space.
func (r *Run) Space(name string, kv ...any) {
	m := map[string]any{"space": name}
	for i := 0; i+1 < len(kv); i += 2 {
		m[fmt.Sprint(kv[i])] = kv[i+1]
	}
	r.mu.Lock()
	r.spaces = append(r.spaces, m)
	r.mu.Unlock()
}

// Assume documents an assumption.
func (r *Run) Assume(s ...string) {
	r.mu.Lock()
	r.assumptions = append(r.assumptions, s...)
	r.mu.Unlock()
}

// Violate records a counterexample.
func (r *Run) Violate(order int64, key, what string, replay any) {
	r.mu.Lock()
	r.viols = append(r.viols, Violation{key, what, replay, order})
	n := len(r.viols)
	r.mu.Unlock()
	if n >= 25 {
		r.stop.Store(true)
	}
}

// Cut notes that an exploration was not finished.
func (r *Run) Cut() { r.incomplete.Store(true) }

// Stopped tells whether to stop exploring (enough violations or deadline).
func (r *Run) Stopped() bool {
	if r.stop.Load() {
		return true
	}
	if time.Now().After(r.Deadline) {
		r.incomplete.Store(true)
		r.stop.Store(true)
		return true
	}
	return false
}

// W is a worker.
type W struct {
	ID  int
	R   *Run
	out map[string]int64
}

// Outcome counts an outcome class locally.
func (w *W) Outcome(s string) { w.out[s]++ }

// Case announces the case a worker is about to execute.
func (w *W) Case(desc func() string) {
	c := &w.R.cur[w.ID]
	c.mu.Lock()
	c.at = time.Now()
	c.desc = desc
	c.mu.Unlock()
	if w.R.traceFile != nil {
		s := desc()
		_ = w.R.traceFile.Truncate(0)
		_, _ = w.R.traceFile.WriteAt([]byte(s), 0)
	}
}

func (w *W) done() {
	c := &w.R.cur[w.ID]
	c.mu.Lock()
	c.desc = nil
	c.mu.Unlock()
}

// Guard runs f and turns a panic into an error text.
func Guard(f func()) (msg string) {
	defer func() {
		if p := recover(); p != nil {
			msg = fmt.Sprintf("panic: %v\n%s", p, debug.Stack())
		}
	}()
	f()
	return ""
}

// Par evaluates f for every i in [0,n) on all the workers.
func (r *Run) Par(n int64, f func(w *W, i int64)) {
	var next int64
	const chunk = 16
	ch := int64(chunk)
	if n < 2000 {
		ch = 1
	}
	var wg sync.WaitGroup
	for k := 0; k < r.Workers; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			w := &W{ID: k, R: r, out: map[string]int64{}}
			defer func() { w.done(); r.Outcomes(w.out) }()
			for {
				lo := atomic.AddInt64(&next, ch) - ch
				if lo >= n || r.Stopped() {
					return
				}
				hi := lo + ch
				if hi > n {
					hi = n
				}
				for i := lo; i < hi; i++ {
					if msg := Guard(func() { f(w, i) }); msg != "" {
						desc := ""
						c := &r.cur[k]
						c.mu.Lock()
						if c.desc != nil {
							desc = c.desc()
						}
						c.mu.Unlock()
						r.Violate(i, "panic", "panic while evaluating a case: "+firstLine(msg), map[string]any{"case": desc, "panic": msg})
					}
				}
			}
		}(k)
	}
	wg.Wait()
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func (r *Run) watchdog() {
	for {
		time.Sleep(2 * time.Second)
		for k := range r.cur {
			c := &r.cur[k]
			c.mu.Lock()
			hung := c.desc != nil && time.Since(c.at) > 120*time.Second
			desc := ""
			if hung {
				desc = c.desc()
			}
			c.mu.Unlock()
			if hung {
				r.Violate(-1, "hang", "a call did not terminate within 120 s", map[string]any{"case": desc})
				r.Finish()
			}
		}
		if time.Now().After(r.Deadline.Add(150 * time.Second)) {
			// a space without deadline polling: give up without a verdict on the rest
			r.incomplete.Store(true)
			r.Finish()
		}
	}
}

var finishOnce sync.Mutex

// Finish writes the evidence and replay files, prints the verdict and exits.
func (r *Run) Finish() {
	finishOnce.Lock() // never released: the process exits
	known := loadKnown(filepath.Join(r.VerifDir, "known_findings.txt"), r.Prop)
	r.mu.Lock()
	sort.SliceStable(r.viols, func(i, j int) bool { return r.viols[i].order < r.viols[j].order })
	var fresh []Violation
	seen := map[string]bool{}
	for _, v := range r.viols {
		if t, ok := known[v.Key]; ok {
			if !seen[v.Key] {
				fmt.Fprintf(r.Out, "KNOWN-FINDING: property=%s %s\n", r.Prop, t)
				seen[v.Key] = true
			}
			continue
		}
		fresh = append(fresh, v)
	}
	names := make([]string, 0, len(r.outcomes))
	for k := range r.outcomes {
		names = append(names, k)
	}
	sort.Strings(names)
	top := map[string]int64{}
	for i, k := range names {
		if i >= 40 {
			break
		}
		top[k] = r.outcomes[k]
	}
	if r.samples == nil {
		r.samples = []any{}
	}
	cov := map[string]any{
		"states": r.states, "transitions": r.transitions, "traces_validated_against_impl": r.traces,
		"samples": r.samples, "exhaustive": !r.incomplete.Load() && len(fresh) == 0, "distinct_outcomes": len(names), "outcomes": top, "spaces": r.spaces,
	}
	ev := map[string]any{"property": r.Prop, "tier": r.Tier, "seed": r.Seed, "level": "model_checking", "coverage": cov,
		"assumptions": append([]string{}, r.assumptions...), "wall_s": time.Since(r.Start).Seconds(), "violations": len(fresh)}
	r.mu.Unlock()
	_ = os.MkdirAll(filepath.Join(r.VerifDir, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	_ = os.WriteFile(filepath.Join(r.VerifDir, "evidence", r.Prop+".json"), append(b, '\n'), 0o644)
	fmt.Fprintf(r.Out, "%s %s: states=%d transitions=%d traces=%d outcomes=%d exhaustive=%v wall=%.1fs\n", r.Prop, r.Tier, r.states, r.transitions, r.traces, len(names), cov["exhaustive"], time.Since(r.Start).Seconds())
	code := 0
	if len(fresh) > 0 {
		code = 1
		dir := filepath.Join(r.VerifDir, "replays")
		_ = os.MkdirAll(dir, 0o755)
		for i, v := range fresh {
			if i >= 5 {
				fmt.Fprintf(r.Out, "... and %d more\n", len(fresh)-5)
				break
			}
			p := filepath.Join(dir, r.Prop+"-"+strconv.Itoa(i)+".json")
			rb, _ := json.MarshalIndent(map[string]any{"property": r.Prop, "key": v.Key, "what": v.What, "replay": v.Replay}, "", " ")
			_ = os.WriteFile(p, append(rb, '\n'), 0o644)
			fmt.Fprintf(r.Out, "VIOLATION property=%s replay=%s\n  %s\n", r.Prop, p, strings.ReplaceAll(clip(v.What, 1200), "\n", "\n  "))
		}
	}
	fmt.Fprintln(r.Out, doneMark)
	os.Exit(code)
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

const doneMark = "MC-DONE"

// known findings: lines "known: property=<id> key=<key> <text>"; "fixed:" lines suppress nothing.
func loadKnown(path, prop string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(path)
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: property="+prop+" key=") {
			continue
		}
		rest := strings.TrimPrefix(l, "known: property="+prop+" key=")
		key, text, _ := strings.Cut(rest, " ")
		m[key] = text
	}
	return m
}

// Main is the entry point: the parent supervises a child which does the work.
func Main(checks map[string]func(*Run)) {
	args := os.Args[1:]
	if len(args) < 2 {
		fmt.Println("usage: mc PROP quick|thorough")
		os.Exit(2)
	}
	prop, tier := args[0], args[1]
	f := checks[prop]
	if f == nil {
		fmt.Println("unknown property", prop)
		os.Exit(2)
	}
	if os.Getenv("MC_CHILD") == "" {
		supervise(prop, tier)
		return
	}
	r := &Run{Prop: prop, Tier: tier, Start: time.Now(), outcomes: map[string]int64{}, VerifDir: os.Getenv("MC_VERIF"), GQL: os.Getenv("MC_GQL"), Scratch: os.Getenv("MC_SCRATCH")}
	r.Seed, _ = strconv.Atoi(os.Getenv("VERIF_SEED"))
	r.Workers = 8
	if s := os.Getenv("MC_WORKERS"); s != "" {
		r.Workers, _ = strconv.Atoi(s)
	}
	budget := 300
	if tier == "thorough" {
		budget = 5400
	}
	if s := os.Getenv("MC_BUDGET"); s != "" {
		budget, _ = strconv.Atoi(s)
	}
	r.Deadline = r.Start.Add(time.Duration(budget) * time.Second)
	r.cur = make([]curCase, r.Workers+1)
	if p := os.Getenv("MC_TRACE"); p != "" {
		r.traceFile, _ = os.OpenFile(p, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o644)
	}
	r.Out = os.Stdout
	// code under test which prints goes to /dev/null (or to where a check redirects it)
	if null, err := os.OpenFile("/dev/null", os.O_RDWR, 0); err == nil {
		os.Stdout = null
	}
	go r.watchdog()
	if msg := Guard(func() { f(r) }); msg != "" {
		r.Violate(0, "panic", "panic during the check: "+firstLine(msg), map[string]any{"panic": msg})
	}
	r.Finish()
}

func supervise(prop, tier string) {
	self, _ := os.Executable()
	run := func(extra ...string) (int, string, bool, bool) {
		cmd := exec.Command(self, prop, tier)
		cmd.Env = append(os.Environ(), append([]string{"MC_CHILD=1", "GOTRACEBACK=all"}, extra...)...)
		var out bytes.Buffer
		cmd.Stdout = &out
		var errb tail
		cmd.Stderr = &errb
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		err := cmd.Run()
		s := out.String()
		done := strings.HasSuffix(s, doneMark+"\n")
		s = strings.TrimSuffix(s, doneMark+"\n")
		killed := false
		code := 0
		if err != nil {
			code = 2
			if ee, ok := err.(*exec.ExitError); ok {
				code = ee.ExitCode()
				if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() && ws.Signal() == syscall.SIGKILL {
					killed = true
				}
			}
		}
		if !done {
			s += "--- stderr:\n" + errb.String()
		}
		return code, s, done, killed
	}
	code, out, done, killed := run()
	if done {
		fmt.Print(out)
		os.Exit(code)
	}
	fmt.Printf("%s: exploration ended abnormally (exit %d); again with one worker\n%s\n", prop, code, clip(out, 3000))
	trace := filepath.Join(os.Getenv("MC_SCRATCH"), "trace.txt")
	code, out, done, killed = run("MC_WORKERS=1", "MC_TRACE="+trace)
	if done {
		fmt.Print(out)
		os.Exit(code)
	}
	if killed {
		fmt.Println("the exploration was killed (out of memory?)")
		os.Exit(2)
	}
	// the implementation ended the process (exit or fatal error) on a case of this property's space
	b, _ := os.ReadFile(trace)
	dir := filepath.Join(os.Getenv("MC_VERIF"), "replays")
	_ = os.MkdirAll(dir, 0o755)
	p := filepath.Join(dir, prop+"-crash.json")
	rb, _ := json.MarshalIndent(map[string]any{"property": prop, "what": "the process ended abnormally", "exit": code, "case": string(b), "output": clip(out, 20000)}, "", " ")
	_ = os.WriteFile(p, rb, 0o644)
	fmt.Printf("VIOLATION property=%s replay=%s\n  the implementation ended the process abnormally (exit %d) on a case\n%s\n", prop, p, code, clip(out, 2000))
	os.Exit(1)
}

type tail struct{ b []byte }

func (t *tail) Write(p []byte) (int, error) {
	t.b = append(t.b, p...)
	if len(t.b) > 1<<20 {
		t.b = append([]byte(nil), t.b[len(t.b)-(1<<19):]...)
	}
	return len(p), nil
}
func (t *tail) String() string { return string(t.b) }
