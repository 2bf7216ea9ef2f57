package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	lintcmd "github.com/CrowdStrike/gql/cmd/linter"
	"github.com/CrowdStrike/gql/pkg/compare"
	"github.com/CrowdStrike/gql/pkg/linter"
	"github.com/CrowdStrike/gql/utils"
	"github.com/vektah/gqlparser/v2/ast"

	e "verifmc/engine"
	m "verifmc/model"
)

// ---- the library calls ----

// world is what the calls of a process share: parsed schemas, and two of them which the caller edits.
type world struct {
	docs  []*ast.SchemaDocument
	state int // bit k: the k-th edit of the caller is in place
}

var pureTexts = []string{
	// tiny pairs, with lists of 1, 2, 3 and 5 elements (different spare capacities)
	"type A { a: Int b: Int c: Int } extend type A { d: Int } extend type A { e: Int f: Int } extend type B @k(x: 1) { g: Int h(p: Int q: Int r: Int): Int i: Int } extend type B @l { j: Int }",
	"type A { a: Int! b: Int } extend type A { d: Int e: Int } extend type A { f: String } extend type B @k(x: 2) { g: Int h(p: Int q: Int! s: Int = 1): Int } extend type B { j: Int k: Int } extend type B @l { z: Int }",
	// roots by name and explicit
	"type Query { a: Int } type Mutation { b: Int } directive @d on OBJECT | FIELD",
	"schema { query: Query } extend schema { mutation: M } type Query { a: Int } type M { b: Int } directive @d(a: Int) on FIELD | OBJECT | ENUM",
	"",
	// breaks most lint rules
	"type q { C(z: Int, first: Int): fooConnection D: aConnection }\n\"d\" type fooConnection { x: Int }\ntype barConnection { edges: X pageInfo: PageInfo! }\nenum E { b a B }\ninterface n { x(after: String): gConnection }\ninput I { A: Int }\nextend type q { E_e: Int }\nunion u = q",
	// edited by the caller
	"type T { a: Int b(x: Int): Int } enum E { V W } union U = T | X",
	"type lower { Upper: Int ok: Int } enum en { z y }",
	// tiny
	"type A { a: Int }",
	"extend type A { b: Int } extend type A { c: Int } enum A { x }",
}

var pureLintTexts = []string{
	"type q { C: Int }\nenum E { b a }\n",
	"#lint-disable\ntype q { C: Int }\nenum E { b a }\n",
	"type q { C: Int } #lint-disable-line type-caps\n#lint-disable-next-line enum-sorted-alphabetically\nenum E { b a }\n",
	"type q { C: Int }\n#lint-disable field-camel\ntype r { D: Int }\n#lint-enable field-camel\ntype s { E: Int }\n",
}

func newWorld() *world {
	w := &world{}
	es := edits()
	base := richBase()
	var sel []Edit
	for _, x := range es {
		ok := true
		for _, y := range sel {
			ok = ok && !conflicts(x, y)
		}
		if ok {
			sel = append(sel, x)
		}
	}
	for _, t := range append([]string{m.Render(base).Text(), m.Render(applyEdits(base, sel...)).Text()}, pureTexts...) {
		d, err := srcDoc(t)
		if err != nil {
			panic(fmt.Sprint("the parser wrapper rejects a valid schema: ", err, "\n", t))
		}
		w.docs = append(w.docs, d)
	}
	return w
}

// toggle makes or takes back an edit of a schema by its owner.
func (w *world) toggle(k int) {
	w.state ^= 1 << k
	on := w.state>>k&1 == 1
	switch k {
	case 0:
		d := w.docs[8]
		f := d.Definitions.ForName("T").Fields.ForName("a")
		ev := d.Definitions.ForName("E").EnumValues[0]
		if on {
			f.Type = ast.NonNullNamedType("Int", f.Type.Position)
			ev.Name = "CHANGED"
		} else {
			f.Type = ast.NamedType("Int", f.Type.Position)
			ev.Name = "V"
		}
	case 1:
		d := w.docs[9]
		t := d.Definitions[0]
		if on {
			t.Name, t.Fields[0].Name = "Upper", "lower"
		} else {
			t.Name, t.Fields[0].Name = "lower", "Upper"
		}
	}
}

type libCall struct {
	name       string
	docs       []int // the schemas it is given
	sequential bool  // prints: not part of the concurrent exploration
	toggles    bool
	tiny       bool
	run        func(w *world) string
}

func lines(l []string) string { sort.Strings(l); return strings.Join(l, "\n") }

func lintResult(l []linter.LintErrorWithMetadata) string {
	var out []string
	for _, x := range l {
		out = append(out, fmt.Sprintf("%d:%d %s %v", x.Line, x.Column, x.Rule, x.Err))
	}
	return fmt.Sprint(len(l), "\n") + lines(out)
}

// printed gives what f prints.
func printed(f func()) string {
	old := os.Stdout
	tmp, err := os.CreateTemp("", "vmcout")
	if err != nil {
		panic(err)
	}
	defer func() { tmp.Close(); os.Remove(tmp.Name()); os.Stdout = old }()
	os.Stdout = tmp
	f()
	_, _ = tmp.Seek(0, 0)
	b, err := io.ReadAll(tmp)
	if err != nil {
		panic(err)
	}
	return string(b)
}

func libCalls() (out []libCall) {
	cmp := func(tiny bool, i, j int) {
		out = append(out, libCall{name: fmt.Sprintf("compare(%d,%d)", i, j), docs: []int{i, j}, tiny: tiny, run: func(w *world) string {
			return lines(gotStrings(diffOf(w.docs[i], w.docs[j])))
		}})
	}
	for _, p := range [][2]int{{0, 1}, {1, 0}, {0, 0}, {2, 3}, {3, 2}, {2, 2}, {4, 5}, {5, 4}, {6, 2}, {7, 1}} {
		cmp(false, p[0], p[1])
	}
	cmp(true, 10, 11)
	cmp(true, 11, 10)
	cmp(true, 11, 11)
	cmp(true, 6, 11)
	cmp(false, 8, 10)
	cmp(false, 10, 8)
	for _, p := range [][2]int{{0, 1}, {3, 2}, {2, 2}} {
		p := p
		out = append(out, libCall{name: fmt.Sprintf("report(%d,%d)", p[0], p[1]), docs: p[:], sequential: true, run: func(w *world) string {
			s := ""
			s += printed(func() {
				g := compare.GroupChanges(compare.FindChangesInSchemas(w.docs[p[0]], w.docs[p[1]]))
				n := compare.ReportBreakingChanges(g[compare.Breaking], true)
				k := compare.ReportDangerousChanges(g[compare.Dangerous], false)
				j := compare.ReportNonBreakingChanges(g[compare.NonBreaking], true)
				fmt.Println(n, k, j)
			})
			return s
		}})
	}
	for _, d := range []int{0, 2, 7, 9, 11} {
		d := d
		out = append(out, libCall{name: fmt.Sprintf("rules(%d)", d), docs: []int{d}, tiny: d == 11, run: func(w *world) string {
			var l []string
			for _, x := range linter.AllTheRules {
				l = append(l, string(x.Name)+": "+lintResult(x.RuleFunction(w.docs[d])))
			}
			return lines(l)
		}})
	}
	for k, x := range linter.AllTheRules {
		k, x := k, x
		out = append(out, libCall{name: "rule " + string(x.Name), docs: []int{7}, run: func(w *world) string {
			return lintResult(linter.AllTheRules[k].RuleFunction(w.docs[7]))
		}})
	}
	for k, t := range pureLintTexts {
		t := t
		rules := [][]string{nil, {"type-caps", "field-camel"}, {"field-camel"}}
		out = append(out, libCall{name: fmt.Sprintf("lint text %d", k), run: func(w *world) string {
			fs, err := lintcmd.FindTheRulesToApply(rules[k%2])
			if err != nil {
				return err.Error()
			}
			return lintResult(lintcmd.Lint("s.graphql", t, fs))
		}})
	}
	out = append(out,
		libCall{name: "lint text 0 as another file", run: func(w *world) string {
			fs, _ := lintcmd.FindTheRulesToApply([]string{"field-camel"})
			return lintResult(lintcmd.Lint("t.graphql", pureLintTexts[0], fs))
		}},
		libCall{name: "rules to apply, edited by the caller", tiny: true, run: func(w *world) string {
			fs, err := lintcmd.FindTheRulesToApply(nil)
			s := fmt.Sprint(len(fs), err)
			for i := range fs {
				fs[i] = nil // the caller owns the list
			}
			_, err = lintcmd.FindTheRulesToApply([]string{"nosuch", "type-desc"})
			return fmt.Sprint(s, err, linter.AvailableRulesWithDescription())
		}},
		libCall{name: "lint files", sequential: true, run: func(w *world) string {
			return printed(func() {
				fs, _ := lintcmd.FindTheRulesToApply([]string{"TYPE-CAPS"})
				fmt.Println(lintcmd.FindLintErrors(map[string][]byte{"a": []byte(pureLintTexts[0]), "b": []byte(pureLintTexts[1])}, fs))
			})
		}},
		libCall{name: "parse and compare", tiny: true, run: func(w *world) string {
			a, err := utils.ParseSchema(map[string][]byte{"a": []byte(pureTexts[8]), "b": []byte(pureTexts[9])})
			b, err2 := utils.ParseSchema(map[string][]byte{"a": []byte(pureTexts[9]), "b": []byte("")})
			_, err3 := utils.ParseSchema(map[string][]byte{"a": []byte("type {")})
			return fmt.Sprint(err, err2, err3) + lines(gotStrings(diffOf(a, b)))
		}},
		libCall{name: "caller edits schema 8", toggles: true, run: func(w *world) string { w.toggle(0); return "" }},
		libCall{name: "caller edits schema 9", toggles: true, run: func(w *world) string { w.toggle(1); return "" }},
	)
	return
}

// dump writes everything reachable from a value.
func dump(v any) []byte {
	var b bytes.Buffer
	seen := map[uintptr]int{}
	var rec func(v reflect.Value)
	rec = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Pointer:
			if v.IsNil() {
				b.WriteString("nil ")
				return
			}
			p := v.Pointer()
			if n, ok := seen[p]; ok {
				b.WriteString("^" + strconv.Itoa(n) + " ")
				return
			}
			seen[p] = len(seen)
			b.WriteByte('&')
			rec(v.Elem())
		case reflect.Interface:
			if v.IsNil() {
				b.WriteString("nil ")
				return
			}
			rec(v.Elem())
		case reflect.Struct:
			b.WriteByte('{')
			for i := 0; i < v.NumField(); i++ {
				rec(v.Field(i))
			}
			b.WriteByte('}')
		case reflect.Slice:
			if v.IsNil() {
				b.WriteString("nil ")
				return
			}
			b.WriteByte('[')
			for i := 0; i < v.Len(); i++ {
				rec(v.Index(i))
			}
			b.WriteByte(']')
		case reflect.Map:
			b.WriteString("map" + strconv.Itoa(v.Len()))
		case reflect.String:
			b.WriteString(v.String())
			b.WriteByte(0)
		case reflect.Bool:
			b.WriteString(strconv.FormatBool(v.Bool()))
		case reflect.Int, reflect.Int64, reflect.Int32, reflect.Int8, reflect.Int16:
			b.WriteString(strconv.FormatInt(v.Int(), 10))
			b.WriteByte(' ')
		default:
			fmt.Fprintf(&b, "%s ", v.Kind())
		}
	}
	rec(reflect.ValueOf(v))
	return b.Bytes()
}

// ---- child processes ----

type task struct {
	Mode   string
	Calls  []int
	State  int
	Want   [][]string // [state][call]
	Seq    []int
	Pairs  [][2]int
	Bound  int
	Stride int
	Cur    string // file with the current step
	Out    string
	Until  int64
}

type taskViol struct{ Key, What, Where string }

type taskResult struct {
	Results                  []string
	Runs, Calls, Points, Max int64
	Blocked                  int64
	Cut                      bool
	Viol                     []taskViol
}

func (t *taskResult) add(key, what, where string) {
	if len(t.Viol) < 10 {
		t.Viol = append(t.Viol, taskViol{key, what, where})
	}
}

func safely(c *libCall, w *world) (s string) {
	if msg := e.Guard(func() { s = c.run(w) }); msg != "" {
		return msg
	}
	return s
}

// c14Child does one task in a process of its own.
func c14Child(file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		panic(err)
	}
	var t task
	if err := json.Unmarshal(b, &t); err != nil {
		panic(err)
	}
	if null, err := os.OpenFile("/dev/null", os.O_RDWR, 0); err == nil {
		os.Stdout = null
	}
	res := &taskResult{}
	switch t.Mode {
	case "fresh":
		childFresh(&t, res)
	case "history":
		childHistory(&t, res)
	case "inter":
		childInter(&t, res)
	case "race":
		childRace(&t, res)
	}
	b, _ = json.Marshal(res)
	if err := os.WriteFile(t.Out, b, 0o644); err != nil {
		panic(err)
	}
	os.Exit(0)
}

// childFresh makes the given calls, in a fresh process.
func childFresh(t *task, res *taskResult) {
	w := newWorld()
	for k := 0; k < 2; k++ {
		if t.State>>k&1 == 1 {
			w.toggle(k)
		}
	}
	cs := libCalls()
	for _, k := range t.Calls {
		res.Results = append(res.Results, safely(&cs[k], w))
	}
}

// childHistory makes a long sequence of calls and checks every result and every schema after every call.
func childHistory(t *task, res *taskResult) {
	w := newWorld()
	cs := libCalls()
	snap := make([][]byte, len(w.docs))
	for i, d := range w.docs {
		snap[i] = dump(d)
	}
	var recent []string
	for step, k := range t.Seq {
		if len(res.Viol) > 0 || time.Now().Unix() > t.Until {
			res.Cut = true
			return
		}
		c := &cs[k]
		recent = append(recent, c.name)
		if len(recent) > 6 {
			recent = recent[1:]
		}
		s := safely(c, w)
		res.Calls++
		if c.toggles {
			snap[8], snap[9] = dump(w.docs[8]), dump(w.docs[9])
			continue
		}
		if s != t.Want[w.state][k] {
			res.add("history:"+c.name, fmt.Sprintf("after %d calls, %s gives another result than in a fresh process\n--- fresh:\n%s\n--- now:\n%s", step, c.name, clipS(t.Want[w.state][k], 900), clipS(s, 900)), strings.Join(recent, "; "))
		}
		for _, d := range c.docs {
			if now := dump(w.docs[d]); !bytes.Equal(now, snap[d]) {
				res.add("modified:"+c.name, fmt.Sprintf("%s modified the schema it was given: %s", c.name, firstDiff(snap[d], now)), strings.Join(recent, "; "))
			}
		}
		if step%97 == 0 {
			for d := range w.docs {
				if now := dump(w.docs[d]); !bytes.Equal(now, snap[d]) {
					res.add("modified:"+c.name, fmt.Sprintf("schema %d was modified: %s", d, firstDiff(snap[d], now)), strings.Join(recent, "; "))
				}
			}
		}
	}
}

func firstDiff(a, b []byte) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	from := i - 60
	if from < 0 {
		from = 0
	}
	cut := func(x []byte) string {
		to := i + 60
		if to > len(x) {
			to = len(x)
		}
		return strconv.Quote(string(x[from:to]))
	}
	return "before ..." + cut(a) + "... after ..." + cut(b)
}

// sched runs two calls, of which only one makes progress at any time.
type sched struct {
	seg     []int64 // lengths of the segments (in statements) after which the other call continues
	left    int64
	cur     int
	done    [2]bool
	wake    [2]chan struct{}
	free    atomic.Bool
	ticks   atomic.Int64
	points  int64
	finish  chan int
	swapped int
}

func (s *sched) hook() {
	if s.free.Load() {
		return
	}
	s.ticks.Add(1)
	s.points++
	if s.left < 0 {
		return
	}
	s.left--
	if s.left > 0 {
		return
	}
	s.next()
	me := s.cur
	other := 1 - me
	if s.done[other] {
		return
	}
	s.cur = other
	s.swapped++
	s.wake[other] <- struct{}{}
	<-s.wake[me]
}

func (s *sched) next() {
	if len(s.seg) == 0 {
		s.left = -1
		return
	}
	s.left = s.seg[0]
	s.seg = s.seg[1:]
}

// runSched gives the results of two calls under a schedule.
func runSched(a, b *libCall, w *world, seg []int64) (ra, rb string, points int64, swaps int, blocked bool) {
	s := &sched{seg: seg, finish: make(chan int, 2)}
	s.wake[0], s.wake[1] = make(chan struct{}, 2), make(chan struct{}, 2)
	s.next()
	setPointHook(s.hook)
	var out [2]string
	body := func(i int, c *libCall) {
		<-s.wake[i]
		out[i] = safely(c, w)
		if !s.free.Load() {
			s.done[i] = true
			if !s.done[1-i] {
				s.cur = 1 - i
				s.left = -1
				if len(s.seg) > 0 {
					s.next()
				}
				s.wake[1-i] <- struct{}{}
			}
		}
		s.finish <- i
	}
	go body(0, a)
	go body(1, b)
	s.wake[0] <- struct{}{}
	n := 0
	last := int64(-1)
	timer := time.NewTimer(300 * time.Millisecond)
	defer timer.Stop()
	for n < 2 {
		select {
		case <-s.finish:
			n++
		case <-timer.C:
			if now := s.ticks.Load(); now == last && !s.free.Load() { // the running call waits for the other one (a lock)
				blocked = true
				s.free.Store(true)
				for i := range s.wake {
					select {
					case s.wake[i] <- struct{}{}:
					default:
					}
				}
			} else {
				last = now
			}
			timer.Reset(300 * time.Millisecond)
		}
	}
	setPointHook(nil)
	return out[0], out[1], s.points, s.swapped, blocked
}

// childInter explores the interleavings of pairs of calls with at most Bound preemptions.
func childInter(t *task, res *taskResult) {
	w := newWorld()
	cs := libCalls()
	snap := make([][]byte, len(w.docs))
	for i, d := range w.docs {
		snap[i] = dump(d)
	}
	steps := func(c *libCall) int64 {
		var n int64
		setPointHook(func() { n++ })
		safely(c, w)
		setPointHook(nil)
		return n
	}
	for _, p := range t.Pairs {
		a, b := &cs[p[0]], &cs[p[1]]
		na, nb := steps(a), steps(b)
		if na+nb > res.Max {
			res.Max = na + nb
		}
		one := func(seg ...int64) bool {
			if len(res.Viol) > 0 {
				return false
			}
			if time.Now().Unix() > t.Until {
				res.Cut = true
				return false
			}
			where := fmt.Sprintf("%s || %s, switching after %v statements", a.name, b.name, seg)
			ra, rb, pts, _, blocked := runSched(a, b, w, seg)
			res.Runs++
			res.Points += pts
			if blocked {
				res.Blocked++
				if res.Blocked > 200 {
					res.Cut = true
					return false
				}
			}
			for i, got := range []string{ra, rb} {
				if want := t.Want[0][p[i]]; got != want {
					res.add("concurrent:"+a.name+"||"+b.name, fmt.Sprintf("two concurrent calls disturb each other: %s gives another result than alone\n--- alone:\n%s\n--- concurrently:\n%s", cs[p[i]].name, clipS(want, 900), clipS(got, 900)), where)
				}
			}
			for _, d := range append(append([]int{}, a.docs...), b.docs...) {
				if now := dump(w.docs[d]); !bytes.Equal(now, snap[d]) {
					res.add("concurrent-modified:"+a.name+"||"+b.name, fmt.Sprintf("schema %d was modified: %s", d, firstDiff(snap[d], now)), where)
				}
			}
			return true
		}
		for i := int64(1); i <= na; i++ {
			if t.Bound == 1 {
				if !one(i) {
					return
				}
				continue
			}
			for j := int64(1); j <= nb; j++ {
				if !one(i, j) {
					return
				}
			}
		}
	}
}

// childRace runs pairs of calls concurrently under the race detector: executions without conflicting accesses are
// equivalent to all the other interleavings of the pair.
func childRace(t *task, res *taskResult) {
	w := newWorld()
	cs := libCalls()
	for k, p := range t.Pairs {
		if time.Now().Unix() > t.Until {
			res.Cut = true
			return
		}
		a, b := &cs[p[0]], &cs[p[1]]
		_ = os.WriteFile(t.Cur, []byte(strconv.Itoa(k)), 0o644)
		for rep := 0; rep < 2; rep++ {
			start := make(chan struct{})
			var wg sync.WaitGroup
			var out [2]string
			wg.Add(2)
			go func() { defer wg.Done(); <-start; out[0] = safely(a, w) }()
			go func() { defer wg.Done(); <-start; out[1] = safely(b, w) }()
			close(start)
			wg.Wait()
			res.Runs++
			for i, got := range out {
				if want := t.Want[0][p[i]]; got != want {
					res.add("concurrent:"+a.name+"||"+b.name, fmt.Sprintf("two concurrent calls disturb each other: %s gives another result than alone\n--- alone:\n%s\n--- concurrently:\n%s", cs[p[i]].name, clipS(want, 900), clipS(got, 900)), a.name+" || "+b.name)
				}
			}
		}
	}
}

// ---- the parent ----

func runTask(r *e.Run, bin string, id int, t *task) (*taskResult, string) {
	dir := filepath.Join(r.Scratch, "task"+strconv.Itoa(id))
	if err := os.MkdirAll(dir, 0o755); err != nil {
		panic(err)
	}
	t.Out, t.Cur = filepath.Join(dir, "out.json"), filepath.Join(dir, "cur")
	_ = os.Remove(t.Out)
	b, _ := json.Marshal(t)
	in := filepath.Join(dir, "task.json")
	if err := os.WriteFile(in, b, 0o644); err != nil {
		panic(err)
	}
	cmd := exec.Command(bin)
	cmd.Env = append(os.Environ(), "MC_TASK="+in, "GORACE=halt_on_error=1 exitcode=66", "GOTRACEBACK=all", "TMPDIR="+dir)
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var errb bytes.Buffer
	cmd.Stderr = &errb
	done := make(chan error, 1)
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	go func() { done <- cmd.Wait() }()
	var err error
	select {
	case err = <-done:
	case <-time.After(time.Until(time.Unix(t.Until, 0)) + 120*time.Second):
		_ = cmd.Process.Kill()
		<-done
		err = fmt.Errorf("the process hangs")
	}
	out, rerr := os.ReadFile(t.Out)
	if rerr != nil {
		return nil, fmt.Sprintf("the process ended (%v) instead of finishing\n%s", err, clipS(errb.String(), 3000))
	}
	var res taskResult
	if err := json.Unmarshal(out, &res); err != nil {
		return nil, "bad result: " + err.Error()
	}
	return &res, ""
}

// deBruijn is a cyclic sequence over k letters which has every word of length n exactly once.
func deBruijn(k, n int) []int {
	a := make([]int, k*n+1)
	var seq []int
	var db func(t, p int)
	db = func(t, p int) {
		if t > n {
			if n%p == 0 {
				seq = append(seq, a[1:p+1]...)
			}
			return
		}
		a[t] = a[t-p]
		db(t+1, p)
		for j := a[t-p] + 1; j < k; j++ {
			a[t] = j
			db(t+1, t)
		}
	}
	db(1, 1)
	return seq
}

func c14(r *e.Run) {
	self, _ := os.Executable()
	instr, race := os.Getenv("MC_INSTR"), os.Getenv("MC_RACE")
	cs := libCalls()
	var names []string
	for _, c := range cs {
		names = append(names, c.name)
	}
	until := r.Deadline.Unix()
	want := make([][]string, 4)
	for s := range want {
		want[s] = make([]string, len(cs))
	}
	viol := func(order int64, v taskViol) {
		r.Violate(order, v.Key, v.What+"\n"+v.Where, map[string]any{"where": v.Where, "what": v.What, "schemas": pureTexts, "calls": names})
	}
	// 1. every call alone in a fresh process
	r.Par(int64(4*len(cs)), func(w *e.W, i int64) {
		s, k := int(i)/len(cs), int(i)%len(cs)
		w.Case(func() string { return names[k] })
		res, bad := runTask(r, self, w.ID, &task{Mode: "fresh", Calls: []int{k}, State: s, Until: until})
		if bad != "" {
			viol(i, taskViol{"fresh:" + names[k], bad, names[k]})
			return
		}
		want[s][k] = res.Results[0]
		r.AddTransitions(1)
		if strings.HasPrefix(want[s][k], "panic") {
			viol(i, taskViol{"fresh:" + names[k], want[s][k], names[k]})
		}
	})
	if r.Stopped() {
		return
	}
	distinct := map[string]bool{}
	for s := range want {
		for k := range cs {
			distinct[want[s][k]] = true
		}
	}
	r.AddStates(len(distinct))
	r.Space("single calls in a fresh process", "calls", len(cs), "schema_states", 4, "distinct_results", len(distinct))
	var order int64 = 1000
	// 2. all pairs of calls from a fresh process
	nPairs := int64(len(cs) * len(cs))
	r.Par(nPairs, func(w *e.W, i int64) {
		a, b := int(i)/len(cs), int(i)%len(cs)
		w.Case(func() string { return names[a] + "; " + names[b] })
		res, bad := runTask(r, self, w.ID, &task{Mode: "fresh", Calls: []int{a, b, a, b}, Until: until})
		where := "fresh process: " + names[a] + "; " + names[b] + "; " + names[a] + "; " + names[b]
		if bad != "" {
			viol(order+i, taskViol{"pair:" + where, bad, where})
			return
		}
		r.AddTransitions(4)
		r.AddTraces(1)
		state := 0
		for n, k := range []int{a, b, a, b} {
			if cs[k].toggles {
				state ^= 1 << (k - (len(cs) - 2))
				continue
			}
			if res.Results[n] != want[state][k] {
				viol(order+i, taskViol{"pair:" + where, fmt.Sprintf("call %d, %s, gives another result than in a fresh process\n--- fresh:\n%s\n--- now:\n%s", n+1, names[k], clipS(want[state][k], 900), clipS(res.Results[n], 900)), where})
			}
		}
	})
	order += nPairs
	r.Space("pairs of calls from a fresh process, twice", "histories", nPairs)
	// 3. histories which contain every sequence of calls up to a length
	depth := e.Pick(r, 3, 4)
	seq := deBruijn(len(cs), depth)
	if r.Thorough() {
		seq = append(seq, deBruijn(len(cs), 3)...)
	}
	for k := range cs {
		for i := 0; i < 300; i++ {
			seq = append(seq, k)
		}
		for j := range cs {
			seq = append(seq, j)
		}
	}
	parts := r.Workers
	per := (len(seq) + parts - 1) / parts
	var calls int64
	r.Par(int64(parts), func(w *e.W, i int64) {
		lo, hi := int(i)*per, int(i+1)*per+depth
		if hi > len(seq) {
			hi = len(seq)
		}
		w.Case(func() string { return "history" })
		stop := keepAlive(w, "history")
		res, bad := runTask(r, self, w.ID, &task{Mode: "history", Want: want, Seq: seq[lo:hi], Until: until})
		stop()
		if bad != "" {
			viol(order+i, taskViol{"history", bad, fmt.Sprintf("history part %d", i)})
			return
		}
		if res.Cut && len(res.Viol) == 0 {
			r.Stopped()
		}
		atomic.AddInt64(&calls, res.Calls)
		r.AddTransitions(int(res.Calls))
		r.AddTraces(int(res.Calls))
		for _, v := range res.Viol {
			viol(order+i, v)
		}
	})
	order += 1000
	r.Space(fmt.Sprintf("histories with all sequences of %d calls", depth), "calls", calls, "alphabet", len(cs))
	if r.Stopped() {
		return
	}
	// 4. two concurrent calls
	var conc, tiny []int
	for k, c := range cs {
		if !c.sequential && !c.toggles {
			conc = append(conc, k)
			if c.tiny {
				tiny = append(tiny, k)
			}
		}
	}
	inter := func(title string, set []int, bound int) {
		if instr == "" || r.Stopped() {
			return
		}
		var pairs [][2]int
		for _, a := range set {
			for _, b := range set {
				pairs = append(pairs, [2]int{a, b})
			}
		}
		var runs, points, max, blocked int64
		r.Par(int64(len(pairs)), func(w *e.W, i int64) {
			p := pairs[i]
			stop := keepAlive(w, names[p[0]]+" || "+names[p[1]])
			res, bad := runTask(r, instr, w.ID, &task{Mode: "inter", Want: want, Pairs: [][2]int{p}, Bound: bound, Until: until})
			stop()
			if bad != "" {
				viol(order+i, taskViol{"inter:" + names[p[0]] + "||" + names[p[1]], bad, names[p[0]] + " || " + names[p[1]]})
				return
			}
			if res.Cut && len(res.Viol) == 0 {
				r.Cut()
			}
			atomic.AddInt64(&runs, res.Runs)
			atomic.AddInt64(&points, res.Points)
			atomic.AddInt64(&blocked, res.Blocked)
			for {
				m := atomic.LoadInt64(&max)
				if res.Max <= m || atomic.CompareAndSwapInt64(&max, m, res.Max) {
					break
				}
			}
			r.AddTransitions(int(res.Points))
			r.AddTraces(int(res.Runs))
			for _, v := range res.Viol {
				viol(order+i, v)
			}
		})
		order += int64(len(pairs))
		r.AddStates(int(runs))
		r.Space(title, "pairs", len(pairs), "schedules", runs, "statements_executed", points, "statements_of_the_longest_pair", max, "preemption_bound", bound, "schedules_with_a_wait", blocked)
	}
	inter("two concurrent calls, one preemption at any statement", conc, 1)
	inter("two concurrent calls on tiny schemas, two preemptions at any statements", tiny, 2)
	if instr == "" {
		r.Assume("the instrumented build failed: interleavings were not explored")
	}
	// 5. conflicting accesses
	if race != "" && !r.Stopped() {
		var pairs [][2]int
		for _, a := range conc {
			for _, b := range conc {
				if a <= b {
					pairs = append(pairs, [2]int{a, b})
				}
			}
		}
		parts := 4 * r.Workers
		var runs int64
		r.Par(int64(parts), func(w *e.W, i int64) {
			var mine [][2]int
			for k := int(i); k < len(pairs); k += parts {
				mine = append(mine, pairs[k])
			}
			stop := keepAlive(w, "conflicting accesses")
			defer stop()
			t := &task{Mode: "race", Want: want, Pairs: mine, Until: until}
			res, bad := runTask(r, race, w.ID, t)
			if bad != "" {
				k := 0
				if b, err := os.ReadFile(t.Cur); err == nil {
					k, _ = strconv.Atoi(string(b))
				}
				p := mine[k]
				where := names[p[0]] + " || " + names[p[1]]
				viol(order+i, taskViol{"race:" + where, "two concurrent calls access the same memory, and one of them writes\n" + bad, where})
				return
			}
			atomic.AddInt64(&runs, res.Runs)
			r.AddTransitions(int(res.Runs))
			for _, v := range res.Viol {
				viol(order+i, v)
			}
		})
		r.Space("pairs of calls under the race detector", "pairs", len(pairs), "runs", runs)
	} else if race == "" {
		r.Assume("the race detector is not available: conflicting accesses were not looked for")
	}
	r.Sample(map[string]any{"call": names[3], "schemas": []string{pureTexts[0], pureTexts[1]}, "result": want[0][3]})
	r.Assume("a statement is the unit of interleaving; finer ones are covered by the absence of conflicting memory accesses (happens-before race detection on every pair of calls)", "the vendored parser is not instrumented: it runs atomically", "printing functions are part of the sequential histories only")
}

// keepAlive keeps a case with a long-running child process from being taken for a hang.
func keepAlive(w *e.W, what string) func() {
	stop := make(chan struct{})
	w.Case(func() string { return what })
	go func() {
		for {
			select {
			case <-stop:
				return
			case <-time.After(20 * time.Second):
				w.Case(func() string { return what })
			}
		}
	}()
	return func() { close(stop) }
}
