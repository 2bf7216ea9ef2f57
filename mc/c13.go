package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	e "verifmc/engine"
	m "verifmc/model"
)

// orderCase is one invocation of the command.
type orderCase struct {
	name  string
	files fileSet // relative to the scratch directory; "dir:" entries are directories
	args  []string
	stdin []byte
}

func (c *orderCase) text() string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%s: gql %s\n", c.name, strings.Join(c.args, " "))
	for _, n := range sortedKeys(c.files) {
		fmt.Fprintf(&sb, "=== %s\n%s\n", n, clipS(c.files[n], 700))
	}
	return sb.String()
}

func (c *orderCase) lay(dir string, names []string) {
	for _, n := range names {
		p := filepath.Join(dir, n)
		if c.files[n] == "\x00dir" {
			if err := os.MkdirAll(p, 0o755); err != nil {
				panic(err)
			}
			continue
		}
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			panic(err)
		}
		putFile(filepath.Dir(p), filepath.Base(p), c.files[n])
	}
}

// ranged is one iteration over a map of the program under control.
type ranged struct {
	site string
	n    int
}

// runOrdered runs the instrumented command with the given orders of its map iterations.
func runOrdered(bin, dir, log string, choices [][]int, all string, c *orderCase) (CLI, []ranged) {
	var sp []string
	for i, p := range choices {
		if p == nil {
			continue
		}
		var s []string
		for _, x := range p {
			s = append(s, strconv.Itoa(x))
		}
		sp = append(sp, fmt.Sprintf("%d:%s", i, strings.Join(s, ",")))
	}
	env := []string{"VMC_LOG=" + log, "VMC_ORDERS=" + strings.Join(sp, ";"), "VMC_ALL=" + all}
	out := runEnv(bin, dir, c.stdin, 60*time.Second, env, c.args...)
	b, err := os.ReadFile(log)
	if err != nil {
		panic(err)
	}
	var rs []ranged
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) != 2 {
			continue
		}
		n, _ := strconv.Atoi(f[1])
		rs = append(rs, ranged{f[0], n})
	}
	return out, rs
}

// orderSpaceCLI explores the iteration orders of every case: all of them while their number is at most full,
// otherwise all with at most bound iterations out of the canonical order.
func orderSpaceCLI(r *e.Run, name string, order *int64, cases []*orderCase, full, bound int) {
	instr := os.Getenv("MC_GQL_INSTR")
	b := *order
	*order += int64(len(cases))
	var max, runs int64
	type stat struct {
		runs, max int64
		sites     map[string]int64
	}
	st := make([]stat, r.Workers)
	r.Par(int64(len(cases)), func(w *e.W, i int64) {
		c := cases[i]
		dir := workDir(w, "o")
		emptyDir(dir)
		c.lay(dir, sortedKeys(c.files))
		w.Case(c.text)
		real := runBin(r.GQL, dir, c.stdin, 60*time.Second, c.args...)
		w.Outcome(fmt.Sprintf("exit status %d", real.Code))
		bad := func(how string, got CLI) {
			r.Violate(b+i, "order:"+name+":"+c.name, fmt.Sprintf("the output depends on %s\n%s\n--- one run:\n%s\n--- other run:\n%s", how, clipS(c.text(), 1500), real, got), map[string]any{"files": c.files, "args": c.args, "difference": how, "one": real, "other": got})
		}
		same := func(x CLI) bool { return x.Out == real.Out && x.Code == real.Code && x.Hung == real.Hung }
		repeats := 2
		if instr == "" {
			repeats = 12
		}
		for k := 0; k < repeats; k++ {
			r.AddTransitions(1)
			if x := runBin(r.GQL, dir, c.stdin, 60*time.Second, c.args...); !same(x) {
				bad("the run (same files, same flags)", x)
				return
			}
		}
		if instr == "" {
			return
		}
		log := filepath.Join(filepath.Dir(dir), "vmc.log")
		s := &st[w.ID]
		if s.sites == nil {
			s.sites = map[string]int64{}
		}
		mine := int64(0)
		stop := false
		var dfs func(prefix [][]int, deviations int, limit int)
		limit := bound
		dfs = func(prefix [][]int, deviations, limit int) {
			if stop || r.Stopped() {
				return
			}
			x, rs := runOrdered(instr, dir, log, prefix, "", c)
			mine++
			r.AddTransitions(1)
			r.AddTraces(1)
			if len(prefix) == 0 {
				total := 1
				for _, g := range rs {
					s.sites[g.site]++
					total *= len(perms(g.n)) + 1
					if total > full {
						total = full + 1
					}
				}
				if total <= full {
					limit = len(rs) + 1000
				}
			}
			if !same(x) {
				var how []string
				for k, p := range prefix {
					if p != nil && k < len(rs) {
						how = append(how, fmt.Sprintf("the order of iteration %d over the map at %s (%v)", k, rs[k].site, p))
					}
				}
				if how == nil {
					how = []string{"the order of maps (canonical order)"}
				}
				bad(strings.Join(how, ", "), x)
				stop = true
				return
			}
			if deviations >= limit {
				return
			}
			for k := len(prefix); k < len(rs); k++ {
				for _, p := range perms(rs[k].n) {
					next := make([][]int, k+1)
					copy(next, prefix)
					next[k] = p
					dfs(next, deviations+1, limit)
				}
			}
		}
		dfs(nil, 0, limit)
		for _, all := range []string{"rev", "rot1", "rot2"} {
			if stop || r.Stopped() {
				break
			}
			mine++
			r.AddTransitions(1)
			if x, _ := runOrdered(instr, dir, log, nil, all, c); !same(x) {
				bad("the order of all the maps ("+all+")", x)
				stop = true
			}
		}
		s.runs += mine
		if mine > s.max {
			s.max = mine
		}
	})
	sites := map[string]int64{}
	for _, s := range st {
		runs += s.runs
		if s.max > max {
			max = s.max
		}
		for k, v := range s.sites {
			sites[k] += v
		}
	}
	r.AddStates(len(cases))
	r.Space(name, "cases", len(cases), "ordered_runs", runs, "most_orders_of_a_case", max, "all_orders_while_at_most", full, "otherwise_deviations", bound, "map_iterations_under_control", sites)
	if len(cases) > 0 {
		c := cases[len(cases)/2]
		r.Sample(map[string]any{"space": name, "files": c.files, "args": c.args})
	}
}

var globs = []string{"-o", "old/*.graphql", "-n", "new/*.graphql"}

func compareArgs(flags ...string) []string {
	return append(append([]string{"compare"}, globs...), flags...)
}

func oneLine(text string) string { return strings.Join(toks(text), " ") + "\n" }

func put(fs fileSet, dir string, texts ...string) {
	for i, t := range texts {
		fs[fmt.Sprintf("%s/%c.graphql", dir, 'a'+rune(i))] = t
	}
}

func c13(r *e.Run) {
	if os.Getenv("MC_GQL_INSTR") == "" {
		r.Assume("the instrumented build failed: map orders were sampled by repetition only")
	}
	var order int64
	flags := [][]string{nil, {"-e"}}
	if r.Thorough() {
		flags = [][]string{nil, {"-e"}, {"-b"}, {"-b", "-e"}}
	}
	// 1. a few types, each changed in one of several ways, all declared at the same or at different positions
	states := []struct{ old, new string }{
		{"type %s { a: Int b: Int }", "type %s { b: Int }"},                                             // breaking
		{"type %s { a: Int b: Int }", "type %s { a: Int b: Int c: Int d: Int }"},                        // two additions
		{"enum %s { A }", "enum %s { A B }"},                                                            // dangerous
		{"\"x\" input %s { a: Int = 1 }", "\"y\" input %s { a: Int = 2 }"},                              // non-breaking and dangerous
		{"union %s = Q extend type %s { x: Int }", "union %s = P extend type %s @d { x: Int! y: Int }"}, // definition and extension of one name
	}
	var cases []*orderCase
	k := 3
	n := 1
	for i := 0; i < k; i++ {
		n *= len(states)
	}
	for code := 0; code < n; code++ {
		for lay := 0; lay < 3; lay++ {
			var o, nw []string
			for i, c := 0, code; i < k; i, c = i+1, c/len(states) {
				name := string(rune('A' + i))
				s := states[c%len(states)]
				o = append(o, strings.ReplaceAll(s.old, "%s", name))
				nw = append(nw, strings.ReplaceAll(s.new, "%s", name))
			}
			for _, fl := range flags {
				c := &orderCase{name: fmt.Sprintf("types %d layout %d %v", code, lay, fl), files: fileSet{}, args: compareArgs(fl...)}
				switch lay {
				case 0: // one line
					put(c.files, "old", strings.Join(o, " "))
					put(c.files, "new", strings.Join(nw, " "))
				case 1: // the same line of different files
					put(c.files, "old", o...)
					put(c.files, "new", nw...)
				case 2:
					put(c.files, "old", strings.Join(o, "\n"))
					put(c.files, "new", strings.Join(nw, "\n\n"))
				}
				if lay != 1 || fl == nil || r.Thorough() {
					cases = append(cases, c)
				}
			}
		}
	}
	orderSpaceCLI(r, "three changed types, all orders", &order, cases, 20000, 1)
	// 2. many edits of a rich schema on a few lines
	cases = nil
	base := richBase()
	es := edits()
	seen := map[string]bool{}
	for st := range es {
		var sel []Edit
		for d := 0; d < len(es); d++ {
			x := es[(st+d)%len(es)]
			ok := true
			for _, y := range sel {
				ok = ok && !conflicts(x, y)
			}
			if ok {
				sel = append(sel, x)
			}
		}
		s := applyEdits(base, sel...)
		key := m.Render(s).Text()
		if seen[key] {
			continue
		}
		seen[key] = true
		for _, files := range []int{1, 2} {
			for dir := 0; dir < 2; dir++ {
				a, b := base, s
				if dir == 1 {
					a, b = s, base
				}
				c := &orderCase{name: fmt.Sprintf("edits from %s, %d files, direction %d", es[st].Name, files, dir), files: fileSet{}, args: compareArgs(flags[(st+files+dir)%len(flags)]...)}
				for side, x := range map[string]*m.Schema{"old": a, "new": b} {
					for _, t := range m.Render(x.Spread(files, 0), namesFor(side, files)...).Texts {
						c.files[fmt.Sprintf("%s/%d.graphql", side, len(c.files))] = oneLine(t)
					}
				}
				cases = append(cases, c)
			}
		}
	}
	if !r.Thorough() && len(cases) > 64 {
		cases = cases[:64]
	}
	orderSpaceCLI(r, "maximal sets of edits, one line per file", &order, cases, 40, e.Pick(r, 1, 1))
	// 3. more changed types at one position than a stable small sort handles
	cases = nil
	for _, cnt := range e.Pick(r, []int{4, 5, 8, 13, 20}, []int{4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 16, 20, 30, 40}) {
		for _, fl := range [][]string{nil, {"-e"}} {
			for kind := range states {
				var o, nw []string
				for i := 0; i < cnt; i++ {
					name := fmt.Sprintf("T%02d", i)
					o = append(o, strings.ReplaceAll(states[kind].old, "%s", name))
					nw = append(nw, strings.ReplaceAll(states[kind].new, "%s", name))
				}
				c := &orderCase{name: fmt.Sprintf("%d types of kind %d %v", cnt, kind, fl), files: fileSet{}, args: compareArgs(fl...)}
				put(c.files, "old", strings.Join(o, " "))
				put(c.files, "new", strings.Join(nw, " "))
				cases = append(cases, c)
			}
		}
	}
	orderSpaceCLI(r, "many types at one position", &order, cases, 130, e.Pick(r, 1, 1))
	// 4. files which cannot be used, or contradict each other
	contents := []string{"type %s { a: Int }", "type {", "", "type X { a: Int }", "type X { b: Int } extend type X @k", "\x00dir", "type %s { a: Int } schema { query: %s }", "directive @d on OBJECT directive @%s on FIELD"}
	cases = nil
	nc := len(contents)
	for code := 0; code < nc*nc*nc; code++ {
		var ts []string
		for i, c := 0, code; i < 3; i, c = i+1, c/nc {
			ts = append(ts, strings.ReplaceAll(contents[c%nc], "%s", string(rune('A'+i))))
		}
		for side := 0; side < 2; side++ {
			c := &orderCase{name: fmt.Sprintf("contents %d side %d", code, side), files: fileSet{}, args: compareArgs()}
			a, b := "old", "new"
			if side == 1 {
				a, b = b, a
			}
			put(c.files, a, ts...)
			put(c.files, b, "type X { a: String } enum A { V }", "type B { c: Int } schema { query: B }")
			cases = append(cases, c)
		}
	}
	orderSpaceCLI(r, "three files of all kinds of contents, compared", &order, cases, 20000, 1)
	// 5. lint of several files
	lints := []string{"\"d\"\ntype A { a: Int }\n", "type a_ { B: Int }\nenum e { z a }\n", "type {", "", "#lint-disable\ntype b { C: Int }\n", "\x00dir"}
	nl := len(lints)
	cases = nil
	files := e.Pick(r, 3, 4)
	cnt := 1
	for i := 0; i < files; i++ {
		cnt *= nl
	}
	for code := 0; code < cnt; code++ {
		var ts []string
		for i, c := 0, code; i < files; i, c = i+1, c/nl {
			ts = append(ts, lints[c%nl])
		}
		for _, rules := range [][]string{nil, {"-r", "type-caps,enum-caps"}} {
			c := &orderCase{name: fmt.Sprintf("lint %d %v", code, rules), files: fileSet{}, args: append([]string{"lint", "-f", "s/*.graphql"}, rules...)}
			put(c.files, "s", ts...)
			cases = append(cases, c)
		}
	}
	orderSpaceCLI(r, "lint of files of all kinds of contents", &order, cases, 20000, 2)
	// 6. one rich document, every command line
	cases = nil
	lintText := "type q { C(z: Int, a: Int): fooConnection b: Int B: Int }\ntype fooConnection { x: Int }\nenum E { b a B }\n"
	for _, rules := range [][]string{nil, {"-r", "enum-sorted-alphabetically"}, {"-r", "type-caps,field-camel,type-desc"}, {"-r", "type-desc", "-r", "type-caps"}, {"-r", "nosuch"}, {"-r", "nosuch,other"}} {
		cases = append(cases,
			&orderCase{name: fmt.Sprint("stdin ", rules), files: fileSet{}, stdin: []byte(lintText), args: append([]string{"lint"}, rules...)},
			&orderCase{name: fmt.Sprint("five files ", rules), files: fileSet{"s/a": lintText, "s/b": "\n" + lintText, "s/c": lintText, "s/d": "", "s/e": lintText}, args: append([]string{"lint", "-f", "s/*"}, rules...)})
	}
	for _, a := range [][]string{{}, {"--help"}, {"lint", "--help"}, {"compare", "--help"}, {"compare"}, {"compare", "-o", "s/a", "-n", "s/a"}, {"compare", "-o", "nosuch", "-n", "s/a"}, {"lint", "-f", "nosuch"}, {"lint", "-f", "["}, {"nosuch"}, {"lint", "--nosuch"}} {
		cases = append(cases, &orderCase{name: fmt.Sprint("command line ", a), files: fileSet{"s/a": lintText}, args: a})
	}
	orderSpaceCLI(r, "command lines", &order, cases, 20000, 2)
	creationOrders(r, &order)
	r.Assume("the program's own maps are the only source of nondeterminism under control; orders beyond the stated permutations (n>5: all transpositions, rotations and the reversal) are not explored", "the third-party modules do not iterate over maps (checked by reading gqlparser's parser)")
}

// creationOrders writes the same files in every order: directory order must not matter.
func creationOrders(r *e.Run, order *int64) {
	files := fileSet{
		"old/a.graphql": "type A { a: Int }", "old/b.graphql": "type B { a: Int } type A { b: Int }", "old/sub/c.graphql": "type C { a: Int }", "new/a.graphql": "type A { c: Int }\n", "new/z.graphql": "enum e { b a }\ntype B { a: String }\ntype Q",
	}
	cmds := [][]string{
		{"compare", "-o", "old/*.graphql", "-n", "new/*.graphql"},
		{"compare", "-o", "new/[a-z].graphql", "-n", "old/*.graphql"},
		{"compare", "-o", "old/*/*.graphql", "-n", "*/a.graphql"},
		{"lint", "-f", "*/*.graphql"},
		{"lint", "-f", "*/[az].graphql"},
	}
	names := sortedKeys(files)
	ps := perms(len(names))
	want := make([]CLI, len(cmds))
	b := *order
	*order += int64(len(ps))
	run := func(w *e.W, p []int, k int) CLI {
		d := workDir(w, "c")
		emptyDir(d)
		c := &orderCase{files: files, args: cmds[k]}
		c.lay(d, permute(names, p))
		w.Case(c.text)
		return runBin(r.GQL, d, nil, 60*time.Second, cmds[k]...)
	}
	r.Par(int64(len(cmds)), func(w *e.W, k int64) {
		want[k] = run(w, []int{0, 1, 2, 3, 4}, int(k))
	})
	r.Par(int64(len(ps)*len(cmds)), func(w *e.W, i int64) {
		k := int(i) % len(cmds)
		got := run(w, ps[int(i)/len(cmds)], k)
		r.AddTransitions(1)
		r.AddTraces(1)
		if got.Out != want[k].Out || got.Code != want[k].Code {
			r.Violate(b+i, fmt.Sprintf("creation:%d", k), fmt.Sprintf("the output depends on the order in which files were created: gql %s\n--- one run:\n%s\n--- other run:\n%s", strings.Join(cmds[k], " "), want[k], got), map[string]any{"files": files, "args": cmds[k], "creation_order": permute(names, ps[int(i)/len(cmds)]), "one": want[k], "other": got})
		}
	})
	r.AddStates(len(ps))
	r.Space("orders of file creation", "orders", len(ps)+1, "commands", len(cmds))
}
