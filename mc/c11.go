package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/CrowdStrike/gql/pkg/compare"
	"github.com/CrowdStrike/gql/utils"

	e "verifmc/engine"
	m "verifmc/model"
)

var markers = map[int]string{2: "❌  ", 1: "✋️  ", 0: "✅  "}

// lineOf is how a change is printed.
func lineOf(g Got, withPos bool) string {
	if withPos && !g.NoPo {
		return fmt.Sprintf("%s%s:%d %s\n", markers[g.Crit], g.File, g.Line, g.Msg)
	}
	return markers[g.Crit] + g.Msg + "\n"
}

// eatGroup consumes the printed changes of one grade: ordered by file and line, ties in any order.
func eatGroup(out string, gs []Got, withPos bool) (string, string) {
	l := append([]Got{}, gs...)
	sort.SliceStable(l, func(i, j int) bool {
		if l[i].File != l[j].File {
			return l[i].File < l[j].File
		}
		return l[i].Line < l[j].Line
	})
	for i := 0; i < len(l); {
		j := i
		for j < len(l) && l[j].File == l[i].File && l[j].Line == l[i].Line {
			j++
		}
		tie := l[i:j]
		// longest first, so that a message which is the prefix of another one is not taken for it
		sort.SliceStable(tie, func(a, b int) bool { return len(tie[a].Msg) > len(tie[b].Msg) })
		left := append([]Got{}, tie...)
		for len(left) > 0 {
			found := -1
			for k, g := range left {
				if strings.HasPrefix(out, lineOf(g, withPos)) {
					found = k
					break
				}
			}
			if found < 0 {
				var want []string
				for _, g := range left {
					want = append(want, strings.TrimSuffix(lineOf(g, withPos), "\n"))
				}
				return out, fmt.Sprintf("expected next: %s; printed: %q", strings.Join(want, " or "), clipS(out, 300))
			}
			out = out[len(lineOf(left[found], withPos)):]
			left = append(left[:found], left[found+1:]...)
		}
		i = j
	}
	return out, ""
}

var number = regexp.MustCompile(`[0-9]+`)

// reportProblem compares what the compare command printed with the changes.
func reportProblem(c CLI, gs []Got, only, noPath bool) string {
	if c.Hung {
		return "the command did not terminate"
	}
	if c.Signal != "" || strings.Contains(c.Err, "panic:") || strings.Contains(c.Err, "fatal error:") {
		return "the command crashed"
	}
	by := map[int][]Got{}
	for _, g := range gs {
		by[g.Crit] = append(by[g.Crit], g)
	}
	nb := len(by[2])
	if want := min(nb, 1); c.Code != want {
		return fmt.Sprintf("exit status %d with %d breaking changes", c.Code, nb)
	}
	none := strings.Contains(c.Out, "No changes found")
	if none != (len(gs) == 0) {
		return fmt.Sprintf("'No changes found' printed: %v, changes: %d", none, len(gs))
	}
	rest := c.Out
	order := []int{2, 1, 0}
	if only {
		order = order[:1]
	}
	for _, k := range order {
		var why string
		if rest, why = eatGroup(rest, by[k], !noPath); why != "" {
			return critName[k] + " changes: " + why
		}
	}
	for _, mk := range markers {
		for _, l := range strings.Split(rest, "\n") {
			if strings.HasPrefix(l, mk) {
				return "printed in addition: " + l
			}
		}
	}
	nums := number.FindAllString(rest, -1)
	if nb > 0 && (len(nums) != 1 || nums[0] != strconv.Itoa(nb)) {
		return fmt.Sprintf("%d breaking changes printed, but the summary is %q", nb, rest)
	}
	if nb == 0 && (len(nums) > 0 || len(gs) > 0 && !strings.Contains(rest, "No breaking changes found")) {
		return fmt.Sprintf("no breaking change, but the summary is %q", rest)
	}
	return ""
}

// flags are all the ways to give the two options.
var flagSets = []struct {
	args         []string
	only, noPath bool
}{
	{nil, false, false},
	{[]string{"-b"}, true, false},
	{[]string{"-e"}, false, true},
	{[]string{"-b", "-e"}, true, true},
}
var flagSpellings = []struct {
	args         []string
	only, noPath bool
}{
	{[]string{"--breaking-change-only"}, true, false},
	{[]string{"--exclude-print-filepath"}, false, true},
	{[]string{"--breaking-change-only", "--exclude-print-filepath"}, true, true},
	{[]string{"-be"}, true, true},
	{[]string{"-eb"}, true, true},
	{[]string{"--breaking-change-only=false"}, false, false},
	{[]string{"--breaking-change-only=true", "--exclude-print-filepath=false"}, true, false},
	{[]string{"--exclude-print-filepath=true", "-b=false"}, false, true},
}

type fileSet map[string]string

// compareCase is one pair of directories of schema files.
type compareCase struct {
	name     string
	old, new fileSet
	nB       int // known number of breaking changes, -1 if not known by construction
	spell    bool
}

func (c *compareCase) text() string {
	var sb strings.Builder
	for _, x := range []struct {
		side string
		fs   fileSet
	}{{"old", c.old}, {"new", c.new}} {
		for _, n := range sortedKeys(x.fs) {
			fmt.Fprintf(&sb, "#### %s/%s\n%s\n", x.side, n, x.fs[n])
		}
	}
	return sb.String()
}

func changesOf(old, new fileSet) ([]Got, error) {
	mk := func(side string, fs fileSet) map[string][]byte {
		out := map[string][]byte{}
		for n, t := range fs {
			out[side+"/"+n] = []byte(t)
		}
		return out
	}
	o, err := utils.ParseSchema(mk("old", old))
	if err != nil {
		return nil, err
	}
	n, err := utils.ParseSchema(mk("new", new))
	if err != nil {
		return nil, err
	}
	return observe(compare.FindChangesInSchemas(o, n)), nil // before they are grouped
}

func changesOfFiles(oldName, old, newName, new string) ([]Got, error) {
	o, err := utils.ParseSchema(map[string][]byte{oldName: []byte(old)})
	if err != nil {
		return nil, err
	}
	n, err := utils.ParseSchema(map[string][]byte{newName: []byte(new)})
	if err != nil {
		return nil, err
	}
	return observe(compare.FindChangesInSchemas(o, n)), nil
}

// exploreReports runs the compare command on every case with every flag combination.
func exploreReports(r *e.Run, name string, n int64, build func(i int64) *compareCase) {
	if r.Stopped() {
		return
	}
	type st struct{ cases, runs int64 }
	var total [64]st
	r.Par(n, func(w *e.W, i int64) {
		c := build(i)
		if c == nil {
			return
		}
		dir := workDir(w, "cmp")
		for _, s := range []string{"old", "new"} {
			_ = os.MkdirAll(filepath.Join(dir, s), 0o755)
			emptyDir(filepath.Join(dir, s))
		}
		for k, v := range c.old {
			putFile(filepath.Join(dir, "old"), k, v)
		}
		for k, v := range c.new {
			putFile(filepath.Join(dir, "new"), k, v)
		}
		w.Case(c.text)
		gs, err := changesOf(c.old, c.new)
		if err != nil {
			panic(fmt.Sprint("harness: invalid schema: ", err, "\n", c.text()))
		}
		cnt := 0
		for _, g := range gs {
			if g.Crit == 2 {
				cnt++
			}
		}
		if c.nB >= 0 && cnt != c.nB {
			r.Violate(i, "count:"+name, fmt.Sprintf("%d breaking changes expected, the comparison finds %v\n%s", c.nB, gotStrings(gs), clipS(c.text(), 1500)), map[string]any{"files": c.text()})
			return
		}
		total[w.ID].cases++
		fl := flagSets
		if c.spell {
			fl = append(append(fl[:0:0], fl...), flagSpellings...)
		}
		for _, f := range fl {
			args := append([]string{"compare", "-o", "old/*.graphql", "-n", "new/*.graphql"}, f.args...)
			res := runGQL(r, dir, nil, args...)
			total[w.ID].runs++
			r.AddTransitions(1)
			r.AddTraces(1)
			w.Outcome(fmt.Sprintf("exit %d, flags %v", res.Code, f.args))
			if why := reportProblem(res, gs, f.only, f.noPath); why != "" {
				r.Violate(i, fmt.Sprintf("report:%x", h64(c.text()+strings.Join(args, " "))), fmt.Sprintf("%s\ngql %s\n%s\n%s", why, strings.Join(args, " "), res, clipS(c.text(), 1500)),
					map[string]any{"args": args, "why": why, "files": c.text(), "result": res.String(), "changes": gotStrings(gs)})
			}
		}
	})
	var a, b int64
	for _, t := range total {
		a += t.cases
		b += t.runs
	}
	r.AddStates(int(a))
	r.Space(name, "schema_pairs", a, "command_runs", b)
}

// slot is one line of the new schema; its state is one of the letters of slotStates.
const slotStates = "UBDNXY"

func slotText(name string, st byte) (old, new string, nB int) {
	switch st {
	case 'B':
		return "type " + name + " { a: Int }", "type " + name + " { a: String }", 1
	case 'D':
		return "enum " + name + " { A }", "enum " + name + " { A B }", 0
	case 'N':
		return "type " + name + " { a: Int }", "type " + name + " { a: Int b: Int }", 0
	case 'X': // two breaking changes and a non-breaking one on the same line
		return "type " + name + " { a: Int b: Int }", "type " + name + " { a: String b: Float c: Int }", 2
	case 'Y': // removed: located in the old schema
		return "type " + name + " { a: Int }", "", 1
	}
	return "type " + name + " { a: Int }", "type " + name + " { a: Int }", 0
}

type slotPos struct {
	file string
	line int
}

func slotCase(name string, slots []slotPos, states []byte) *compareCase {
	c := &compareCase{name: name, old: fileSet{}, new: fileSet{}}
	type line struct {
		n int
		s string
	}
	lo, ln := map[string][]line{}, map[string][]line{}
	for k, s := range slots {
		o, n, b := slotText(fmt.Sprintf("T%c%d", 'A'+byte(k*7%11), k), states[k])
		c.nB += b
		// in the old schema the lines are in the opposite order
		lo[s.file] = append(lo[s.file], line{len(slots) - k, o})
		ln[s.file] = append(ln[s.file], line{s.line, n})
	}
	put := func(ls map[string][]line, fs fileSet) {
		for f, l := range ls {
			sort.SliceStable(l, func(i, j int) bool { return l[i].n < l[j].n })
			var sb strings.Builder
			at := 1
			for _, x := range l {
				for at < x.n {
					sb.WriteString("# \n")
					at++
				}
				sb.WriteString(x.s)
				if at >= x.n {
					sb.WriteString("\n")
					at++
				}
			}
			fs[f] = sb.String()
		}
	}
	put(lo, c.old)
	put(ln, c.new)
	return c
}

func c11(r *e.Run) {
	// 1. every vector of states of numerically ordered lines of one file
	enum := func(name string, slots []slotPos, letters string) {
		n := int64(1)
		for range slots {
			n *= int64(len(letters))
		}
		exploreReports(r, name, n, func(i int64) *compareCase {
			st := make([]byte, len(slots))
			for k := range st {
				st[k] = letters[i%int64(len(letters))]
				i /= int64(len(letters))
			}
			return slotCase(name, slots, st)
		})
	}
	one := func(lines ...int) []slotPos {
		var s []slotPos
		for _, l := range lines {
			s = append(s, slotPos{"s.graphql", l})
		}
		return s
	}
	enum("one file, lines 2 9 10 100, in this order", one(2, 9, 10, 100), slotStates)
	enum("one file, lines 100 10 9 2 (other order of types)", one(100, 10, 9, 2), slotStates)
	two := func(a, b string, l1, l2 int) []slotPos {
		return []slotPos{{a, l1}, {b, l2}, {b, l1}, {a, l2}}
	}
	enum("two files a b", two("a.graphql", "b.graphql", 10, 9), slotStates)
	enum("two files b B (letter case)", two("b.graphql", "B.graphql", 2, 10), slotStates)
	enum("two files a10 a9", two("a10.graphql", "a9.graphql", 3, 20), slotStates)
	enum("three files", []slotPos{{"c.graphql", 1}, {"a.graphql", 12}, {"b.graphql", 3}, {"a.graphql", 2}}, slotStates)
	if r.Thorough() {
		enum("one file, six lines", one(2, 100, 9, 11, 10, 99), slotStates)
		enum("six lines of three files", []slotPos{{"c.graphql", 1}, {"a.graphql", 12}, {"b.graphql", 3}, {"a.graphql", 2}, {"c.graphql", 10}, {"b.graphql", 1}}, slotStates)
	}
	// 2. numbers of changes of each grade
	cs := e.Pick(r, []int{0, 1, 2, 9, 10, 11, 13, 40}, []int{0, 1, 2, 3, 9, 10, 11, 12, 13, 25, 40, 101, 1000})
	nc := int64(len(cs))
	exploreReports(r, "numbers of changes per grade", nc*nc*nc, func(i int64) *compareCase {
		var slots []slotPos
		var st []byte
		for g, k := range []int{cs[i%nc], cs[i/nc%nc], cs[i/nc/nc]} {
			for j := 0; j < k; j++ {
				slots = append(slots, slotPos{[]string{"x.graphql", "y.graphql"}[j%2], 1 + (j*31+g*7)%211})
				st = append(st, "BDN"[g])
			}
		}
		return spreadSlots(slots, st)
	})
	// every number of breaking changes: the exit status and the count must not depend on it
	exploreReports(r, "every number of breaking changes", e.Pick(r, int64(540), int64(4200)), func(i int64) *compareCase {
		var o, n strings.Builder
		for k := int64(0); k < i; k++ {
			fmt.Fprintf(&o, "type T%d { a: Int }\n", k)
			fmt.Fprintf(&n, "type T%d { a: Float }\n", k)
		}
		o.WriteString("scalar S\n")
		n.WriteString("scalar S\n")
		return &compareCase{old: fileSet{"a.graphql": o.String()}, new: fileSet{"a.graphql": n.String()}, nB: int(i)}
	})
	// 3. every kind of change on the real-life schema, alone and in pairs
	es := edits()
	base := richBase()
	render := func(s *m.Schema, files, from int) fileSet {
		fs := fileSet{}
		names := []string{"m.graphql", "b.graphql", "z.graphql"}[:files]
		rd := m.Render(s.Spread(files, from), names...)
		rd.Shift(from * 5)
		for i, n := range names {
			fs[n] = rd.Texts[i]
		}
		return fs
	}
	ne := int64(len(es))
	exploreReports(r, "every kind of edit", ne+1, func(i int64) *compareCase {
		n := base
		if i < ne {
			n = applyEdits(base, es[i])
		}
		return &compareCase{old: render(base, 1, 0), new: render(n, 1+int(i)%3, int(i)%2), nB: -1, spell: true}
	})
	exploreReports(r, "every pair of independent edits", ne*ne, func(i int64) *compareCase {
		a, b := i/ne, i%ne
		if a >= b || conflicts(es[a], es[b]) {
			return nil
		}
		return &compareCase{old: render(base, 2, 0), new: render(applyEdits(base, es[a], es[b]), 2, 1), nB: -1}
	})
	all := func(skip int) *m.Schema {
		s := base
		var used []Edit
	next:
		for k := range es {
			x := es[(k+skip)%len(es)]
			for _, u := range used {
				if conflicts(u, x) {
					continue next
				}
			}
			used = append(used, x)
			s = applyEdits(s, x)
		}
		return s
	}
	exploreReports(r, "maximal sets of independent edits", ne, func(i int64) *compareCase {
		return &compareCase{old: render(base, 3, 1), new: render(all(int(i)), 3, 0), nB: -1, spell: true}
	})
	oddTexts(r)
	usageSpace(r)
	reportFunctions(r)
}

// oddTexts: names of files, and values in messages, which mean something to formatting, quoting or terminals; large line numbers
func oddTexts(r *e.Run) {
	names := []string{"%", "%s", "%d%v", "%!s", "a%20b", "%%", "\\", "\\n", "'", "\"", "`", "é", "日本", " ", "a b", "$1", "${x}", "{}", "[a]", "&lt;", "-b", "#x", "x:1", "x:10", ":", "~", "a\tb", "\x1b[1m", "\xff", "❌", "0", "00", "A", "_"}
	n := int64(len(names))
	states := "UBDNYX"
	k := int64(len(states))
	exploreReports(r, "odd names of files", n*k*k*k, func(i int64) *compareCase {
		f := names[i/(k*k*k)] + ".graphql"
		return slotCase("", []slotPos{{f, 9}, {"m.graphql", 10}, {f, 10}}, []byte{states[i%k], states[i/k%k], states[i/k/k%k]})
	})
	exploreReports(r, "all pairs of odd names of files", n*n*3, func(i int64) *compareCase {
		a, b := names[i/3/n]+".graphql", names[i/3%n]+".graphql"
		if a == b {
			return nil
		}
		st := "BDN"[i%3]
		return slotCase("", []slotPos{{a, 2}, {b, 1}, {b, 10}, {a, 9}}, []byte{st, st, st, st})
	})
	texts := []string{`"%"`, `"%s"`, `"%d%v%!"`, `"100%"`, `"\\"`, `"\n"`, `"\t'"`, `"\""`, `"é"`, `"\u00e9"`, `"日本"`, `""`, `" "`, `"❌  x"`, `"✅  "`, `"Breaking changes in schema: 3"`, `"$1{}"`, `"""a"""`, `"""a\"b"""`, `"#lint-disable"`, `"a:1 "`}
	nt := int64(len(texts))
	exploreReports(r, "odd values in messages", nt*nt, func(i int64) *compareCase {
		doc := func(t string) string {
			return strings.ReplaceAll(`type Query @d(x: ¤) {
  f(x: String = ¤): String @d(x: ¤)
  g: String @deprecated(reason: ¤)
}
input I { a: String = ¤ b: [String] = [¤, ¤] }
directive @d(x: String = ¤) on OBJECT | FIELD_DEFINITION
enum E { A @deprecated(reason: ¤) }
`, "¤", t)
		}
		return &compareCase{old: fileSet{"a.graphql": doc(texts[i/nt])}, new: fileSet{"a.graphql": "\n\n" + doc(texts[i%nt])}, nB: -1}
	})
	enumLines := [][]int{{9, 1000, 99999}, {65535, 65536, 65537}, {255, 256, 257}, {32767, 32768, 999}, {10000, 9999, 100000}, {100001, 99999, 100000}}
	exploreReports(r, "large line numbers", int64(len(enumLines))*27, func(i int64) *compareCase {
		var sl []slotPos
		for _, l := range enumLines[i/27] {
			sl = append(sl, slotPos{"s.graphql", l})
		}
		return slotCase("", sl, []byte{"BDN"[i%3], "BDN"[i/3%3], "BDN"[i/9%3]})
	})
	exploreReports(r, "long names", 12, func(i int64) *compareCase {
		nm := strings.Repeat("N", []int{100, 255, 256, 4096, 65536, 100000}[i/2])
		o, nw := "type "+nm+" { a: Int }\n", "type "+nm+" { a: Float }\n"
		if i%2 == 1 {
			o, nw = "enum E { A }\n", "enum E { A "+nm+" }\n"
		}
		return &compareCase{old: fileSet{"a.graphql": o}, new: fileSet{"a.graphql": nw}, nB: int(1 - i%2)}
	})
}

// spreadSlots puts several slots on the same line on consecutive free ones.
func spreadSlots(slots []slotPos, st []byte) *compareCase {
	taken := map[slotPos]bool{}
	for i := range slots {
		for taken[slots[i]] {
			slots[i].line++
		}
		taken[slots[i]] = true
	}
	c := slotCase("", slots, st)
	if len(c.old) == 0 {
		c.old["x.graphql"], c.new["x.graphql"] = "scalar S\n", "scalar S\n"
	}
	return c
}

// usageSpace: missing or equal paths.
func usageSpace(r *e.Run) {
	type uc struct{ args []string }
	var ucs []uc
	for _, o := range [][]string{nil, {"-o", "a.graphql"}, {"--oldversion", "a.graphql"}, {"-o", ""}} {
		for _, n := range [][]string{nil, {"-n", "a.graphql"}, {"--newversion", "a.graphql"}, {"-n", ""}} {
			for _, f := range [][]string{nil, {"-b"}, {"-e"}} {
				ucs = append(ucs, uc{append(append([]string{"compare"}, o...), append(n, f...)...)})
			}
		}
	}
	r.Par(int64(len(ucs)), func(w *e.W, i int64) {
		dir := workDir(w, "usage")
		putFile(dir, "a.graphql", "type T { a: Int }\n")
		res := runGQL(r, dir, nil, ucs[i].args...)
		r.AddTransitions(1)
		r.AddTraces(1)
		w.Outcome(fmt.Sprintf("usage: exit %d", res.Code))
		if res.Code != 1 || strings.TrimSpace(res.Out+res.Err) == "" || strings.Contains(res.Out, "No changes found") || strings.Contains(res.Err, "panic") {
			r.Violate(i, fmt.Sprintf("usage:%v", ucs[i].args), fmt.Sprintf("wrong usage is not rejected with status 1: gql %v\n%s", ucs[i].args, res), map[string]any{"args": ucs[i].args, "result": res.String()})
		}
	})
	r.Space("missing, empty or equal schema paths", "command_runs", len(ucs))
	// the same contents through different paths
	exploreReports(r, "equal contents", 3, func(i int64) *compareCase {
		t := []string{"type T { a: Int }\n", "# nothing\n", "scalar S\nextend type T { b: Int }\n"}[i]
		return &compareCase{old: fileSet{"a.graphql": t}, new: fileSet{"a.graphql": t}, spell: true}
	})
}

// reportFunctions calls the library's grouping and printing functions with every permutation of change lists.
func reportFunctions(r *e.Run) {
	if r.Stopped() {
		return
	}
	// a pool of changes: three of each grade at four positions of two files
	var slots []slotPos
	var st []byte
	for _, g := range []byte("BDN") {
		for _, p := range []slotPos{{"b", 9}, {"b", 10}, {"a", 100}, {"a", 20}} {
			slots = append(slots, p)
			st = append(st, g)
		}
	}
	c := spreadSlots(slots, st)
	mk := func(side string, fs fileSet) map[string][]byte {
		out := map[string][]byte{}
		for n, t := range fs {
			out[side+"/"+n] = []byte(t)
		}
		return out
	}
	o, err1 := utils.ParseSchema(mk("old", c.old))
	n, err2 := utils.ParseSchema(mk("new", c.new))
	if err1 != nil || err2 != nil {
		panic("harness: invalid schema")
	}
	pool := compare.FindChangesInSchemas(o, n)
	by := map[compare.Criticality][]*compare.Change{}
	for _, x := range pool {
		by[x.GetChangeCriticalityLevel()] = append(by[x.GetChangeCriticalityLevel()], x)
	}
	fn := map[compare.Criticality]func([]*compare.Change, bool) int{compare.Breaking: compare.ReportBreakingChanges, compare.Dangerous: compare.ReportDangerousChanges, compare.NonBreaking: compare.ReportNonBreakingChanges}
	tmp, err := os.Create(filepath.Join(r.Scratch, "stdout"))
	if err != nil {
		panic(err)
	}
	defer tmp.Close()
	saved := os.Stdout
	os.Stdout = tmp
	defer func() { os.Stdout = saved }()
	capture := func(f func()) string {
		_, _ = tmp.Seek(0, 0)
		_ = tmp.Truncate(0)
		f()
		b, _ := os.ReadFile(tmp.Name())
		return string(b)
	}
	calls := 0
	maxLen := e.Pick(r, 4, 6)
	for _, grade := range []compare.Criticality{compare.Breaking, compare.Dangerous, compare.NonBreaking} {
		l := by[grade]
		if len(l) == 0 {
			r.Violate(0, "pool", "no changes of a grade in the pool", nil)
			return
		}
		// all sequences (with repetition) of the pool up to a length, and all rotations of the repeated whole pool
		var rec func(seq []*compare.Change)
		try := func(seq []*compare.Change) {
			for _, withPos := range []bool{true, false} {
				in := append([]*compare.Change{}, seq...)
				got := 0
				out := capture(func() { got = fn[grade](in, withPos) })
				calls++
				rest, why := eatGroup(out, observe(seq), withPos)
				if why == "" && rest != "" {
					why = "printed in addition: " + rest
				}
				if why == "" && got != len(seq) {
					why = fmt.Sprintf("%d changes printed but %d returned", len(seq), got)
				}
				if why != "" {
					r.Violate(int64(calls), "report function", fmt.Sprintf("Report function of grade %s: %s\nargument: %v", critName[int(grade)], why, gotStrings(observe(seq))), map[string]any{"changes": gotStrings(observe(seq)), "why": why, "output": out})
				}
			}
		}
		rec = func(seq []*compare.Change) {
			try(seq)
			if len(seq) < maxLen {
				for _, x := range l {
					rec(append(seq[:len(seq):len(seq)], x))
				}
			}
		}
		rec(nil)
		for size := 5; size <= 60; size++ {
			for stride := 1; stride < len(l); stride++ {
				var seq []*compare.Change
				for k := 0; k < size; k++ {
					seq = append(seq, l[(k*stride+k*k/3)%len(l)])
				}
				try(seq)
			}
		}
	}
	os.Stdout = saved
	// grouping: every sequence of grades
	gl := e.Pick(r, 8, 11)
	groups := 0
	var rec func(seq []*compare.Change)
	rec = func(seq []*compare.Change) {
		groups++
		in := append([]*compare.Change{}, seq...)
		res := compare.GroupChanges(in)
		total := 0
		for k, v := range res {
			total += len(v)
			want := map[*compare.Change]int{}
			for _, x := range seq {
				if x.GetChangeCriticalityLevel() == k {
					want[x]++
				}
			}
			for _, x := range v {
				want[x]--
			}
			for _, d := range want {
				if d != 0 {
					r.Violate(int64(groups), "group", fmt.Sprintf("GroupChanges: wrong group %v of %v", gotStrings(observe(v)), gotStrings(observe(seq))), nil)
				}
			}
		}
		if total != len(seq) {
			r.Violate(int64(groups), "group", fmt.Sprintf("GroupChanges: %d of %d changes are in groups: %v", total, len(seq), gotStrings(observe(seq))), nil)
		}
		if len(seq) < gl {
			for g := 0; g < 3; g++ {
				l := by[compare.Criticality(g)]
				rec(append(seq[:len(seq):len(seq)], l[len(seq)%len(l)]))
			}
		}
	}
	rec(nil)
	r.AddTransitions(calls + groups)
	r.AddTraces(calls + groups)
	r.Space("report functions: change sequences", "calls", calls)
	r.Space("GroupChanges: sequences of grades", "calls", groups)
}
