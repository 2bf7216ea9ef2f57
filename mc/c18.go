package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	e "verifmc/engine"
)

// ---- the scratch world of a history ----

// texts of equal length, so that a file which changes keeps its size (its time is also kept)
var c18Texts = func() []string {
	ts := []string{
		"\"q\"\ntype Query {\n  \"f\"\n  f(\n    \"a\"\n    a: Int): Int\n}\n\"e\"\nenum E {\n  \"x\"\n  X\n}\n",
		"type Query { f(a: Int!): String, g_h: E }\nenum E { x Y }\ntype fooConnection { edges: Int }\n",
		"type Query { f: Int } #lint-disable-line\ntype { \n",
		"\"\"\"d\"\"\"\ntype Query { f: Int! @deprecated }\n\"i\"\ninput I { a: Int! }\ndirective @d on FIELD_DEFINITION\n",
	}
	n := 0
	for _, t := range ts {
		n = max(n, len(t))
	}
	for i, t := range ts {
		ts[i] = t + strings.Repeat("#", n-len(t)+1) + "\n"
	}
	return ts
}()

// c18State: index of the text of a.graphql and b.graphql, -1 when there is no such file
type c18State struct{ a, b int }

var c18Time = time.Unix(1_600_000_000, 0)

const c18P, c18Q = "type P { p: Query }\nextend type Query { p: P }\n", "scalar S\nextend enum E { Z }\n"

func c18Put(path, text string) {
	if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
		panic(err)
	}
	if err := os.WriteFile(path, []byte(text), 0o644); err != nil {
		panic(err)
	}
	if err := os.Chtimes(path, c18Time, c18Time); err != nil {
		panic(err)
	}
}

func (s c18State) set(base string) {
	for _, x := range []struct {
		n string
		i int
	}{{"work/a.graphql", s.a}, {"work/b.graphql", s.b}} {
		p := filepath.Join(base, x.n)
		if x.i < 0 {
			if err := os.RemoveAll(p); err != nil {
				panic(err)
			}
			continue
		}
		c18Put(p, c18Texts[x.i])
	}
}

// c18World makes a fresh world: a working directory, a home, a temporary directory, all in base.
func c18World(base string, s c18State) {
	if err := os.RemoveAll(base); err != nil {
		panic(err)
	}
	for _, d := range []string{"work/d", "work/ref", "home", "tmp", "cache", "config", "state", "run"} {
		if err := os.MkdirAll(filepath.Join(base, d), 0o755); err != nil {
			panic(err)
		}
	}
	c18Put(filepath.Join(base, "work/d/p.graphql"), c18P)
	c18Put(filepath.Join(base, "work/d/q.graphql"), c18Q)
	c18Put(filepath.Join(base, "work/ref/r.graphql"), c18Texts[0])
	s.set(base)
}

func c18Env(base string) map[string]string {
	j := func(d string) string { return filepath.Join(base, d) }
	return map[string]string{"HOME": j("home"), "TMPDIR": j("tmp"), "XDG_CACHE_HOME": j("cache"), "XDG_CONFIG_HOME": j("config"), "XDG_STATE_HOME": j("state"), "XDG_DATA_HOME": j("state"),
		"XDG_RUNTIME_DIR": j("run"), "PATH": os.Getenv("PATH"), "PWD": j("work"), "GOMAXPROCS": "2"}
}

type c18Cmd struct {
	args  []string
	stdin int // text given on standard input, -1 none
}

func (c c18Cmd) String() string {
	s := "gql " + strings.Join(c.args, " ")
	if c.stdin >= 0 {
		s += fmt.Sprintf(" < text %d", c.stdin)
	}
	return s
}

func c18Run(r *e.Run, base, dir string, env map[string]string, c c18Cmd, adjust func(*exec.Cmd)) CLI {
	return c18RunOf(r.GQL, dir, env, c, adjust)
}

func c18RunOf(gql, dir string, env map[string]string, c c18Cmd, adjust func(*exec.Cmd)) CLI {
	cmd := exec.Command(gql, c.args...)
	cmd.Dir = dir
	var ks []string
	for k := range env {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	cmd.Env = []string{}
	for _, k := range ks {
		cmd.Env = append(cmd.Env, k+"="+env[k])
	}
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if c.stdin >= 0 {
		cmd.Stdin = strings.NewReader(c18Texts[c.stdin])
	}
	if adjust != nil {
		adjust(cmd)
	}
	t := time.AfterFunc(60*time.Second, func() { _ = cmd.Process.Kill() })
	defer t.Stop()
	err := cmd.Run()
	res := CLI{Out: out.String(), Err: errb.String()}
	if err != nil {
		ee, ok := err.(*exec.ExitError)
		if !ok {
			panic(fmt.Sprint("cannot run the gql command: ", err))
		}
		res.Code = ee.ExitCode()
		if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
			res.Signal = " (" + ws.Signal().String() + ")"
		}
	}
	return res
}

// c18Tree describes every file below base; times of directories and access times are left out.
func c18Tree(base string) string {
	var b strings.Builder
	err := filepath.Walk(base, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(base, p)
		fmt.Fprintf(&b, "%s %v", rel, fi.Mode())
		switch {
		case fi.Mode().IsRegular():
			t, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			fmt.Fprintf(&b, " %d %d %x links %d", fi.Size(), fi.ModTime().UnixNano(), h64(string(t)), fi.Sys().(*syscall.Stat_t).Nlink)
		case fi.Mode()&os.ModeSymlink != 0:
			l, _ := os.Readlink(p)
			fmt.Fprintf(&b, " -> %s", l)
		}
		b.WriteByte('\n')
		return nil
	})
	if err != nil {
		panic(err)
	}
	return b.String()
}

var c18Cmds = []c18Cmd{
	{[]string{"lint", "-f", "a.graphql"}, -1},
	{[]string{"lint", "-f", "b.graphql", "-r", "type-desc,field-desc,enum-caps"}, -1},
	{[]string{"lint", "-f", "?.graphql"}, -1},
	{[]string{"lint"}, 1},
	{[]string{"lint"}, 2},
	{[]string{"compare", "-o", "a.graphql", "-n", "b.graphql"}, -1},
	{[]string{"compare", "-o", "ref/r.graphql", "-n", "a.graphql", "-e"}, -1},
	{[]string{"compare", "-o", "b.graphql", "-n", "a.graphql", "-b"}, -1},
	{[]string{"compare", "-o", "a.graphql", "-n", "[ad]/../*.graphql"}, -1},
	{[]string{"compare", "-o", "ref/*.graphql", "-n", "d/*.graphql"}, -1},
	{[]string{"compare", "-o", "a.graphql", "-n", "a.graphql"}, -1},
	{[]string{"lint", "-f", "a.graphql", "-r", "nosuch"}, -1},
}

type c18Edit struct {
	name string
	f    func(c18State) c18State
}

var c18Edits = []c18Edit{
	{"a.graphql gets text 1", func(s c18State) c18State { s.a = 1; return s }},
	{"a.graphql gets text 2", func(s c18State) c18State { s.a = 2; return s }},
	{"b.graphql gets text 0", func(s c18State) c18State { s.b = 0; return s }},
	{"b.graphql gets text 3", func(s c18State) c18State { s.b = 3; return s }},
	{"the files a and b change places", func(s c18State) c18State { return c18State{s.b, s.a} }},
	{"b.graphql is removed", func(s c18State) c18State { s.b = -1; return s }},
}

func (c CLI) same(d CLI) bool {
	return c.Out == d.Out && c.Err == d.Err && c.Code == d.Code && c.Signal == d.Signal
}

func c18(r *e.Run) {
	r.Assume("the files of the world of a history (its working, home, temporary, cache, configuration and state directories) are what the run could leave traces in; traces elsewhere show when they change a later result",
		"a file which is created and removed again within one run is not seen; access times and the times of directories are not compared")
	// what each command prints in each state when nothing came before: the reference
	start := c18State{0, 1}
	states := []c18State{start}
	seen := map[c18State]bool{start: true}
	for i := 0; i < len(states); i++ {
		for _, ed := range c18Edits {
			if s := ed.f(states[i]); !seen[s] {
				seen[s] = true
				states = append(states, s)
			}
		}
	}
	r.AddStates(len(states))
	type key struct {
		s c18State
		c int
	}
	refs := make([]CLI, len(states)*len(c18Cmds))
	at := map[c18State]int{}
	for i, s := range states {
		at[s] = i
	}
	ref := func(s c18State, c int) CLI { return refs[at[s]*len(c18Cmds)+c] }
	distinct := func() int {
		m := map[string]bool{}
		for _, x := range refs {
			m[x.String()] = true
		}
		return len(m)
	}
	r.Par(int64(len(refs)), func(w *e.W, i int64) {
		s, c := states[i/int64(len(c18Cmds))], c18Cmds[i%int64(len(c18Cmds))]
		base := filepath.Join(workDir(w, "c18"), "x")
		w.Case(func() string { return fmt.Sprint(s, c) })
		c18World(base, s)
		before := c18Tree(base)
		res := c18Run(r, base, filepath.Join(base, "work"), c18Env(base), c, nil)
		r.AddTransitions(1)
		r.AddTraces(1)
		refs[i] = res
		w.Outcome(fmt.Sprintf("exit %d, %d bytes", res.Code, len(res.Out)/64*64))
		if after := c18Tree(base); after != before {
			r.Violate(i, fmt.Sprintf("trace:%d:%v", i, c), fmt.Sprintf("%v changed files\n--- before\n%s--- after\n%s", c, before, after), map[string]any{"command": c.String(), "state": fmt.Sprint(s), "before": before, "after": after})
		}
	})
	r.Space("single runs in a fresh world", "states of the files", len(states), "commands", len(c18Cmds), "different results", distinct())
	if r.Stopped() {
		return
	}
	c18Contents(r)
	if r.Stopped() {
		return
	}
	c18Histories(r, start, ref)
	if !r.Stopped() {
		c18Circumstances(r, states, ref)
	}
	if !r.Stopped() {
		c18Probe(r, states, ref)
	}
	if !r.Stopped() {
		c18Outputs(r, states, ref)
	}
}

// c18Contents: files of every make are left as they are, and read in the same way a second time
func c18Contents(r *e.Run) {
	base := c18Texts[0]
	core := strings.TrimRight(base, "#\n")
	texts := []string{
		"", " ", "\n", "#", core, core + "\n", core + "\n\n\n", core + "  \t ", core + "\n ", core + "\n\t", core + "\r", core + "\r\n\r\n", "\n" + core, "\t" + core + "\n", strings.ReplaceAll(core, "\n", "\r\n"), strings.ReplaceAll(core, "\n", "\r"), "\ufeff" + core, strings.ReplaceAll(core, "  ", "\t"),
		strings.ReplaceAll(core, "\n", " \n"), core + "\x00", core + "\xff", core + "# caf\u00e9", core + "# cafe\u0301", "#" + strings.Repeat("x", 70000) + "\n" + core, strings.Repeat("\n", 70000) + core, core + strings.Repeat("# comment\n", 250000),
		core + "\n#lint-disable\n", "type Query{f:Int,g:Int}", "type Query {\n\tf : Int ,\n}", "{", "query { a }", "type Query { f(a: Int = 1 b: String = \"\\u0041\"): Int }",
	}
	for _, p := range []string{"C03", "C04", "C05", "C06", "C07", "C08"} {
		for _, k := range kernels()[p] {
			texts = append(texts, mkDoc(k.s).R.Text())
		}
	}
	cmds := []c18Cmd{
		{[]string{"lint", "-f", "a.graphql"}, -1}, {[]string{"lint", "-f", "*.graphql", "-r", "type-desc,enum-caps"}, -1}, {[]string{"compare", "-o", "a.graphql", "-n", "ref/r.graphql"}, -1},
		{[]string{"compare", "-o", "ref/r.graphql", "-n", "a.graphql", "-e"}, -1}, {[]string{"compare", "-o", "d/*.graphql", "-n", "a.graphql", "-b"}, -1},
	}
	r.Par(int64(len(texts)*len(cmds)), func(w *e.W, i int64) {
		t, c := texts[i/int64(len(cmds))], cmds[i%int64(len(cmds))]
		text := func() string { return fmt.Sprintf("%v with a.graphql %q", c, clipS(t, 300)) }
		w.Case(text)
		base := filepath.Join(workDir(w, "c18"), "t")
		c18World(base, c18State{0, 0})
		c18Put(filepath.Join(base, "work/a.graphql"), t)
		before := c18Tree(base)
		first := c18Run(r, base, filepath.Join(base, "work"), c18Env(base), c, nil)
		mid := c18Tree(base)
		again := c18Run(r, base, filepath.Join(base, "work"), c18Env(base), c, nil)
		after := c18Tree(base)
		r.AddTransitions(2)
		r.AddTraces(1)
		why := ""
		if mid != before || after != before {
			why = fmt.Sprintf("changed files\n--- before\n%s--- after one run\n%s--- after two runs\n%s", before, mid, after)
		}
		if !first.same(again) {
			why += fmt.Sprintf("a second run gives\n%v\nthe first one gave\n%v\n", again, first)
		}
		if why != "" {
			r.Violate(i, fmt.Sprintf("contents:%x:%v", h64(t), c), text()+" "+why, map[string]any{"case": text(), "why": why})
		}
	})
	r.Space("contents of files, two runs each", "contents", len(texts), "commands", len(cmds))
}

// every history of commands and file changes
func c18Histories(r *e.Run, start c18State, ref func(c18State, int) CLI) {
	depth := e.Pick(r, 3, 4)
	ops := len(c18Cmds) + len(c18Edits)
	n := int64(1)
	for i := 0; i < depth; i++ {
		n *= int64(ops)
	}
	r.Par(n, func(w *e.W, i int64) {
		var seq []int
		for k, j := 0, i; k < depth; k++ {
			seq = append(seq, int(j%int64(ops)))
			j /= int64(ops)
		}
		if seq[depth-1] >= len(c18Cmds) {
			return // ends with a change of a file: a prefix of other histories
		}
		text := func() string {
			var b strings.Builder
			fmt.Fprintf(&b, "start: a.graphql has text %d, b.graphql text %d\n", start.a, start.b)
			for _, o := range seq {
				if o < len(c18Cmds) {
					fmt.Fprintln(&b, c18Cmds[o])
				} else {
					fmt.Fprintln(&b, c18Edits[o-len(c18Cmds)].name)
				}
			}
			return b.String()
		}
		w.Case(text)
		base := filepath.Join(workDir(w, "c18"), fmt.Sprintf("h%d", i))
		defer func() { _ = os.RemoveAll(base) }()
		c18World(base, start)
		s := start
		tree := ""
		for k, o := range seq {
			if o >= len(c18Cmds) {
				s = c18Edits[o-len(c18Cmds)].f(s)
				s.set(base)
				tree = ""
				r.AddTransitions(1)
				continue
			}
			if tree == "" {
				tree = c18Tree(base)
			}
			got := c18Run(r, base, filepath.Join(base, "work"), c18Env(base), c18Cmds[o], nil)
			r.AddTransitions(1)
			want := ref(s, o)
			why := ""
			if !got.same(want) {
				why = fmt.Sprintf("step %d, %v, gives after what came before\n%v\nbut in a fresh directory with the same files\n%v\n", k+1, c18Cmds[o], got, want)
			}
			if after := c18Tree(base); after != tree {
				why += fmt.Sprintf("step %d, %v, changed files\n--- before\n%s--- after\n%s", k+1, c18Cmds[o], tree, after)
			}
			if why != "" {
				r.Violate(int64(k)<<40|i, fmt.Sprintf("history:%v", seq[:k+1]), text()+why, map[string]any{"history": text(), "texts": c18Texts, "why": why})
				return
			}
		}
		r.AddTraces(1)
		if i%1009 == 0 {
			r.Sample(text())
		}
	})
	r.Space("histories of commands and file changes which keep sizes and times", "commands", len(c18Cmds), "file changes", len(c18Edits), "depth", depth)
}

// ---- circumstances which must not matter ----

// c18Silent is an input on which nothing ever comes.
var c18Silent, c18SilentEnd = func() (*os.File, *os.File) {
	rd, wr, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	return rd, wr
}()

type circumstance struct {
	name string
	env  func(map[string]string, string)
	fs   func(base string)
	in   func(*exec.Cmd)
}

func setenv(k, v string) circumstance {
	return circumstance{name: k + "=" + v, env: func(m map[string]string, _ string) { m[k] = v }}
}

func worldFile(name, text string) circumstance {
	return circumstance{name: "there is a file " + name, fs: func(base string) { c18Put(filepath.Join(base, name), text) }}
}

var circumstances = func() []circumstance {
	cs := []circumstance{
		{name: "empty environment", env: func(m map[string]string, _ string) {
			for k := range m {
				delete(m, k)
			}
		}},
		{name: "HOME is missing", env: func(m map[string]string, b string) { m["HOME"] = filepath.Join(b, "nowhere") }},
		{name: "TMPDIR is missing", env: func(m map[string]string, b string) { m["TMPDIR"] = filepath.Join(b, "nowhere") }},
		{name: "PWD is wrong", env: func(m map[string]string, b string) { m["PWD"] = filepath.Join(b, "home") }},
		setenv("LANG", "C"), setenv("LC_ALL", "tr_TR.UTF-8"), setenv("LANGUAGE", "de"), setenv("TZ", "Asia/Tokyo"), setenv("NO_COLOR", "1"), setenv("FORCE_COLOR", "1"), setenv("CLICOLOR_FORCE", "1"),
		setenv("TERM", "dumb"), setenv("TERM", "xterm-256color"), setenv("COLUMNS", "20"), setenv("CI", "true"), setenv("GITHUB_ACTIONS", "true"), setenv("DEBUG", "1"), setenv("VERBOSE", "1"),
		setenv("GOMAXPROCS", "1"), setenv("GOMAXPROCS", "16"), setenv("GOGC", "1"), setenv("GOGC", "off"), setenv("LINES", "5"), setenv("PAGER", "false"), setenv("USER", "nobody"), setenv("EDITOR", "vi"),
		setenv("GITHUB_OUTPUT", "out.txt"), setenv("GITHUB_STEP_SUMMARY", "summary.md"), setenv("LC_CTYPE", "POSIX"), setenv("CLICOLOR", "0"), setenv("GQL_RULES", "type-desc"), setenv("GQL_LINT_RULES", "type-desc"), setenv("GQL_CONFIG", "gql.yaml"), setenv("GQL_FILEPATH", "b.graphql"), setenv("GQL_OLDVERSION", "b.graphql"),
		worldFile("work/.gql.yaml", "rules: [type-desc]\nlint:\n  rules: [type-desc]\n"), worldFile("work/gql.yml", "rules: [type-desc]\n"), worldFile("work/.gqlrc", "{\"rules\":[\"type-desc\"]}\n"),
		worldFile("work/.graphqlconfig", "{\"schemaPath\":\"b.graphql\"}\n"), worldFile("work/.gqlignore", "*\n"), worldFile("work/.gitignore", "*.graphql\n"), worldFile("home/.gql.yaml", "rules: [type-desc]\n"),
		worldFile("config/gql/config.yaml", "rules: [type-desc]\n"), worldFile("work/a.graphql.bak", "type Z {\n"), worldFile("work/a.graphql~", "type Z {\n"), worldFile("work/.a.graphql", "type Z {\n"),
		worldFile("work/d/deep/z.graphql", "type Z {\n"), worldFile("z.graphql", "type Z {\n"),
		{name: "old files", fs: func(b string) { c18Each(b, func(p string) { _ = os.Chtimes(p, time.Unix(0, 0), time.Unix(0, 0)) }) }},
		{name: "files of the future", fs: func(b string) {
			c18Each(b, func(p string) { _ = os.Chtimes(p, time.Unix(4e9, 7), time.Unix(4e9, 7)) })
		}},
		{name: "read-only files", fs: func(b string) { c18Each(b, func(p string) { _ = os.Chmod(p, 0o400) }) }},
		{name: "executable files", fs: func(b string) { c18Each(b, func(p string) { _ = os.Chmod(p, 0o777) }) }},
		{name: "hard links", fs: func(b string) {
			n := 0
			c18Each(b, func(p string) {
				n++
				if err := os.Link(p, filepath.Join(b, "home", fmt.Sprintf("l%d", n))); err != nil {
					panic(err)
				}
			})
		}},
		{name: "files created in another order", fs: func(b string) {
			var ps []string
			c18Each(b, func(p string) { ps = append(ps, p) })
			txt := map[string][]byte{}
			for _, p := range ps {
				txt[p], _ = os.ReadFile(p)
				_ = os.Remove(p)
			}
			for i := len(ps) - 1; i >= 0; i-- {
				c18Put(ps[i], string(txt[ps[i]]))
			}
		}},
		{name: "standard input is closed to nothing", in: func(c *exec.Cmd) { c.Stdin = strings.NewReader("") }},
		{name: "standard input holds a schema", in: func(c *exec.Cmd) { c.Stdin = strings.NewReader(c18Texts[3]) }},
		{name: "standard input never ends", in: func(c *exec.Cmd) {
			c.Stdin = c18Silent
		}},
	}
	return cs
}()

func c18Each(base string, f func(string)) {
	for _, n := range []string{"work/a.graphql", "work/b.graphql", "work/d/p.graphql", "work/d/q.graphql", "work/ref/r.graphql"} {
		if p := filepath.Join(base, n); func() bool { _, err := os.Lstat(p); return err == nil }() {
			f(p)
		}
	}
}

// every command in every pair of circumstances
func c18Circumstances(r *e.Run, states []c18State, ref func(c18State, int) CLI) {
	var sets [][]int
	for i := range circumstances {
		sets = append(sets, []int{i})
		for j := i + 1; j < len(circumstances); j++ {
			sets = append(sets, []int{i, j})
		}
	}
	use := []c18State{states[0], {1, 3}}
	if r.Thorough() {
		use = states
	}
	nc := int64(len(c18Cmds))
	n := int64(len(sets)) * int64(len(use)) * nc
	r.Par(n, func(w *e.W, i int64) {
		set, s, c := sets[i/nc/int64(len(use))], use[i/nc%int64(len(use))], int(i%nc)
		var names []string
		for _, k := range set {
			names = append(names, circumstances[k].name)
		}
		text := func() string { return fmt.Sprintf("%v with %s, %v", c18Cmds[c], strings.Join(names, " and "), s) }
		w.Case(text)
		base := filepath.Join(workDir(w, "c18"), "c")
		c18World(base, s)
		env := c18Env(base)
		var in func(*exec.Cmd)
		for _, k := range set {
			x := circumstances[k]
			if x.fs != nil {
				x.fs(base)
			}
			if x.env != nil {
				x.env(env, base)
			}
			if x.in != nil {
				in = x.in
			}
		}
		var got CLI
		before := c18Tree(base)
		got = c18Run(r, base, filepath.Join(base, "work"), env, c18Cmds[c], func(cmd *exec.Cmd) {
			if in != nil && c18Cmds[c].stdin < 0 {
				in(cmd)
			}
		})
		after := c18Tree(base)
		r.AddTransitions(1)
		r.AddTraces(1)
		want := ref(s, c)
		why := ""
		if !got.same(want) {
			why = fmt.Sprintf("gives\n%v\nbut without that\n%v\n", got, want)
		}
		if after != before {
			why += fmt.Sprintf("changed files\n--- before\n%s--- after\n%s", before, after)
		}
		if why != "" {
			r.Violate(1<<50|i, "circumstances:"+text(), text()+" "+why, map[string]any{"case": text(), "texts": c18Texts, "why": why})
		}
	})
	_ = c18SilentEnd.Close() // open until here
	r.Space("pairs of circumstances which must not matter (environment variables, other files, times and modes of the files, standard input)", "circumstances", len(circumstances), "sets", len(sets), "commands", len(c18Cmds), "states of the files", len(use))
}
