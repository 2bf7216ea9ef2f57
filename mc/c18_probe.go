package main

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	e "verifmc/engine"
)

// ---- what the program consults: environment variables, files, the clock ----
//
// The command is also built with a standard library which tells what the program asks the system for (cmd/probe).
// Starting from the plain worlds, every variable and every file asked for, other than the selected files, is given every
// value of an alphabet; what is asked for under these circumstances is varied in turn, on top of them.

var c18Values = []string{"", "0", "1", "true", "false", "yes", "no", "on", "off", "never", "always", "auto", "debug", "error", "json", "a.graphql", "b.graphql", "*", "*.graphql", "ref/r.graphql", "type-desc", "type-desc,enum-caps", "nosuch", "-b", "-e", "-r type-desc",
	"--rules=type-desc", "lint", "2", "16", "100", "-1", "de_DE.UTF-8", "C", "Asia/Tokyo", "xterm", "dumb", "$BASE", "$BASE/home", "$BASE/work", "$BASE/nowhere"}

var c18Files = []string{"", "\n", "*\n", "*.graphql\n", "a.graphql\n", "b.graphql\n", "!a.graphql\n", "type-desc\n", "type-desc,field-desc\n", "enum-caps\nfield-camel\n", "rules: [type-desc]\n", "rules:\n  - type-desc\n", "lint:\n  rules: [type-desc]\n", "disable: [type-desc, field-desc]\n", "ignore: ['*']\n",
	"{}\n", "{\"rules\":[\"type-desc\"]}\n", "{\"lint\":{\"rules\":[\"type-desc\"]}}\n", "{\"ignore\":[\"*\"],\"disable\":[\"type-desc\"]}\n", "rules=type-desc\n", "[lint]\nrules = [\"type-desc\"]\n", "true\n", "1\n", "# x\n", "schema: b.graphql\n", "Query\n", "Query.f\n", "Query.f.a\n",
	"breaking-change-only: true\n", "exclude-print-filepath=true\n", "GQL_RULES=type-desc\n", "scalar Z\n", "type Z {\n", "\x00\xff", "DIR", "DANGLING"}

var c18Clock = []string{"1", "-1", "3600", "86400", "-86400", "31536000", "3153600000", "-1700000000"}

// a setting of something which is consulted
type c18Setting struct{ kind, name, value string }

func (s c18Setting) String() string {
	switch s.kind {
	case "env":
		return fmt.Sprintf("the variable %s=%q", s.name, s.value)
	case "file":
		return fmt.Sprintf("the file %s with %q", s.name, s.value)
	}
	return "the clock moved by " + s.value + " s"
}

// selects tells whether a file of the working directory is one which a command of c18Cmds selects (or a pattern of one).
func c18Selected(rel string) bool {
	rel = filepath.Clean(rel)
	if strings.HasPrefix(rel, "work/d/") || strings.HasPrefix(rel, "work/ref/") {
		return strings.HasSuffix(rel, ".graphql") || strings.ContainsAny(rel, "*?[")
	}
	b := filepath.Base(rel)
	return filepath.Dir(rel) == "work" && (strings.HasSuffix(b, ".graphql") && len([]rune(b)) == 9 || strings.ContainsAny(b, "*?["))
}

func c18Probe(r *e.Run, states []c18State, ref func(c18State, int) CLI) {
	probe := os.Getenv("MC_GQL_PROBE")
	if probe == "" {
		r.Assume("the instrumented standard library could not be built: only the listed environment variables and files were varied, not those which the program consults")
		return
	}
	use := []c18State{states[0], {1, 3}, {0, 0}, {0, 2}}
	if r.Thorough() {
		use = states
	}
	nc := len(c18Cmds)
	depth := 2
	type node struct{ sets []c18Setting }
	front := []node{{}}
	seen := map[string]bool{}
	type found struct{ kind, name string }
	total, runs := 0, 0
	var consulted []string
	for level := 0; level <= depth && len(front) > 0; level++ {
		var mu sync.Mutex
		asked := map[int]map[found]bool{}
		n := int64(len(front) * len(use) * nc)
		r.Par(n, func(w *e.W, i int64) {
			k := int(i) / nc / len(use)
			s, ci := use[int(i)/nc%len(use)], int(i)%nc
			nd, c := front[k], c18Cmds[ci]
			text := func() string { return fmt.Sprintf("%v, %v, with %v", c, s, nd.sets) }
			w.Case(text)
			base := filepath.Join(workDir(w, "c18"), "p")
			c18World(base, s)
			env := c18Env(base)
			for _, x := range nd.sets {
				switch x.kind {
				case "env":
					env[x.name] = strings.ReplaceAll(x.value, "$BASE", base)
				case "clock":
					env["VERIFMC_CLOCK"] = x.value
				case "file":
					p := filepath.Join(base, x.name)
					if fi, err := os.Lstat(p); err == nil && fi.IsDir() {
						return // a directory which is there
					}
					if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
						return // below a file
					}
					_ = os.Remove(p)
					switch x.value {
					case "DIR":
						_ = os.Mkdir(p, 0o755)
					case "DANGLING":
						_ = os.Symlink("nowhere", p)
					default:
						c18Put(p, x.value)
					}
				}
			}
			log, err := os.CreateTemp(workDir(w, "probe"), "log")
			if err != nil {
				panic(err)
			}
			defer func() { _ = os.Remove(log.Name()); _ = log.Close() }()
			before := c18Tree(base)
			work := filepath.Join(base, "work")
			got := c18RunOf(probe, work, env, c, func(cmd *exec.Cmd) { cmd.ExtraFiles = []*os.File{log} })
			after := c18Tree(base)
			r.AddTransitions(1)
			r.AddTraces(1)
			why := ""
			if want := ref(s, ci); !got.same(want) {
				why = fmt.Sprintf("gives\n%v\nbut without that\n%v\n", got, want)
			}
			if after != before {
				why += fmt.Sprintf("changed files\n--- before\n%s--- after\n%s", before, after)
			}
			if why != "" {
				r.Violate(1<<52|i, "consulted:"+text(), text()+" "+why, map[string]any{"case": text(), "texts": c18Texts, "why": why})
			}
			b, err := os.ReadFile(log.Name())
			if err != nil {
				panic(err)
			}
			for _, l := range strings.Split(string(b), "\x00") {
				kind, name, _ := strings.Cut(l, " ")
				switch kind {
				case "file":
					if !filepath.IsAbs(name) {
						name = filepath.Join(work, name)
					}
					rel, err := filepath.Rel(base, name)
					if err != nil || rel == "." || rel == ".." || strings.HasPrefix(rel, "../") || c18Selected(rel) {
						continue
					}
					if fi, err := os.Lstat(filepath.Join(base, rel)); err == nil && fi.IsDir() {
						continue
					}
					name = rel
				case "env", "clock":
				default:
					continue
				}
				mu.Lock()
				if asked[k] == nil {
					asked[k] = map[found]bool{}
				}
				asked[k][found{kind, name}] = true
				mu.Unlock()
			}
		})
		runs += int(n)
		if r.Stopped() {
			return
		}
		var next []node
		for k := range front {
			var fs []found
			for f := range asked[k] {
				fs = append(fs, f)
			}
			sort.Slice(fs, func(i, j int) bool { return fs[i].kind+fs[i].name < fs[j].kind+fs[j].name })
			for _, f := range fs {
				if seen[f.kind+" "+f.name] {
					continue
				}
				seen[f.kind+" "+f.name] = true
				total++
				consulted = append(consulted, f.kind+" "+f.name)
				vals := map[string][]string{"env": c18Values, "file": c18Files, "clock": c18Clock}[f.kind]
				for _, v := range vals {
					next = append(next, node{append(append([]c18Setting{}, front[k].sets...), c18Setting{f.kind, f.name, v})})
				}
			}
		}
		front = next
	}
	r.AddStates(runs)
	sort.Strings(consulted)
	r.Space("everything which the program consults besides the selected files (environment variables, files, clock), with every value of an alphabet", "runs", runs, "consulted", total, "which", consulted, "states of the files", len(use), "commands", nc, "depth", depth)
}
