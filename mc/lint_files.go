package main

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"

	e "verifmc/engine"
)

// lintText9 is a file content: want is the number of errors of all the rules, wantDesc the one of type-desc.
type lintText9 struct {
	text           string
	want, wantDesc int
}

var totalLine = regexp.MustCompile(`Total lint errors found: ([0-9]+)`)
var errorLine = regexp.MustCompile(`^.*:-?[0-9]+:-?[0-9]+ `)

// lintRun is one lint run: the files of the directory, the pattern, the flags, and what the names of the selected files are printed like.
type lintRun struct {
	names    []string // files in the directory
	contents []int
	selected []bool
	shown    func(dir, name string) string
	args     func(dir string) []string
	desc     bool // only type-desc
}

func l09(r *e.Run) {
	rep := func(n int) string {
		return strings.Repeat("scalar S scalar T\n", n/2) + strings.Repeat("scalar U\n", n%2)
	}
	texts := []lintText9{
		{"\"d\" type A { \"d\" a: Int }\n", 0, 0},
		{"scalar A\n", 1, 1},
		{"type a {\n  b_(c: Int): Int\n}\nenum A { x }\n", 8, 2}, // type-desc 2, type-caps, field-desc, field-camel, args-desc, enum-desc, enum-caps
		{"#lint-disable type-desc, type-caps\n\nscalar A\nscalar b\nenum E { C }\n", 1, 0},
		{"scalar a scalar B\n#lint-disable type-desc,field-desc,type-caps,enum-caps,field-camel\n", 3, 2},
		{"scalar A #lint-disable-line type-desc\nscalar A\nscalar A #lint-disable-line type-desc,type-caps\n", 1, 1},
		{"", 0, 0},
		{"# nothing here\n#lint-enable type-desc\n#lint-disable enum-desc", 0, 0},
		{"type AConnection { edges: [Int] }\r\n\"d\" interface BConnection { \"d\" a(\"d\" first: Int): AConnection }", 5, 1}, // type-desc, field-desc, no pageInfo; interface; args
		{"\"d\" type a { \"d\" b_(\"d\" c: Int): Int }\n\"d\" enum A { \"d\" x }\n#lint-enable type-desc,type-caps", 3, 0},
		{"#lint-enable type-desc\n#lint-disable-line type-desc\nscalar A", 1, 1},
	}
	nt := len(texts)
	count := func(c int, desc bool) int {
		if desc {
			return texts[c].wantDesc
		}
		return texts[c].want
	}
	// what linting the file alone prints (a process of its own for every content)
	alone := [2][][]string{make([][]string, nt), make([][]string, nt)}
	r.Par(int64(2*nt), func(w *e.W, i int64) {
		k, desc := int(i)/2, i%2 == 1
		dir := workDir(w, "alone")
		emptyDir(dir)
		putFile(dir, "s.graphql", texts[k].text)
		args := []string{"lint", "-f", "s.graphql"}
		if desc {
			args = append(args, "-r", "type-desc")
		}
		c := runGQL(r, dir, nil, args...)
		l := printedErrors(c.Out, "s.graphql")
		for j := range l {
			l[j] = strings.TrimPrefix(l[j], "s.graphql")
		}
		alone[i%2][k] = l
		if len(l) != count(k, desc) {
			r.Violate(i, fmt.Sprintf("alone:%d:%v", k, desc), fmt.Sprintf("gql %q printed %d error lines, expected %d\n%s\n--- schema\n%s", args, len(l), count(k, desc), c, texts[k].text), map[string]any{"args": args, "schema": texts[k].text, "run": c})
		}
	})
	if r.Stopped() {
		return
	}
	run := func(space string, n int64, build func(i int64) *lintRun) {
		if r.Stopped() {
			return
		}
		cnt := make([]int64, r.Workers)
		r.Par(n, func(w *e.W, i int64) {
			fs := build(i)
			if fs == nil {
				return
			}
			cnt[w.ID]++
			dir := workDir(w, "files")
			emptyDir(dir)
			for j, x := range fs.names {
				putFile(dir, x, texts[fs.contents[j]].text)
			}
			args := append([]string{"lint"}, fs.args(dir)...)
			if fs.desc {
				args = append(args, "-r", "type-desc")
			}
			w.Case(func() string { return fmt.Sprint(args, fs.names, fs.contents) })
			c := runGQL(r, dir, nil, args...)
			r.AddTransitions(1)
			r.AddTraces(1)
			why, total := "", 0
			for j, x := range fs.names {
				if fs.selected != nil && !fs.selected[j] {
					continue
				}
				di := 0
				if fs.desc {
					di = 1
				}
				name := fs.shown(dir, x)
				got := printedErrors(c.Out, name)
				var want []string
				for _, s := range alone[di][fs.contents[j]] {
					want = append(want, name+s)
				}
				total += len(want)
				if strings.Join(got, "\n") != strings.Join(want, "\n") {
					why += fmt.Sprintf("file %s: expected\n  %s\nprinted\n  %s\n", x, strings.Join(want, "\n  "), strings.Join(got, "\n  "))
				}
			}
			if s := verdictProblem(c, total); s != "" {
				why += s
			}
			w.Outcome(fmt.Sprintf("%d files, %d errors", len(fs.names), min(total, 30)))
			if why != "" {
				files := map[string]string{}
				for j, x := range fs.names {
					files[x] = texts[fs.contents[j]].text
				}
				r.Violate(i, fmt.Sprintf("files:%s:%v", space, fs.contents), fmt.Sprintf("gql %q: %s%s\n--- files %q", args, why, c, files), map[string]any{"args": args, "files": files, "why": why, "run": c})
			}
		})
		var t int64
		for _, x := range cnt {
			t += x
		}
		r.AddStates(int(t))
		r.Space(space, "runs", t)
	}
	plain := func(dir, name string) string { return name }
	glob := func(pat string) func(dir string) []string {
		return func(string) []string { return []string{"-f", pat} }
	}
	nameSets := [][]string{
		{"a.graphql", "b.graphql", "c.graphql", "d.graphql"}, {"a10.graphql", "a2.graphql", "B.graphql", "b.graphql"}, {"x y.graphql", "é.graphql", "100%d.graphql", "%s.graphql"}, {"a.graphql", "aa.graphql", "a.a.graphql", "a.graphql.graphql"},
	}
	// 1. every assignment of contents to three (four) files
	for si, ns := range nameSets {
		k := 3
		if si == 0 || r.Thorough() {
			k = 4
		}
		n := int64(1)
		for j := 0; j < k; j++ {
			n *= int64(nt)
		}
		ns := ns
		run(fmt.Sprintf("every assignment of %d contents to the files %q", nt, ns[:k]), n, func(i int64) *lintRun {
			cs := make([]int, k)
			for j := range cs {
				cs[j] = int(i % int64(nt))
				i /= int64(nt)
			}
			return &lintRun{names: ns[:k], contents: cs, shown: plain, args: glob("*.graphql"), desc: (cs[0]+cs[1]+cs[2])%4 == 0}
		})
	}
	// 2. forms of the pattern; some files are not selected
	forms := []struct {
		args  func(dir string) []string
		sel   string // selected names
		shown func(dir, name string) string
	}{
		{glob("a.graphql"), "a", plain}, {glob("./a.graphql"), "a", func(d, n string) string { return "./" + n }}, {func(d string) []string { return []string{"--filepath=" + d + "/*.graphql"} }, "abc", func(d, n string) string { return d + "/" + n }},
		{func(d string) []string { return []string{"--filepath", d + "/b.graphql"} }, "b", func(d, n string) string { return d + "/" + n }}, {glob("[ab].graphql"), "ab", plain}, {glob("?.graphql"), "abc", plain}, {glob("[^a].gr*"), "bc", plain}, {glob("*"), "abc", plain},
		{func(string) []string { return []string{"-f*.graphql"} }, "abc", plain}, {glob("../files/[b-c]*"), "bc", func(d, n string) string { return "../files/" + n }}, {func(string) []string { return []string{"-f=c.graphql"} }, "c", plain},
	}
	n3 := int64(nt * nt * nt)
	run("forms of the file pattern", n3*int64(len(forms)), func(i int64) *lintRun {
		f := forms[i%int64(len(forms))]
		i /= int64(len(forms))
		a, b, c := int(i)%nt, int(i)/nt%nt, int(i)/nt/nt
		fs := &lintRun{names: nameSets[0][:3], contents: []int{a, b, c}, shown: f.shown, args: f.args, desc: a%3 == 2}
		for _, x := range fs.names {
			fs.selected = append(fs.selected, strings.Contains(f.sel, x[:1]))
		}
		return fs
	})
	// 3. many files, many errors
	base := nt
	for _, k := range []int{2, 9, 10, 11, 99, 100, 127, 128, 254, 255, 256, 257, 511, 512, 513, 1000, 1024, 65536} {
		texts = append(texts, lintText9{rep(k), k, k})
	}
	for d := 0; d < 2; d++ {
		for k := base; k < len(texts); k++ {
			var l []string
			for j := 0; j < texts[k].want; j++ {
				col := ""
				if j%2 == 0 {
					col = ":8"
				} else {
					col = ":17"
				}
				name := "S"
				if j%2 == 1 {
					name = "T"
				}
				if j == texts[k].want-1 && texts[k].want%2 == 1 {
					name, col = "U", ":8"
				}
				l = append(l, fmt.Sprintf(":%d%s type %s does not have description", j/2+1, col, name))
			}
			alone[d] = append(alone[d], l)
		}
	}
	nbig := int64(len(texts) - base)
	run("many errors in one or two files", nbig*nbig+nbig, func(i int64) *lintRun {
		if i < nbig {
			return &lintRun{names: []string{"a.graphql"}, contents: []int{base + int(i)}, shown: plain, args: glob("a.graphql")}
		}
		i -= nbig
		a, b := base+int(i%nbig), base+int(i/nbig)
		if texts[a].want+texts[b].want > 3000 || !r.Thorough() && (a+b)%3 != 0 && texts[a].want+texts[b].want != 256 && texts[a].want+texts[b].want != 512 {
			return nil
		}
		return &lintRun{names: []string{"a.graphql", "b.graphql"}, contents: []int{a, b}, shown: plain, args: glob("*.graphql"), desc: i%2 == 1}
	})
	mx := int64(e.Pick(r, 100, 600))
	run("many files", mx*3, func(i int64) *lintRun {
		fs := &lintRun{shown: plain, args: glob("*.graphql")}
		for j := int64(0); j <= i/3; j++ {
			fs.names = append(fs.names, fmt.Sprintf("f%d.graphql", j))
			fs.contents = append(fs.contents, []int{1, int(j) % base, 0}[i%3])
		}
		return fs
	})
	var fnames []string
	for _, n := range fileNames() {
		if n != "a.graphql" && !strings.ContainsFunc(n, func(c rune) bool { return c < ' ' || c == 0x7f }) {
			fnames = append(fnames, n)
		}
	}
	nfn := int64(len(fnames))
	run("files of every name", nfn*3, func(i int64) *lintRun {
		n := fnames[i%nfn]
		switch i / nfn {
		case 0: // next to another one
			return &lintRun{names: []string{"a.graphql", n}, contents: []int{1, 2}, shown: plain, args: glob("*")}
		case 1: // alone, given by its name
			return &lintRun{names: []string{n}, contents: []int{2}, shown: plain, args: glob(literalPattern(n))}
		}
		return &lintRun{names: []string{"a.graphql", n}, contents: []int{0, 1}, selected: []bool{false, true}, shown: func(d, n string) string { return d + "/" + n }, args: func(d string) []string { return []string{"--filepath=" + d + "/" + literalPattern(n)} }}
	})
	dnames := dirNames
	run("files in directories of every name", int64(len(dnames))*2, func(i int64) *lintRun {
		d := dnames[i/2]
		return &lintRun{names: []string{d + "/a.graphql", d + "/b.graphql", "x/c.graphql"}, contents: []int{1, 2, 5}, shown: plain, args: glob([]string{"*/*", "*/*.graphql"}[i%2])}
	})
	// 4. standard input
	ins := []string{}
	for k := range texts {
		if k < base || texts[k].want < 2000 {
			ins = append(ins, texts[k].text)
		}
	}
	ins = append(ins, selDocs()...)
	for _, s := range layoutDocs(LDesc{}) {
		for _, sep := range []string{" ", "\n", "\r\n", "\t"} {
			sep := sep
			ins = append(ins, layOut(s, func(int) string { return sep }).Text)
		}
	}
	for _, k := range []int{511, 512, 513, 4096, 65535, 65536, 65537, 1 << 20} {
		ins = append(ins, "scalar a\n#"+strings.Repeat("x", k)+"\nscalar b", strings.Repeat("\n", k)+"scalar a")
	}
	flags := [][]string{nil, {"-r", "type-desc"}, {"-r", "type-caps,field-desc"}}
	r.Par(int64(len(ins)*len(flags)), func(w *e.W, i int64) {
		text, fl := ins[i/int64(len(flags))], flags[i%int64(len(flags))]
		dir := workDir(w, "stdin")
		emptyDir(dir)
		putFile(dir, "s.graphql", text)
		w.Case(func() string { return "standard input: " + clipS(text, 2000) })
		f := runGQL(r, dir, nil, append([]string{"lint", "-f", "s.graphql"}, fl...)...)
		s := runGQL(r, dir, []byte(text), append([]string{"lint"}, fl...)...)
		r.AddTransitions(2)
		r.AddTraces(2)
		why := ""
		cut := func(c CLI) (out []string) {
			for _, l := range strings.Split(c.Out, "\n") {
				if errorLine.MatchString(l) {
					_, x, _ := strings.Cut(l, ":")
					out = append(out, x)
				}
			}
			return
		}
		a, b := cut(f), cut(s)
		if strings.Join(a, "\n") != strings.Join(b, "\n") {
			why = fmt.Sprintf("errors of the file: %q, of standard input: %q", a, b)
		} else if f.Code != s.Code {
			why = fmt.Sprintf("exit status %d for the file, %d for standard input", f.Code, s.Code)
		} else if p := verdictProblem(s, len(b)); p != "" {
			why = p
		}
		w.Outcome(fmt.Sprintf("standard input, %d errors", min(len(b), 30)))
		if why != "" {
			r.Violate(i, fmt.Sprintf("stdin:%x:%v", h64(text), fl), fmt.Sprintf("standard input, flags %q: %s\n--- schema\n%q", fl, clipS(why, 2000), clipS(text, 600)), map[string]any{"args": fl, "schema": text, "why": why, "run": s})
		}
	})
	r.AddStates(len(ins) * len(flags))
	r.Space("standard input", "texts", len(ins), "runs", 2*len(ins)*len(flags))
	r.Sample(map[string]any{"space": "every assignment of contents to files", "contents": texts[:base][2:6]})
}

// verdictProblem checks the verdict of a lint run with the given number of errors.
func verdictProblem(c CLI, total int) string {
	lines := 0
	for _, l := range strings.Split(c.Out, "\n") {
		if errorLine.MatchString(l) {
			lines++
		}
	}
	m := totalLine.FindAllStringSubmatch(c.Out, -1)
	none := strings.Contains(c.Out, "no lint errors")
	switch {
	case c.Hung || c.Signal != "" || strings.Contains(c.Err, "panic:"):
		return "the command crashed or hung\n"
	case lines != total:
		return fmt.Sprintf("%d error lines printed, expected %d\n", lines, total)
	case c.Code != min(total, 1):
		return fmt.Sprintf("exit status %d with %d errors\n", c.Code, total)
	case total == 0 && (!none || len(m) > 0):
		return "no errors, but the command does not say so\n"
	case total > 0 && none:
		return fmt.Sprintf("'no lint errors' printed with %d errors\n", total)
	case total > 0 && (len(m) != 1 || m[0][1] != strconv.Itoa(total)):
		return fmt.Sprintf("the total printed is %v, with %d errors\n", m, total)
	}
	return ""
}
