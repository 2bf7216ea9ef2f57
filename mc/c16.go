package main

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"github.com/CrowdStrike/gql/utils"

	e "verifmc/engine"
	m "verifmc/model"
)

// ---- an independent reading of wildcard patterns: components separated by '/'; '*', '?', '[...]', '\x' ----

type patElem struct {
	kind byte // '*', '?', 'c' (one literal character), '['
	c    rune
	neg  bool
	set  [][2]rune
}

// parsePat gives the elements of one component, ok is false when it is malformed.
func parsePat(p string) (out []patElem, ok bool) {
	rs := []rune(p)
	for i := 0; i < len(rs); i++ {
		switch rs[i] {
		case '*', '?':
			out = append(out, patElem{kind: byte(rs[i])})
		case '\\':
			i++
			if i == len(rs) {
				return nil, false
			}
			out = append(out, patElem{kind: 'c', c: rs[i]})
		case '[':
			i++
			x := patElem{kind: '['}
			if i < len(rs) && rs[i] == '^' {
				x.neg = true
				i++
			}
			one := func() (rune, bool) {
				if i >= len(rs) || rs[i] == '-' || rs[i] == ']' {
					return 0, false
				}
				if rs[i] == '\\' {
					i++
					if i >= len(rs) {
						return 0, false
					}
				}
				i++
				return rs[i-1], true
			}
			for n := 0; ; n++ {
				if i < len(rs) && rs[i] == ']' && n > 0 {
					break
				}
				lo, good := one()
				if !good || i >= len(rs) {
					return nil, false
				}
				hi := lo
				if rs[i] == '-' {
					i++
					if hi, good = one(); !good || i >= len(rs) {
						return nil, false
					}
				}
				x.set = append(x.set, [2]rune{lo, hi})
			}
			out = append(out, x)
		default:
			out = append(out, patElem{kind: 'c', c: rs[i]})
		}
	}
	return out, true
}

func patMatch(ps []patElem, s []rune) bool {
	if len(ps) == 0 {
		return len(s) == 0
	}
	p := ps[0]
	if p.kind == '*' {
		for i := 0; i <= len(s); i++ {
			if patMatch(ps[1:], s[i:]) {
				return true
			}
		}
		return false
	}
	if len(s) == 0 {
		return false
	}
	ok := true
	switch p.kind {
	case 'c':
		ok = p.c == s[0]
	case '[':
		in := false
		for _, r := range p.set {
			if r[0] <= s[0] && s[0] <= r[1] {
				in = true
			}
		}
		ok = in != p.neg
	}
	return ok && patMatch(ps[1:], s[1:])
}

// splitPat splits a pattern at the slashes (a slash inside of brackets or after a backslash is not handled: not generated).
func splitPat(p string) []string { return strings.Split(p, "/") }

func contentMap(r *e.Run, w *e.W, pattern string) (map[string][]byte, error, string) {
	var got map[string][]byte
	var err error
	msg := e.Guard(func() { got, err = utils.ReadFiles(pattern) })
	r.AddTransitions(1)
	r.AddTraces(1)
	return got, err, msg
}

// patterns: every pattern over an alphabet on a fixed tree.
func c16Patterns(r *e.Run) {
	root := filepath.Join(r.Scratch, "tree")
	names := []string{"a", "b", "c", "ab", "ba", "aa", "abc", "a.b", ".a", "A", "*", "[a]", "a\\", "é", "a b", "d/a", "d/b", "d/d/a", "d/é", "aab/a", "aab/x", "x/.a", "-"}
	for _, n := range names {
		p := filepath.Join(root, n)
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			panic(err)
		}
		if err := os.WriteFile(p, []byte("# "+n), 0o644); err != nil {
			panic(err)
		}
	}
	dirs := []string{"d", "d/d", "aab", "x"}
	all := append(append([]string{}, names...), dirs...)
	toks := []string{"a", "b", "*", "?", "[ab]", "[^a]", "[b-e]", "d", "/", ".", "[", "]", "\\", "-", "é"}
	ml := e.Pick(r, 5, 6)
	n, at := seqCount(len(toks), ml)
	r.Par(n, func(w *e.W, i int64) {
		pat := ""
		for _, x := range at(i) {
			pat += toks[x]
		}
		if pat == "" || strings.Contains(pat, "\\/") || strings.HasPrefix(pat, "/") || strings.HasSuffix(pat, "/") || strings.Contains(pat, "//") {
			return
		}
		if strings.Count(pat, "/") > 0 && strings.Contains(pat, "[") { // brackets over slashes are left to the literal part
			for _, c := range splitPat(pat) {
				if _, ok := parsePat(c); !ok {
					return
				}
			}
		}
		for _, c := range splitPat(pat) {
			if c == "." || c == ".." {
				return
			}
		}
		w.Case(func() string { return "pattern " + pat })
		bad := false
		var comps [][]patElem
		for _, c := range splitPat(pat) {
			x, ok := parsePat(c)
			if !ok {
				bad = true
			}
			comps = append(comps, x)
		}
		want := map[string]bool{}
		wantDir := false
		if !bad {
			for _, f := range all {
				fc := strings.Split(f, "/")
				if len(fc) != len(comps) {
					continue
				}
				ok := true
				for k := range fc {
					ok = ok && patMatch(comps[k], []rune(fc[k]))
				}
				if ok {
					want["# "+f] = true
					for _, d := range dirs {
						wantDir = wantDir || d == f
					}
				}
			}
		}
		// a pattern without special characters is a plain path
		got, err, msg := contentMap(r, w, root+"/"+pat)
		why := ""
		switch {
		case msg != "":
			why = msg
		case bad || len(want) == 0 || wantDir:
			if err == nil {
				why = fmt.Sprintf("malformed: %v, matching entries: %v; but no error, %d files read", bad, sortedKeys(want), len(got))
			}
			w.Outcome(fmt.Sprintf("error: malformed %v, directory %v", bad, wantDir))
		case err != nil:
			why = fmt.Sprintf("matching files %v, but the error %v", sortedKeys(want), err)
		default:
			w.Outcome(fmt.Sprintf("%d files", len(got)))
			have := map[string]bool{}
			for name, c := range got {
				have[string(c)] = true
				if rel, err := filepath.Rel(root, name); err != nil || "# "+rel != string(c) {
					why = fmt.Sprintf("the content %q is given for %s", c, name)
				}
			}
			if a, b := strings.Join(sortedKeys(want), ";"), strings.Join(sortedKeys(have), ";"); a != b || len(got) != len(want) {
				why = fmt.Sprintf("matching files: %s; read: %s", a, b)
			}
		}
		if why != "" {
			r.Violate(i, "pattern:"+pat, fmt.Sprintf("pattern %q: %s", pat, why), map[string]any{"pattern": pat, "tree": all, "why": why})
		}
	})
	r.AddStates(int(n))
	r.Space(fmt.Sprintf("all patterns of up to %d elements over %q", ml, toks), "patterns", n, "tree", all)
}

// c16Contents: files of all sizes and contents come out unchanged.
func c16Contents(r *e.Run) {
	sizes := []int{0, 1, 2, 3, 7, 8, 9, 31, 32, 33, 100, 127, 128, 129, 255, 256, 257, 510, 511, 512, 513, 514, 767, 768, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4094, 4095, 4096, 4097, 8191, 8192, 8193, 16383, 16384, 16385, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 131071, 131072, 131073, 1<<20 - 1, 1 << 20, 1<<20 + 1, 3000001}
	if r.Thorough() {
		for k := 3; k < 10000; k++ {
			sizes = append(sizes, k)
		}
		sizes = append(sizes, 1<<27+1)
	} else {
		for k := 3; k < 1100; k++ {
			sizes = append(sizes, k)
		}
	}
	for k := 21; k <= 25; k++ {
		sizes = append(sizes, 1<<k-1, 1<<k, 1<<k+1)
	}
	sizes = append(sizes, 5000001, 10000000, 10000001, 1<<26+7)
	fills := []func(i int) byte{
		func(i int) byte { return "# comment\n"[i%10] }, func(i int) byte { return byte(i) }, func(i int) byte { return 0 }, func(i int) byte { return 0xff }, func(i int) byte { return '\n' }, func(i int) byte { return "\r\n"[i%2] },
		func(i int) byte { return "\xef\xbb\xbf"[i%3] }, func(i int) byte { return " \t"[i%2] }, func(i int) byte { return byte(i*i>>3 ^ i>>9) },
	}
	n := int64(len(sizes) * len(fills))
	r.Par(n, func(w *e.W, i int64) {
		size, fill := sizes[i%int64(len(sizes))], fills[i/int64(len(sizes))]
		if kind := i / int64(len(sizes)); size > 100000 && kind%3 != 1 || size > 3100000 && kind != 1 {
			return
		}
		b := make([]byte, size)
		for k := range b {
			b[k] = fill(k)
		}
		dir := workDir(w, "sizes")
		emptyDir(dir)
		want := map[string]string{}
		put := func(name string, b []byte) {
			putFile(dir, name, string(b))
			want[filepath.Join(dir, name)] = string(b)
		}
		put("b.graphql", b)
		if i%2 == 1 {
			put("a.graphql", []byte("scalar A"))
			put("c.graphql", b[:size/2])
			put("d.graphql", []byte{})
		}
		w.Case(func() string { return fmt.Sprintf("a file of %d bytes", size) })
		got, err, msg := contentMap(r, w, filepath.Join(dir, "*.graphql"))
		why := msg
		if err != nil {
			why = "error: " + err.Error()
		} else if why == "" {
			if len(got) != len(want) {
				why = fmt.Sprintf("%d files read instead of %d", len(got), len(want))
			}
			for k, v := range want {
				if string(got[k]) != v {
					why = fmt.Sprintf("%s: %d bytes read differ from the %d bytes of the file", filepath.Base(k), len(got[k]), len(v))
				}
			}
		}
		w.Outcome(fmt.Sprintf("size class %d", len(fmt.Sprintf("%b", size))))
		if why != "" {
			r.Violate(i, fmt.Sprintf("content:%d:%d", size, i/int64(len(sizes))), fmt.Sprintf("a file of %d bytes (filling %d): %s", size, i/int64(len(sizes)), why), map[string]any{"size": size, "filling": i / int64(len(sizes)), "why": why})
		}
	})
	r.AddStates(int(n))
	r.Space("sizes and contents", "files", n)
	// number of files, with few file descriptors available
	dir := filepath.Join(r.Scratch, "many")
	_ = os.MkdirAll(dir, 0o755)
	cnt := 3000
	for k := 0; k < cnt; k++ {
		putFile(dir, fmt.Sprintf("f%d.graphql", k), fmt.Sprintf("scalar a%d\n", k))
	}
	pats := []string{"f?.graphql", "f??.graphql", "f1*.graphql", "f???.graphql", "*.graphql"}
	for pi, p := range pats {
		ms, _ := filepath.Glob(filepath.Join(dir, p))
		cmd := exec.Command("/bin/sh", "-c", "ulimit -n 64; exec \"$0\" \"$@\"", r.GQL, "lint", "-r", "type-caps", "-f", p)
		cmd.Dir = dir
		out, _ := cmd.Output()
		r.AddTransitions(1)
		r.AddTraces(1)
		r.Outcome("many files")
		if s := fmt.Sprintf("Total lint errors found: %d\n", len(ms)); !strings.HasSuffix(string(out), s) {
			r.Violate(int64(pi), "manyfiles:"+p, fmt.Sprintf("%d files match %s (64 file descriptors), the command ends with %q", len(ms), p, tailS(string(out), 300)), map[string]any{"files": len(ms), "out": tailS(string(out), 3000)})
		}
	}
	r.AddStates(len(pats))
	r.Space("up to 3000 files with 64 file descriptors", "runs", len(pats))
}

func tailS(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}

// c16Chunks: the environment hands out a file in all possible portions (a named pipe; the next portion is
// written when the previous one has been consumed).
func c16Chunks(r *e.Run) {
	text := "type A{é:I}#x\n"
	nb := len(text)
	bits := e.Pick(r, 11, nb-1)
	n := int64(1) << bits
	r.Par(n, func(w *e.W, i int64) {
		dir := workDir(w, "fifo")
		p := filepath.Join(dir, "p.graphql")
		_ = os.Remove(p)
		if err := syscall.Mkfifo(p, 0o644); err != nil {
			panic(err)
		}
		w.Case(func() string { return fmt.Sprintf("portions %b", i) })
		var parts []string
		from := 0
		for k := 1; k <= nb; k++ {
			if k == nb || k <= bits && i>>(k-1)&1 == 1 {
				parts = append(parts, text[from:k])
				from = k
			}
		}
		done := make(chan struct{})
		stop := make(chan struct{})
		go func() {
			defer close(done)
			var f *os.File
			for f == nil { // until the reader has opened the pipe
				fd, err := syscall.Open(p, syscall.O_WRONLY|syscall.O_NONBLOCK|syscall.O_CLOEXEC, 0)
				if err == nil {
					f = os.NewFile(uintptr(fd), p)
					break
				}
				select {
				case <-stop:
					return
				case <-time.After(20 * time.Microsecond):
				}
			}
			defer f.Close()
			for _, x := range parts {
				if _, err := f.Write([]byte(x)); err != nil {
					return
				}
				for left := int32(1); left > 0; {
					rc, err := f.SyscallConn()
					if err != nil {
						return
					}
					_ = rc.Control(func(fd uintptr) {
						_, _, _ = syscall.Syscall(syscall.SYS_IOCTL, fd, 0x541B /* FIONREAD */, uintptr(unsafe.Pointer(&left)))
					})
					select {
					case <-stop:
						return
					default:
					}
				}
			}
		}()
		got, err, msg := contentMap(r, w, p)
		close(stop)
		<-done
		why := msg
		if err != nil {
			why = err.Error()
		} else if why == "" && (len(got) != 1 || string(got[p]) != text) {
			why = fmt.Sprintf("read %q instead of %q", got[p], text)
		}
		w.Outcome(fmt.Sprintf("%d portions", len(parts)))
		if why != "" {
			r.Violate(i, fmt.Sprintf("portions:%q", parts), fmt.Sprintf("a file delivered in the portions %q: %s", parts, why), map[string]any{"portions": parts, "why": why})
		}
	})
	r.AddStates(int(n))
	r.Space("all portions in which a file of 15 bytes arrives", "histories", n, "cut_positions", bits)
}

// c16Faults: entries which cannot be read, at every place, for both commands.
func c16Faults(r *e.Run) {
	faults := []string{"none", "directory", "dangling link", "link to itself", "read error", "link to a directory", "nothing matches", "malformed pattern", "malformed class", "missing directory", "name too long", "file as directory", "pattern of a matching file in brackets"}
	for _, x := range []string{"s", "s/", "./s", "./s/", "s/.", "s/./", "s/..", ".", "./", "..", "../", "/", "//", "s//", "other.gql/", "other.gql//", "other.gql/.", "./other.gql/", "*/", "s/*/", "s/../s/", "s/../elsewhere", "elsewhere/", "elsewhere/*", "elsewher?", "[e]lsewhere/", "~", "~/other.gql", "$HOME", "file://other.gql", "-", "stdin", "/dev/stdin/x", "other.gql,other.gql", "other.gql other.gql", " other.gql", "other.gql ", "Other.gql", "other", "other.gq", "ther.gql", "*.GQL", "{other}.gql", "**/nothing.gql", "\\"} {
		faults = append(faults, "path "+x)
	}
	ways := []string{"lint", "old", "new"}
	places := []string{"a.graphql", "m.graphql", "z.graphql"}
	good := []string{"b.graphql", "n.graphql", "y.graphql"}
	n := int64(len(faults) * len(ways) * len(places) * 4 * 2)
	r.Par(n, func(w *e.W, i int64) {
		j := i
		f := faults[j%int64(len(faults))]
		j /= int64(len(faults))
		way := ways[j%3]
		j /= 3
		place := places[j%3]
		j /= 3
		ng := int(j % 4)
		flag := j/4 == 1
		dir := workDir(w, "faults")
		emptyDir(dir)
		sub := filepath.Join(dir, "s")
		_ = os.MkdirAll(filepath.Join(dir, "elsewhere"), 0o755)
		_ = os.MkdirAll(sub, 0o755)
		for _, g := range good[:ng] {
			putFile(sub, g, "\"d\" scalar "+strings.ToUpper(g[:1])+"\n")
		}
		putFile(dir, "other.gql", "scalar Other\n")
		p := filepath.Join(sub, place)
		pat, named, fail := "s/*.graphql", place, true
		switch f {
		case "none":
			putFile(sub, place, "\"d\" scalar X\n")
			fail = false
		case "directory":
			_ = os.Mkdir(p, 0o755)
		case "dangling link":
			_ = os.Symlink("nowhere", p)
		case "link to itself":
			_ = os.Symlink(place, p)
		case "read error":
			_ = os.Symlink("/proc/self/mem", p) // it can be opened, but reading it at its start fails
		case "link to a directory":
			_ = os.Symlink("../elsewhere", p)
		case "nothing matches":
			pat, named = "s/*.nothing", "s/*.nothing"
		case "malformed pattern":
			pat, named = "s/["+place[:1], "s/["
		case "malformed class":
			pat, named = "s/*[]a].graphql", "s/*[]a].graphql"
		case "missing directory":
			pat, named = "missing/*.graphql", "missing/*.graphql"
		case "name too long":
			pat = strings.Repeat("x", 5000)
			named = pat[:1000]
		case "file as directory":
			pat, named = "other.gql/*", "other.gql/*"
		case "pattern of a matching file in brackets":
			putFile(sub, place, "\"d\" scalar X\n")
			putFile(sub, "["+place[:1]+"].gql", "\"d\" scalar Y\n")
			pat, named = "s/[q].gql", "s/[q].gql"
		}
		if strings.HasPrefix(f, "path ") {
			pat = f[5:]
			named = strings.Trim(pat, "*/")
			if strings.ContainsAny(pat, "?[") {
				named = "lsewher"
			}
		}
		var args []string
		switch way {
		case "lint":
			args = []string{"lint", "-f", pat}
			if flag {
				args = append(args, "-r", "type-desc")
			}
		case "old":
			args = []string{"compare", "-o", pat, "-n", "other.gql"}
			if flag {
				args = append(args, "-b")
			}
		case "new":
			args = []string{"compare", "-o", "other.gql", "-n", pat}
			if flag {
				args = append(args, "-e")
			}
		}
		w.Case(func() string { return fmt.Sprint(f, args) })
		c := runGQL(r, dir, nil, args...)
		r.AddTransitions(1)
		r.AddTraces(1)
		w.Outcome(fmt.Sprintf("%s: exit status %d", f, c.Code))
		why := ""
		verdict := false
		for _, v := range []string{"no lint errors", "Total lint errors", "No changes found", "No breaking changes", "Breaking changes in schema", "✅", "✋", "❌"} {
			verdict = verdict || strings.Contains(c.Out, v)
		}
		switch {
		case c.Hung || c.Signal != "" || strings.Contains(c.Err, "panic:"):
			why = "the command crashed or hung"
		case fail && c.Code != 1:
			why = "the selected files cannot all be read, but not exit status 1"
		case fail && verdict:
			why = "the selected files cannot all be read, but a verdict is printed"
		case fail && !strings.Contains(c.Out+c.Err, named):
			why = "the report does not name " + named
		case !fail && !verdict:
			why = "all files can be read, but no verdict is printed"
		case !fail && way == "lint" && c.Code != 0, !fail && way == "new" && c.Code != 1, !fail && way == "old" && c.Code != 1:
			why = "unexpected exit status"
		}
		if why != "" {
			r.Violate(i, fmt.Sprintf("fault:%s:%s:%s:%d", f, way, place, ng), fmt.Sprintf("%s at %s, %d other files; gql %q: %s\n%s", f, place, ng, args, why, c), map[string]any{"fault": f, "place": place, "args": args, "why": why, "run": c})
		}
	})
	r.AddStates(int(n))
	r.Space("faults of one entry", "faults", faults, "runs", n)
}

// blocksOf gives the text of every top-level definition.
func blocksOf(s *m.Schema) []string {
	var out []string
	for _, x := range s.Roots {
		out = append(out, m.Render(&m.Schema{Roots: []m.Root{x}}).Text())
	}
	for _, x := range s.Types {
		out = append(out, m.Render(&m.Schema{Types: []m.Type{x}}).Text())
	}
	for _, x := range s.Dirs {
		out = append(out, m.Render(&m.Schema{Dirs: []m.DirDef{x}}).Text())
	}
	return out
}

// distribute puts the blocks into files; empty files stay empty.
func distribute(bs []string, to []int, n int, decor int) map[string][]byte {
	texts := make([]string, n)
	for i, b := range bs {
		texts[to[i]] += b
	}
	out := map[string][]byte{}
	for i, t := range texts {
		switch decor {
		case 1: // no line end at the end
			t = strings.TrimRight(t, "\n")
		case 2: // a comment at the end without line end
			t += "# end"
		case 3:
			t = "\ufeff" + strings.ReplaceAll(t, "\n", "\r\n")
		}
		out[[]string{"b.graphql", "a.graphql", "d.graphql", "c10.graphql", "c9.graphql"}[i]] = []byte(t)
	}
	return out
}

func bagOfFiles(o, n map[string][]byte) (map[string]int, error) {
	so, err := utils.ParseSchema(o)
	if err != nil {
		return nil, err
	}
	sn, err := utils.ParseSchema(n)
	if err != nil {
		return nil, err
	}
	return bagOf(diffOf(so, sn)), nil
}

func c16Distribution(r *e.Run) {
	if r.Stopped() {
		return
	}
	f := func(n, t string) m.Field { return fld(n, t) }
	small := [][2]*m.Schema{}
	mk := func(types ...m.Type) *m.Schema { return &m.Schema{Types: types} }
	obj := func(n string, ext bool, fs ...m.Field) m.Type {
		return m.Type{Kind: m.Object, Name: n, Ext: ext, Fields: fs}
	}
	a := mk(obj("A", false, f("a", "Int"), f("b", "B")), obj("A", true, f("c", "Int")), obj("A", true, f("d", "Int")), m.Type{Kind: m.Enum, Name: "E", Values: []m.Value{{Name: "X"}, {Name: "Y"}}}, m.Type{Kind: m.Enum, Name: "E", Ext: true, Values: []m.Value{{Name: "Z"}}})
	b := mk(obj("A", true, f("c", "String"), f("e", "Int")), obj("A", false, f("a", "Int!"), f("f", "B")), m.Type{Kind: m.Enum, Name: "E", Values: []m.Value{{Name: "Y"}, {Name: "W"}}}, obj("N", true, f("n", "Int")))
	a.Roots = []m.Root{{Ops: []m.KV{kv("query", "A")}}}
	b.Roots = []m.Root{{Ops: []m.KV{kv("query", "A")}}, {Ext: true, Ops: []m.KV{kv("mutation", "N")}}}
	c := &m.Schema{Dirs: []m.DirDef{{Name: "d", Args: []m.Arg{{Name: "x", Type: "Int"}}, Locs: []string{"FIELD"}}}, Types: []m.Type{
		{Kind: m.Input, Name: "I", Fields: []m.Field{{Name: "a", Type: "Int", Default: "1"}}}, {Kind: m.Input, Name: "I", Ext: true, Fields: []m.Field{{Name: "b", Type: "Int"}}}, {Kind: m.Union, Name: "U", Members: []string{"A", "B"}}, {Kind: m.Union, Name: "U", Ext: true, Members: []string{"C"}}, {Kind: m.Scalar, Name: "S", Desc: "d"}}}
	d := &m.Schema{Dirs: []m.DirDef{{Name: "d", Args: []m.Arg{{Name: "x", Type: "Int!"}}, Locs: []string{"FIELD", "QUERY"}, Repeatable: true}}, Types: []m.Type{
		{Kind: m.Input, Name: "I", Ext: true, Fields: []m.Field{{Name: "c", Type: "Int!"}}}, {Kind: m.Input, Name: "I", Fields: []m.Field{{Name: "a", Type: "Int", Default: "2"}}}, {Kind: m.Union, Name: "U", Members: []string{"A", "D"}}, {Kind: m.Object, Name: "Query", Fields: []m.Field{f("q", "Int")}}, {Kind: m.Interface, Name: "U", Ext: true, Fields: []m.Field{f("q", "Int")}}}}
	small = append(small, [2]*m.Schema{a, b}, [2]*m.Schema{b, a}, [2]*m.Schema{c, d}, [2]*m.Schema{d, c}, [2]*m.Schema{a, c})
	nf := e.Pick(r, 2, 3)
	check := func(w *e.W, i int64, label string, want map[string]int, fo, fn map[string][]byte) {
		got, err := bagOfFiles(fo, fn)
		r.AddTransitions(1)
		r.AddTraces(1)
		why := ""
		if err != nil {
			why = err.Error()
		} else {
			why = strings.NewReplacer("for the edits alone", "for single files", "together", "for several files").Replace(bagDiff(want, got))
		}
		w.Outcome(fmt.Sprintf("%d changes", len(got)))
		if why != "" {
			show := func(f map[string][]byte) string {
				s := ""
				var ks []string
				for k := range f {
					ks = append(ks, k)
				}
				sort.Strings(ks)
				for _, k := range ks {
					s += fmt.Sprintf("--- %s\n%s\n", k, f[k])
				}
				return s
			}
			r.Violate(i, fmt.Sprintf("files:%x", h64(show(fo)+show(fn))), fmt.Sprintf("%s: %s\nold\n%snew\n%s", label, why, clipS(show(fo), 1500), clipS(show(fn), 1500)), map[string]any{"old": show(fo), "new": show(fn), "why": why})
		}
	}
	for k, p := range small {
		bo, bn := blocksOf(p[0]), blocksOf(p[1])
		want, err := bagOfFiles(map[string][]byte{"s": []byte(strings.Join(bo, ""))}, map[string][]byte{"s": []byte(strings.Join(bn, ""))})
		if err != nil {
			panic(err)
		}
		pw := func(b, n int) int64 {
			x := int64(1)
			for ; n > 0; n-- {
				x *= int64(b)
			}
			return x
		}
		no, nn := pw(nf+1, len(bo)), pw(nf, len(bn))
		r.Par(no*nn, func(w *e.W, i int64) {
			to, tn := make([]int, len(bo)), make([]int, len(bn))
			x, y := i%no, i/no
			for j := range to {
				to[j] = int(x % int64(nf+1))
				x /= int64(nf + 1)
			}
			for j := range tn {
				tn[j] = int(y % int64(nf))
				y /= int64(nf)
			}
			w.Case(func() string {
				return fmt.Sprintf("pair %d, old blocks to files %v, new blocks to files %v", k, to, tn)
			})
			check(w, i, "distribution over files", want, distribute(bo, to, nf+1, int(i)%4), distribute(bn, tn, nf, int(i/3)%4))
		})
		r.AddStates(int(no * nn))
		r.Space(fmt.Sprintf("pair %d: every distribution of %d blocks over %d files and of %d blocks over %d files", k, len(bo), nf+1, len(bn), nf), "distributions", no*nn)
	}
	// a rich schema, changed by every edit: one or two blocks moved to other files
	base := richBase()
	bo := blocksOf(base)
	es := edits()
	step := e.Pick(r, 2, 1)
	type job struct {
		ed      int
		x, y, z int
	}
	var jobs []job
	for ed := range es {
		for x := 0; x < len(bo); x++ {
			for y := x; y < len(bo); y++ {
				if (ed+x+3*y)%step == 0 {
					jobs = append(jobs, job{ed, x, y, (ed + x + y) % 3})
				}
			}
		}
	}
	single := map[string][]byte{"s": []byte(strings.Join(bo, ""))}
	wants := make([]map[string]int, len(es))
	news := make([][]string, len(es))
	for k, ed := range es {
		news[k] = blocksOf(applyEdits(base, ed))
		w, err := bagOfFiles(single, map[string][]byte{"s": []byte(strings.Join(news[k], ""))})
		if err != nil {
			panic(err)
		}
		wants[k] = w
	}
	r.Par(int64(len(jobs)), func(w *e.W, i int64) {
		j := jobs[i]
		to, tn := make([]int, len(bo)), make([]int, len(news[j.ed]))
		to[j.x], to[j.y] = 1, 2
		if j.z != 1 {
			for k := range tn {
				tn[k] = k % (j.z + 1)
			}
		}
		if j.x < len(tn) {
			tn[j.x] = 2
		}
		w.Case(func() string { return fmt.Sprint(es[j.ed].Name, to, tn) })
		check(w, i, es[j.ed].Name, wants[j.ed], distribute(bo, to, 3, int(i)%4), distribute(news[j.ed], tn, 3, int(i/3)%4))
	})
	r.AddStates(len(jobs))
	r.Space("a rich schema with every edit: two blocks in other files", "distributions", len(jobs), "edits", len(es))
	c16CLI(r, bo, es, news)
}

// c16CLI: the command on several files prints the same changes as on single files.
func c16CLI(r *e.Run, bo []string, es []Edit, news [][]string) {
	if r.Stopped() {
		return
	}
	lines := func(out string) map[string]int {
		b := map[string]int{}
		for _, l := range strings.Split(out, "\n") {
			if !strings.HasPrefix(l, "empty file=") && l != "" {
				b[l]++
			}
		}
		return b
	}
	r.Par(int64(len(es)*6), func(w *e.W, i int64) {
		ed, v := int(i)/6, int(i)%6
		dir := workDir(w, "multi")
		emptyDir(dir)
		for _, x := range []string{"o", "n", "os", "ns"} {
			_ = os.MkdirAll(filepath.Join(dir, x), 0o755)
		}
		put := func(d string, bs []string, n, from int) {
			to := make([]int, len(bs))
			for k := range to {
				to[k] = (k*(from+1) + from) % n
			}
			for f, c := range distribute(bs, to, n, from%4) {
				putFile(filepath.Join(dir, d), f, string(c))
			}
		}
		put("o", bo, v%4+2, v)
		put("n", news[ed], (v+ed)%4+2, v+1)
		putFile(filepath.Join(dir, "os"), "s.graphql", strings.Join(bo, ""))
		putFile(filepath.Join(dir, "ns"), "s.graphql", strings.Join(news[ed], ""))
		w.Case(func() string { return fmt.Sprint("compare several files: ", es[ed].Name, v) })
		a := runGQL(r, dir, nil, "compare", "-o", "o/*.graphql", "-n", "n/*.graphql", "-e")
		b := runGQL(r, dir, nil, "compare", "-o", "os/s.graphql", "-n", "ns/s.graphql", "-e")
		r.AddTransitions(2)
		r.AddTraces(1)
		w.Outcome(fmt.Sprintf("command: exit status %d", a.Code))
		why := bagDiff(lines(b.Out), lines(a.Out))
		if why == "" && a.Code != b.Code {
			why = "different exit status"
		}
		if why != "" {
			r.Violate(i, fmt.Sprintf("clifiles:%d:%d", ed, v), fmt.Sprintf("edit %s, distribution %d: %s\nseveral files: %s\nsingle files: %s", es[ed].Name, v, why, a, b), map[string]any{"edit": es[ed].Name, "why": why, "several": a, "single": b})
		}
	})
	r.AddStates(len(es) * 6)
	r.Space("runs of gql compare on several files and on single files", "pairs_of_runs", len(es)*6)
}

func c16(r *e.Run) {
	c16Patterns(r)
	c16Names(r)
	c16Contents(r)
	c16Chunks(r)
	c16Faults(r)
	c16Distribution(r)
	r.Sample(map[string]any{"space": "distribution", "blocks": blocksOf(richBase())[:4]})
}
