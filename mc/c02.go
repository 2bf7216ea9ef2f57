package main

import (
	"fmt"
	"strings"

	"github.com/vektah/gqlparser/v2/ast"

	e "verifmc/engine"
	m "verifmc/model"
)

// --- text-level layout

// tokens of a rendered document (the renderer only writes quoted strings on one line, names, numbers, punctuation and '#' lines)
func toks(text string) []string {
	var out []string
	i := 0
	for i < len(text) {
		c := text[i]
		switch {
		case c == ' ' || c == '\n' || c == ',':
			i++
		case c == '#':
			for i < len(text) && text[i] != '\n' {
				i++
			}
		case c == '"':
			j := i + 1
			for text[j] != '"' {
				if text[j] == '\\' {
					j++
				}
				j++
			}
			out = append(out, text[i:j+1])
			i = j + 1
		case c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '-':
			j := i + 1
			for j < len(text) && (text[j] == '_' || text[j] == '.' || text[j] >= '0' && text[j] <= '9' || text[j] >= 'a' && text[j] <= 'z' || text[j] >= 'A' && text[j] <= 'Z') {
				j++
			}
			out = append(out, text[i:j])
			i = j
		default:
			out = append(out, text[i:i+1])
			i++
		}
	}
	return out
}

var seps = []string{"\n", "\r\n", "\r", "\t", "  ", ",", " , ", ",,\n", "#\n", " # {\"\"\" \n", "#\"\n", "\n\n\n"}

func joinToks(ts []string, sep string) string { return strings.Join(ts, sep) }

// styles writes the same tokens in other ways.
func styles(text string) []string {
	ts := toks(text)
	var out []string
	for _, s := range seps {
		out = append(out, joinToks(ts, s))
	}
	out = append(out, joinToks(ts, " "), "\uFEFF"+text, strings.ReplaceAll(text, "\n", "\r\n"), strings.ReplaceAll(text, "\n", "\r"), text+"#end", "\n\n"+text+"\n\n  ", "#c\n"+strings.ReplaceAll(text, "\n", " # comment } \n"))
	return out
}

func srcDoc(text string) (*ast.SchemaDocument, error) {
	r := &m.Rendered{Names: []string{"s.graphql"}, Texts: []string{text}}
	return parse(r)
}

// descriptions as block strings
var blockStyles = []func(d string) string{
	func(d string) string { return `"""` + d + `"""` },
	func(d string) string { return "\"\"\"\n" + d + "\n\"\"\"" },
	func(d string) string { return "\"\"\"\n    " + strings.ReplaceAll(d, "\n", "\n    ") + "\n  \"\"\"" },
	func(d string) string { return "\"\"\"\n\n  " + strings.ReplaceAll(d, "\n", "\n  ") + "\n\n\n\"\"\"" },
	func(d string) string { return "\"\"\"\r\n\t" + strings.ReplaceAll(d, "\n", "\r\n\t") + "\r\n\"\"\"" },
	func(d string) string { return "\"\"\"\r  " + strings.ReplaceAll(d, "\n", "\r  ") + "\r\"\"\"" },
}

// --- model-level layout

func perms(n int) [][]int {
	var out [][]int
	if n <= 5 {
		p := make([]int, 0, n)
		used := make([]bool, n)
		var rec func()
		rec = func() {
			if len(p) == n {
				out = append(out, append([]int(nil), p...))
				return
			}
			for i := 0; i < n; i++ {
				if !used[i] {
					used[i] = true
					p = append(p, i)
					rec()
					p = p[:len(p)-1]
					used[i] = false
				}
			}
		}
		rec()
		return out[1:] // without the identity
	}
	id := make([]int, n)
	for i := range id {
		id[i] = i
	}
	for i := 0; i < n; i++ { // all transpositions
		for j := i + 1; j < n; j++ {
			p := append([]int(nil), id...)
			p[i], p[j] = p[j], p[i]
			out = append(out, p)
		}
	}
	for k := 1; k < n; k++ { // all rotations and the reversal
		p := make([]int, n)
		for i := range p {
			p[i] = (i + k) % n
		}
		out = append(out, p)
	}
	p := make([]int, n)
	for i := range p {
		p[i] = n - 1 - i
	}
	return append(out, p)
}

func permute[T any](l []T, p []int) []T {
	out := make([]T, len(l))
	for i, j := range p {
		out[i] = l[j]
	}
	return out
}

// permVariants permutes every list of the schema, one list at a time.
func permVariants(s *m.Schema, f func(what string, v *m.Schema)) {
	type target struct {
		what string
		n    int
		do   func(c *m.Schema, p []int)
	}
	var ts []target
	add := func(what string, n int, do func(c *m.Schema, p []int)) {
		if n > 1 {
			ts = append(ts, target{what, n, do})
		}
	}
	add("definitions", len(s.Types), func(c *m.Schema, p []int) { c.Types = permute(c.Types, p) })
	add("directive definitions", len(s.Dirs), func(c *m.Schema, p []int) { c.Dirs = permute(c.Dirs, p) })
	add("schema blocks", len(s.Roots), func(c *m.Schema, p []int) { c.Roots = permute(c.Roots, p) })
	dirs := func(what string, ds []m.Applied, get func(c *m.Schema) []m.Applied) {
		add("directives of "+what, len(ds), func(c *m.Schema, p []int) { l := get(c); copy(l, permute(l, p)) })
		for i := range ds {
			add("directive arguments of "+what, len(ds[i].Args), func(c *m.Schema, p []int) { l := get(c)[i].Args; copy(l, permute(l, p)) })
		}
	}
	for i, r := range s.Roots {
		add("root operations", len(r.Ops), func(c *m.Schema, p []int) { c.Roots[i].Ops = permute(c.Roots[i].Ops, p) })
	}
	for i, t := range s.Types {
		add("fields of "+t.Name, len(t.Fields), func(c *m.Schema, p []int) { c.Types[i].Fields = permute(c.Types[i].Fields, p) })
		add("values of "+t.Name, len(t.Values), func(c *m.Schema, p []int) { c.Types[i].Values = permute(c.Types[i].Values, p) })
		add("members of "+t.Name, len(t.Members), func(c *m.Schema, p []int) { c.Types[i].Members = permute(c.Types[i].Members, p) })
		add("interfaces of "+t.Name, len(t.Ifaces), func(c *m.Schema, p []int) { c.Types[i].Ifaces = permute(c.Types[i].Ifaces, p) })
		dirs(t.Name, t.Dirs, func(c *m.Schema) []m.Applied { return c.Types[i].Dirs })
		for j, fd := range t.Fields {
			add("arguments of "+fd.Name, len(fd.Args), func(c *m.Schema, p []int) { c.Types[i].Fields[j].Args = permute(c.Types[i].Fields[j].Args, p) })
			dirs(fd.Name, fd.Dirs, func(c *m.Schema) []m.Applied { return c.Types[i].Fields[j].Dirs })
		}
		for j, v := range t.Values {
			dirs(v.Name, v.Dirs, func(c *m.Schema) []m.Applied { return c.Types[i].Values[j].Dirs })
		}
	}
	for i, d := range s.Dirs {
		add("arguments of @"+d.Name, len(d.Args), func(c *m.Schema, p []int) { c.Dirs[i].Args = permute(c.Dirs[i].Args, p) })
		add("locations of @"+d.Name, len(d.Locs), func(c *m.Schema, p []int) { c.Dirs[i].Locs = permute(c.Dirs[i].Locs, p) })
	}
	for _, t := range ts {
		for _, p := range perms(t.n) {
			c := s.Clone()
			t.do(c, p)
			f("permuted "+t.what, c)
		}
	}
}

// extVariants regroups the content of extension blocks.
func extVariants(s *m.Schema, f func(what string, v *m.Schema)) {
	names := map[string]bool{}
	for _, t := range s.Types {
		if t.Ext {
			names[t.Name] = true
		}
	}
	// one block per element
	explode := func(c *m.Schema, only string) {
		var out []m.Type
		for _, t := range c.Types {
			if !t.Ext || only != "" && t.Name != only {
				out = append(out, t)
				continue
			}
			mk := func() m.Type { return m.Type{Kind: t.Kind, Name: t.Name, Ext: true, File: t.File} }
			for _, x := range t.Fields {
				b := mk()
				b.Fields = []m.Field{x}
				out = append(out, b)
			}
			for _, x := range t.Values {
				b := mk()
				b.Values = []m.Value{x}
				out = append(out, b)
			}
			for _, x := range t.Members {
				b := mk()
				b.Members = []string{x}
				out = append(out, b)
			}
			for _, x := range t.Ifaces {
				b := mk()
				b.Ifaces = []string{x}
				out = append(out, b)
			}
			for _, x := range t.Dirs {
				b := mk()
				b.Dirs = []m.Applied{x}
				out = append(out, b)
			}
		}
		c.Types = out
	}
	// all blocks of a type in one
	implode := func(c *m.Schema) {
		var out []m.Type
		at := map[string]int{}
		for _, t := range c.Types {
			if !t.Ext {
				out = append(out, t)
				continue
			}
			i, ok := at[t.Name]
			if !ok {
				at[t.Name] = len(out)
				out = append(out, t)
				continue
			}
			b := &out[i]
			b.Fields = append(b.Fields, t.Fields...)
			b.Values = append(b.Values, t.Values...)
			b.Members = append(b.Members, t.Members...)
			b.Ifaces = append(b.Ifaces, t.Ifaces...)
			b.Dirs = append(b.Dirs, t.Dirs...)
		}
		c.Types = out
	}
	if len(names) > 0 {
		c := s.Clone()
		explode(c, "")
		f("one extension block per element", c)
		d := reversed(c)
		f("one extension block per element, reversed", d)
		x := s.Clone()
		implode(x)
		f("one extension block per type", x)
		for _, n := range sortedKeys(names) {
			y := s.Clone()
			explode(y, n)
			f("one extension block per element of "+n, y)
		}
		// every way of cutting a block's fields/values in two
		for i, t := range s.Types {
			if !t.Ext {
				continue
			}
			n := len(t.Fields) + len(t.Values) + len(t.Members)
			if n < 2 || n > 6 {
				continue
			}
			for mask := 1; mask < 1<<n-1; mask++ {
				c := s.Clone()
				a, b := t.Clone(), t.Clone()
				a.Fields, a.Values, a.Members, b.Fields, b.Values, b.Members = nil, nil, nil, nil, nil, nil
				b.Ifaces, b.Dirs = nil, nil
				k := 0
				for _, x := range t.Fields {
					if mask>>k&1 == 1 {
						a.Fields = append(a.Fields, x)
					} else {
						b.Fields = append(b.Fields, x)
					}
					k++
				}
				for _, x := range t.Values {
					if mask>>k&1 == 1 {
						a.Values = append(a.Values, x)
					} else {
						b.Values = append(b.Values, x)
					}
					k++
				}
				for _, x := range t.Members {
					if mask>>k&1 == 1 {
						a.Members = append(a.Members, x)
					} else {
						b.Members = append(b.Members, x)
					}
					k++
				}
				c.Types[i] = b
				c.Types = append([]m.Type{a}, c.Types...)
				f("extension block cut in two", c)
			}
		}
	}
	// schema extensions: one block per operation
	nx := 0
	for _, r := range s.Roots {
		if r.Ext {
			nx += len(r.Ops)
		}
	}
	if nx > 0 {
		c := s.Clone()
		var one []m.Root
		var all m.Root
		all.Ext = true
		for _, r := range c.Roots {
			if !r.Ext {
				one = append(one, r)
				continue
			}
			for _, o := range r.Ops {
				one = append([]m.Root{{Ext: true, Ops: []m.KV{o}}}, one...)
				all.Ops = append(all.Ops, o)
			}
		}
		c.Roots = one
		f("one schema extension per operation", c)
		d := s.Clone()
		var def []m.Root
		for _, r := range d.Roots {
			if !r.Ext {
				def = append(def, r)
			}
		}
		d.Roots = append(def, all)
		f("one schema extension", d)
	}
}

func layoutBases() []*m.Schema {
	var out []*m.Schema
	out = append(out, richBase())
	out = append(out, &m.Schema{ // lists of every kind with several members
		Roots: []m.Root{{Ops: []m.KV{kv("query", "T"), kv("mutation", "T"), kv("subscription", "T")}}},
		Types: []m.Type{
			{Kind: m.Object, Name: "T", Desc: "t", Ifaces: []string{"I", "J", "K"}, Dirs: []m.Applied{ap("a", "x", "1", "y", "2"), ap("b"), ap("c", "x", `"1"`)}, Fields: []m.Field{
				{Name: "f", Type: "Int", Desc: "f", Args: []m.Arg{{Name: "x", Type: "Int", Default: "1"}, {Name: "y", Type: "[Int!]!", Desc: "y"}, {Name: "z", Type: "String", Default: `"z"`}}, Dirs: []m.Applied{ap("a", "x", "1"), ap("deprecated", "reason", `"r"`), ap("b")}},
				{Name: "g", Type: "Int!"}, {Name: "h", Type: "[Int]"}, {Name: "F", Type: "Int"}}},
			{Kind: m.Interface, Name: "I", Fields: []m.Field{{Name: "f", Type: "Int"}, {Name: "g", Type: "Int"}}},
			{Kind: m.Union, Name: "U", Members: []string{"A", "B", "C", "a"}},
			{Kind: m.Enum, Name: "E", Values: []m.Value{{Name: "A", Desc: "a"}, {Name: "a", Dirs: []m.Applied{ap("deprecated")}}, {Name: "B"}, {Name: "C"}}},
			{Kind: m.Input, Name: "N", Fields: []m.Field{{Name: "f", Type: "Int", Default: "1"}, {Name: "g", Type: "Int!", Desc: "g"}, {Name: "h", Type: "E", Default: "A"}}},
		},
		Dirs: []m.DirDef{{Name: "a", Desc: "a", Repeatable: true, Locs: []string{"OBJECT", "FIELD_DEFINITION", "ENUM"}, Args: []m.Arg{{Name: "x", Type: "Int"}, {Name: "y", Type: "Int", Default: "2"}}}, {Name: "b", Locs: []string{"OBJECT"}}},
	})
	out = append(out, &m.Schema{ // repeated directives with and without arguments
		Types: []m.Type{{Kind: m.Object, Name: "T", Dirs: []m.Applied{ap("a"), ap("a", "x", "1"), ap("a"), ap("a", "x", "1", "y", "2")}, Fields: []m.Field{{Name: "f", Type: "Int", Dirs: []m.Applied{ap("a"), ap("a"), ap("b", "x", "1"), ap("b", "y", "1")}}}},
			{Kind: m.Interface, Name: "I", Dirs: []m.Applied{ap("a", "x", "1"), ap("a", "x", "2"), ap("a", "x", "3")}, Fields: []m.Field{{Name: "f", Type: "Int", Dirs: []m.Applied{ap("a", "x", "1", "y", "1"), ap("a", "x", "1", "y", "2"), ap("a", "x", "2", "y", "1")}}}},
			{Kind: m.Input, Name: "N", Fields: []m.Field{{Name: "f", Type: "Int", Dirs: []m.Applied{ap("a"), ap("a"), ap("a")}}}}},
	})
	out = append(out, &m.Schema{ // every kind with several extensions, with and without a definition; schema extensions
		Roots: []m.Root{{Ext: true, Ops: []m.KV{kv("query", "O")}}, {Ext: true, Ops: []m.KV{kv("mutation", "O"), kv("subscription", "P")}}},
		Types: []m.Type{
			{Kind: m.Object, Name: "O", Fields: []m.Field{fld("a", "Int")}}, {Kind: m.Object, Name: "O", Ext: true, Ifaces: []string{"I"}, Fields: []m.Field{fld("b", "Int"), fld("c", "Int")}}, {Kind: m.Object, Name: "O", Ext: true, Dirs: []m.Applied{ap("a"), ap("b", "x", "1")}, Fields: []m.Field{fld("d", "Int")}},
			{Kind: m.Object, Name: "P", Ext: true, Fields: []m.Field{fld("b", "Int"), fld("c", "Int"), fld("d", "Int")}}, {Kind: m.Object, Name: "P", Ext: true, Fields: []m.Field{fld("e", "Int")}},
			{Kind: m.Interface, Name: "I", Ext: true, Fields: []m.Field{fld("b", "Int"), fld("c", "Int")}}, {Kind: m.Interface, Name: "I", Fields: []m.Field{fld("z", "Int")}}, {Kind: m.Interface, Name: "I", Ext: true, Dirs: []m.Applied{ap("a")}},
			{Kind: m.Union, Name: "U", Members: []string{"A"}}, {Kind: m.Union, Name: "U", Ext: true, Members: []string{"B", "C"}}, {Kind: m.Union, Name: "U", Ext: true, Members: []string{"D"}},
			{Kind: m.Enum, Name: "E", Ext: true, Values: []m.Value{{Name: "A"}, {Name: "B", Desc: "b"}}}, {Kind: m.Enum, Name: "E", Ext: true, Values: []m.Value{{Name: "C"}, {Name: "D"}}}, {Kind: m.Enum, Name: "E", Values: []m.Value{{Name: "Z"}}},
			{Kind: m.Input, Name: "N", Ext: true, Fields: []m.Field{fld("a", "Int!"), fld("b", "Int")}}, {Kind: m.Input, Name: "N", Ext: true, Fields: []m.Field{{Name: "c", Type: "Int!", Default: "1"}}}, {Kind: m.Input, Name: "N", Fields: []m.Field{fld("z", "Int")}},
			{Kind: m.Scalar, Name: "S"}, {Kind: m.Scalar, Name: "S", Ext: true, Dirs: []m.Applied{ap("a")}}, {Kind: m.Scalar, Name: "S", Ext: true, Dirs: []m.Applied{ap("b")}},
		},
	})
	return out
}

func c02(r *e.Run) {
	var order int64
	report := func(ord int64, what, a, b string, g []Got) {
		r.Violate(ord, "layout:"+what+fmt.Sprintf(":%x", h64(a+b)), fmt.Sprintf("%s: changes reported between equivalent schemas: %v\n--- old\n%s--- new\n%s", what, gotStrings(g), clipS(a, 900), clipS(b, 900)), map[string]any{"what": what, "old": a, "new": b, "got": gotStrings(g)})
	}
	same := func(w *e.W, ord int64, what string, o *m.Rendered, v *m.Rendered) {
		w.Case(func() string { return what + "\n" + o.Text() + "\n---\n" + v.Text() })
		oa, err1 := parse(o)
		va, err2 := parse(v)
		if err1 != nil || err2 != nil {
			panic(fmt.Sprint("unparseable layout variant: ", err1, err2))
		}
		for k := 0; k < 2; k++ {
			g := diffOf(oa, va)
			r.AddTransitions(1)
			r.AddTraces(1)
			w.Outcome(fmt.Sprintf("%d changes", len(g)))
			if len(g) > 0 {
				report(ord, what, o.Text(), v.Text(), g)
				return
			}
			oa, va = va, oa
			o, v = v, o
		}
	}
	bases := layoutBases()
	// 1. permutations and extension regroupings of the bases
	type variant struct {
		what string
		o, v *m.Schema
	}
	var vs []variant
	for _, b := range bases {
		permVariants(b, func(what string, v *m.Schema) { vs = append(vs, variant{what, b, v}) })
		extVariants(b, func(what string, v *m.Schema) {
			vs = append(vs, variant{what, b, v})
			if r.Thorough() {
				permVariants(v, func(w2 string, x *m.Schema) { vs = append(vs, variant{what + ", " + w2, b, x}) })
			}
		})
		vs = append(vs, variant{"reversed", b, reversed(b)})
	}
	if r.Thorough() { // two permutations at a time
		for _, b := range bases[1:] {
			permVariants(b, func(what string, v *m.Schema) {
				permVariants(v, func(w2 string, x *m.Schema) { vs = append(vs, variant{what + ", " + w2, b, x}) })
			})
		}
	}
	r.AddStates(len(vs) + len(bases))
	r.Par(int64(len(vs)), func(w *e.W, i int64) { same(w, order+i, vs[i].what, m.Render(vs[i].o), m.Render(vs[i].v)) })
	order += int64(len(vs))
	r.Space("permutations of every list and regroupings of extensions", "bases", len(bases), "variants", len(vs))
	r.Sample(map[string]string{"what": vs[0].what, "old": m.Render(vs[0].o).Text(), "new": m.Render(vs[0].v).Text()})

	// 2. distributions over files
	{
		b := bases[1]
		n := len(b.Types) + len(b.Dirs) + len(b.Roots)
		lim := int64(1) << n
		r.Par(lim, func(w *e.W, i int64) {
			v := b.Clone()
			k := 0
			for j := range v.Roots {
				v.Roots[j].File = int(i>>k) & 1
				k++
			}
			for j := range v.Types {
				v.Types[j].File = int(i>>k) & 1
				k++
			}
			for j := range v.Dirs {
				v.Dirs[j].File = int(i>>k) & 1
				k++
			}
			same(w, order+i, "distributed over two files", m.Render(b), m.Render(v, "b.graphql", "a.graphql"))
		})
		order += lim
		r.AddStates(int(lim))
		for bi, b := range bases {
			n := len(b.Types)
			r.Par(int64(n), func(w *e.W, i int64) {
				same(w, order+i, "distributed over files", m.Render(b), m.Render(b.Spread(int(i)+2, bi), namesFor("x", int(i)+2)...))
			})
			order += int64(n)
		}
		r.Space("distributions over files", "two_files", lim)
	}

	// 3. text: global styles on every schema of the universes, every single gap on the bases
	us := allUniverses(r)
	for _, u := range us {
		if r.Stopped() {
			return
		}
		u.S = dedupe(u.S)
		max := int64(len(u.S))
		r.Par(max, func(w *e.W, i int64) {
			s := u.S[i]
			o := m.Render(s)
			w.Case(func() string { return u.Name + "\n" + o.Text() })
			oa, err := parse(o)
			if err != nil {
				panic(err)
			}
			if g := diffOf(oa, oa); len(g) > 0 { // the very same document
				report(order+i, "compared with itself", o.Text(), o.Text(), g)
			}
			same(w, order+i, "compared with a copy", o, o)
			same(w, order+i, "reversed", o, m.Render(reversed(s)))
			extVariants(s, func(what string, v *m.Schema) { same(w, order+i, what, o, m.Render(v)) })
			st := styles(o.Text())
			for _, t := range st {
				va, err := srcDoc(t)
				if err != nil {
					panic(fmt.Sprintf("unparseable layout variant: %v\n%q", err, t))
				}
				g := append(diffOf(oa, va), diffOf(va, oa)...)
				r.AddTransitions(2)
				r.AddTraces(2)
				w.Outcome(fmt.Sprintf("%d changes", len(g)))
				if len(g) > 0 {
					report(order+i, "other whitespace/commas/comments", o.Text(), t, g)
				}
			}
		})
		order += max
		r.AddStates(len(u.S))
		r.Space("self, reversed and restyled: "+u.Name, "schemas", max)
	}
	for _, b := range bases {
		o := m.Render(b)
		ts := toks(o.Text())
		n := int64(len(ts) * len(seps))
		r.Par(n, func(w *e.W, i int64) {
			g, s := int(i)/len(seps), seps[int(i)%len(seps)]
			t := strings.Join(ts[:g], " ") + s + strings.Join(ts[g:], " ")
			w.Case(func() string { return t })
			oa := mkDoc(b).A
			va, err := srcDoc(t)
			if err != nil {
				panic(fmt.Sprintf("unparseable layout variant: %v\n%q", err, t))
			}
			r.AddTransitions(1)
			r.AddTraces(1)
			if gs := diffOf(oa, va); len(gs) > 0 {
				report(order+i, "one gap changed", o.Text(), t, gs)
			}
		})
		order += n
		r.AddStates(int(n))
		r.Space("every gap with every separator", "gaps", len(ts), "separators", len(seps))
	}

	// 4. quoted and block descriptions at every position
	slots := []struct {
		name string
		text func(d string) string
	}{
		{"object", func(d string) string { return d + " type T { a: Int }" }},
		{"interface", func(d string) string { return d + " interface T { a: Int }" }},
		{"union", func(d string) string { return d + " union T = A" }},
		{"enum", func(d string) string { return d + " enum T { A }" }},
		{"input", func(d string) string { return d + " input T { a: Int }" }},
		{"scalar", func(d string) string { return d + " scalar T" }},
		{"directive", func(d string) string { return d + " directive @d on FIELD" }},
		{"field", func(d string) string { return "type T { b: Int " + d + " a: Int }" }},
		{"extension field", func(d string) string { return "extend type T { b: Int " + d + " a: Int }" }},
		{"interface field", func(d string) string { return "interface T { " + d + " a: Int }" }},
		{"input field", func(d string) string { return "input T { " + d + " a: Int c: Int}" }},
		{"argument", func(d string) string { return "type T { a(" + d + " x: Int): Int }" }},
		{"directive argument", func(d string) string { return "directive @d(" + d + " x: Int) on FIELD" }},
		{"enum value", func(d string) string { return "enum T { B " + d + " A }" }},
	}
	blockable := []string{"d", "D d", "two\nlines", "a\n  b\nc", "a\n\nb", "é # , {", "it's", `say "hi" now`, "x" + strings.Repeat("y", 300), "tab\there", "@deprecated", "extend type T { b: Int }", "1\n2\n3\n4\n5\n6\n7\n8\n9"}
	n := int64(len(slots) * len(blockable))
	r.Par(n, func(w *e.W, i int64) {
		sl, d := slots[int(i)/len(blockable)], blockable[int(i)%len(blockable)]
		var forms []string
		forms = append(forms, sl.text(m.Quote(d)))
		for _, f := range blockStyles {
			forms = append(forms, sl.text(f(d)))
		}
		for _, a := range forms {
			for _, b := range forms {
				w.Case(func() string { return a + "\n---\n" + b })
				oa, err1 := srcDoc(a)
				va, err2 := srcDoc(b)
				if err1 != nil || err2 != nil {
					panic(fmt.Sprintf("unparseable: %v %v\n%q\n%q", err1, err2, a, b))
				}
				r.AddTransitions(1)
				r.AddTraces(1)
				if g := diffOf(oa, va); len(g) > 0 {
					report(order+i, "description spelled differently on "+sl.name, a+"\n", b+"\n", g)
				}
			}
		}
	})
	r.AddStates(int(n) * (1 + len(blockStyles)))
	r.Space("quoted and block descriptions", "positions", len(slots), "texts", len(blockable), "spellings", 1+len(blockStyles))
	l := &layouts{r: r, order: order + n, same: same, report: report}
	l.literals()
	l.together(bases[1:])
	l.scales()
	l.names(bases)
	l.neighbourhoods(smallOpt)
	compareAssume(r)
	r.Assume("content moved between a definition and an extension, and the order of the fields of an input object literal, are not layout")
}
