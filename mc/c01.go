package main

import (
	"fmt"
	"sync"
	"sync/atomic"

	"github.com/vektah/gqlparser/v2/ast"
	"github.com/vektah/gqlparser/v2/parser"
	"github.com/vektah/gqlparser/v2/validator"
	_ "github.com/vektah/gqlparser/v2/validator/rules"

	"github.com/CrowdStrike/gql/pkg/compare"

	e "verifmc/engine"
	m "verifmc/model"
)

// clientBase is a small valid schema in which every kind of element is used by some operation.
func clientBase() *m.Schema {
	return &m.Schema{
		Types: []m.Type{
			{Kind: m.Object, Name: "Query", Fields: []m.Field{
				{Name: "a", Type: "Int", Args: []m.Arg{{Name: "x", Type: "Int!"}, {Name: "y", Type: "Int", Default: "1"}, {Name: "w", Type: "Int!", Default: "2"}}},
				{Name: "c", Type: "Int", Args: []m.Arg{{Name: "z", Type: "In"}, {Name: "e", Type: "E"}, {Name: "l", Type: "[Int!]"}}},
				{Name: "n", Type: "N"}, {Name: "u", Type: "U!"}, {Name: "o", Type: "[O]"},
			}},
			{Kind: m.Object, Name: "Mutation", Fields: []m.Field{{Name: "m", Type: "Int", Args: []m.Arg{{Name: "in", Type: "In!"}}}}},
			{Kind: m.Object, Name: "Subscription", Fields: []m.Field{fld("s", "Int")}},
			{Kind: m.Interface, Name: "N", Fields: []m.Field{{Name: "id", Type: "ID"}, {Name: "f", Type: "Int", Args: []m.Arg{{Name: "p", Type: "Int"}}}}},
			{Kind: m.Object, Name: "O", Ifaces: []string{"N"}, Fields: []m.Field{{Name: "id", Type: "ID!"}, {Name: "f", Type: "Int", Args: []m.Arg{{Name: "p", Type: "Int"}}}, {Name: "o", Type: "O"}, {Name: "v", Type: "E"}}},
			{Kind: m.Object, Name: "O", Ext: true, Fields: []m.Field{fld("x1", "Int")}},
			{Kind: m.Object, Name: "P", Ifaces: []string{"N"}, Fields: []m.Field{{Name: "id", Type: "ID"}, {Name: "f", Type: "Int", Args: []m.Arg{{Name: "p", Type: "Int"}}}, fld("q", "Int")}},
			{Kind: m.Union, Name: "U", Members: []string{"O", "P"}},
			{Kind: m.Enum, Name: "E", Values: []m.Value{{Name: "A"}, {Name: "B"}}},
			{Kind: m.Input, Name: "In", Fields: []m.Field{{Name: "i", Type: "Int"}, {Name: "j", Type: "Int", Default: "1"}, {Name: "r", Type: "Int!"}, {Name: "k", Type: "Int!", Default: "3"}}},
		},
		Dirs: []m.DirDef{{Name: "d", Repeatable: true, Args: []m.Arg{{Name: "t", Type: "Int"}}, Locs: []string{"FIELD", "QUERY", "INLINE_FRAGMENT"}}},
	}
}

// clientOps are operations over the base schema and everything the edits may add.
func clientOps() []string {
	var ops []string
	q := func(format string, a ...any) { ops = append(ops, fmt.Sprintf(format, a...)) }
	// arguments of Query.a: all subsets of the arguments (n is added by edits)
	for mask := 0; mask < 16; mask++ {
		s := ""
		for i, n := range []string{"x", "y", "w", "n"} {
			if mask>>i&1 == 1 {
				s += fmt.Sprintf(" %s: %d", n, i+1)
			}
		}
		if s != "" {
			s = "(" + s + ")"
		}
		q("{ a%s }", s)
	}
	for _, n := range []string{"x", "y", "w"} {
		rest := "x: 1, "
		if n == "x" {
			rest = ""
		}
		for _, lit := range []string{"null", `"1"`, "[1]", "1.5"} {
			q("{ a(%s%s: %s) }", rest, n, lit)
		}
		for _, vt := range []string{"Int", "Int!", "Int = 1", "[Int]", "String"} {
			q("query($v: %s) { a(%s%s: $v) }", vt, rest, n)
		}
	}
	// input objects, enums and lists of Query.c
	for _, lit := range []string{"null", "{r: 1}", "{}", "{i: 1, r: 1}", "{i: null, r: 1}", "{j: null, r: 1}", "{j: 2, r: 1}", "{r: null}", "{k: 1, r: 1}", "{k: null, r: 1}", "{n: 1, r: 1}", "[{r: 1}]", "{i: [1], r: 1}", "{i: 1}"} {
		q("{ c(z: %s) }", lit)
		q("mutation { m(in: %s) }", lit)
	}
	for _, vt := range []string{"In", "In!", "In = {r: 1}", "[In]"} {
		q("query($v: %s) { c(z: $v) }", vt)
		q("mutation($v: %s) { m(in: $v) }", vt)
	}
	for _, vt := range []string{"Int", "Int!"} {
		for _, f := range []string{"i", "j", "r", "k"} {
			rest := "r: 1, "
			if f == "r" {
				rest = ""
			}
			q("query($v: %s) { c(z: {%s%s: $v}) }", vt, rest, f)
		}
	}
	for _, lit := range []string{"A", "B", "C", `"A"`, "null"} {
		q("{ c(e: %s) }", lit)
	}
	q("query($v: E) { c(e: $v) }")
	q("query($v: E!) { c(e: $v) }")
	q("query($v: E = A) { c(e: $v) }")
	q("query($v: E = B) { c(e: $v) }")
	for _, lit := range []string{"[1]", "[]", "[null]", "1", "null", "[[1]]", "[1, 2]"} {
		q("{ c(l: %s) }", lit)
	}
	for _, vt := range []string{"[Int!]", "[Int!]!", "[Int]", "Int", "[Int!] = [1]"} {
		q("query($v: %s) { c(l: $v) }", vt)
	}
	q("query($v: Int) { c(l: [$v]) }")
	q("query($v: Int!) { c(l: [$v]) }")
	q("{ c }")
	q("{ c(z: {r: 1}, e: A, l: [1]) }")
	// selections on the composite fields
	sel := []string{"__typename", "id", "f", "f(p: 1)", "f(p: null)", "o { id }", "o { o { x1 } }", "v", "x1", "q", "new", "o", "o { __typename }"}
	for _, root := range []string{"n", "u", "o"} {
		for _, s := range sel {
			q("{ %s { %s } }", root, s)
			for _, t := range []string{"O", "P", "N", "U"} {
				q("{ %s { ... on %s { %s } } }", root, t, s)
			}
		}
		q("{ %s }", root)
		q("{ %s { ... { __typename } } }", root)
		q("{ %s { ... on N { ... on O { v } } } }", root)
		q("{ %s { ... on U { ... on P { q } } } }", root)
		q("{ %s { ...F } } fragment F on O { id v }", root)
		q("{ %s { ...F } } fragment F on N { id }", root)
		q("{ %s { ...F } } fragment F on U { __typename }", root)
		q("query($p: Int) { %s { ... on O { f(p: $p) } } }", root)
		q("query($p: Int!) { %s { ... on N { f(p: $p) } } }", root)
	}
	q("{ a(x: 1) { id } }")
	q("{ o { o { o { o { id f v } } } } }")
	q("{ n { id f } u { ... on O { id } } o { id } }")
	q("{ __typename }")
	q(`{ __type(name: "O") { name } __schema { types { name } } }`)
	// directives
	for _, d := range []string{"@d", "@d(t: 1)", "@d(t: null)", "@d @d", "@d(t: 1) @d(t: 2)", "@d(t: 1, n: 1)", `@d(t: "1")`} {
		q("{ a(x: 1) %s }", d)
		q("query %s { a(x: 1) }", d)
		q("{ n { ... on O %s { v } } }", d)
		q("{ n { ...F %s } } fragment F on O { id }", d)
	}
	q("query($t: Int) { a(x: 1) @d(t: $t) }")
	q("query($t: Int!) { a(x: 1) @d(t: $t) }")
	q("query($b: Boolean!) { a(x: 1) @include(if: $b) }")
	// other operations
	q("mutation { m }")
	q("mutation { s }")
	q("mutation { __typename }")
	q("subscription { s }")
	q("subscription { m(in: {r: 1}) }")
	q("subscription($v: Int) { s(x: $v) }")
	q("{ s }")
	q("{ m(in: {r: 1}) }")
	return ops
}

// clientEdits changes every element of the schema in every elementary way.
func clientEdits(base *m.Schema) []func(s *m.Schema) {
	var out []func(s *m.Schema)
	add := func(f func(s *m.Schema)) { out = append(out, f) }
	typeAlts := func(t string) []string {
		alts := []string{}
		if m.NonNull(t) {
			alts = append(alts, t[:len(t)-1])
		} else {
			alts = append(alts, t+"!")
		}
		switch t {
		case "Int", "Int!":
			alts = append(alts, "[Int]", "Float", "String")
		case "[Int!]":
			alts = append(alts, "[Int]", "Int", "[[Int!]]")
		case "[O]":
			alts = append(alts, "[O!]", "O", "[N]")
		case "N":
			alts = append(alts, "O", "U")
		case "U!":
			alts = append(alts, "N")
		case "E":
			alts = append(alts, "String")
		}
		return alts
	}
	defAlts := func(t, d string) []string {
		var alts []string
		for _, x := range []string{"", "7"} {
			if (t == "Int" || t == "Int!") && x != d {
				alts = append(alts, x)
			}
		}
		return alts
	}
	for ti, t := range base.Types {
		for fi, f := range t.Fields {
			add(func(s *m.Schema) { // removed
				x := &s.Types[ti]
				if fi < len(x.Fields) && x.Fields[fi].Name == f.Name {
					x.Fields = append(x.Fields[:fi:fi], x.Fields[fi+1:]...)
				}
			})
			with := func(do func(x *m.Field)) {
				add(func(s *m.Schema) {
					for k := range s.Types[ti].Fields {
						if s.Types[ti].Fields[k].Name == f.Name {
							do(&s.Types[ti].Fields[k])
						}
					}
				})
			}
			for _, alt := range typeAlts(f.Type) {
				with(func(x *m.Field) { x.Type = alt })
			}
			if t.Kind == m.Input {
				for _, alt := range defAlts(f.Type, f.Default) {
					with(func(x *m.Field) { x.Default = alt })
				}
				continue
			}
			for ai, a := range f.Args {
				with(func(x *m.Field) {
					if ai < len(x.Args) && x.Args[ai].Name == a.Name {
						x.Args = append(x.Args[:ai:ai], x.Args[ai+1:]...)
					}
				})
				withArg := func(do func(x *m.Arg)) {
					with(func(x *m.Field) {
						for k := range x.Args {
							if x.Args[k].Name == a.Name {
								do(&x.Args[k])
							}
						}
					})
				}
				for _, alt := range typeAlts(a.Type) {
					withArg(func(x *m.Arg) { x.Type = alt })
				}
				for _, alt := range defAlts(a.Type, a.Default) {
					withArg(func(x *m.Arg) { x.Default = alt })
				}
			}
			if f.Name == "a" || f.Name == "f" || f.Name == "s" {
				for _, na := range []m.Arg{{Name: "n", Type: "Int"}, {Name: "n", Type: "Int!"}, {Name: "n", Type: "Int!", Default: "1"}, {Name: "n", Type: "[Int]!"}} {
					with(func(x *m.Field) { x.Args = append(x.Args, na) })
				}
			}
		}
		switch t.Kind {
		case m.Input:
			for _, nf := range []m.Field{{Name: "n", Type: "Int"}, {Name: "n", Type: "Int!"}, {Name: "n", Type: "Int!", Default: "1"}} {
				add(func(s *m.Schema) { s.Types[ti].Fields = append(s.Types[ti].Fields, nf) })
				add(func(s *m.Schema) {
					s.Types = append(s.Types, m.Type{Kind: t.Kind, Name: t.Name, Ext: true, Fields: []m.Field{nf}})
				})
			}
		case m.Object, m.Interface:
			add(func(s *m.Schema) { s.Types[ti].Fields = append(s.Types[ti].Fields, fld("new", "Int")) })
			add(func(s *m.Schema) {
				s.Types = append(s.Types, m.Type{Kind: t.Kind, Name: t.Name, Ext: true, Fields: []m.Field{fld("new", "Int")}})
			})
		}
		if !t.Ext {
			add(func(s *m.Schema) { delType(s, t.Name, false) })
			// the whole definition becomes an extension
			add(func(s *m.Schema) {
				for k := range s.Types {
					if s.Types[k].Name == t.Name {
						s.Types[k].Ext = true
					}
				}
			})
		} else {
			add(func(s *m.Schema) { delType(s, t.Name, true) })
		}
		if len(t.Ifaces) > 0 {
			add(func(s *m.Schema) { s.Types[ti].Ifaces = nil })
		}
	}
	add(func(s *m.Schema) { // the last field moves to an extension
		for k := range s.Types {
			t := &s.Types[k]
			if t.Name == "P" && !t.Ext && len(t.Fields) > 1 {
				f := t.Fields[len(t.Fields)-1]
				t.Fields = t.Fields[:len(t.Fields)-1]
				s.Types = append(s.Types, m.Type{Kind: m.Object, Name: "P", Ext: true, Fields: []m.Field{f}})
				return
			}
		}
	})
	typ := func(s *m.Schema, name string) *m.Type {
		for k := range s.Types {
			if s.Types[k].Name == name && !s.Types[k].Ext {
				return &s.Types[k]
			}
		}
		return &m.Type{}
	}
	for _, v := range []string{"A", "B"} {
		add(func(s *m.Schema) {
			t := typ(s, "E")
			var vs []m.Value
			for _, x := range t.Values {
				if x.Name != v {
					vs = append(vs, x)
				}
			}
			t.Values = vs
		})
	}
	add(func(s *m.Schema) { t := typ(s, "E"); t.Values = append(t.Values, m.Value{Name: "C"}) })
	add(func(s *m.Schema) {
		s.Types = append(s.Types, m.Type{Kind: m.Enum, Name: "E", Ext: true, Values: []m.Value{{Name: "C"}}})
	})
	add(func(s *m.Schema) { t := typ(s, "U"); t.Members = without(t.Members, "P") })
	add(func(s *m.Schema) { t := typ(s, "U"); t.Members = without(t.Members, "O") })
	add(func(s *m.Schema) {
		s.Types = append(s.Types, m.Type{Kind: m.Object, Name: "R", Ifaces: []string{"N"}, Fields: []m.Field{fld("id", "ID"), {Name: "f", Type: "Int", Args: []m.Arg{{Name: "p", Type: "Int"}}}}})
		t := typ(s, "U")
		t.Members = append(t.Members, "R")
	})
	add(func(s *m.Schema) { t := typ(s, "E"); t.Kind, t.Values = m.Scalar, nil })
	add(func(s *m.Schema) {
		t := typ(s, "U")
		t.Kind, t.Members, t.Fields = m.Interface, nil, []m.Field{fld("id", "ID")}
	})
	// directives
	d := func(f func(x *m.DirDef)) {
		add(func(s *m.Schema) {
			for k := range s.Dirs {
				f(&s.Dirs[k])
			}
		})
	}
	add(func(s *m.Schema) { s.Dirs = nil })
	d(func(x *m.DirDef) { x.Repeatable = false })
	for _, l := range []string{"FIELD", "QUERY", "INLINE_FRAGMENT"} {
		d(func(x *m.DirDef) { x.Locs = without(x.Locs, l) })
	}
	d(func(x *m.DirDef) { x.Locs = append(x.Locs, "FRAGMENT_SPREAD") })
	d(func(x *m.DirDef) { x.Args = nil })
	for _, na := range []m.Arg{{Name: "n", Type: "Int"}, {Name: "n", Type: "Int!"}, {Name: "n", Type: "Int!", Default: "1"}} {
		d(func(x *m.DirDef) { x.Args = append(x.Args, na) })
	}
	for _, alt := range []string{"Int!", "String", "[Int]"} {
		d(func(x *m.DirDef) {
			if len(x.Args) > 0 {
				x.Args[0].Type = alt
			}
		})
	}
	d(func(x *m.DirDef) {
		if len(x.Args) > 0 {
			x.Args[0].Default = "1"
		}
	})
	d(func(x *m.DirDef) {
		if len(x.Args) > 0 {
			x.Args[0].Type, x.Args[0].Default = "Int!", "1"
		}
	})
	// roots
	root := func(ops ...m.KV) {
		add(func(s *m.Schema) { s.Roots = append([]m.Root{{Ops: ops}}, s.Roots...) })
	}
	root(kv("query", "Query"), kv("mutation", "Mutation"), kv("subscription", "Subscription"))
	root(kv("query", "Query"))
	root(kv("query", "Query"), kv("mutation", "Subscription"))
	root(kv("mutation", "Mutation"), kv("subscription", "Subscription"))
	root(kv("query", "O"), kv("mutation", "Mutation"))
	for _, x := range []m.KV{kv("mutation", "Subscription"), kv("mutation", "Mutation"), kv("subscription", "Mutation"), kv("query", "O")} {
		add(func(s *m.Schema) { s.Roots = append(s.Roots, m.Root{Ext: true, Ops: []m.KV{x}}) })
	}
	return out
}

// notWellFormed finds elements declared twice and extensions of undefined types, which the specification forbids and
// the validator does not notice.
func notWellFormed(s *m.Schema) bool {
	seen := map[string]bool{}
	dup := func(k string) bool {
		if seen[k] {
			return true
		}
		seen[k] = true
		return false
	}
	for _, t := range s.Types {
		for _, f := range t.Fields {
			if dup("f " + t.Name + "." + f.Name) {
				return true
			}
			for _, a := range f.Args {
				if dup("a " + t.Name + "." + f.Name + "." + a.Name) {
					return true
				}
			}
		}
		for _, v := range t.Values {
			if dup("v " + t.Name + "." + v.Name) {
				return true
			}
		}
		for _, x := range t.Members {
			if dup("m " + t.Name + "." + x) {
				return true
			}
		}
		for _, x := range t.Ifaces {
			if dup("i " + t.Name + "." + x) {
				return true
			}
		}
	}
	for _, rt := range s.Roots {
		for _, op := range rt.Ops {
			if dup("root " + op.K) {
				return true
			}
		}
	}
	defined := map[string]bool{}
	for _, t := range s.Types {
		if !t.Ext {
			defined[t.Name] = true
		}
	}
	for _, t := range s.Types {
		// an extension of a type without definition is invalid; it is kept for object types, where it is common (federation)
		if t.Kind != m.Object && !defined[t.Name] {
			return true
		}
	}
	for _, d := range s.Dirs {
		for _, a := range d.Args {
			if dup("d " + d.Name + "." + a.Name) {
				return true
			}
		}
		for _, l := range d.Locs {
			if dup("l " + d.Name + "." + l) {
				return true
			}
		}
	}
	return false
}

// validSchema loads the schema with the independent validator.
func validSchema(r *m.Rendered) *ast.Schema {
	srcs := []*ast.Source{validator.Prelude}
	for i, n := range r.Names {
		srcs = append(srcs, &ast.Source{Name: n, Input: r.Texts[i]})
	}
	s, err := validator.LoadSchema(srcs...)
	if err != nil || s == nil {
		return nil
	}
	return s
}

func opValid(s *ast.Schema, op string) bool {
	q, err := parser.ParseQuery(&ast.Source{Input: op})
	if err != nil {
		panic(fmt.Sprint("harness: unparseable operation ", op, err))
	}
	for _, o := range q.Operations {
		// the validator does not look at missing root types of all the operations: no root, no operation
		switch o.Operation {
		case ast.Query:
			if s.Query == nil {
				return false
			}
		case ast.Mutation:
			if s.Mutation == nil {
				return false
			}
		case ast.Subscription:
			if s.Subscription == nil {
				return false
			}
		}
	}
	return len(validator.Validate(s, q)) == 0
}

type bits []uint64

func (b bits) sub(c bits) int { // index of an element of b missing in c, or -1
	for i := range b {
		if x := b[i] &^ c[i]; x != 0 {
			for k := 0; k < 64; k++ {
				if x>>k&1 == 1 {
					return i*64 + k
				}
			}
		}
	}
	return -1
}

type cstate struct {
	s     *m.Schema
	depth int
	valid bits
}

func c01(r *e.Run) {
	ops := clientOps()
	base := clientBase()
	es := clientEdits(base)
	// breadth-first over the edits; only valid schemas are states of the property, but an invalid one may become valid again
	depth := e.Pick(r, 2, 2)
	type node struct {
		s     *m.Schema
		depth int
	}
	seen := map[uint64]bool{}
	var states []*cstate
	var frontier []node
	invalid := 0
	push := func(s *m.Schema, dp int) {
		rd := m.Render(s)
		k := h64(rd.Text())
		if seen[k] {
			return
		}
		seen[k] = true
		if _, err := parser.ParseSchema(&ast.Source{Input: rd.Text()}); err != nil {
			return
		}
		frontier = append(frontier, node{s, dp})
		if !notWellFormed(s) && validSchema(rd) != nil {
			states = append(states, &cstate{s: s, depth: dp})
		} else {
			invalid++
		}
	}
	push(base, 0)
	push(reversed(base), 0)
	applied := 0
	for len(frontier) > 0 {
		n := frontier[0]
		frontier = frontier[1:]
		if n.depth == depth || n.depth >= 1 && !r.Thorough() && n.s == nil {
			continue
		}
		for _, ed := range es {
			c := n.s.Clone()
			if e.Guard(func() { ed(c) }) != "" { // the edited element is gone
				continue
			}
			applied++
			push(c, n.depth+1)
		}
	}
	r.Space("edit graph", "edits", len(es), "depth", depth, "edit_applications", applied, "valid_schemas", len(states), "invalid_schemas", invalid, "operations", len(ops))
	r.AddStates(len(states))
	// which operations are valid in which state
	var cnt int64
	r.Par(int64(len(states)), func(w *e.W, i int64) {
		st := states[i]
		b := make(bits, (len(ops)+63)/64)
		rd := m.Render(st.s)
		sch := validSchema(rd)
		for k, op := range ops {
			if opValid(sch, op) {
				b[k/64] |= 1 << (k % 64)
				atomic.AddInt64(&cnt, 1)
			}
		}
		st.valid = b
	})
	if r.Stopped() {
		return
	}
	r.Space("operation validity table", "entries", int64(len(states))*int64(len(ops)), "valid", cnt)
	var near []*cstate
	for _, s := range states {
		if s.depth <= 1 {
			near = append(near, s)
		}
	}
	var broke, useless int64
	// the near states are parsed once per worker
	nearDocs := make([][]*Doc, r.Workers)
	var once sync.Mutex
	check := func(w *e.W, order int64, o, n *cstate, od, nd *Doc) {
		w.Case(func() string { return "--- old\n" + od.R.Text() + "\n--- new\n" + nd.R.Text() })
		bad := o.valid.sub(n.valid)
		r.AddTransitions(1)
		if bad < 0 {
			atomic.AddInt64(&useless, 1)
			w.Outcome("no operation lost")
			return
		}
		cs := compare.FindChangesInSchemas(od.A, nd.A)
		r.AddTraces(1)
		if hasBreaking(cs) {
			atomic.AddInt64(&broke, 1)
			w.Outcome("an operation lost, breaking change reported")
			return
		}
		once.Lock()
		lostOp(r, order, "edit graph", od, nd, ops[bad], cs)
		once.Unlock()
	}
	r.Par(int64(len(states)), func(w *e.W, i int64) {
		if nearDocs[w.ID] == nil {
			for _, s := range near {
				nearDocs[w.ID] = append(nearDocs[w.ID], mkDoc(s.s))
			}
		}
		d := mkDoc(states[i].s)
		for j, ns := range near {
			nd := nearDocs[w.ID][j]
			check(w, i*int64(len(near)*2)+int64(2*j), ns, states[i], nd, d)
			check(w, i*int64(len(near)*2)+int64(2*j+1), states[i], ns, d, nd)
		}
	})
	r.Space("pairs (a schema at most one edit away, a schema at most two edits away), both directions", "pairs", len(states)*len(near)*2, "pairs_which_invalidate_an_operation", broke, "others", useless)
	inputTypeSpaces(r)
	renamedClient(r, near)
	noisyClient(r)
	decoratedClient(r, near)
	for i, k := 1, 0; i < len(near) && k < 3; i += 40 {
		if bad := near[0].valid.sub(near[i].valid); bad >= 0 {
			r.Sample(map[string]any{"old": m.Render(base).Text(), "new": m.Render(near[i].s).Text(), "lost_operation": ops[bad]})
			k++
		}
	}
	r.Assume("operation validity is decided by the gqlparser validator (specification rules), which is not part of CrowdStrike/gql",
		"operations outside the alphabet (deeper nesting, other literals) are invalidated only when one of the alphabet is",
		"operations which merge same-named fields of different concrete types are out of scope")
}
