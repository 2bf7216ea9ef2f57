package main

import (
	"fmt"
	"strings"

	"github.com/CrowdStrike/gql/pkg/compare"

	e "verifmc/engine"
	m "verifmc/model"
)

func hasBreaking(cs []*compare.Change) bool {
	return len(compare.GroupChanges(cs)[compare.Breaking]) > 0
}

// validityOf: which operations are valid against a schema (nil when the schema itself is not valid).
func validityOf(s *m.Schema, ops []string) bits {
	if notWellFormed(s) {
		return nil
	}
	sch := validSchema(m.Render(s))
	if sch == nil {
		return nil
	}
	b := make(bits, (len(ops)+63)/64)
	for k, op := range ops {
		if opValid(sch, op) {
			b[k/64] |= 1 << (k % 64)
		}
	}
	return b
}

// explorePairsOps: every ordered pair of the (valid) schemas, against the operations.
func explorePairsOps(r *e.Run, name string, schemas []*m.Schema, ops []string) {
	if r.Stopped() {
		return
	}
	all := make([]bits, len(schemas))
	r.Par(int64(len(schemas)), func(w *e.W, i int64) { all[i] = validityOf(schemas[i], ops) })
	var ss []*m.Schema
	var val []bits
	for i, b := range all {
		if b != nil {
			ss, val = append(ss, schemas[i]), append(val, b)
		}
	}
	n := int64(len(ss))
	docs := make([][]*Doc, r.Workers)
	r.Par(int64(r.Workers), func(w *e.W, i int64) {
		for _, s := range ss {
			docs[i] = append(docs[i], mkDoc(s))
		}
	})
	if r.Stopped() {
		return
	}
	var lost [64]int64
	r.Par(n*n, func(w *e.W, k int64) {
		i, j := k/n, k%n
		bad := val[i].sub(val[j])
		r.AddTransitions(1)
		if bad < 0 {
			w.Outcome("no operation lost")
			return
		}
		o, nw := docs[w.ID][i], docs[w.ID][j]
		lost[w.ID]++
		w.Case(func() string { return "--- old\n" + o.R.Text() + "\n--- new\n" + nw.R.Text() })
		cs := compare.FindChangesInSchemas(o.A, nw.A)
		r.AddTraces(1)
		w.Outcome("an operation lost")
		if !hasBreaking(cs) {
			lostOp(r, k, name, o, nw, ops[bad], cs)
		}
	})
	var l int64
	for _, x := range lost {
		l += x
	}
	r.AddStates(len(ss))
	r.Space(name, "valid_schemas", n, "operations", len(ops), "ordered_pairs", n*n, "pairs_which_invalidate_an_operation", l)
}

func lostOp(r *e.Run, order int64, space string, o, n *Doc, op string, cs []*compare.Change) {
	got := observe(cs)
	why := fmt.Sprintf("no breaking change is reported, but the operation is valid in the old and invalid in the new schema: %s", op)
	rep := pairReplay(o, n, why, got)
	rep["operation"], rep["space"] = op, space
	r.Violate(order, "op:"+fmt.Sprintf("%x", h64(o.R.Text()+"\x00"+n.R.Text())), fmt.Sprintf("%s\nreported: %v\n--- old\n%s--- new\n%s", why, gotStrings(got), clipS(o.R.Text(), 1500), clipS(n.R.Text(), 1500)), rep)
}

// wrappings of a type name up to a list depth
func wrappings(name string, depth int) []string {
	out := []string{name, name + "!"}
	if depth > 0 {
		for _, w := range wrappings(name, depth-1) {
			out = append(out, "["+w+"]", "["+w+"]!")
		}
	}
	return out
}

// inputTypeSpaces: all pairs of types of an argument, an input field, a directive argument and a type-changing output
// field, against operations which use them with variables of every type and with literals of every shape.
func inputTypeSpaces(r *e.Run) {
	depth := e.Pick(r, 2, 3)
	var types, vars []string
	for _, n := range []string{"Int", "Float", "ID", "String", "E", "In", "S"} {
		d := depth
		if n != "Int" && n != "E" {
			d = min(depth, e.Pick(r, 1, 2))
		}
		types = append(types, wrappings(n, d)...)
	}
	vars = append(vars, types...)
	vars = append(vars, wrappings("Int", depth+1)...)
	lits := []string{"null", "1", "1.5", `"a"`, "A", "B", "true", "{}", "{f:1}", "[]", "[null]", "[1]", "[A]", "[[]]", "[[null]]", "[[1]]", "[[1],[2]]", "[1,null]", "[{f:1}]", "[[[1]]]", "[[[]]]"}
	base := func() *m.Schema {
		return &m.Schema{Types: []m.Type{
			{Kind: m.Object, Name: "Query", Fields: []m.Field{{Name: "a", Type: "Int", Args: []m.Arg{{Name: "x", Type: "Int"}}}, {Name: "b", Type: "Int", Args: []m.Arg{{Name: "i", Type: "J"}}}}},
			{Kind: m.Enum, Name: "E", Values: []m.Value{{Name: "A"}, {Name: "B"}}},
			{Kind: m.Input, Name: "In", Fields: []m.Field{fld("f", "Int")}},
			{Kind: m.Input, Name: "J", Fields: []m.Field{fld("x", "Int"), fld("y", "Int")}},
			{Kind: m.Scalar, Name: "S"},
		}, Dirs: []m.DirDef{{Name: "d", Args: []m.Arg{{Name: "x", Type: "Int"}}, Locs: []string{"FIELD"}}}}
	}
	uses := func(open, close string) []string {
		ops := []string{"{ " + strings.TrimSuffix(open, "x: ") + strings.TrimPrefix(close, "}") + " }"}
		ops = ops[:0]
		for _, v := range vars {
			ops = append(ops, fmt.Sprintf("query($v: %s) { %s$v%s }", v, open, close))
		}
		for _, l := range lits {
			ops = append(ops, fmt.Sprintf("{ %s%s%s }", open, l, close))
		}
		return ops
	}
	defOf := func(t string) []string {
		if strings.HasPrefix(t, "Int") {
			return []string{"", "1"}
		}
		if strings.HasPrefix(t, "[") && !strings.HasPrefix(t, "[[") {
			return []string{"", "[]"}
		}
		return []string{""}
	}
	places := []struct {
		name string
		set  func(s *m.Schema, t, d string)
		ops  []string
	}{
		{"argument", func(s *m.Schema, t, d string) { s.Types[0].Fields[0].Args[0] = m.Arg{Name: "x", Type: t, Default: d} }, append(uses("a(x: ", ")"), "{ a }")},
		{"input field", func(s *m.Schema, t, d string) { s.Types[3].Fields[0] = m.Field{Name: "x", Type: t, Default: d} }, append(uses("b(i: {x: ", "})"), "{ b(i: {}) }", "{ b(i: {y: 1}) }", "query($v: J) { b(i: $v) }")},
		{"directive argument", func(s *m.Schema, t, d string) { s.Dirs[0].Args[0] = m.Arg{Name: "x", Type: t, Default: d} }, append(uses("a @d(x: ", ")"), "{ a @d }")},
	}
	for _, p := range places {
		var ss []*m.Schema
		for _, t := range types {
			for _, d := range defOf(t) {
				s := base()
				p.set(s, t, d)
				ss = append(ss, s)
			}
		}
		explorePairsOps(r, p.name+": all pairs of types and defaults", ss, p.ops)
	}
	// output types
	out := []string{}
	for _, n := range []string{"Int", "E", "S", "O", "P", "N", "U", "M"} {
		out = append(out, wrappings(n, e.Pick(r, 1, 2))...)
	}
	obj := func(n string, ifs []string, fs ...m.Field) m.Type {
		return m.Type{Kind: m.Object, Name: n, Ifaces: ifs, Fields: fs}
	}
	var ss []*m.Schema
	for _, t := range out {
		ss = append(ss, &m.Schema{Types: []m.Type{
			obj("Query", nil, fld("a", t)), obj("O", []string{"N"}, fld("id", "Int"), fld("p", "Int")), obj("P", []string{"N"}, fld("id", "Int"), fld("q", "Int")), obj("M", nil, fld("id", "Int")),
			{Kind: m.Interface, Name: "N", Fields: []m.Field{fld("id", "Int")}}, {Kind: m.Union, Name: "U", Members: []string{"O", "P"}}, {Kind: m.Enum, Name: "E", Values: []m.Value{{Name: "A"}}}, {Kind: m.Scalar, Name: "S"}}})
	}
	var ops []string
	ops = append(ops, "{ a }")
	for _, in := range []string{"__typename", "id", "p", "q", "id p", "... on O { p }", "... on P { q }", "... on N { id }", "... on U { __typename }", "... on M { id }", "... on N { ... on P { q } }"} {
		ops = append(ops, "{ a { "+in+" } }")
	}
	explorePairsOps(r, "output field: all pairs of types", ss, ops)
}

// renamedClient: the client schema with every identifier replaced by every special name, and every single edit of it
// which invalidates an operation (renaming does not change that).
func renamedClient(r *e.Run, near []*cstate) {
	base := near[0]
	type ed struct {
		s   *m.Schema
		bad int
	}
	ops := clientOps()
	var lost []ed
	for _, n := range near[1:] {
		if bad := base.valid.sub(n.valid); bad >= 0 {
			lost = append(lost, ed{n.s, bad})
		}
	}
	taken := map[string]bool{"true": true, "false": true, "null": true, "Int": true, "Float": true, "String": true, "Boolean": true, "ID": true, "Query": true, "Mutation": true, "Subscription": true,
		"include": true, "skip": true, "deprecated": true, "specifiedBy": true, "new": true, "n": true, "C": true, "R": true, "defer": true}
	ids := identsOf(base.s)
	for _, id := range ids {
		taken[id.name] = true
	}
	type start struct {
		id ident
		to string
	}
	var starts []start
	for _, id := range ids {
		if id.name == "Query" || id.name == "Mutation" || id.name == "Subscription" || taken[id.name] && (id.name == "Int" || id.name == "ID") {
			continue
		}
		for _, n := range specialNames {
			if taken[n] || strings.HasPrefix(n, "__") {
				continue
			}
			starts = append(starts, start{id, n})
		}
	}
	r.Par(int64(len(starts)), func(w *e.W, i int64) {
		st := starts[i]
		ren := func(s *m.Schema) *m.Schema { return renamedEverywhere(s, st.id.class, st.id.name, st.to) }
		o := validDoc(ren(base.s))
		if o == nil {
			return
		}
		for k, x := range lost {
			n := validDoc(ren(x.s))
			if n == nil {
				continue
			}
			w.Case(func() string { return "--- old\n" + o.R.Text() + "\n--- new\n" + n.R.Text() })
			cs := compare.FindChangesInSchemas(o.A, n.A)
			r.AddTransitions(1)
			r.AddTraces(1)
			if !hasBreaking(cs) {
				lostOp(r, i*1000+int64(k), "renamed identifiers", o, n, ops[x.bad]+" (with "+st.id.class+" "+st.id.name+" renamed to "+st.to+")", cs)
			}
		}
	})
	r.AddStates(len(starts))
	r.Space("every identifier renamed to every special name, every edit which invalidates an operation", "renamed_schemas", len(starts), "edits", len(lost))
}

// noisyClient: the client schema with generated steps (descriptions, deprecations, applied directives, ... included)
func noisyClient(r *e.Run) {
	base := clientBase()
	for i := range base.Types {
		t := &base.Types[i]
		if t.Name == "O" && !t.Ext {
			t.Desc, t.Dirs = "d", []m.Applied{ap("k", "v", "1")}
		}
		for j := range t.Fields {
			if t.Name == "Query" && t.Fields[j].Name == "c" {
				t.Fields[j].Desc, t.Fields[j].Dirs = "d", []m.Applied{ap("deprecated")}
			}
		}
	}
	base.Dirs = append(base.Dirs, m.DirDef{Name: "k", Repeatable: true, Args: []m.Arg{{Name: "v", Type: "Int"}}, Locs: []string{"OBJECT", "INTERFACE", "SCALAR", "INPUT_OBJECT", "FIELD_DEFINITION", "INPUT_FIELD_DEFINITION", "ENUM_VALUE", "ARGUMENT_DEFINITION"}})
	o := StepOpt{Names: []string{"n", "k"}, Types: []string{"Int", "Int!", "O", "[Int]"}, InTypes: []string{"Int", "Int!", "E", "[Int]"}, Defaults: []string{"", "1"}, Descs: []string{"", "d1"}, Values: []string{"2"}, Light: !r.Thorough()}
	near, _ := neighbourhood(base, append(genSteps(base, o), rootSteps([]string{"Query", "Mutation", "Subscription", "O"})...))
	explorePairsOps(r, "client schema: pairs of schemas one generated step away", append([]*m.Schema{base}, near...), clientOps())
}
