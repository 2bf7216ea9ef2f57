package main

import (
	"fmt"

	e "verifmc/engine"
	m "verifmc/model"
)

func kv(k, v string) m.KV { return m.KV{K: k, V: v} }

func fld(name, typ string) m.Field { return m.Field{Name: name, Type: typ} }

// seqs enumerates every sequence of distinct names of length 0..max.
func seqs(names []string, max int) [][]string {
	out := [][]string{{}}
	var rec func(cur []string)
	rec = func(cur []string) {
		if len(cur) == max {
			return
		}
		for _, n := range names {
			dup := false
			for _, c := range cur {
				dup = dup || c == n
			}
			if dup {
				continue
			}
			nx := append(append([]string{}, cur...), n)
			out = append(out, nx)
			rec(nx)
		}
	}
	rec(nil)
	return out
}

// body puts minimal content for a kind into a type block; tag keeps contents of several blocks distinct.
func body(kind, name, tag string) m.Type {
	t := m.Type{Kind: kind, Name: name}
	switch kind {
	case m.Object, m.Interface, m.Input:
		t.Fields = []m.Field{fld("f"+tag, "Int")}
	case m.Enum:
		t.Values = []m.Value{{Name: "V" + tag}}
	case m.Union:
		t.Members = []string{"M" + tag}
	case m.Scalar:
		t.Dirs = []m.Applied{{Name: "s" + tag}}
	}
	return t
}

// --- C03: types and roots

func typeStates(name string, kinds []string, rich bool) [][]m.Type {
	out := [][]m.Type{nil}
	descs := []string{"", "d"}
	if rich {
		descs = append(descs, "d ")
	}
	for _, k := range kinds {
		for _, ds := range descs {
			def := body(k, name, "")
			def.Desc = ds
			out = append(out, []m.Type{def})
			if ds == "" || rich {
				x := body(k, name, "x")
				x.Ext = true
				y := body(k, name, "y")
				y.Ext = true
				out = append(out, []m.Type{def, x}, []m.Type{x, y, def})
				if ds == "" {
					out = append(out, []m.Type{x}, []m.Type{x, y})
				}
			}
		}
	}
	return out
}

func uTypes(r *e.Run) []Universe {
	var us []Universe
	one := Universe{Name: "one type: every kind, description, definition/extension layout"}
	for _, ts := range typeStates("A", m.AllKinds, true) {
		one.S = append(one.S, &m.Schema{Types: ts})
	}
	us = append(us, one)
	kinds := e.Pick(r, []string{m.Object, m.Enum}, m.AllKinds)
	two := Universe{Name: "two types"}
	as, bs := typeStates("A", kinds, false), typeStates("B", kinds, false)
	for _, a := range as {
		for _, b := range bs {
			two.S = append(two.S, &m.Schema{Types: append(append([]m.Type{}, a...), b...)})
		}
	}
	us = append(us, two)
	names := []string{"A", "a", "AB", "Ab", "_A"}
	many := Universe{Name: "five similar names: absent / definition / extension"}
	n := 1
	for range names {
		n *= 3
	}
	for c := 0; c < n; c++ {
		s := &m.Schema{}
		x := c
		for i, nm := range names {
			st := x % 3
			x /= 3
			t := body([]string{m.Object, m.Input, m.Enum, m.Union, m.Scalar}[i], nm, "")
			switch st {
			case 1:
				s.Types = append(s.Types, t)
			case 2:
				t.Ext = true
				s.Types = append(s.Types, t)
			}
		}
		many.S = append(many.S, s)
	}
	if !r.Big() {
		var half []*m.Schema
		for i, s := range many.S {
			if i%1 == 0 {
				half = append(half, s)
			}
		}
		many.S = half
	}
	us = append(us, many)
	return us
}

func uRoots(r *e.Run) []Universe {
	ops := []string{"query", "mutation", "subscription"}
	defaults := []string{"Query", "Mutation", "Subscription"}
	// per operation: 0 none, 1 def-default, 2 def-X, 3 ext-default, 4 ext-X
	u := Universe{Name: "root operations: schema definitions, extensions, default names"}
	build := func(pl [3]int, present [3]int, twoExt bool) *m.Schema {
		s := &m.Schema{}
		var def, ext []m.KV
		for i, p := range pl {
			switch p {
			case 1:
				def = append(def, kv(ops[i], defaults[i]))
			case 2:
				def = append(def, kv(ops[i], "X"))
			case 3:
				ext = append(ext, kv(ops[i], defaults[i]))
			case 4:
				ext = append(ext, kv(ops[i], "X"))
			}
		}
		if len(def) > 0 {
			s.Roots = append(s.Roots, m.Root{Ops: def})
		}
		if twoExt && len(ext) > 1 {
			for _, o := range ext {
				s.Roots = append(s.Roots, m.Root{Ext: true, Ops: []m.KV{o}})
			}
		} else if len(ext) > 0 {
			s.Roots = append(s.Roots, m.Root{Ext: true, Ops: ext})
		}
		for i, p := range present {
			t := body(m.Object, defaults[i], "")
			switch p {
			case 1:
				s.Types = append(s.Types, t)
			case 2:
				t.Ext = true
				s.Types = append(s.Types, t)
			}
		}
		s.Types = append(s.Types, body(m.Object, "X", ""))
		return s
	}
	for a := 0; a < 5; a++ {
		for b := 0; b < 5; b++ {
			for c := 0; c < 5; c++ {
				for p := 0; p < 8; p++ {
					if !r.Big() && c > 0 && c != 1 && c != 4 {
						continue
					}
					if !r.Big() && c == 0 && p&4 != 0 && p&1 == 0 {
						continue
					}
					u.S = append(u.S, build([3]int{a, b, c}, [3]int{p & 1, p >> 1 & 1, p >> 2 & 1}, false))
					if a > 2 && b > 2 {
						u.S = append(u.S, build([3]int{a, b, c}, [3]int{p & 1, p >> 1 & 1, p >> 2 & 1}, true))
					}
				}
			}
		}
	}
	one := Universe{Name: "one root operation each, default type only extended"}
	for op := 0; op < 3; op++ {
		for pl := 0; pl < 5; pl++ {
			for pr := 0; pr < 3; pr++ {
				var p, q [3]int
				p[op], q[op] = pl, pr
				one.S = append(one.S, build(p, q, false))
			}
		}
	}
	return []Universe{one, u}
}

// --- C04: fields and arguments

// containers wraps the fields of the type under test in different layouts.
type wrap func(fs []m.Field) *m.Schema

func fieldWraps(kind string) map[string]wrap {
	fixed := fld("fixed", "Int")
	def := func(fs []m.Field) m.Type { return m.Type{Kind: kind, Name: "T", Fields: fs} }
	ext := func(fs []m.Field) m.Type { return m.Type{Kind: kind, Name: "T", Fields: fs, Ext: true} }
	return map[string]wrap{
		"definition": func(fs []m.Field) *m.Schema { return &m.Schema{Types: []m.Type{def(fs)}} },
		"extension": func(fs []m.Field) *m.Schema {
			return &m.Schema{Types: []m.Type{ext(append([]m.Field{fixed}, fs...))}}
		},
		"definition of an extended type": func(fs []m.Field) *m.Schema {
			return &m.Schema{Types: []m.Type{def(fs), ext([]m.Field{fixed})}}
		},
		"extension of a defined type": func(fs []m.Field) *m.Schema {
			return &m.Schema{Types: []m.Type{def([]m.Field{fixed}), ext(append([]m.Field{fld("fixed2", "Int")}, fs...))}}
		},
		"several extensions": func(fs []m.Field) *m.Schema {
			s := &m.Schema{Types: []m.Type{def([]m.Field{fixed}), ext([]m.Field{fld("fixed2", "Int")})}}
			for _, f := range fs {
				s.Types = append(s.Types, ext([]m.Field{f}))
			}
			return s
		},
	}
}

var wrapOrder = []string{"definition", "extension", "definition of an extended type", "extension of a defined type", "several extensions"}

// literals in canonical spelling, pairwise different values
var literals = []string{"", "null", "0", "1", "-1", "10", "1.5", "1e3", "true", "false", "A", "a", `""`, `"A"`, `"a"`, `"1"`, `"true"`, `" "`, `"a b"`, `"é"`, `"a\"b"`, `"<nil>"`, "[]", "[1]", "[1,2]", "[2,1]", "[[1]]", `["1"]`, "{}", "{a:1}", "{a:2}", "{b:1}", "{a:[1]}"}

var descriptions = []string{"", "d", "D", "d ", "dd", "d\ne", "d e", "d#e", `d"e`, "é", "\\", "d\\ne", "this is a long description of the element which goes on and on"}

func uFields(r *e.Run, kind string) []Universe {
	var us []Universe
	isInput := kind == m.Input
	// (a) names and orders in every container
	for _, wn := range wrapOrder {
		w := fieldWraps(kind)[wn]
		u := Universe{Name: kind + " fields, names and orders, " + wn}
		for _, sq := range seqs([]string{"a", "A", "ab", "b"}, e.Pick(r, 3, 4)) {
			var fs []m.Field
			for _, n := range sq {
				fs = append(fs, fld(n, "Int"))
			}
			u.S = append(u.S, w(fs))
		}
		us = append(us, u)
	}
	// (b) attributes of a field
	types := []string{"A", "A!", "[A]", "[A]!", "[A!]", "[A!]!", "B", "Int", "[[A]]", "AB"}
	defs := []string{""}
	if isInput {
		defs = []string{"", "null", "1", "2", `"1"`}
	}
	dsc := descriptions[:e.Pick(r, 4, 7)]
	for _, wn := range []string{"definition", "several extensions"} {
		u := Universe{Name: kind + " fields, type x default x description, " + wn}
		w := fieldWraps(kind)[wn]
		for _, t := range types {
			for _, df := range defs {
				for _, ds := range dsc {
					u.S = append(u.S, w([]m.Field{{Name: "f", Type: t, Default: df, Desc: ds}}))
				}
			}
		}
		u.S = append(u.S, w(nil))
		us = append(us, u)
	}
	// two fields, each absent or with attributes
	{
		u := Universe{Name: kind + " two fields with attributes"}
		var states []*m.Field
		states = append(states, nil)
		for _, t := range []string{"A", "A!", "B"} {
			for _, df := range defs[:e.Pick(r, min(2, len(defs)), min(4, len(defs)))] {
				for _, ds := range []string{"", "d"} {
					states = append(states, &m.Field{Type: t, Default: df, Desc: ds})
				}
			}
		}
		w := fieldWraps(kind)["definition"]
		for _, x := range states {
			for _, y := range states {
				var fs []m.Field
				if x != nil {
					f := *x
					f.Name = "f"
					fs = append(fs, f)
				}
				if y != nil {
					f := *y
					f.Name = "g"
					fs = append(fs, f)
				}
				u.S = append(u.S, w(fs))
			}
		}
		us = append(us, u)
	}
	// all descriptions
	{
		u := Universe{Name: kind + " field descriptions"}
		w := fieldWraps(kind)["definition"]
		for _, ds := range descriptions {
			u.S = append(u.S, w([]m.Field{{Name: "f", Type: "Int", Desc: ds}}))
		}
		us = append(us, u)
	}
	// two types: changes are attributed to the right one
	{
		u := Universe{Name: kind + " two types"}
		var states [][]m.Field
		states = append(states, []m.Field{fld("a", "Int")}, []m.Field{fld("a", "Int!")}, []m.Field{fld("b", "Int")}, []m.Field{fld("a", "Int"), fld("b", "Int")}, []m.Field{{Name: "a", Type: "Int", Desc: "d"}})
		for _, x := range states {
			for _, y := range states {
				for k := 0; k < 2; k++ {
					s := &m.Schema{Types: []m.Type{{Kind: kind, Name: "T", Fields: x}, {Kind: kind, Name: "Ta", Fields: y}}}
					if k == 1 {
						s.Types[0], s.Types[1] = s.Types[1], s.Types[0]
					}
					u.S = append(u.S, s)
				}
			}
		}
		us = append(us, u)
	}
	if isInput {
		u := Universe{Name: "input field default literals"}
		for _, l := range literals {
			for _, t := range []string{"J", "J!"} {
				u.S = append(u.S, &m.Schema{Types: []m.Type{{Kind: kind, Name: "T", Fields: []m.Field{{Name: "f", Type: t, Default: l}}}}})
			}
		}
		us = append(us, u)
		// input fields which come and go with whole extensions
		x := Universe{Name: "input fields in extensions which come and go"}
		var states [][]m.Field
		for _, t := range []string{"Int", "Int!"} {
			for _, df := range []string{"", "1"} {
				states = append(states, []m.Field{{Name: "n", Type: t, Default: df}})
			}
		}
		states = append(states, nil, []m.Field{fld("n", "Int!"), fld("o", "Int!")}, []m.Field{fld("o", "[Int]!")})
		for d := 0; d < 2; d++ {
			for _, e1 := range states {
				for _, e2 := range [][]m.Field{nil, {fld("p", "Int!")}, {fld("p", "Int")}} {
					s := &m.Schema{}
					if d == 1 {
						s.Types = append(s.Types, m.Type{Kind: kind, Name: "T", Fields: []m.Field{fld("k", "Int")}})
					}
					if e1 != nil {
						s.Types = append(s.Types, m.Type{Kind: kind, Name: "T", Ext: true, Fields: e1})
					}
					if e2 != nil {
						s.Types = append(s.Types, m.Type{Kind: kind, Name: "T", Ext: true, Fields: e2})
					}
					x.S = append(x.S, s)
				}
			}
		}
		us = append(us, x)
		return us
	}
	us = append(us, uArgs(r, kind)...)
	return us
}

func uArgs(r *e.Run, kind string) []Universe {
	var us []Universe
	withArgs := func(w wrap, as []m.Arg) *m.Schema {
		return w([]m.Field{fld("e", "Int"), {Name: "f", Type: "Int", Args: as}, fld("g", "Int")})
	}
	for _, wn := range []string{"definition", "extension of a defined type"} {
		w := fieldWraps(kind)[wn]
		u := Universe{Name: kind + " arguments, names and orders, " + wn}
		for _, sq := range seqs([]string{"x", "X", "xy", "y"}, e.Pick(r, 3, 4)) {
			var as []m.Arg
			for _, n := range sq {
				as = append(as, m.Arg{Name: n, Type: "Int"})
			}
			u.S = append(u.S, withArgs(w, as))
		}
		us = append(us, u)
	}
	w := fieldWraps(kind)["definition"]
	{
		u := Universe{Name: kind + " argument type x default x description"}
		for _, t := range []string{"A", "A!", "[A]", "[A]!", "[A!]", "[A!]!", "B", "[[A]]"} {
			for _, df := range []string{"", "null", "1", "2", `"1"`} {
				for _, ds := range descriptions[:e.Pick(r, 3, 5)] {
					u.S = append(u.S, withArgs(w, []m.Arg{{Name: "x", Type: t, Default: df, Desc: ds}}))
				}
			}
		}
		u.S = append(u.S, withArgs(w, nil))
		us = append(us, u)
	}
	{
		var states []*m.Arg
		states = append(states, nil)
		for _, t := range e.Pick(r, []string{"A", "A!"}, []string{"A", "A!", "[A]", "B"}) {
			for _, df := range []string{"", "1", "2"} {
				for _, ds := range []string{"", "d"} {
					states = append(states, &m.Arg{Type: t, Default: df, Desc: ds})
				}
			}
		}
		u := Universe{Name: kind + " two arguments with attributes"}
		for _, x := range states {
			for _, y := range states {
				var as []m.Arg
				if x != nil {
					a := *x
					a.Name = "x"
					as = append(as, a)
				}
				if y != nil {
					a := *y
					a.Name = "y"
					as = append(as, a)
				}
				u.S = append(u.S, withArgs(w, as))
			}
		}
		us = append(us, u)
	}
	{
		u := Universe{Name: kind + " argument default literals"}
		for _, l := range literals {
			for _, t := range []string{"J", "J!"} {
				u.S = append(u.S, withArgs(w, []m.Arg{{Name: "x", Type: t, Default: l}}))
			}
		}
		us = append(us, u)
	}
	{
		u := Universe{Name: kind + " argument descriptions"}
		for _, ds := range descriptions {
			u.S = append(u.S, withArgs(w, []m.Arg{{Name: "x", Type: "Int", Desc: ds}}))
		}
		us = append(us, u)
	}
	{ // the same argument on two fields
		u := Universe{Name: kind + " same argument on two fields, deprecated or not"}
		var sts []m.Field
		for _, dep := range []bool{false, true} {
			for _, as := range [][]m.Arg{nil, {{Name: "x", Type: "Int"}}, {{Name: "x", Type: "Int!"}}, {{Name: "x", Type: "Int", Default: "1"}}} {
				f := m.Field{Type: "Int", Args: as}
				if dep {
					f.Dirs = []m.Applied{{Name: "deprecated"}}
				}
				sts = append(sts, f)
			}
		}
		for _, x := range sts {
			for _, y := range sts {
				x.Name, y.Name = "f", "g"
				u.S = append(u.S, w([]m.Field{x, y}))
			}
		}
		us = append(us, u)
	}
	return us
}

// scalePairs: types with n elements, single edits at every index, and reversed order.
func scalePairs(max int, build func(names []string, odd int) *m.Schema) [][2]*m.Schema {
	var out [][2]*m.Schema
	for n := 1; n <= max; n++ {
		names := make([]string, n)
		for i := range names {
			names[i] = fmt.Sprintf("N%d", i+1)
		}
		full := build(names, -1)
		rev := make([]string, n)
		for i := range names {
			rev[n-1-i] = names[i]
		}
		out = append(out, [2]*m.Schema{full, build(rev, -1)})
		for i := 0; i < n; i++ {
			less := append(append([]string{}, names[:i]...), names[i+1:]...)
			if len(less) > 0 {
				l := build(less, -1)
				out = append(out, [2]*m.Schema{full, l}, [2]*m.Schema{l, full})
			}
			odd := build(names, i)
			out = append(out, [2]*m.Schema{full, odd}, [2]*m.Schema{odd, full}, [2]*m.Schema{build(rev, -1), odd})
		}
		// everything replaced
		other := make([]string, n)
		for i := range other {
			other[i] = fmt.Sprintf("O%d", i+1)
		}
		out = append(out, [2]*m.Schema{full, build(other, -1)})
	}
	return out
}

func fieldScale(kind string) func([]string, int) *m.Schema {
	return func(names []string, odd int) *m.Schema {
		t := m.Type{Kind: kind, Name: "T"}
		for i, n := range names {
			f := fld(n, "Int")
			if i == odd {
				f.Type, f.Desc = "String", "d"
			}
			t.Fields = append(t.Fields, f)
		}
		return &m.Schema{Types: []m.Type{t}}
	}
}

func argScale(kind string) func([]string, int) *m.Schema {
	return func(names []string, odd int) *m.Schema {
		f := fld("f", "Int")
		for i, n := range names {
			a := m.Arg{Name: n, Type: "Int", Default: "1"}
			if i == odd {
				a.Type, a.Desc, a.Default = "String!", "d", ""
			}
			f.Args = append(f.Args, a)
		}
		return &m.Schema{Types: []m.Type{{Kind: kind, Name: "T", Fields: []m.Field{f}}}}
	}
}

func typeScale(names []string, odd int) *m.Schema {
	s := &m.Schema{}
	for i, n := range names {
		t := body(m.AllKinds[i%6], n, "")
		if i == odd {
			t = body(m.AllKinds[(i+1)%6], n, "")
			t.Desc = "d"
		}
		s.Types = append(s.Types, t)
	}
	return s
}

func extScale(names []string, odd int) *m.Schema {
	s := typeScale(names, odd)
	for i := range s.Types {
		s.Types[i].Ext = true
		s.Types[i].Desc = ""
	}
	return s
}

func enumScale(names []string, odd int) *m.Schema {
	t := m.Type{Kind: m.Enum, Name: "T"}
	for i, n := range names {
		v := m.Value{Name: n}
		if i == odd {
			v.Desc = "d"
		}
		t.Values = append(t.Values, v)
	}
	return &m.Schema{Types: []m.Type{t}}
}

func unionScale(names []string, odd int) *m.Schema {
	t := m.Type{Kind: m.Union, Name: "T"}
	for i, n := range names {
		if i == odd {
			n += "x"
		}
		t.Members = append(t.Members, n)
	}
	return &m.Schema{Types: []m.Type{t}}
}

func ifaceScale(names []string, odd int) *m.Schema {
	s := unionScale(names, odd)
	t := &s.Types[0]
	t.Kind, t.Ifaces, t.Members = m.Object, t.Members, nil
	t.Fields = []m.Field{fld("f", "Int")}
	return s
}

func dirScale(names []string, odd int) *m.Schema {
	s := &m.Schema{}
	for i, n := range names {
		d := m.DirDef{Name: n, Locs: []string{"FIELD"}}
		if i == odd {
			d.Locs = []string{"QUERY"}
			d.Repeatable = true
		}
		s.Dirs = append(s.Dirs, d)
	}
	return s
}

func dirArgScale(names []string, odd int) *m.Schema {
	d := m.DirDef{Name: "d", Locs: []string{"FIELD"}}
	for i, n := range names {
		a := m.Arg{Name: n, Type: "Int", Default: "1"}
		if i == odd {
			a.Type, a.Desc, a.Default = "String!", "d", ""
		}
		d.Args = append(d.Args, a)
	}
	return &m.Schema{Dirs: []m.DirDef{d}}
}

// --- C06

func uSets(r *e.Run) []Universe {
	var us []Universe
	names := e.Pick(r, []string{"A", "a", "AB", "B"}, []string{"A", "a", "AB", "B", "aB"})
	for _, what := range []string{"enum values", "union members", "interfaces"} {
		set := func(ext bool, sq []string) m.Type {
			t := m.Type{Name: "T", Ext: ext}
			switch what {
			case "enum values":
				t.Kind = m.Enum
				for _, n := range sq {
					t.Values = append(t.Values, m.Value{Name: n})
				}
			case "union members":
				t.Kind = m.Union
				t.Members = sq
			default:
				t.Kind = m.Object
				t.Ifaces = sq
				t.Fields = []m.Field{fld("f", "Int")}
				if ext {
					t.Fields = []m.Field{fld("g", "Int")}
				}
			}
			return t
		}
		for c := 0; c < 4; c++ {
			u := Universe{Name: what + ", all subsets in all orders, " + []string{"definition", "extension of a defined type", "definition of an extended type", "several extensions"}[c]}
			lim := len(names)
			if c > 0 {
				lim = 3
			}
			for _, sq := range seqs(names, lim) {
				switch c {
				case 0:
					u.S = append(u.S, &m.Schema{Types: []m.Type{set(false, sq)}})
				case 1:
					u.S = append(u.S, &m.Schema{Types: []m.Type{set(false, []string{"Q"}), set(true, append([]string{"P"}, sq...))}})
				case 2:
					u.S = append(u.S, &m.Schema{Types: []m.Type{set(true, []string{"Q"}), set(false, append([]string{"P"}, sq...))}})
				case 3:
					s := &m.Schema{Types: []m.Type{set(false, []string{"Q"}), set(true, []string{"P"})}}
					for i, n := range sq {
						t := set(true, []string{n})
						if what == "interfaces" {
							t.Fields = []m.Field{fld(fmt.Sprintf("h%d", i), "Int")}
							t.Fields = nil
						}
						s.Types = append(s.Types, t)
					}
					u.S = append(u.S, s)
				}
			}
			us = append(us, u)
		}
	}
	// enum value descriptions
	u := Universe{Name: "enum value descriptions and presence"}
	var states []*m.Value
	states = append(states, nil)
	for _, d := range descriptions[:e.Pick(r, 5, 9)] {
		states = append(states, &m.Value{Desc: d})
	}
	for _, x := range states {
		for _, y := range states {
			t := m.Type{Kind: m.Enum, Name: "T", Values: []m.Value{{Name: "K"}}}
			if x != nil {
				t.Values = append(t.Values, m.Value{Name: "A", Desc: x.Desc})
			}
			if y != nil {
				t.Values = append(t.Values, m.Value{Name: "a", Desc: y.Desc})
			}
			u.S = append(u.S, &m.Schema{Types: []m.Type{t}})
		}
	}
	us = append(us, u)
	// two types of the same kind with overlapping sets
	for _, kind := range []string{m.Enum, m.Union, m.Object} {
		u := Universe{Name: kind + ": two types with overlapping sets"}
		sets := [][]string{{"A"}, {"B"}, {"A", "B"}, {"B", "A"}, {"A", "B", "C"}, {"C"}}
		for _, x := range sets {
			for _, y := range sets {
				mk := func(name string, sq []string) m.Type {
					t := m.Type{Kind: kind, Name: name}
					switch kind {
					case m.Enum:
						for _, n := range sq {
							t.Values = append(t.Values, m.Value{Name: n})
						}
					case m.Union:
						t.Members = sq
					default:
						t.Ifaces = sq
						t.Fields = []m.Field{fld("f", "Int")}
					}
					return t
				}
				u.S = append(u.S, &m.Schema{Types: []m.Type{mk("T", x), mk("U", y)}})
			}
		}
		us = append(us, u)
	}
	return us
}

// --- C07

var allLocs = []string{"QUERY", "MUTATION", "SUBSCRIPTION", "FIELD", "FRAGMENT_DEFINITION", "FRAGMENT_SPREAD", "INLINE_FRAGMENT", "VARIABLE_DEFINITION",
	"SCHEMA", "SCALAR", "OBJECT", "FIELD_DEFINITION", "ARGUMENT_DEFINITION", "INTERFACE", "UNION", "ENUM", "ENUM_VALUE", "INPUT_OBJECT", "INPUT_FIELD_DEFINITION"}

func uDirDefs(r *e.Run) []Universe {
	var us []Universe
	d1 := func(d m.DirDef) *m.Schema { return &m.Schema{Dirs: []m.DirDef{d}} }
	{
		u := Universe{Name: "directives: presence of similar names in any order"}
		for _, sq := range seqs([]string{"d", "D", "dd", "deprecated"}, e.Pick(r, 3, 4)) {
			s := &m.Schema{}
			for _, n := range sq {
				s.Dirs = append(s.Dirs, m.DirDef{Name: n, Locs: []string{"FIELD"}})
			}
			u.S = append(u.S, s)
		}
		us = append(us, u)
	}
	{
		u := Universe{Name: "directive locations: all non-empty subsets in all orders"}
		for _, sq := range seqs([]string{"FIELD", "FIELD_DEFINITION", "ENUM", "ENUM_VALUE"}, 4) {
			if len(sq) > 0 {
				u.S = append(u.S, d1(m.DirDef{Name: "d", Locs: sq}))
			}
		}
		for _, l := range allLocs {
			u.S = append(u.S, d1(m.DirDef{Name: "d", Locs: []string{l}}))
		}
		u.S = append(u.S, d1(m.DirDef{Name: "d", Locs: allLocs}))
		for i := range allLocs {
			u.S = append(u.S, d1(m.DirDef{Name: "d", Locs: append(append([]string{}, allLocs[:i]...), allLocs[i+1:]...)}))
		}
		us = append(us, u)
	}
	{
		u := Universe{Name: "directive: repeatable x description x locations x argument presence"}
		for _, rep := range []bool{false, true} {
			for _, ds := range descriptions[:e.Pick(r, 5, 9)] {
				for _, ls := range [][]string{{"FIELD"}, {"QUERY"}, {"FIELD", "QUERY"}} {
					for _, as := range [][]m.Arg{nil, {{Name: "x", Type: "Int"}}, {{Name: "x", Type: "Int!"}}} {
						u.S = append(u.S, d1(m.DirDef{Name: "d", Desc: ds, Repeatable: rep, Locs: ls, Args: as}))
					}
				}
			}
		}
		us = append(us, u)
	}
	{
		u := Universe{Name: "directive arguments, names and orders"}
		for _, sq := range seqs([]string{"x", "X", "xy", "y"}, e.Pick(r, 3, 4)) {
			var as []m.Arg
			for _, n := range sq {
				as = append(as, m.Arg{Name: n, Type: "Int"})
			}
			u.S = append(u.S, d1(m.DirDef{Name: "d", Locs: []string{"FIELD"}, Args: as}))
		}
		us = append(us, u)
	}
	{
		u := Universe{Name: "directive argument type x default x description"}
		for _, t := range []string{"A", "A!", "[A]", "[A]!", "[A!]", "[A!]!", "B"} {
			for _, df := range []string{"", "null", "1", "2", `"1"`} {
				for _, ds := range descriptions[:e.Pick(r, 3, 5)] {
					u.S = append(u.S, d1(m.DirDef{Name: "d", Locs: []string{"FIELD"}, Args: []m.Arg{{Name: "x", Type: t, Default: df, Desc: ds}}}))
				}
			}
		}
		u.S = append(u.S, d1(m.DirDef{Name: "d", Locs: []string{"FIELD"}}))
		us = append(us, u)
	}
	{
		u := Universe{Name: "directive: two arguments with attributes"}
		var states []*m.Arg
		states = append(states, nil)
		for _, t := range []string{"A", "A!", "B"} {
			for _, df := range []string{"", "1"} {
				for _, ds := range []string{"", "d"} {
					states = append(states, &m.Arg{Type: t, Default: df, Desc: ds})
				}
			}
		}
		for _, x := range states {
			for _, y := range states {
				var as []m.Arg
				if x != nil {
					a := *x
					a.Name = "x"
					as = append(as, a)
				}
				if y != nil {
					a := *y
					a.Name = "y"
					as = append(as, a)
				}
				u.S = append(u.S, d1(m.DirDef{Name: "d", Locs: []string{"FIELD"}, Args: as}))
			}
		}
		us = append(us, u)
	}
	{
		u := Universe{Name: "directive argument default literals"}
		for _, l := range literals {
			for _, t := range []string{"J", "J!"} {
				u.S = append(u.S, d1(m.DirDef{Name: "d", Locs: []string{"FIELD"}, Args: []m.Arg{{Name: "x", Type: t, Default: l}}}))
			}
		}
		us = append(us, u)
	}
	{
		u := Universe{Name: "two directives with overlapping attributes"}
		mk := func(k int, name string) m.DirDef {
			return []m.DirDef{
				{Name: name, Locs: []string{"FIELD"}},
				{Name: name, Locs: []string{"QUERY"}, Repeatable: true},
				{Name: name, Locs: []string{"FIELD"}, Args: []m.Arg{{Name: "x", Type: "Int"}}},
				{Name: name, Locs: []string{"FIELD"}, Args: []m.Arg{{Name: "x", Type: "Int!", Default: "1"}}},
				{Name: name, Locs: []string{"FIELD"}, Desc: "d", Args: []m.Arg{{Name: "y", Type: "Int!"}}},
			}[k]
		}
		for a := 0; a < 5; a++ {
			for b := 0; b < 5; b++ {
				u.S = append(u.S, &m.Schema{Dirs: []m.DirDef{mk(a, "d"), mk(b, "e")}}, &m.Schema{Dirs: []m.DirDef{mk(b, "e"), mk(a, "d")}})
			}
		}
		us = append(us, u)
	}
	return us
}

// --- C08

func dirLists(r *e.Run, apps []m.Applied, max int) [][]m.Applied {
	var out [][]m.Applied
	var rec func(cur []m.Applied)
	rec = func(cur []m.Applied) {
		out = append(out, append([]m.Applied(nil), cur...))
		if len(cur) == max {
			return
		}
		for _, a := range apps {
			if a.Name == "deprecated" {
				dup := false
				for _, c := range cur {
					dup = dup || c.Name == "deprecated"
				}
				if dup {
					continue
				}
			}
			rec(append(cur, a))
		}
	}
	rec(nil)
	return out
}

func ap(name string, kvs ...string) m.Applied {
	a := m.Applied{Name: name}
	for i := 0; i+1 < len(kvs); i += 2 {
		a.Args = append(a.Args, kv(kvs[i], kvs[i+1]))
	}
	return a
}

// positions where applied directives are compared
var dirPositions = []string{"object", "interface", "object field", "interface field", "input field", "object extension", "field in extension", "interface extension"}

func withDirs(pos string, ds []m.Applied) *m.Schema {
	f := fld("f", "Int")
	g := fld("g", "Int")
	switch pos {
	case "object":
		return &m.Schema{Types: []m.Type{{Kind: m.Object, Name: "T", Dirs: ds, Fields: []m.Field{f}}}}
	case "interface":
		return &m.Schema{Types: []m.Type{{Kind: m.Interface, Name: "T", Dirs: ds, Fields: []m.Field{f}}}}
	case "object field":
		f.Dirs = ds
		return &m.Schema{Types: []m.Type{{Kind: m.Object, Name: "T", Fields: []m.Field{f, g}}}}
	case "interface field":
		f.Dirs = ds
		return &m.Schema{Types: []m.Type{{Kind: m.Interface, Name: "T", Fields: []m.Field{g, f}}}}
	case "input field":
		f.Dirs = ds
		return &m.Schema{Types: []m.Type{{Kind: m.Input, Name: "T", Fields: []m.Field{f, g}}}}
	case "object extension":
		return &m.Schema{Types: []m.Type{{Kind: m.Object, Name: "T", Fields: []m.Field{f}}, {Kind: m.Object, Name: "T", Ext: true, Dirs: ds, Fields: []m.Field{g}}}}
	case "interface extension":
		return &m.Schema{Types: []m.Type{{Kind: m.Interface, Name: "T", Ext: true, Dirs: ds, Fields: []m.Field{g}}}}
	case "field in extension":
		g.Dirs = ds
		return &m.Schema{Types: []m.Type{{Kind: m.Object, Name: "T", Fields: []m.Field{f}}, {Kind: m.Object, Name: "T", Ext: true, Fields: []m.Field{g}}}}
	case "enum value":
		return &m.Schema{Types: []m.Type{{Kind: m.Enum, Name: "T", Values: []m.Value{{Name: "A", Dirs: ds}, {Name: "B"}}}}}
	case "enum value in extension":
		return &m.Schema{Types: []m.Type{{Kind: m.Enum, Name: "T", Ext: true, Values: []m.Value{{Name: "B"}, {Name: "A", Dirs: ds}}}}}
	}
	panic(pos)
}

func uApplied(r *e.Run) []Universe {
	var us []Universe
	apps := []m.Applied{ap("a"), ap("a", "x", "1"), ap("a", "x", "2"), ap("a", "x", "1", "y", "1"), ap("a", "y", "1", "x", "1"), ap("a", "y", "1"), ap("A"), ap("b", "x", "1"), ap("deprecated"), ap("deprecated", "reason", `"r"`)}
	small := []m.Applied{ap("a"), ap("a", "x", "1"), ap("a", "x", "2"), ap("b"), ap("deprecated")}
	for _, pos := range dirPositions {
		u := Universe{Name: "applied directives on " + pos}
		max := e.Pick(r, 2, 3)
		for _, l := range dirLists(r, apps, max) {
			u.S = append(u.S, withDirs(pos, l))
		}
		if !r.Big() {
			for _, l := range dirLists(r, small, 3) {
				u.S = append(u.S, withDirs(pos, l))
			}
		}
		us = append(us, u)
	}
	// deprecations, with all reasons, everywhere
	deps := []m.Applied{ap("deprecated"), ap("deprecated", "reason", `"r"`), ap("deprecated", "reason", `"s"`), ap("deprecated", "reason", `"R"`), ap("deprecated", "reason", `""`), ap("deprecated", "reason", `"No longer supported"`), ap("deprecated", "reason", `"r "`)}
	for _, pos := range append([]string{"enum value", "enum value in extension"}, dirPositions[2:5]...) {
		u := Universe{Name: "deprecation of " + pos}
		u.S = append(u.S, withDirs(pos, nil), withDirs(pos, []m.Applied{ap("other")}))
		for _, d := range deps {
			u.S = append(u.S, withDirs(pos, []m.Applied{d}))
			if pos[:4] != "enum" {
				u.S = append(u.S, withDirs(pos, []m.Applied{ap("other"), d}), withDirs(pos, []m.Applied{d, ap("other", "reason", `"r"`)}))
			} else {
				u.S = append(u.S, withDirs(pos, []m.Applied{ap("other"), d}))
			}
		}
		us = append(us, u)
	}
	// two enum values / fields, each deprecated or not
	{
		u := Universe{Name: "two enum values, two fields, deprecated or not"}
		opts := [][]m.Applied{nil, {deps[0]}, {deps[1]}, {deps[2]}}
		for _, a := range opts {
			for _, b := range opts {
				for _, c := range opts {
					fa, fb := fld("a", "Int"), fld("b", "Int")
					fa.Dirs, fb.Dirs = a, c
					u.S = append(u.S, &m.Schema{Types: []m.Type{
						{Kind: m.Enum, Name: "E", Values: []m.Value{{Name: "A", Dirs: a}, {Name: "B", Dirs: b}}},
						{Kind: m.Object, Name: "T", Fields: []m.Field{fa, fb}}}})
				}
			}
		}
		us = append(us, u)
	}
	// directive argument values
	{
		u := Universe{Name: "applied directive argument literals"}
		for _, l := range literals {
			if l != "" {
				u.S = append(u.S, withDirs("object field", []m.Applied{ap("a", "x", l)}))
			}
		}
		us = append(us, u)
	}
	{ // argument subsets and orders of a single application
		u := Universe{Name: "arguments of a single application, all subsets and orders"}
		for _, sq := range seqs([]string{"x", "X", "y", "z"}, e.Pick(r, 3, 4)) {
			for v := 0; v < 2; v++ {
				a := m.Applied{Name: "a"}
				for i, n := range sq {
					val := "1"
					if v == 1 && i == 0 {
						val = "2"
					}
					a.Args = append(a.Args, kv(n, val))
				}
				u.S = append(u.S, withDirs("object", []m.Applied{a}))
			}
		}
		us = append(us, u)
	}
	return us
}

// repeated directives with two arguments each: every pair of lists of applications
func repeatedPairs(r *e.Run) []Universe {
	u := Universe{Name: "repeated directives with up to three arguments"}
	var apps []m.Applied
	for x := 0; x < 3; x++ {
		for y := 0; y < 3; y++ {
			a := m.Applied{Name: "a"}
			if x > 0 {
				a.Args = append(a.Args, kv("x", fmt.Sprint(x)))
			}
			if y > 0 {
				a.Args = append(a.Args, kv("y", fmt.Sprint(y)))
			}
			apps = append(apps, a)
		}
	}
	apps = append(apps, ap("a", "x", "1", "y", "1", "z", "1"), ap("a", "y", "1", "x", "1"))
	for _, l := range dirLists(r, apps, e.Pick(r, 2, 3)) {
		u.S = append(u.S, withDirs("object field", l))
	}
	return []Universe{u}
}

// --- C09

var refPositions = []string{"object field", "interface field", "field argument", "input field", "directive argument", "interface field argument", "field in extension", "input field in extension"}

func withRef(pos, t string) *m.Schema {
	f := fld("f", t)
	a := m.Field{Name: "f", Type: "Int", Args: []m.Arg{{Name: "x", Type: t}}}
	switch pos {
	case "object field":
		return &m.Schema{Types: []m.Type{{Kind: m.Object, Name: "T", Fields: []m.Field{f}}}}
	case "interface field":
		return &m.Schema{Types: []m.Type{{Kind: m.Interface, Name: "T", Fields: []m.Field{f}}}}
	case "field argument":
		return &m.Schema{Types: []m.Type{{Kind: m.Object, Name: "T", Fields: []m.Field{a}}}}
	case "interface field argument":
		return &m.Schema{Types: []m.Type{{Kind: m.Interface, Name: "T", Fields: []m.Field{a}}}}
	case "input field":
		return &m.Schema{Types: []m.Type{{Kind: m.Input, Name: "T", Fields: []m.Field{f}}}}
	case "directive argument":
		return &m.Schema{Dirs: []m.DirDef{{Name: "d", Locs: []string{"FIELD"}, Args: []m.Arg{{Name: "x", Type: t}}}}}
	case "field in extension":
		return &m.Schema{Types: []m.Type{{Kind: m.Object, Name: "T", Ext: true, Fields: []m.Field{f}}}}
	case "input field in extension":
		return &m.Schema{Types: []m.Type{{Kind: m.Input, Name: "T", Ext: true, Fields: []m.Field{f}}}}
	}
	panic(pos)
}

func uRefs(r *e.Run) []Universe {
	var us []Universe
	for i, pos := range refPositions {
		u := Universe{Name: "type references of " + pos}
		names, depth := []string{"A", "B"}, 4
		if r.Big() {
			names, depth = []string{"A", "B", "a"}, 5
		}
		if i >= 5 {
			depth -= 2
		}
		for _, t := range m.Refs(names, depth) {
			u.S = append(u.S, withRef(pos, t))
		}
		us = append(us, u)
	}
	return us
}
