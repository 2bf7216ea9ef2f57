package main

import (
	"fmt"
	"strings"

	e "verifmc/engine"
	m "verifmc/model"
)

// A neighbourhood of lint schemas: everything which one or two small changes make of a schema.

func (s *LSchema) clone() *LSchema {
	o := &LSchema{Types: append([]LType{}, s.Types...)}
	for i := range o.Types {
		t := &o.Types[i]
		t.Fields = append([]LField{}, t.Fields...)
		for j := range t.Fields {
			t.Fields[j].Args = append([]LArg{}, t.Fields[j].Args...)
		}
		t.Vals = append([]LVal{}, t.Vals...)
		t.Members = append([]string{}, t.Members...)
		t.Impl = append([]string{}, t.Impl...)
	}
	return o
}

var (
	genTypeNames  = []string{"T", "t", "_t", "__T", "Connection", "aConnection", "ZConnection", "Query", "PageInfo", "z9", "é"}[:10]
	genFieldNames = []string{"f", "F", "f_g", "_f", "edges", "pageInfo", "pageinfo", "first", "node", "fG1", "__typename", "type", "zConnection"}
	genArgNames   = []string{"x", "X", "x_y", "_x", "first", "after", "last", "before", "input"}
	genValNames   = []string{"A", "a", "A_B", "_", "A1", "a1", "Ab", "__A", "TYPE"}
	genFieldTypes = []string{"Int", "Int!", "[Int]", "[Int!]!", "PageInfo", "PageInfo!", "[PageInfo!]", "AConnection", "AConnection!", "[AConnection]", "[[X]]", "Connection", "String", "AEdge"}
	genArgTypes   = []string{"Int", "Int!", "[Int]", "[Int!]!", "[Int]!", "String", "ID!", "Float", "[[Int]]"}
	genDirs       = []string{"", "@deprecated", `@deprecated(reason: "x")`, "@external", `@key(fields: "id")`, "@a @b(x: 1)", `@tag(name: "#lint-disable")`, "@inaccessible", "@provides(fields: \"a\") @shareable"}
	genDefaults   = []string{"", "1", "null", `"x"`, "[1]", "{a: 1}", "A", "$v"}[:7]
	genDescs      = []LDesc{{}, {`"d"`, true}, {`""`, false}, {"\"\"\"\n  d\n  \"\"\"", true}, {`"""   """`, false}, {`"#"`, true}}
)

// lintSteps lists the changes of one element of a schema; each is applied to a copy.
func lintSteps(s *LSchema) []func(*LSchema) {
	var out []func(*LSchema)
	add := func(f func(*LSchema)) { out = append(out, f) }
	str := func(vals []string, cur string, at func(*LSchema) *string) {
		for _, v := range vals {
			if v != cur {
				add(func(s *LSchema) { *at(s) = v })
			}
		}
	}
	desc := func(cur LDesc, at func(*LSchema) *LDesc) {
		for _, v := range genDescs {
			if v != cur {
				add(func(s *LSchema) { *at(s) = v })
			}
		}
	}
	for i, t := range s.Types {
		add(func(s *LSchema) { s.Types = append(s.Types[:i], s.Types[i+1:]...) })
		if i > 0 {
			add(func(s *LSchema) { s.Types[i], s.Types[0] = s.Types[0], s.Types[i] })
		}
		if t.Kind == "raw" {
			continue
		}
		str(genTypeNames, t.Name, func(s *LSchema) *string { return &s.Types[i].Name })
		str(genDirs, t.Dirs, func(s *LSchema) *string { return &s.Types[i].Dirs })
		if !t.Ext {
			desc(t.Desc, func(s *LSchema) *LDesc { return &s.Types[i].Desc })
		}
		add(func(s *LSchema) { s.Types[i].Ext = !s.Types[i].Ext })
		add(func(s *LSchema) { // also extended
			x := s.clone().Types[i]
			x.Ext = true
			s.Types = append(s.Types, x)
		})
		add(func(s *LSchema) { // the body is left out
			s.Types[i].Fields, s.Types[i].Vals, s.Types[i].Members = nil, nil, nil
		})
		if t.Kind == m.Object || t.Kind == m.Interface {
			add(func(s *LSchema) { s.Types[i].Impl = []string{"Node"} })
			add(func(s *LSchema) { s.Types[i].Impl = []string{"node", "AConnection"} })
		}
		for _, k := range m.AllKinds {
			if k != t.Kind {
				add(func(s *LSchema) { rekind(&s.Types[i], k) })
			}
		}
		for j, f := range t.Fields {
			fa := func(s *LSchema) *LField { return &s.Types[i].Fields[j] }
			str(genFieldNames, f.Name, func(s *LSchema) *string { return &fa(s).Name })
			str(genFieldTypes, f.Type, func(s *LSchema) *string { return &fa(s).Type })
			str(genDirs, f.Dirs, func(s *LSchema) *string { return &fa(s).Dirs })
			desc(f.Desc, func(s *LSchema) *LDesc { return &fa(s).Desc })
			if t.Kind == m.Input {
				str(genDefaults, f.Default, func(s *LSchema) *string { return &fa(s).Default })
			}
			add(func(s *LSchema) {
				t := &s.Types[i]
				t.Fields = append(t.Fields[:j], t.Fields[j+1:]...)
			})
			if j > 0 {
				add(func(s *LSchema) {
					t := &s.Types[i]
					t.Fields[j], t.Fields[j-1] = t.Fields[j-1], t.Fields[j]
				})
			}
			if t.Kind == m.Input {
				continue
			}
			for _, n := range genArgNames {
				add(func(s *LSchema) { fa(s).Args = append(fa(s).Args, LArg{Name: n, Type: "Int"}) })
			}
			for k, a := range f.Args {
				aa := func(s *LSchema) *LArg { return &s.Types[i].Fields[j].Args[k] }
				str(genArgNames, a.Name, func(s *LSchema) *string { return &aa(s).Name })
				str(genArgTypes, a.Type, func(s *LSchema) *string { return &aa(s).Type })
				str(genDefaults, a.Default, func(s *LSchema) *string { return &aa(s).Default })
				str(genDirs, a.Dirs, func(s *LSchema) *string { return &aa(s).Dirs })
				desc(a.Desc, func(s *LSchema) *LDesc { return &aa(s).Desc })
				add(func(s *LSchema) {
					f := fa(s)
					f.Args = append(f.Args[:k], f.Args[k+1:]...)
				})
				if k > 0 {
					add(func(s *LSchema) {
						f := fa(s)
						f.Args[k], f.Args[k-1] = f.Args[k-1], f.Args[k]
					})
				}
			}
		}
		if t.Kind == m.Object || t.Kind == m.Interface || t.Kind == m.Input {
			for _, n := range genFieldNames {
				add(func(s *LSchema) {
					t := &s.Types[i]
					t.Fields = append(t.Fields, LField{Name: n, Type: "Int"})
				})
			}
		}
		for j, v := range t.Vals {
			va := func(s *LSchema) *LVal { return &s.Types[i].Vals[j] }
			str(genValNames, v.Name, func(s *LSchema) *string { return &va(s).Name })
			str(genDirs, v.Dirs, func(s *LSchema) *string { return &va(s).Dirs })
			desc(v.Desc, func(s *LSchema) *LDesc { return &va(s).Desc })
			add(func(s *LSchema) {
				t := &s.Types[i]
				t.Vals = append(t.Vals[:j], t.Vals[j+1:]...)
			})
			if j > 0 {
				add(func(s *LSchema) {
					t := &s.Types[i]
					t.Vals[j], t.Vals[j-1] = t.Vals[j-1], t.Vals[j]
				})
			}
		}
		if t.Kind == m.Enum {
			for _, n := range genValNames {
				add(func(s *LSchema) { s.Types[i].Vals = append(s.Types[i].Vals, LVal{Name: n}) })
			}
		}
	}
	for _, raw := range rawDefs {
		add(func(s *LSchema) { s.Types = append([]LType{{Kind: "raw", Name: raw}}, s.Types...) })
	}
	return out
}

// rawDefs are parts of a document which no rule is about.
var rawDefs = []string{"schema { query: Query }", "extend schema @link(url: \"x\")", "directive @d(a: Int, first: Int) repeatable on FIELD_DEFINITION | ENUM_VALUE", "# comment\n", "\"d\" directive @eConnection on OBJECT", "schema @s { mutation: m }"}

// rekind makes a type of another kind out of a type.
func rekind(t *LType, kind string) {
	var names []string
	for _, f := range t.Fields {
		names = append(names, f.Name)
	}
	for _, v := range t.Vals {
		names = append(names, v.Name)
	}
	names = append(names, t.Members...)
	old := t.Fields
	t.Kind, t.Fields, t.Vals, t.Members, t.Impl = kind, nil, nil, nil, nil
	switch kind {
	case m.Object, m.Interface, m.Input:
		for _, f := range old {
			if kind == m.Input {
				f.Args = nil
			} else {
				f.Default = ""
			}
			t.Fields = append(t.Fields, f)
		}
		if old == nil {
			for _, n := range names {
				t.Fields = append(t.Fields, LField{Name: n, Type: "Int"})
			}
		}
	case m.Enum:
		for _, n := range names {
			t.Vals = append(t.Vals, LVal{Name: n})
		}
	case m.Union:
		t.Members = names
	}
}

// unambiguous tells whether every element of the schema is defined only once.
func (s *LSchema) unambiguous() bool {
	seen := map[string]bool{}
	dup := func(k string) bool {
		x := seen[k]
		seen[k] = true
		return x
	}
	for i, t := range s.Types {
		if !t.Ext && dup("type "+t.Name) && t.Kind != "raw" {
			return false
		}
		for _, f := range t.Fields {
			if dup(fmt.Sprint(i, ".", f.Name)) {
				return false
			}
			for _, a := range f.Args {
				if dup(fmt.Sprint(i, ".", f.Name, ".", a.Name)) {
					return false
				}
			}
		}
		for _, v := range t.Vals {
			if dup(fmt.Sprint(i, ".", v.Name)) {
				return false
			}
		}
	}
	return true
}

func (s *LSchema) full() *LSchema { // everything is described
	for _, d := range describable(s) {
		*d = aDesc
	}
	return s
}

// lintKernels are the schemas whose neighbourhoods are explored.
func lintKernels() []*LSchema {
	f := func(name, typ string, args ...LArg) LField { return LField{Name: name, Type: typ, Args: args} }
	a := func(name, typ string) LArg { return LArg{Name: name, Type: typ} }
	v := func(n ...string) (out []LVal) {
		for _, x := range n {
			out = append(out, LVal{Name: x})
		}
		return
	}
	conn := &LSchema{[]LType{
		{Kind: "type", Name: "AConnection", Fields: []LField{f("edges", "[AEdge]"), f("pageInfo", "PageInfo!")}},
		{Kind: "type", Name: "Q", Fields: []LField{f("as", "AConnection", a("first", "Int"), a("after", "ID"), a("last", "Int"), a("before", "ID"))}},
	}}
	kinds := &LSchema{[]LType{
		{Kind: "interface", Name: "I", Fields: []LField{f("a", "Int", a("x", "Int"))}},
		{Kind: "enum", Name: "E", Vals: v("A", "B")},
		{Kind: "input", Name: "N", Fields: []LField{f("a", "Int")}},
		{Kind: "scalar", Name: "S"},
		{Kind: "union", Name: "U", Members: []string{"O"}},
	}}
	exts := &LSchema{[]LType{
		{Kind: "enum", Ext: true, Name: "E", Vals: v("C")},
		{Kind: "enum", Name: "E", Vals: v("A")},
		{Kind: "type", Ext: true, Name: "O", Fields: []LField{f("a", "Int", a("x", "Int"))}},
		{Kind: "input", Ext: true, Name: "N", Fields: []LField{f("a", "Int")}},
	}}
	bad := &LSchema{[]LType{
		{Kind: "type", Name: "oConnection", Fields: []LField{f("edges", "Int"), f("pageInfo", "PageInfo"), f("B_c", "bConnection", a("first", "String"))}},
		{Kind: "enum", Name: "e", Vals: v("a", "B")},
	}}
	single := &LSchema{[]LType{{Kind: "interface", Ext: true, Name: "T", Fields: []LField{f("a", "AConnection!", a("last", "Int!"), a("before", "ID"))}}}}
	return []*LSchema{conn.clone().full(), kinds.clone().full(), exts.clone().full(), kinds, exts, bad, single}
}

// lintNear explores what every pair of changes makes of the kernels.
func lintNear(r *e.Run, rules []string, line bool) {
	for ki, kernel := range lintKernels() {
		docs := nearDocs(r, kernel, e.Pick(r, 4, 1))
		lintSpace(r, fmt.Sprintf("all pairs of changes of kernel %d", ki), docs.n, rules, line, docs.at)
	}
}

type docSpace struct {
	n  int64
	at func(i int64) *LDoc
}

// nearDocs are the kernel, everything one change makes of it, and what a second change makes of these; every stride-th
// first change is followed by the second ones.
func nearDocs(r *e.Run, kernel *LSchema, stride int) docSpace {
	first := lintSteps(kernel)
	type one struct {
		s     *LSchema
		steps []func(*LSchema)
	}
	ones := make([]one, len(first)+1)
	ones[0] = one{s: kernel}
	offs := []int64{0}
	tot := int64(1)
	for i, st := range first {
		s := kernel.clone()
		st(s)
		o := one{s: s}
		if i%stride == 0 {
			o.steps = lintSteps(s)
		}
		ones[i+1] = o
		offs = append(offs, tot)
		tot += 1 + int64(len(o.steps))
	}
	offs = append(offs, tot)
	return docSpace{tot, func(i int64) *LDoc {
		lo, hi := 0, len(ones)-1
		for lo < hi {
			mid := (lo + hi + 1) / 2
			if offs[mid] <= i {
				lo = mid
			} else {
				hi = mid - 1
			}
		}
		o := ones[lo]
		s := o.s
		if j := i - offs[lo]; j > 0 {
			s = s.clone()
			o.steps[j-1](s)
		}
		if !s.unambiguous() {
			return nil
		}
		d := pretty(s)
		if !parses(d.Text) {
			return nil
		}
		return d
	}}
}

// nearNames are texts which resemble the name of a rule but do not name one.
func nearNames(rule string) []string {
	set := map[string]bool{}
	add := func(s string) {
		for _, n := range allRuleNames {
			if strings.EqualFold(strings.Trim(s, " \t"), n) {
				return
			}
		}
		set[s] = true
	}
	for i := 0; i <= len(rule); i++ {
		for _, c := range "abcdefghijklmnopqrstuvwxyz-_ .;:*0'\"#=/@!" {
			add(rule[:i] + string(c) + rule[i:])
			if i < len(rule) {
				add(rule[:i] + string(c) + rule[i+1:])
			}
		}
		for j := i; j <= len(rule); j++ {
			add(rule[i:j])
			add(rule[:i] + rule[j:])
		}
	}
	for _, o := range allRuleNames {
		add(rule + o)
		add(o + " " + rule)
		add(rule + "-" + o)
	}
	for _, p := range []string{"no-", "not ", "!", "rule:", "relay-", "s", "all-", "@", "é", "\u00a0x"} {
		add(p + rule)
		add(rule + p)
	}
	return sortedKeys(set)
}
