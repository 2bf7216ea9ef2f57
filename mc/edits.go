package main

import (
	m "verifmc/model"
)

// richBase is a schema with every kind of element, types which are defined, extended, and both.
func richBase() *m.Schema {
	dep := ap("deprecated", "reason", `"old"`)
	return &m.Schema{
		Roots: []m.Root{
			{Ops: []m.KV{kv("query", "Query")}},
			{Ext: true, Ops: []m.KV{kv("mutation", "Mut")}},
		},
		Types: []m.Type{
			{Kind: m.Object, Name: "Query", Desc: "root", Fields: []m.Field{
				{Name: "user", Type: "User", Args: []m.Arg{{Name: "id", Type: "ID!"}, {Name: "limit", Type: "Int", Default: "10", Desc: "how many"}}},
				{Name: "search", Type: "[Hit!]", Args: []m.Arg{{Name: "filter", Type: "Filter"}, {Name: "q", Type: "[String!]!", Default: `["x"]`}}, Desc: "search"},
				{Name: "node", Type: "Node"},
			}},
			{Kind: m.Object, Name: "Mut", Fields: []m.Field{{Name: "set", Type: "Boolean", Args: []m.Arg{{Name: "in", Type: "Filter!"}}}}},
			{Kind: m.Interface, Name: "Node", Desc: "node", Dirs: []m.Applied{ap("key", "fields", `"id"`)}, Fields: []m.Field{{Name: "id", Type: "ID!"}, {Name: "tags", Type: "[String]", Args: []m.Arg{{Name: "n", Type: "Int"}}}}},
			{Kind: m.Interface, Name: "Named", Fields: []m.Field{{Name: "name", Type: "String"}}},
			{Kind: m.Object, Name: "User", Ifaces: []string{"Node", "Named"}, Dirs: []m.Applied{ap("key", "fields", `"id"`), ap("key", "fields", `"name"`), ap("own")}, Fields: []m.Field{
				{Name: "id", Type: "ID!", Dirs: []m.Applied{ap("tag", "name", `"a"`)}},
				{Name: "name", Type: "String", Desc: "the name"},
				{Name: "tags", Type: "[String]", Args: []m.Arg{{Name: "n", Type: "Int"}}},
				{Name: "old", Type: "Int", Dirs: []m.Applied{dep}},
				{Name: "role", Type: "Role!", Dirs: []m.Applied{ap("tag", "name", `"r"`), ap("tag", "name", `"s"`)}},
			}},
			{Kind: m.Object, Name: "User", Ext: true, Fields: []m.Field{{Name: "posts", Type: "[Post!]!", Args: []m.Arg{{Name: "first", Type: "Int", Default: "5"}}}, {Name: "bio", Type: "String"}}},
			{Kind: m.Object, Name: "User", Ext: true, Ifaces: []string{"Ent"}, Fields: []m.Field{{Name: "ent", Type: "Int"}}},
			{Kind: m.Object, Name: "Post", Fields: []m.Field{{Name: "title", Type: "String!"}, {Name: "author", Type: "User!"}}},
			{Kind: m.Object, Name: "Remote", Ext: true, Dirs: []m.Applied{ap("extends")}, Fields: []m.Field{{Name: "id", Type: "ID!", Dirs: []m.Applied{ap("external")}}}},
			{Kind: m.Interface, Name: "Ent", Fields: []m.Field{{Name: "ent", Type: "Int"}}},
			{Kind: m.Union, Name: "Hit", Desc: "hit", Members: []string{"User", "Post"}},
			{Kind: m.Union, Name: "Hit", Ext: true, Members: []string{"Remote"}},
			{Kind: m.Enum, Name: "Role", Values: []m.Value{{Name: "ADMIN", Desc: "admin"}, {Name: "USER"}, {Name: "OLD", Dirs: []m.Applied{dep}}}},
			{Kind: m.Enum, Name: "Role", Ext: true, Values: []m.Value{{Name: "GUEST"}}},
			{Kind: m.Input, Name: "Filter", Desc: "filter", Fields: []m.Field{{Name: "q", Type: "String", Desc: "query"}, {Name: "n", Type: "Int!", Default: "1"}, {Name: "roles", Type: "[Role!]", Dirs: []m.Applied{ap("tag", "name", `"f"`)}}, {Name: "gone", Type: "Int", Dirs: []m.Applied{dep}}}},
			{Kind: m.Input, Name: "Filter", Ext: true, Fields: []m.Field{{Name: "more", Type: "Int", Default: "0"}}},
			{Kind: m.Input, Name: "Plain", Fields: []m.Field{{Name: "p", Type: "Int"}}},
			{Kind: m.Scalar, Name: "Date", Desc: "a date"},
			{Kind: m.Scalar, Name: "ID2"},
		},
		Dirs: []m.DirDef{
			{Name: "key", Args: []m.Arg{{Name: "fields", Type: "String!"}}, Locs: []string{"OBJECT", "INTERFACE"}, Repeatable: true},
			{Name: "tag", Desc: "tag", Args: []m.Arg{{Name: "name", Type: "String!"}, {Name: "w", Type: "Int", Default: "1", Desc: "weight"}}, Locs: []string{"FIELD_DEFINITION", "INPUT_FIELD_DEFINITION"}, Repeatable: true},
			{Name: "own", Locs: []string{"OBJECT"}},
			{Name: "skipIf", Args: []m.Arg{{Name: "v", Type: "Boolean!"}}, Locs: []string{"FIELD", "QUERY"}},
		},
	}
}

// Edit changes one element; Uses lists the elements which only one edit of a combination may touch.
type Edit struct {
	Name string
	Uses []string
	Do   func(s *m.Schema)
}

func block(s *m.Schema, name string, ext bool, nth int) *m.Type {
	for i := range s.Types {
		t := &s.Types[i]
		if t.Name == name && t.Ext == ext {
			if nth == 0 {
				return t
			}
			nth--
		}
	}
	panic("no type " + name)
}

func fieldOf(s *m.Schema, typ, name string) *m.Field {
	for i := range s.Types {
		if s.Types[i].Name != typ {
			continue
		}
		for j := range s.Types[i].Fields {
			if s.Types[i].Fields[j].Name == name {
				return &s.Types[i].Fields[j]
			}
		}
	}
	panic("no field " + typ + "." + name)
}

func argOf(s *m.Schema, typ, f, name string) *m.Arg {
	fd := fieldOf(s, typ, f)
	for i := range fd.Args {
		if fd.Args[i].Name == name {
			return &fd.Args[i]
		}
	}
	panic("no arg")
}

func valueOf(s *m.Schema, typ, name string) *m.Value {
	for i := range s.Types {
		if s.Types[i].Name != typ {
			continue
		}
		for j := range s.Types[i].Values {
			if s.Types[i].Values[j].Name == name {
				return &s.Types[i].Values[j]
			}
		}
	}
	panic("no value")
}

func dirOf(s *m.Schema, name string) *m.DirDef {
	for i := range s.Dirs {
		if s.Dirs[i].Name == name {
			return &s.Dirs[i]
		}
	}
	panic("no directive")
}

func delField(s *m.Schema, typ, name string) {
	for i := range s.Types {
		t := &s.Types[i]
		if t.Name != typ {
			continue
		}
		for j := range t.Fields {
			if t.Fields[j].Name == name {
				t.Fields = append(t.Fields[:j], t.Fields[j+1:]...)
				return
			}
		}
	}
	panic("no field")
}

func delType(s *m.Schema, name string, ext bool) {
	var out []m.Type
	for _, t := range s.Types {
		if t.Name == name && t.Ext == ext {
			continue
		}
		out = append(out, t)
	}
	s.Types = out
}

func without(l []string, x string) []string {
	var out []string
	for _, s := range l {
		if s != x {
			out = append(out, s)
		}
	}
	return out
}

func edits() []Edit {
	var out []Edit
	add := func(name string, uses []string, do func(s *m.Schema)) { out = append(out, Edit{name, uses, do}) }
	u := func(s ...string) []string { return s }
	// roots
	add("subscription root added", u("root:sub"), func(s *m.Schema) { s.Roots[0].Ops = append(s.Roots[0].Ops, kv("subscription", "Mut")) })
	add("query root retargeted", u("root:query"), func(s *m.Schema) { s.Roots[0].Ops[0].V = "Post" })
	add("mutation root removed", u("root:mut"), func(s *m.Schema) { s.Roots = append(s.Roots[:1:1], s.Roots[2:]...) })
	// types
	add("type added", u("N1"), func(s *m.Schema) { s.Types = append(s.Types, body(m.Object, "N1", "")) })
	add("enum added", u("N2"), func(s *m.Schema) { s.Types = append([]m.Type{body(m.Enum, "N2", "")}, s.Types...) })
	add("input with required field added", u("N3"), func(s *m.Schema) {
		s.Types = append(s.Types, m.Type{Kind: m.Input, Name: "N3", Fields: []m.Field{fld("r", "Int!")}})
	})
	add("type removed", u("def:Post"), func(s *m.Schema) { delType(s, "Post", false) })
	add("scalar removed", u("def:ID2"), func(s *m.Schema) { delType(s, "ID2", false) })
	add("kind changed", u("def:Date"), func(s *m.Schema) { t := block(s, "Date", false, 0); t.Kind = m.Enum; t.Values = []m.Value{{Name: "D"}} })
	add("type description changed", u("def:Hit:desc"), func(s *m.Schema) { block(s, "Hit", false, 0).Desc = "changed" })
	add("type description removed", u("def:Filter:desc"), func(s *m.Schema) { block(s, "Filter", false, 0).Desc = "" })
	add("extension removed", u("ext:Remote"), func(s *m.Schema) { delType(s, "Remote", true) })
	add("extension of a new name added", u("N4"), func(s *m.Schema) {
		t := body(m.Object, "N4", "")
		t.Ext = true
		s.Types = append(s.Types, t)
	})
	add("input extended with required field", u("ext:Plain"), func(s *m.Schema) {
		s.Types = append(s.Types, m.Type{Kind: m.Input, Name: "Plain", Ext: true, Fields: []m.Field{fld("req", "Int!"), fld("opt", "Int")}})
	})
	add("enum extended", u("ext:Date2"), func(s *m.Schema) {
		t := body(m.Scalar, "ID3", "")
		t.Ext = true
		s.Types = append(s.Types, t)
	})
	// fields
	add("field added to definition", u("User.n1"), func(s *m.Schema) { t := block(s, "User", false, 0); t.Fields = append(t.Fields, fld("n1", "Int")) })
	add("field added to definition first", u("User.n2"), func(s *m.Schema) {
		t := block(s, "User", false, 0)
		t.Fields = append([]m.Field{fld("n2", "Int")}, t.Fields...)
	})
	add("field added to first extension", u("User.n3"), func(s *m.Schema) { t := block(s, "User", true, 0); t.Fields = append(t.Fields, fld("n3", "Int")) })
	add("field added to second extension", u("User.n4"), func(s *m.Schema) { t := block(s, "User", true, 1); t.Fields = append(t.Fields, fld("n4", "Int")) })
	add("field added in a third extension block", u("User.n5"), func(s *m.Schema) {
		s.Types = append(s.Types, m.Type{Kind: m.Object, Name: "User", Ext: true, Fields: []m.Field{fld("n5", "Int")}})
	})
	add("field removed from definition", u("User.old"), func(s *m.Schema) { delField(s, "User", "old") })
	add("field removed from extension", u("User.bio"), func(s *m.Schema) { delField(s, "User", "bio") })
	add("field type narrowed", u("User.name:type"), func(s *m.Schema) { fieldOf(s, "User", "name").Type = "String!" })
	add("field type changed in extension", u("User.posts:type"), func(s *m.Schema) { fieldOf(s, "User", "posts").Type = "[Post]" })
	add("field type changed", u("User.role:type"), func(s *m.Schema) { fieldOf(s, "User", "role").Type = "Role" })
	add("field description changed", u("User.name:desc"), func(s *m.Schema) { fieldOf(s, "User", "name").Desc = "x" })
	add("field description added", u("Query.user:desc"), func(s *m.Schema) { fieldOf(s, "Query", "user").Desc = "x" })
	add("interface field removed", u("Node.tags"), func(s *m.Schema) { delField(s, "Node", "tags") })
	add("interface field added", u("Node.n1"), func(s *m.Schema) { t := block(s, "Node", false, 0); t.Fields = append(t.Fields, fld("n1", "Int")) })
	add("interface field type changed", u("Named.name"), func(s *m.Schema) { fieldOf(s, "Named", "name").Type = "Int" })
	// arguments
	add("required argument added", u("Query.user.a1"), func(s *m.Schema) {
		f := fieldOf(s, "Query", "user")
		f.Args = append(f.Args, m.Arg{Name: "a1", Type: "Int!"})
	})
	add("optional argument added", u("Query.user.a2"), func(s *m.Schema) {
		f := fieldOf(s, "Query", "user")
		f.Args = append([]m.Arg{{Name: "a2", Type: "Int"}}, f.Args...)
	})
	add("argument with default added", u("Query.node.a3"), func(s *m.Schema) {
		f := fieldOf(s, "Query", "node")
		f.Args = append(f.Args, m.Arg{Name: "a3", Type: "Int!", Default: "1"})
	})
	add("argument removed", u("Query.search.filter"), func(s *m.Schema) { f := fieldOf(s, "Query", "search"); f.Args = f.Args[1:] })
	add("argument type changed", u("Query.user.id:type"), func(s *m.Schema) { argOf(s, "Query", "user", "id").Type = "ID" })
	add("argument type narrowed", u("Query.user.limit:type"), func(s *m.Schema) { argOf(s, "Query", "user", "limit").Type = "Float" })
	add("argument default changed", u("User.posts.first:def"), func(s *m.Schema) { argOf(s, "User", "posts", "first").Default = "6" })
	add("argument default dropped", u("Query.search.q:def"), func(s *m.Schema) {
		f := fieldOf(s, "Query", "search")
		f.Args[len(f.Args)-1].Default = ""
	})
	add("argument description changed", u("Query.user.limit:desc"), func(s *m.Schema) { argOf(s, "Query", "user", "limit").Desc = "" })
	add("argument default added", u("Mut.set.in"), func(s *m.Schema) { argOf(s, "Mut", "set", "in").Default = "{q:1}" })
	// inputs
	add("input field removed", u("Filter.gone"), func(s *m.Schema) { delField(s, "Filter", "gone") })
	add("required input field added", u("Filter.i1"), func(s *m.Schema) { t := block(s, "Filter", false, 0); t.Fields = append(t.Fields, fld("i1", "Int!")) })
	add("optional input field added", u("Filter.i2"), func(s *m.Schema) {
		t := block(s, "Filter", false, 0)
		t.Fields = append([]m.Field{fld("i2", "Int")}, t.Fields...)
	})
	add("input field default dropped", u("Filter.n:def"), func(s *m.Schema) { fieldOf(s, "Filter", "n").Default = "" })
	add("input field type changed", u("Filter.roles:type"), func(s *m.Schema) { fieldOf(s, "Filter", "roles").Type = "[Role]" })
	add("input field description changed", u("Filter.q:desc"), func(s *m.Schema) { fieldOf(s, "Filter", "q").Desc = "y" })
	add("input extension field default changed", u("Filter.more:def"), func(s *m.Schema) { fieldOf(s, "Filter", "more").Default = "7" })
	add("input field added to extension", u("Filter.i3"), func(s *m.Schema) { t := block(s, "Filter", true, 0); t.Fields = append(t.Fields, fld("i3", "Int!")) })
	// enums
	add("enum value added", u("Role.E1"), func(s *m.Schema) { t := block(s, "Role", false, 0); t.Values = append(t.Values, m.Value{Name: "E1"}) })
	add("enum value added to extension", u("Role.E2"), func(s *m.Schema) {
		t := block(s, "Role", true, 0)
		t.Values = append([]m.Value{{Name: "E2"}}, t.Values...)
	})
	add("enum value removed", u("Role.USER"), func(s *m.Schema) {
		t := block(s, "Role", false, 0)
		var vs []m.Value
		for _, v := range t.Values {
			if v.Name != "USER" {
				vs = append(vs, v)
			}
		}
		t.Values = vs
	})
	add("enum value description changed", u("Role.ADMIN:desc"), func(s *m.Schema) { valueOf(s, "Role", "ADMIN").Desc = "x" })
	add("enum value deprecated", u("Role.ADMIN:dep"), func(s *m.Schema) { valueOf(s, "Role", "ADMIN").Dirs = []m.Applied{ap("deprecated")} })
	add("enum value undeprecated", u("Role.OLD:dep"), func(s *m.Schema) { valueOf(s, "Role", "OLD").Dirs = nil })
	add("extension enum value deprecated", u("Role.GUEST:dep"), func(s *m.Schema) { valueOf(s, "Role", "GUEST").Dirs = []m.Applied{ap("deprecated")} })
	// unions and interfaces
	add("union member added", u("Hit+M"), func(s *m.Schema) { t := block(s, "Hit", false, 0); t.Members = append(t.Members, "M") })
	add("union member removed", u("Hit-Post"), func(s *m.Schema) { t := block(s, "Hit", false, 0); t.Members = without(t.Members, "Post") })
	add("union member added to extension", u("Hit+N"), func(s *m.Schema) { t := block(s, "Hit", true, 0); t.Members = append([]string{"N"}, t.Members...) })
	add("interface added", u("User+I"), func(s *m.Schema) { t := block(s, "User", false, 0); t.Ifaces = append(t.Ifaces, "I") })
	add("interface removed", u("User-Named"), func(s *m.Schema) { t := block(s, "User", false, 0); t.Ifaces = without(t.Ifaces, "Named") })
	add("interface removed from extension", u("User-Ent"), func(s *m.Schema) { block(s, "User", true, 1).Ifaces = nil })
	add("interface added to another type", u("Mut+Named"), func(s *m.Schema) { block(s, "Mut", false, 0).Ifaces = []string{"Named"} })
	// applied directives
	add("directive dropped from type", u("User@own"), func(s *m.Schema) {
		t := block(s, "User", false, 0)
		var ds []m.Applied
		for _, d := range t.Dirs {
			if d.Name != "own" {
				ds = append(ds, d)
			}
		}
		t.Dirs = ds
	})
	add("repeated directive changed", u("User@key"), func(s *m.Schema) {
		t := block(s, "User", false, 0)
		for i := range t.Dirs {
			if t.Dirs[i].Name == "key" && t.Dirs[i].Args[0].V == `"name"` {
				t.Dirs[i] = ap("key", "fields", `"zip"`)
			}
		}
	})
	add("directive added to type", u("Mut@own"), func(s *m.Schema) { block(s, "Mut", false, 0).Dirs = []m.Applied{ap("own")} })
	add("directive argument value changed", u("User.id@tag"), func(s *m.Schema) { fieldOf(s, "User", "id").Dirs[0] = ap("tag", "name", `"b"`) })
	add("repeated field directive changed", u("User.role@tag"), func(s *m.Schema) { fieldOf(s, "User", "role").Dirs[1] = ap("tag", "name", `"t"`) })
	add("directive added to input field", u("Filter.q@tag"), func(s *m.Schema) { fieldOf(s, "Filter", "q").Dirs = []m.Applied{ap("tag", "name", `"z"`)} })
	add("directive argument added on input field", u("Filter.roles@tag"), func(s *m.Schema) {
		fieldOf(s, "Filter", "roles").Dirs = []m.Applied{ap("tag", "name", `"f"`, "w", "2")}
	})
	add("directive dropped from interface", u("Node@key"), func(s *m.Schema) { block(s, "Node", false, 0).Dirs = nil })
	add("directive changed in lone extension field", u("ext:Remote"), func(s *m.Schema) { fieldOf(s, "Remote", "id").Dirs = nil })
	add("field deprecated", u("Query.node:dep"), func(s *m.Schema) { fieldOf(s, "Query", "node").Dirs = []m.Applied{ap("deprecated")} })
	add("field undeprecated", u("User.old"), func(s *m.Schema) { fieldOf(s, "User", "old").Dirs = nil })
	add("deprecation reason changed", u("User.old"), func(s *m.Schema) { fieldOf(s, "User", "old").Dirs = []m.Applied{ap("deprecated", "reason", `"new"`)} })
	add("input field deprecation lifted", u("Filter.gone"), func(s *m.Schema) { fieldOf(s, "Filter", "gone").Dirs = nil })
	// directive definitions
	add("directive definition removed", u("@own"), func(s *m.Schema) {
		var ds []m.DirDef
		for _, d := range s.Dirs {
			if d.Name != "own" {
				ds = append(ds, d)
			}
		}
		s.Dirs = ds
	})
	add("directive definition added", u("@n"), func(s *m.Schema) { s.Dirs = append(s.Dirs, m.DirDef{Name: "n", Locs: []string{"FIELD"}}) })
	add("directive location removed", u("@skipIf-QUERY"), func(s *m.Schema) { d := dirOf(s, "skipIf"); d.Locs = without(d.Locs, "QUERY") })
	add("directive location added", u("@skipIf+FS"), func(s *m.Schema) { d := dirOf(s, "skipIf"); d.Locs = append(d.Locs, "FRAGMENT_SPREAD") })
	add("repeatable removed", u("@key:rep"), func(s *m.Schema) { dirOf(s, "key").Repeatable = false })
	add("repeatable added", u("@skipIf:rep"), func(s *m.Schema) { dirOf(s, "skipIf").Repeatable = true })
	add("directive description changed", u("@tag:desc"), func(s *m.Schema) { dirOf(s, "tag").Desc = "" })
	add("directive argument removed", u("@skipIf.v"), func(s *m.Schema) { dirOf(s, "skipIf").Args = nil })
	add("required directive argument added", u("@tag.r"), func(s *m.Schema) { d := dirOf(s, "tag"); d.Args = append(d.Args, m.Arg{Name: "r", Type: "Int!"}) })
	add("directive argument type changed", u("@key.fields:type"), func(s *m.Schema) { dirOf(s, "key").Args[0].Type = "String" })
	add("directive argument default changed", u("@tag.w:def"), func(s *m.Schema) { findDirArg(s, "tag", "w").Default = "2" })
	add("directive argument description changed", u("@tag.w:desc"), func(s *m.Schema) { findDirArg(s, "tag", "w").Desc = "" })
	return out
}

func findDirArg(s *m.Schema, d, a string) *m.Arg {
	dd := dirOf(s, d)
	for i := range dd.Args {
		if dd.Args[i].Name == a {
			return &dd.Args[i]
		}
	}
	panic("no directive argument")
}

// conflicts tells whether two edits touch the same element or one contains the other.
func conflicts(a, b Edit) bool {
	for _, x := range a.Uses {
		for _, y := range b.Uses {
			if x == y || contains(x, y) || contains(y, x) {
				return true
			}
		}
	}
	return false
}

// contains: "def:Post" contains everything of Post; "User.old" contains "User.old:type"
func contains(big, small string) bool {
	if len(big) > 4 && big[:4] == "def:" {
		n := big[4:]
		return len(small) > len(n) && small[:len(n)] == n && (small[len(n)] == '.' || small[len(n)] == '+' || small[len(n)] == '-' || small[len(n)] == '@')
	}
	return len(small) > len(big) && small[:len(big)] == big && (small[len(big)] == ':' || small[len(big)] == '.')
}

func applyEdits(base *m.Schema, es ...Edit) *m.Schema {
	s := base.Clone()
	for _, ed := range es {
		ed.Do(s)
	}
	return s
}
