package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	e "verifmc/engine"
	m "verifmc/model"
)

// everyName: all the names which something could treat in a special way
var everyName = uniq(append(append([]string{}, specialNames...), relatedNames...))

// descTexts: contents of descriptions (without quotation marks, backslashes and line ends at their ends); every one of them counts.
func descTexts(own ...string) []string {
	out := append(append([]string{}, own...), everyName...)
	for c := '!'; c <= '~'; c++ {
		if c == '"' || c == '\\' {
			continue
		}
		out = append(out, string(c), string(c)+string(c), string(c)+string(c)+string(c), string(c)+" x", "x "+string(c))
	}
	for _, x := range strings.Fields("TODO FIXME TBD XXX HACK WIP N/A n/a ... … ??? --- *** ___ === 0 1 -1 {} [] <> () <!-- --> // /* */ %s %d %v {{.}} ${x} $x \\n") {
		if !strings.Contains(x, "\\") {
			out = append(out, x, x+": x", "x "+x, x+" x", strings.ToLower(x))
		}
	}
	out = append(out, "no description", "No description.", "description", "description missing", "missing", "missing description", "needs a description", "undocumented", "deprecated", "Deprecated: x", "@deprecated", "internal", "@internal", "lorem ipsum", "a b c",
		"type", "field", "argument", "enum value", "The type", "this is a test", "é", "世界", "😀", "\u00a0", "\u200b", "\ufeff", "\u2003x", "x\u2028y", "#", "# x", "#lint-disable type-desc", "# lint", "https://example.com/x", "a, b", ",", ", ,", "type A { a: Int }", "true", "false", "null")
	for n := 1; n <= 300; n++ {
		out = append(out, strings.Repeat("abcdefg ", 40)[:n-1]+"x")
	}
	for _, n := range []int{500, 1000, 4096, 65536} {
		out = append(out, strings.Repeat("abcdefg ", n/8)+"x")
	}
	return uniq(out)
}

// lintDescTexts: whatever a description says, its element is described.
func lintDescTexts(r *e.Run, rules []string) {
	type slot struct {
		name  string
		build func(d LDesc) *LSchema
		own   []string // the element's own names
	}
	var slots []slot
	for _, k := range m.AllKinds {
		slots = append(slots, slot{"description of " + k, func(d LDesc) *LSchema {
			return &LSchema{[]LType{{Kind: "scalar", Name: "First"}, {Kind: k, Name: "TheName", Desc: d}, {Kind: "scalar", Name: "Last", Desc: aDesc}}}
		}, []string{"TheName", "thename", "TheName.", "The Name", "the name", "theName", "THENAME", k, k + " TheName", "TheName " + k}})
	}
	own := []string{"TheName", "theField", "theArg", "TheName.theField", "TheName.theField.theArg", "theField.theArg", "the field", "The field", "the arg", "TheType", "Int", "theField TheType", "theField: TheType", "THE_VALUE", "the value", "THE VALUE", "TheName.THE_VALUE", "thefield", "thearg", "The Field", "theField.", "THEFIELD"}
	for _, k := range []string{m.Object, m.Interface, m.Input} {
		for _, ext := range []bool{false, true} {
			slots = append(slots, slot{fmt.Sprintf("description of a field of %s, extension %v", k, ext), func(d LDesc) *LSchema {
				return &LSchema{[]LType{{Kind: k, Name: "TheName", Ext: ext, Fields: []LField{{Name: "other", Type: "Int"}, {Name: "theField", Type: "TheType", Desc: d}, {Name: "last", Type: "Int", Desc: aDesc}}}}}
			}, own})
			if k != m.Input {
				slots = append(slots, slot{fmt.Sprintf("description of an argument in %s, extension %v", k, ext), func(d LDesc) *LSchema {
					return &LSchema{[]LType{{Kind: k, Name: "TheName", Ext: ext, Fields: []LField{{Name: "theField", Type: "TheType", Desc: aDesc, Args: []LArg{{Name: "other", Type: "Int"}, {Name: "theArg", Type: "Int", Desc: d}, {Name: "last", Type: "Int", Desc: aDesc}}}}}}}
				}, own})
			}
		}
	}
	for _, ext := range []bool{false, true} {
		slots = append(slots, slot{fmt.Sprintf("description of an enum value, extension %v", ext), func(d LDesc) *LSchema {
			return &LSchema{[]LType{{Kind: "enum", Name: "TheName", Ext: ext, Vals: []LVal{{Name: "OTHER"}, {Name: "THE_VALUE", Desc: d}, {Name: "LAST", Desc: aDesc}}}}}
		}, own})
	}
	forms := []func(t string) string{
		func(t string) string { return `"` + t + `"` },
		func(t string) string { return `"""` + t + `"""` },
		func(t string) string { return "\"\"\"\n  " + t + "\n\"\"\"" },
	}
	if r.Thorough() {
		forms = append(forms, func(t string) string { return `" ` + t + ` "` }, func(t string) string { return "\"\"\"" + t + "\nand more\n\"\"\"" }, func(t string) string { return "\"\"\"\r\n\r\n\t" + t + "\r\n\r\n\"\"\"" })
	}
	nf := int64(len(forms))
	for _, s := range slots {
		texts := descTexts(s.own...)
		lintSpace(r, s.name+": every text", int64(len(texts))*nf, rules, false, func(i int64) *LDoc {
			return pretty(s.build(LDesc{forms[i%nf](texts[i/nf]), true}))
		})
	}
	// the elements have every name, described or not
	names := everyName
	var texts = []LDesc{noDesc, aDesc, {`""`, false}}
	for _, s := range nameSchemas() {
		n := int64(len(names) * len(texts))
		lintSpace(r, s.name+": every name, described or not", n, rules, false, func(i int64) *LDoc {
			return pretty(s.build(names[i%int64(len(names))], texts[i/int64(len(names))]))
		})
		lintSpace(r, s.name+": every name, which is the description too", int64(len(names))*2, rules, false, func(i int64) *LDoc {
			n := names[i/2]
			return pretty(s.build(n, LDesc{[]string{`"` + n + `"`, `"""` + n + `"""`}[i%2], true}))
		})
	}
}

type nameSchema struct {
	name  string
	build func(n string, d LDesc) *LSchema
}

// nameSchemas: schemas with an element of every class with the name and the description.
func nameSchemas() []nameSchema {
	var out []nameSchema
	for _, k := range m.AllKinds {
		out = append(out, nameSchema{"type of kind " + k, func(n string, d LDesc) *LSchema {
			return &LSchema{[]LType{{Kind: k, Name: n, Desc: d}, {Kind: "scalar", Name: "Last"}}}
		}})
	}
	for _, k := range []string{m.Object, m.Interface, m.Input} {
		for _, ext := range []bool{false, true} {
			out = append(out, nameSchema{fmt.Sprintf("field of %s, extension %v", k, ext), func(n string, d LDesc) *LSchema {
				return &LSchema{[]LType{{Kind: k, Name: "T", Ext: ext, Fields: []LField{{Name: n, Type: "Int", Desc: d}, {Name: "last", Type: "Int"}}}}}
			}}, nameSchema{fmt.Sprintf("type of a field of %s, extension %v", k, ext), func(n string, d LDesc) *LSchema {
				return &LSchema{[]LType{{Kind: k, Name: "T", Ext: ext, Fields: []LField{{Name: "fld", Type: n, Desc: d}, {Name: "last", Type: "[" + n + "!]"}}}}}
			}}, nameSchema{fmt.Sprintf("%s with a field, extension %v", k, ext), func(n string, d LDesc) *LSchema {
				return &LSchema{[]LType{{Kind: k, Name: n, Ext: ext, Fields: []LField{{Name: "fld", Type: "Int", Desc: d}}}}}
			}})
			if k != m.Input {
				out = append(out, nameSchema{fmt.Sprintf("argument in %s, extension %v", k, ext), func(n string, d LDesc) *LSchema {
					return &LSchema{[]LType{{Kind: k, Name: "T", Ext: ext, Fields: []LField{{Name: "fld", Type: "Int", Args: []LArg{{Name: n, Type: "Int", Desc: d}, {Name: "last", Type: "Int"}}}}}}}
				}}, nameSchema{fmt.Sprintf("field with an argument in %s, extension %v", k, ext), func(n string, d LDesc) *LSchema {
					return &LSchema{[]LType{{Kind: k, Name: "T", Ext: ext, Fields: []LField{{Name: n, Type: n, Args: []LArg{{Name: "arg", Type: n, Desc: d}}}}}}}
				}})
			}
		}
	}
	for _, ext := range []bool{false, true} {
		out = append(out, nameSchema{fmt.Sprintf("enum value, extension %v", ext), func(n string, d LDesc) *LSchema {
			return &LSchema{[]LType{{Kind: "enum", Name: "T", Ext: ext, Vals: []LVal{{Name: n, Desc: d}, {Name: "LAST"}}}}}
		}}, nameSchema{fmt.Sprintf("enum with a value, extension %v", ext), func(n string, d LDesc) *LSchema {
			return &LSchema{[]LType{{Kind: "enum", Name: n, Ext: ext, Vals: []LVal{{Name: "VAL", Desc: d}}}}}
		}})
	}
	return out
}

// lintNamePairs: two elements next to each other have every pair of names.
func lintNamePairs(r *e.Run, rules []string) {
	names := append([]string{}, everyName...)
	nn := int64(len(names))
	type pair struct {
		name  string
		build func(a, b string) *LSchema
	}
	ps := []pair{
		{"types", func(a, b string) *LSchema {
			return &LSchema{[]LType{{Kind: "type", Name: a, Fields: []LField{{Name: "x", Type: b}}}, {Kind: "scalar", Name: b}}}
		}},
		{"fields", func(a, b string) *LSchema {
			return &LSchema{[]LType{{Kind: "interface", Name: "T", Fields: []LField{{Name: a, Type: "Int"}, {Name: b, Type: "Int"}}}}}
		}},
		{"enum values", func(a, b string) *LSchema {
			return &LSchema{[]LType{{Kind: "enum", Name: "T", Vals: []LVal{{Name: a}, {Name: b}}}}}
		}},
		{"a type and its field", func(a, b string) *LSchema {
			return &LSchema{[]LType{{Kind: "input", Name: a, Fields: []LField{{Name: b, Type: "Int"}}}}}
		}},
		{"an enum and its value", func(a, b string) *LSchema {
			return &LSchema{[]LType{{Kind: "enum", Name: a, Vals: []LVal{{Name: b}}}}}
		}},
		{"a field and its type", func(a, b string) *LSchema {
			return &LSchema{[]LType{{Kind: "type", Name: "T", Fields: []LField{{Name: a, Type: b}}}}}
		}},
	}
	for _, p := range ps {
		lintSpace(r, p.name+" with every pair of names", nn*nn, rules, false, func(i int64) *LDoc {
			a, b := names[i%nn], names[i/nn]
			s := p.build(a, b)
			if !s.unambiguous() {
				return nil
			}
			return pretty(s)
		})
	}
}

// lintRelayNames: connection types and fields next to elements of every name.
func lintRelayNames(r *e.Run, rules []string, args bool) {
	names := everyName
	nn := int64(len(names))
	if !args {
		sub := [][]LField{nil, {{Name: "edges", Type: "[E]"}}, {{Name: "pageInfo", Type: "PageInfo!"}}, {{Name: "edges", Type: "[E]"}, {Name: "pageInfo", Type: "PageInfo!"}}, {{Name: "edges", Type: "E"}, {Name: "pageInfo", Type: "PageInfo"}}}
		types := []string{"Int", "[E]", "PageInfo!", "[E!]!", "PageInfo"}
		kinds := []string{m.Object, m.Interface, m.Input}
		lintSpace(r, "fields of every name next to edges and pageInfo", nn*int64(len(sub)*len(types)*len(kinds))*2, rules, true, func(i int64) *LDoc {
			p := func(n int) int64 { x := i % int64(n); i /= int64(n); return x }
			x := LField{Name: names[p(len(names))], Type: types[p(len(types))]}
			fs, kind := append([]LField{}, sub[p(len(sub))]...), kinds[p(len(kinds))]
			for _, f := range fs {
				if f.Name == x.Name {
					return nil
				}
			}
			if i == 0 {
				fs = append(fs, x)
			} else {
				fs = append([]LField{x}, fs...)
			}
			return pretty(&LSchema{[]LType{{Kind: kind, Name: "ThingConnection", Fields: fs}}})
		})
		lintSpace(r, "types whose names begin or end with or contain every name", nn*6*int64(len(m.AllKinds))*int64(len(sub)), rules, true, func(i int64) *LDoc {
			p := func(n int) int64 { x := i % int64(n); i /= int64(n); return x }
			n := names[p(len(names))]
			n = []string{n, n + "Connection", "Connection" + n, n + "_Connection", "A" + n + "Connection", "AConnection" + n}[p(6)]
			t := LType{Kind: m.AllKinds[p(len(m.AllKinds))], Name: n}
			fs := sub[i]
			switch t.Kind {
			case m.Object, m.Interface, m.Input:
				t.Fields = fs
			default:
				if len(fs) > 0 {
					return nil
				}
			}
			return pretty(&LSchema{[]LType{t, {Kind: "scalar", Name: "Last"}}})
		})
		lintSpace(r, "edges and pageInfo of every type", nn*6*nn/nn*8, rules, true, func(i int64) *LDoc {
			n := names[i%nn]
			i /= nn
			ref := []string{n, n + "!", "[" + n + "]", "[" + n + "!]!", "[[" + n + "]]", n + "PageInfo!"}[i%6]
			i /= 6
			ed, pi := "[E]", "PageInfo!"
			if i&1 == 1 {
				ed = ref
			} else {
				pi = ref
			}
			fs := []LField{{Name: "edges", Type: ed}, {Name: "pageInfo", Type: pi}}
			if i&2 == 2 {
				fs[0], fs[1] = fs[1], fs[0]
			}
			if i&4 == 4 {
				fs = append(fs, LField{Name: "nodes", Type: ref})
			}
			return pretty(&LSchema{[]LType{{Kind: "type", Name: "ThingConnection", Fields: fs}}})
		})
		return
	}
	all := []LArg{{Name: "first", Type: "Int"}, {Name: "after", Type: "String"}, {Name: "last", Type: "Int!"}, {Name: "before", Type: "String"}}
	typ := []string{"Int", "String!", "[Int!]"}
	lintSpace(r, "arguments of every name next to the four", nn*16*int64(len(typ))*3, rules, true, func(i int64) *LDoc {
		p := func(n int) int64 { x := i % int64(n); i /= int64(n); return x }
		x := LArg{Name: names[p(len(names))], Type: typ[p(len(typ))]}
		mask := p(16)
		var as []LArg
		for k, a := range all {
			if mask>>k&1 == 1 {
				if a.Name == x.Name {
					return nil
				}
				as = append(as, a)
			}
		}
		at := []int{0, len(as), len(as) / 2}[i]
		as = append(as[:at:at], append([]LArg{x}, as[at:]...)...)
		return pretty(&LSchema{[]LType{{Kind: "type", Name: "Q", Fields: []LField{{Name: "things", Type: "ThingConnection", Args: as}}}}})
	})
	lintSpace(r, "fields and parents of every name", nn*16*2, rules, true, func(i int64) *LDoc {
		n := names[i%nn]
		var as []LArg
		for k, a := range all {
			if i/nn>>k&1 == 1 {
				as = append(as, a)
			}
		}
		if i/nn/16 == 0 {
			return pretty(&LSchema{[]LType{{Kind: "type", Name: "Q", Fields: []LField{{Name: n, Type: "ThingConnection", Args: as}, {Name: "last1", Type: "Connection"}}}}})
		}
		return pretty(&LSchema{[]LType{{Kind: "interface", Name: n, Fields: []LField{{Name: "things", Type: "[ThingConnection!]", Args: as}, {Name: "last1", Type: "Connection"}}}}})
	})
	lintSpace(r, "field types of every name", nn*6*5*4, rules, true, func(i int64) *LDoc {
		n := names[i%nn]
		i /= nn
		n = []string{n, n + "Connection", "Connection" + n, n + "_Connection", "A" + n + "Connection", "AConnection" + n}[i%6]
		i /= 6
		n = []string{n, n + "!", "[" + n + "]", "[" + n + "!]!", "[[" + n + "]!]"}[i%5]
		i /= 5
		f := LField{Name: "things", Type: n, Args: [][]LArg{nil, all[:2], {all[0]}, {{Name: "first", Type: "Int"}, {Name: "after", Type: n}, {Name: "last", Type: "String"}}}[i]}
		return pretty(&LSchema{[]LType{{Kind: "type", Name: "Q", Fields: []LField{f}}}})
	})
	lintSpace(r, "argument types of every name", nn*5*2*4, rules, true, func(i int64) *LDoc {
		n := names[i%nn]
		i /= nn
		n = []string{n, n + "!", "[" + n + "]", "[" + n + "!]!", "[[" + n + "]!]"}[i%5]
		i /= 5
		as := append([]LArg{}, all...)
		as[2*(i%2)].Type = n
		switch i / 2 {
		case 1:
			as = as[2*(i%2) : 2*(i%2)+2]
		case 2:
			as = append(as[2:4:4], as[:2]...)
		case 3:
			as[1].Type, as[3].Type = n, n
		}
		return pretty(&LSchema{[]LType{{Kind: "type", Name: "Q", Fields: []LField{{Name: "things", Type: "ThingConnection", Args: as}}}}})
	})
}

// commentSizes: control comments of all lengths.
func commentSizes(r *e.Run, rules []string) {
	var sizes []int
	for k := 0; k <= e.Pick(r, 600, 2100); k++ {
		sizes = append(sizes, k)
	}
	sizes = append(sizes, 1000, 1023, 1024, 1025, 2048, 4094, 4095, 4096, 4097, 10000, 65535, 65536, 65537)
	shapes := []func(n int) string{
		func(n int) string { return "#" + strings.Repeat(" ", n) + "lint-disable type-desc" },
		func(n int) string { return "#lint-disable" + strings.Repeat(" ", n+1) + "type-desc" },
		func(n int) string { return "#lint-disable type-desc" + strings.Repeat(" ", n) },
		func(n int) string { return "#lint-disable type-desc" + strings.Repeat(",", n) },
		func(n int) string { return "#lint-disable " + strings.Repeat(",", n) + "type-desc" },
		func(n int) string { return "#lint-disable " + strings.Repeat("x", n) + ",type-desc" },
		func(n int) string { return "#lint-disable type-desc," + strings.Repeat("x", n) },
		func(n int) string { return "#lint-disable " + strings.Repeat("field-desc,", n) + "type-desc" },
		func(n int) string { return "#lint-disable " + strings.Repeat("field-desc , ", n) + "type-desc" },
		func(n int) string { return "#lint-disable type-desc" + strings.Repeat(", type-desc", n) },
		func(n int) string { return "#lint-disable type-desc" + strings.Repeat(", field-desc", n) },
		func(n int) string { return "#" + strings.Repeat("x", n) },
		func(n int) string { return "#lint-disable " + strings.Repeat("type-desc ", n) },
		func(n int) string { return "#lint-disable" + strings.Repeat("\t", n) + " type-desc\t" },
		func(n int) string { return "#lint-" + strings.Repeat("disable", n) + " type-desc" },
	}
	ns, nk := int64(len(sizes)), int64(len(shapes))
	textSpace(r, "control comments of every length", ns*nk*3, rules, func(i int64) string {
		c := shapes[i/ns%nk](sizes[i%ns])
		switch i / ns / nk {
		case 0:
			return "type A { a: Int }\n" + c + "\ntype B { a: Int }\n"
		case 1:
			return "type A { a: Int }\ntype B { a: Int } " + strings.Replace(c, "lint-disable", "lint-disable-line", 1) + "\ntype C { a: Int }"
		}
		return "#lint-disable type-desc,field-desc\ntype A { a: Int }\n" + strings.Replace(c, "lint-disable", "lint-enable", 1) + "\ntype B { a: Int }\n"
	})
	// positions: comments at every distance, lines of every length before them
	textSpace(r, "control comments at every distance", ns*4, rules, func(i int64) string {
		n := sizes[i%ns]
		switch i / ns {
		case 0:
			return "#lint-disable type-desc" + strings.Repeat("\n", n+1) + "type A { a: Int }\n#lint-enable type-desc" + strings.Repeat("\n", n+1) + "type B { a: Int }\n"
		case 1:
			return "type A { a: Int }" + strings.Repeat(" ", n) + "#lint-disable-line type-desc\ntype B { a: Int }" + strings.Repeat(" ", n) + "# lint-disable-line field-desc"
		case 2:
			return strings.Repeat("#x\n", n) + "type A { a: Int }\n#lint-disable type-desc\ntype B { a: Int }"
		}
		return strings.Repeat("\n", n) + strings.Repeat(" ", n) + "type A { a: Int } #lint-disable-line field-desc\ntype B { a: Int }" + strings.Repeat("#\n", n)
	})
	// names of every sort in the documents
	nn := int64(len(everyName))
	textSpace(r, "control comments in documents with every name", nn*4, rules, func(i int64) string {
		n := everyName[i%nn]
		return fmt.Sprintf([]string{"#lint-disable type-desc\ntype %[1]s { %[1]s: %[1]s }\n#lint-enable type-desc\ninput %[1]s { %[1]s: Int }\n", "type %[1]s { %[1]s: %[1]s } #lint-disable-line field-desc, type-desc\ntype %[1]s { %[1]s: %[1]s } #lint-disable-line type-desc",
			"#lint-disable %[1]s\ntype A { %[1]s: Int }\n", "#lint-disable type-desc,%[1]s, field-desc\ntype A { %[1]s: Int }\n#lint-enable type-desc %[1]s\ntype B { %[1]s: Int }\n"}[i/nn], n)
	})
}

// fileNames: names of files and directories which something could treat in a special way.
func fileNames() []string {
	out := strings.Fields(`s s.graphql S.GRAPHQL s.GraphQL s.gql s.graphqls s.sdl s.txt s.json s.md s.go s.yaml s.bak s.orig s.swp s.tmp s~ s.graphql~ s~.graphql ~s.graphql #s# #s.graphql# #s.graphql s#.graphql s.graphql.bak s.graphql.orig s.bak.graphql s.orig.graphql
 .s.graphql .graphql ..graphql ...graphql s..graphql s. s.. .s.graphql.swp .DS_Store .gitignore .gitkeep .keep .env .hidden Thumbs.db desktop.ini schema.graphql Schema.graphql schema.gql index.graphql base.graphql base.gql supergraph.graphql subgraph.graphql
 _s.graphql __s.graphql s_test.graphql test.graphql s.test.graphql s.spec.graphql s_spec.graphql test_s.graphql example.graphql sample.graphql generated.graphql s.generated.graphql s.gen.graphql gen.graphql zz_generated.graphql introspection.graphql
 schema.json query.graphql queries.graphql s.query.graphql mutation.graphql fragment.graphql operations.graphql directives.graphql federation.graphql old.graphql new.graphql s.old.graphql s.new.graphql s_old.graphql s_new.graphql backup.graphql copy.graphql
 README README.md LICENSE Makefile go.mod package.json 1.graphql 01.graphql 2024-01-01.graphql -.graphql -s.graphql --s.graphql -f -r -h --help - con nul NUL aux COM1 null undefined true stdin stdout /dev/ x=y.graphql s:1.graphql s:1:2.graphql C:x.graphql
 s%20.graphql s%s.graphql %.graphql $HOME.graphql ${x}.graphql {a,b}.graphql !s.graphql @s.graphql s+.graphql (s).graphql 'a'.graphql &.graphql s;.graphql a|b.graphql <a>.graphql s,t.graphql ,.graphql s^.graphql =.graphql s\ .graphql`)
	var l []string
	for _, n := range out {
		if !strings.Contains(n, "/") && !strings.Contains(n, "\\") {
			l = append(l, n)
		}
	}
	for c := rune(1); c <= 0x7f; c++ {
		if c == '/' {
			continue
		}
		s := string(c)
		l = append(l, s+"x.graphql", "x"+s+".graphql", "x"+s+"y.graphql", "x.graphql"+s, "x."+s+"graphql", s+s+"x")
		if c != '.' {
			l = append(l, s)
		}
	}
	l = append(l, "a b.graphql", " a.graphql", "a .graphql", "é.graphql", "e\u0301.graphql", "世界.graphql", "😀.graphql", "\u00a0.graphql", "\u200bx.graphql", "\xff.graphql", "x\xc3.graphql", "a\nb.graphql", "a\rb.graphql", "İ.graphql", "ß.graphql", "ſ.graphql")
	for _, n := range everyName {
		if len(n) < 240 {
			l = append(l, n, n+".graphql")
		}
	}
	for k := 1; k <= 255; k++ {
		l = append(l, strings.Repeat("0123456789", 26)[:k])
	}
	return uniq(l)
}

// dirNames: names of directories which something could leave out.
var dirNames = strings.Fields("d .d .git .hg .svn .github .vscode .idea node_modules vendor test tests testdata __tests__ tmp temp generated gen build dist out target bin old new backup internal private _d d~ d.graphql d.bak d# -d schema graphql x..y ... d,e src lib pkg deprecated examples fixtures mocks")

// literalPattern matches exactly one name.
func literalPattern(n string) string {
	var sb strings.Builder
	for i := 0; i < len(n); i++ {
		if strings.IndexByte(`*?[\`, n[i]) >= 0 {
			sb.WriteByte('\\')
		}
		sb.WriteByte(n[i])
	}
	return sb.String()
}

// c16Names: files with every name, in directories with every name, are read.
func c16Names(r *e.Run) {
	files := fileNames()
	nf := int64(len(files))
	type where struct{ dir, other string }
	var ws []where
	for _, d := range append([]string{""}, dirNames...) {
		ws = append(ws, where{d, ""})
	}
	ws = append(ws, where{"", "a"}, where{"", "zz"}, where{"d/d", ""})
	nd := int64(len(ws))
	r.Par(nf*nd, func(w *e.W, i int64) {
		name, wh := files[i%nf], ws[i/nf]
		if name == wh.other || wh.dir != "" && i/nf > 2 && !r.Thorough() && i%7 != i/nf%7 {
			return
		}
		root := workDir(w, "names")
		emptyDir(root)
		dir := filepath.Join(root, wh.dir)
		if err := os.MkdirAll(dir, 0o755); err != nil {
			panic(err)
		}
		want := map[string]string{}
		put := func(n, text string) {
			if err := os.WriteFile(dir+"/"+n, []byte(text), 0o644); err != nil {
				panic(err)
			}
			want[dir+"/"+n] = text
		}
		put(name, "scalar A # "+name)
		if wh.other != "" {
			put(wh.other, "scalar B")
		}
		pats := []string{dir + "/*", dir + "/" + strings.Repeat("?", len([]rune(name)))}
		if wh.other == "" {
			pats = append(pats, dir+"/"+literalPattern(name))
			if !strings.ContainsAny(name, `*?[\`) {
				pats = append(pats, dir+"/"+name)
			}
			if wh.dir != "" && !strings.Contains(wh.dir, "/") {
				pats = append(pats, root+"/*/*")
			}
			if k := strings.LastIndex(name, ".graphql"); k >= 0 && k == len(name)-8 {
				pats = append(pats, dir+"/*.graphql", dir+"/*.gr[a-b]phq?")
			}
		}
		for pi, p := range pats {
			if pi == 1 && (len([]rune(name)) == len([]rune(wh.other)) || wh.other != "") {
				continue
			}
			w.Case(func() string { return fmt.Sprintf("pattern %q, file %q in directory %q", p, name, wh.dir) })
			got, err, msg := contentMap(r, w, p)
			why := msg
			if why == "" && err != nil {
				why = "error: " + err.Error()
			}
			if why == "" && len(got) != len(want) {
				why = fmt.Sprintf("%d files read instead of %d", len(got), len(want))
			}
			if why == "" {
				for k, v := range want {
					if string(got[k]) != v {
						why = fmt.Sprintf("the content of %q is %q", k, got[k])
					}
				}
			}
			if why != "" {
				r.Violate(i, fmt.Sprintf("name:%q:%q", wh.dir, name), fmt.Sprintf("file %q in directory %q, pattern %q: %s", name, wh.dir, p, why), map[string]any{"file": name, "dir": wh.dir, "pattern": p, "why": why})
			}
		}
		w.Outcome("file name")
	})
	r.AddStates(int(nf * nd))
	r.Space("names of files in directories of every name", "files", nf*nd, "names", nf, "directories", nd)
}
