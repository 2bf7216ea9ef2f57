package main

import (
	"fmt"
	"strings"

	"github.com/CrowdStrike/gql/pkg/linter"

	e "verifmc/engine"
	m "verifmc/model"
)

// lintSpace lints every schema of a space with the given rules and compares with the reference linter.
func lintSpace(r *e.Run, name string, n int64, rules []string, line bool, build func(i int64) *LDoc) {
	if r.Stopped() {
		return
	}
	fs := rulesOf(rules...)
	cnt := make([]int64, r.Workers)
	r.Par(n, func(w *e.W, i int64) {
		d := build(i)
		if d == nil {
			return
		}
		cnt[w.ID]++
		w.Case(func() string { return d.Text })
		got := lintText(d.Text, fs)
		exp := onlyRules(d.S.Expect(), rules...)
		r.AddTransitions(1)
		r.AddTraces(1)
		w.Outcome(fmt.Sprintf("%d errors", min(len(got), 20)))
		if why := lintMatch(d, exp, got, line, false); why != "" {
			r.Violate(i, fmt.Sprintf("lint:%x", h64(d.Text)), fmt.Sprintf("%s--- schema\n%s", why, clipS(d.Text, 1500)), map[string]any{"schema": d.Text, "rules": rules, "why": why, "got": lintStrings(got)})
		}
	})
	var total int64
	for _, c := range cnt {
		total += c
	}
	r.AddStates(int(total))
	r.Space(name, "schemas", total)
	if n > 2 {
		for i := n / 2; i < n && i < n/2+50; i++ {
			if d := build(i); d != nil {
				r.Sample(map[string]any{"space": name, "schema": clipS(d.Text, 800)})
				break
			}
		}
	}
}

var (
	noDesc = LDesc{}
	aDesc  = LDesc{`"d"`, true}
)

// descForms are ways to write (or not to write) a description.
var descForms = []LDesc{
	{}, {`"d"`, true}, {`""`, false}, {`""""""`, false}, {`"""d"""`, true}, {"\"\"\"\n  d\n  \"\"\"", true}, {"\"\"\"\n  \"\"\"", false}, {`"""   """`, false},
	{`" "`, true}, {`"#"`, true}, {`"\""`, true}, {`"""a "quoted" word"""`, true}, {`"""\""" """`, true}, {`"é 世 😀"`, true}, {`"\u0020"`, true}, {"\"\"\"\n\n\n  x\n  # y\n\n\"\"\"", true},
}

// describable lists pointers to all the descriptions of a schema.
func describable(s *LSchema) []*LDesc {
	var out []*LDesc
	for i := range s.Types {
		t := &s.Types[i]
		if !t.Ext {
			out = append(out, &t.Desc)
		}
		for j := range t.Fields {
			f := &t.Fields[j]
			out = append(out, &f.Desc)
			for k := range f.Args {
				out = append(out, &f.Args[k].Desc)
			}
		}
		for j := range t.Vals {
			out = append(out, &t.Vals[j].Desc)
		}
	}
	return out
}

func l01(r *e.Run) {
	rules := []string{"type-desc", "field-desc", "args-desc", "enum-desc"}
	f := func(name, typ string, args ...LArg) LField { return LField{Name: name, Type: typ, Args: args} }
	a := func(name string) LArg { return LArg{Name: name, Type: "Int"} }
	v := func(n ...string) []LVal {
		var out []LVal
		for _, x := range n {
			out = append(out, LVal{Name: x})
		}
		return out
	}
	builders := map[string]func() *LSchema{
		"all kinds of definitions": func() *LSchema {
			return &LSchema{[]LType{
				{Kind: "scalar", Name: "S"},
				{Kind: "type", Name: "O", Fields: []LField{f("a", "Int", a("x"), a("y")), f("b", "[Int!]!")}},
				{Kind: "interface", Name: "I", Fields: []LField{f("a", "Int", a("x"))}},
				{Kind: "union", Name: "U", Members: []string{"O"}},
				{Kind: "enum", Name: "E", Vals: v("A", "B")},
				{Kind: "input", Name: "N", Fields: []LField{f("a", "Int"), f("b", "Int")}},
			}}
		},
		"definitions and extensions": func() *LSchema {
			return &LSchema{[]LType{
				{Kind: "type", Ext: true, Name: "O", Fields: []LField{f("p", "Int", a("x")), f("q", "Int")}},
				{Kind: "type", Name: "O", Fields: []LField{f("a", "Int", a("x"))}},
				{Kind: "interface", Ext: true, Name: "I", Fields: []LField{f("p", "Int", a("x"))}},
				{Kind: "enum", Name: "E", Vals: v("A")},
				{Kind: "enum", Ext: true, Name: "E", Vals: v("B", "C")},
				{Kind: "input", Ext: true, Name: "N", Fields: []LField{f("p", "Int")}},
				{Kind: "scalar", Ext: true, Name: "S"},
				{Kind: "union", Ext: true, Name: "U", Members: []string{"O"}},
				{Kind: "type", Ext: true, Name: "O", Fields: []LField{f("r", "Int", a("x"), a("y"))}},
			}}
		},
		"many fields and arguments": func() *LSchema {
			return &LSchema{[]LType{
				{Kind: "type", Name: "Q", Fields: []LField{f("a", "Int"), f("b", "Int", a("a"), a("b"), a("c"), a("d")), f("c", "Int"), f("d", "Int", a("a"), a("b"), a("c"))}},
				{Kind: "enum", Name: "E", Vals: v("A", "B", "C", "D")},
			}}
		},
		"a type without body, same names at different levels": func() *LSchema {
			return &LSchema{[]LType{
				{Kind: "type", Name: "A"},
				{Kind: "type", Name: "Aa", Fields: []LField{f("A", "Int", a("A"), a("Aa")), f("Aa", "Int", a("A"))}},
				{Kind: "enum", Name: "AA", Vals: v("A", "AA", "Aa")},
				{Kind: "interface", Name: "Ab"},
				{Kind: "enum", Name: "Ac"},
				{Kind: "input", Name: "Ad"},
			}}
		},
	}
	for _, name := range sortedKeys(builders) {
		mk := builders[name]
		n := len(describable(mk()))
		// 1. every subset of the elements is described
		lintSpace(r, name+": every subset of described elements", int64(1)<<n, rules, false, func(i int64) *LDoc {
			s := mk()
			for k, d := range describable(s) {
				if i>>k&1 == 1 {
					*d = aDesc
				}
			}
			return pretty(s)
		})
		// 2. every form of description of every pair of elements
		nf := int64(len(descForms))
		pairs := int64(n) * int64(n) * nf * nf
		lintSpace(r, name+": every form of description on every pair of elements", pairs, rules, false, func(i int64) *LDoc {
			x, y := int(i%int64(n)), int(i/int64(n)%int64(n))
			if x >= y {
				return nil
			}
			j := i / int64(n*n)
			s := mk()
			ds := describable(s)
			*ds[x], *ds[y] = descForms[j%nf], descForms[j/nf]
			return pretty(s)
		})
		// 3. all the same form, and all but one
		lintSpace(r, name+": one form everywhere, another one on a single element", nf*nf*int64(n), rules, false, func(i int64) *LDoc {
			s := mk()
			ds := describable(s)
			for _, d := range ds {
				*d = descForms[i%nf]
			}
			*ds[i/(nf*nf)] = descForms[i/nf%nf]
			return pretty(s)
		})
	}
	manySpace(r, rules, 0)
	lintNear(r, rules, false)
	lintDescTexts(r, rules)
}

// manySpace: schemas with many elements of each sort, one of which is different.
func manySpace(r *e.Run, rules []string, flavour int) {
	max := int64(e.Pick(r, 24, 80))
	good := func(i int64) string { return fmt.Sprintf("a%d", i) }
	lintSpace(r, "many elements, one or all different", max*max*5*2, rules, false, func(i int64) *LDoc {
		n, odd, what, all := i%max+1, i/max%max, i/max/max%5, i/max/max/5 == 1
		if odd > n {
			return nil
		}
		pick := func(k int64, g, b string) string {
			if (k == odd) != all {
				return b
			}
			return g
		}
		desc := func(k int64) LDesc {
			if (k == odd) != all {
				return noDesc
			}
			return aDesc
		}
		_ = flavour
		s := &LSchema{}
		o := LType{Kind: "type", Name: "O", Desc: aDesc}
		switch what {
		case 0:
			for k := int64(0); k < n; k++ {
				s.Types = append(s.Types, LType{Kind: m.AllKinds[k%6], Name: pick(k, "T", "t") + good(k), Desc: desc(k)})
			}
		case 1:
			for k := int64(0); k < n; k++ {
				o.Fields = append(o.Fields, LField{Name: pick(k, "a", "A") + good(k), Type: "Int", Desc: desc(k)})
			}
		case 2:
			fl := LField{Name: "f", Type: "Int", Desc: aDesc}
			for k := int64(0); k < n; k++ {
				fl.Args = append(fl.Args, LArg{Name: good(k), Type: "Int", Desc: desc(k)})
			}
			o.Fields = append(o.Fields, fl)
		case 3:
			en := LType{Kind: "enum", Name: "E", Desc: aDesc}
			for k := int64(0); k < n; k++ {
				en.Vals = append(en.Vals, LVal{Name: pick(k, "A", "a") + strings.ToUpper(good(k)), Desc: desc(k)})
			}
			s.Types = append(s.Types, en)
		case 4: // many extensions
			for k := int64(0); k < n; k++ {
				s.Types = append(s.Types, LType{Kind: "type", Ext: true, Name: "O", Fields: []LField{{Name: pick(k, "a", "A") + good(k), Type: "Int", Desc: desc(k), Args: []LArg{{Name: "x", Type: "Int", Desc: desc(k)}}}}})
			}
		}
		if len(o.Fields) > 0 {
			s.Types = append(s.Types, o)
		}
		return pretty(s)
	})
}

func l02(r *e.Run) {
	rules := []string{"enum-caps", "field-camel", "type-caps"}
	const first = "_abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
	const next = first + "0123456789"
	var names []string
	for _, a := range first {
		names = append(names, string(a))
		for _, b := range next {
			names = append(names, string(a)+string(b))
		}
	}
	small := "_aAzZ09mM"
	var rec func(p string, n int)
	rec = func(p string, n int) {
		if n == 0 {
			return
		}
		for _, c := range small {
			if p == "" && isDigit(byte(c)) {
				continue
			}
			q := p + string(c)
			if len(q) > 2 {
				names = append(names, q)
			}
			rec(q, n-1)
		}
	}
	rec("", e.Pick(r, 5, 6))
	// long names: one odd character at every position
	for _, l := range []int{5, 8, 17, 33, 64} {
		for k := 0; k < l; k++ {
			for _, c := range "_aZ0" {
				for _, bg := range []string{"A", "a", "b1", "Q_"} {
					b := []byte(strings.Repeat(bg, l)[:l])
					if k == 0 && c == '0' {
						continue
					}
					b[k] = byte(c)
					names = append(names, string(b))
				}
			}
		}
	}
	for _, n := range []string{"true", "false", "null", "type", "enum", "schema", "extend", "on", "implements", "repeatable", "__schema", "_Entity", "_entities", "_", "__", "ID", "iPhone", "URL", "x_y", "camelCase", "snake_case", "PascalCase", "SCREAMING_CASE"} {
		names = append(names, n)
	}
	names = append(names, everyName...)
	type ctx struct {
		name  string
		build func(n string) *LSchema
	}
	var ctxs []ctx
	for _, k := range m.AllKinds {
		ctxs = append(ctxs, ctx{"name of " + k, func(n string) *LSchema { return &LSchema{[]LType{{Kind: k, Name: n}}} }})
		ctxs = append(ctxs, ctx{"name of extended " + k, func(n string) *LSchema { return &LSchema{[]LType{{Kind: k, Name: n, Ext: true}}} }})
	}
	for _, k := range []string{m.Object, m.Interface, m.Input} {
		for _, ext := range []bool{false, true} {
			ctxs = append(ctxs, ctx{fmt.Sprintf("field of %s, extension=%v", k, ext), func(n string) *LSchema {
				return &LSchema{[]LType{{Kind: k, Name: "T", Ext: ext, Fields: []LField{{Name: "ok", Type: "Int"}, {Name: n, Type: "Int"}, {Name: "k2", Type: n}}}}}
			}})
		}
	}
	for _, ext := range []bool{false, true} {
		ctxs = append(ctxs, ctx{fmt.Sprintf("enum value, extension=%v", ext), func(n string) *LSchema {
			return &LSchema{[]LType{{Kind: "enum", Name: "T", Ext: ext, Vals: []LVal{{Name: "OK"}, {Name: n}, {Name: "K2"}}}}}
		}})
	}
	// where names do not count: arguments, unions, argument types
	ctxs = append(ctxs, ctx{"argument", func(n string) *LSchema {
		return &LSchema{[]LType{{Kind: "type", Name: "T", Fields: []LField{{Name: "f", Type: "Int", Args: []LArg{{Name: n, Type: n}}}}}, {Kind: "union", Name: "U", Members: []string{n}}}}
	}})
	for _, c := range ctxs {
		lintSpace(r, c.name+": all names", int64(len(names)), rules, false, func(i int64) *LDoc { return pretty(c.build(names[i])) })
	}
	// combinations of offending and conforming names in one schema
	tn := []string{"T", "t", "_t", "aT"}
	fn := []string{"f", "F", "f_", "_f", "fF"}
	en := []string{"E", "e", "Ee", "E_1"}
	n := int64(len(tn) * len(tn) * len(fn) * len(fn) * len(en) * len(en) * 4)
	lintSpace(r, "combinations of names in one schema", n, rules, false, func(i int64) *LDoc {
		p := func(l []string) string { x := l[i%int64(len(l))]; i /= int64(len(l)); return x }
		t1, t2, f1, f2, e1, e2 := p(tn), p(tn), p(fn), p(fn), p(en), p(en)
		ext1, ext2 := i&1 == 1, i&2 == 2
		s := &LSchema{[]LType{
			{Kind: "type", Name: t1 + "1", Ext: ext1, Fields: []LField{{Name: f1 + "1", Type: "Int"}, {Name: f2 + "2", Type: "[Int]"}}},
			{Kind: "enum", Name: t2 + "2", Ext: ext2, Vals: []LVal{{Name: e1 + "1"}, {Name: e2 + "2"}}},
			{Kind: "input", Name: "N", Ext: ext2, Fields: []LField{{Name: f2, Type: "Int", Default: "1"}}},
		}}
		return pretty(s)
	})
	manySpace(r, rules, 1)
	lintNear(r, rules, false)
	lintNamePairs(r, rules)
}

func l03(r *e.Run) {
	rules := []string{"relay-conn-type"}
	names := []string{"Connection", "AConnection", "aConnection", "A_Connection", "ConnectionA", "AConnectionX", "connection", "Aconnection", "Connections", "ConnectionConnection", "AConnectio", "AonnectionC"}
	refs := m.Refs([]string{"PageInfo", "X"}, 2)
	refs = append(refs, "pageInfo!", "PageInfos!", "XPageInfo!", "AConnection!", "AConnection", "[AEdge]", "[AEdge!]!", "AEdge")
	// field lists: every order of edges / pageInfo / another field, with every type
	type fset []LField
	var sets []fset
	sets = append(sets, nil)
	other := LField{Name: "totalCount", Type: "Int"}
	for _, a := range refs {
		ed, pi := LField{Name: "edges", Type: a}, LField{Name: "pageInfo", Type: a}
		sets = append(sets, fset{ed}, fset{pi}, fset{ed, other}, fset{other, pi}, fset{{Name: "Edges", Type: a}}, fset{{Name: "edge", Type: a}, {Name: "pageinfo", Type: a}}, fset{{Name: "edges2", Type: a}, {Name: "pageInfo2", Type: "PageInfo!"}})
		for _, b := range refs {
			p2 := LField{Name: "pageInfo", Type: b}
			sets = append(sets, fset{ed, p2}, fset{p2, ed}, fset{other, ed, p2}, fset{p2, other, ed})
		}
	}
	sets = append(sets, fset{other}, fset{{Name: "edges", Type: "[X]", Args: []LArg{{Name: "pageInfo", Type: "PageInfo!"}}}}, fset{{Name: "pageInfo", Type: "PageInfo!", Args: []LArg{{Name: "edges", Type: "[X]"}}}, {Name: "edges", Type: "[X]", Args: []LArg{{Name: "first", Type: "Int"}}}})
	ns, nn := int64(len(sets)), int64(len(names))
	for _, kind := range m.AllKinds {
		for _, ext := range []bool{false, true} {
			if ext {
				continue
			}
			lintSpace(r, "all names and field lists: "+kind, ns*nn, rules, true, func(i int64) *LDoc {
				t := LType{Kind: kind, Name: names[i%nn], Ext: ext}
				fs := sets[i/nn]
				switch kind {
				case m.Object, m.Interface:
					t.Fields = fs
				case m.Input:
					for _, f := range fs {
						f.Args = nil
						t.Fields = append(t.Fields, f)
					}
				case m.Enum:
					for _, f := range fs {
						t.Vals = append(t.Vals, LVal{Name: f.Name})
					}
				case m.Union:
					for _, f := range fs {
						t.Members = append(t.Members, f.Name)
					}
				}
				return pretty(&LSchema{[]LType{{Kind: "scalar", Name: "S"}, t}})
			})
		}
	}
	// several connection types in one schema, with their extensions not being types of their own
	few := []fset{{{Name: "edges", Type: "[E]"}, {Name: "pageInfo", Type: "PageInfo!"}}, {{Name: "edges", Type: "E"}, {Name: "pageInfo", Type: "PageInfo!"}}, {{Name: "edges", Type: "[E]"}}, {{Name: "pageInfo", Type: "PageInfo"}}, {{Name: "x", Type: "Int"}}, nil}
	nk := int64(len(m.AllKinds))
	nf := int64(len(few))
	lintSpace(r, "three types in one schema", nk*nf*nk*nf*nf*4, rules, true, func(i int64) *LDoc {
		s := &LSchema{}
		put := func(name string, kind string, fs fset) {
			t := LType{Kind: kind, Name: name}
			switch kind {
			case m.Object, m.Interface, m.Input:
				t.Fields = fs
			case m.Enum:
				t.Vals = []LVal{{Name: "edges"}}
			case m.Union:
				t.Members = []string{"edges"}
			}
			s.Types = append(s.Types, t)
		}
		k1, f1, k2, f2, f3, o := i%nk, i/nk%nf, i/nk/nf%nk, i/nk/nf/nk%nf, i/nk/nf/nk/nf%nf, i/nk/nf/nk/nf/nf
		put([]string{"AConnection", "A"}[o&1], m.AllKinds[k1], few[f1])
		put([]string{"BConnection", "ConnectionB"}[o>>1], m.AllKinds[k2], few[f2])
		put("CConnection", m.Object, few[f3])
		return pretty(s)
	})
	// whether the sort of list wrapper and spacing matters: "PageInfo !" and "[ X ]" are the same types
	lintSpace(r, "spaced type references", int64(len(refs))*int64(len(refs))*3, rules, true, func(i int64) *LDoc {
		nr := int64(len(refs))
		s := &LSchema{[]LType{{Kind: "type", Name: "AConnection", Fields: []LField{{Name: "edges", Type: refs[i%nr]}, {Name: "pageInfo", Type: refs[i/nr%nr]}}}}}
		sep := []string{" ", "\n", " , # c\n"}[i/nr/nr]
		return layOut(s, func(k int) string { return sep })
	})
	lintNear(r, rules, true)
	lintRelayNames(r, rules, false)
}

func l04(r *e.Run) {
	rules := []string{"relay-conn-args"}
	firstT := []string{"", "Int", "Int!", "[Int]", "[Int!]!", "String", "String!", "int", "Int2!", "[Int]!"}
	otherT := []string{"", "String", "Int!"}
	fieldT := []string{"AConnection", "AConnection!", "[AConnection!]!", "Connection", "[[Connection]]", "ConnectionX", "Aconnection", "Int"}
	kinds := []string{m.Object, m.Interface}
	orders := perms(4)
	extras := [][]LArg{nil, {{Name: "filter", Type: "Int"}}, {{Name: "First", Type: "Int!"}, {Name: "lasts", Type: "Boolean"}}}
	a, b := int64(len(firstT)), int64(len(otherT))
	n := a * a * b * b * int64(len(fieldT)) * int64(len(kinds)) * int64(len(extras))
	build := func(i int64, order []int) *LDoc {
		pick := func(k int64) int64 { x := i % k; i /= k; return x }
		args := []LArg{{Name: "first", Type: firstT[pick(a)]}, {Name: "last", Type: firstT[pick(a)]}, {Name: "after", Type: otherT[pick(b)]}, {Name: "before", Type: otherT[pick(b)]}}
		ft, kind, ex := fieldT[pick(int64(len(fieldT)))], kinds[pick(int64(len(kinds)))], extras[pick(int64(len(extras)))]
		f := LField{Name: "things", Type: ft}
		if len(ex) > 0 {
			f.Args = append(f.Args, ex[0])
		}
		for _, k := range order {
			if args[k].Type != "" {
				f.Args = append(f.Args, args[k])
			}
		}
		if len(ex) > 1 {
			f.Args = append(f.Args, ex[1:]...)
		}
		return pretty(&LSchema{[]LType{{Kind: kind, Name: "Q", Fields: []LField{{Name: "x", Type: "Int"}, f}}}})
	}
	lintSpace(r, "presence and type of all arguments, every kind of field", n, rules, true, func(i int64) *LDoc { return build(i, orders[0]) })
	no := int64(len(orders))
	lintSpace(r, "every order of the arguments", a*a*b*b*no*int64(len(fieldT)), rules, true, func(i int64) *LDoc {
		o := orders[i%no]
		return build(i/no, o)
	})
	// two fields in one type, in two types; the first one must not influence the second one
	combos := []LField{}
	for _, x := range []string{"", "Int", "Int!", "String"} {
		for _, y := range []string{"", "Int", "Int!", "String"} {
			for mask := 0; mask < 4; mask++ {
				f := LField{Type: "AConnection"}
				for _, p := range []LArg{{Name: "first", Type: x}, {Name: "last", Type: y}, {Name: "after", Type: []string{"", "String"}[mask&1]}, {Name: "before", Type: []string{"", "String"}[mask>>1]}} {
					if p.Type != "" {
						f.Args = append(f.Args, p)
					}
				}
				combos = append(combos, f)
			}
		}
	}
	nc := int64(len(combos))
	lintSpace(r, "two connection fields", nc*nc*3, rules, true, func(i int64) *LDoc {
		f, g := combos[i%nc], combos[i/nc%nc]
		f.Name, g.Name = "aa", "bb"
		switch i / nc / nc {
		case 0:
			return pretty(&LSchema{[]LType{{Kind: "type", Name: "Q", Fields: []LField{f, g}}}})
		case 1:
			return pretty(&LSchema{[]LType{{Kind: "type", Name: "Q", Fields: []LField{f}}, {Kind: "interface", Name: "AConnection", Fields: []LField{g}}}})
		}
		h := g
		h.Name, h.Type = "mid", "Int"
		return pretty(&LSchema{[]LType{{Kind: "type", Name: "Q", Fields: []LField{f, h, g}}}})
	})
	// described arguments, defaults, block string descriptions: the errors stay on the argument
	lintSpace(r, "described arguments with defaults", nc*int64(len(descForms))*2, rules, true, func(i int64) *LDoc {
		f := combos[i%nc]
		f.Args = append([]LArg{}, f.Args...)
		d := descForms[i/nc%int64(len(descForms))]
		if !d.OK {
			return nil
		}
		f.Name, f.Desc = "ff", d
		for k := range f.Args {
			f.Args[k].Desc = d
			if i/nc/int64(len(descForms)) == 1 {
				f.Args[k].Default = `1`
			}
		}
		return pretty(&LSchema{[]LType{{Kind: "type", Name: "Q", Fields: []LField{f}}}})
	})
	lintNear(r, rules, true)
	lintRelayNames(r, rules, true)
}

var _ linter.LintRule
