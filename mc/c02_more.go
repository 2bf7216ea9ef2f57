package main

import (
	"fmt"
	"strings"

	"github.com/vektah/gqlparser/v2/ast"

	e "verifmc/engine"
	m "verifmc/model"
)

type layouts struct {
	r      *e.Run
	order  int64
	same   func(w *e.W, ord int64, what string, o, v *m.Rendered)
	report func(ord int64, what, a, b string, g []Got)
}

// texts compares two documents given as texts, in both directions.
func (l *layouts) texts(w *e.W, ord int64, what, a, b string) {
	w.Case(func() string { return what + "\n" + a + "\n---\n" + b })
	oa, err1 := srcDoc(a)
	va, err2 := srcDoc(b)
	if err1 != nil || err2 != nil {
		panic(fmt.Sprintf("unparseable: %v %v\n%q\n%q", err1, err2, a, b))
	}
	for k := 0; k < 2; k++ {
		l.r.AddTransitions(1)
		l.r.AddTraces(1)
		if g := diffOf(oa, va); len(g) > 0 {
			l.report(ord, what, a+"\n", b+"\n", g)
			return
		}
		oa, va = va, oa
	}
}

// spellings of the same string
var spellings = [][]string{
	{`"a"`, `"""a"""`, `"\u0061"`, "\"\"\"\n  a\n  \"\"\"", "\"\"\"\n\ta\n\n\"\"\""},
	{`""`, `""""""`},
	{`"a b"`, `"""a b"""`, `"a\u0020b"`, `"\u0061 \u0062"`, "\"\"\"\r\na b\r\n\"\"\""},
	{`"a\nb"`, "\"\"\"a\nb\"\"\"", "\"\"\"\n    a\n    b\n    \"\"\"", `"a\u000ab"`, `"a\u000Ab"`, "\"\"\"\r\n  a\r\n  b\r\n\"\"\""},
	{`"a\n  b\n\nc"`, "\"\"\"\na\n  b\n\nc\n\"\"\"", "\"\"\"\n  a\n    b\n\n  c\n\"\"\""},
	{`"a\tb"`, `"a\u0009b"`, "\"a\tb\"", "\"\"\"a\tb\"\"\""},
	{`"é"`, `"\u00e9"`, `"\u00E9"`, `"""é"""`},
	{`"a/b"`, `"a\/b"`, `"a\u002fb"`, `"""a/b"""`},
	{`"say \"x\" now"`, `"""say "x" now"""`, `"say \u0022x\u0022 now"`},
	{`"C:\\d"`, `"""C:\d"""`, `"C:\u005cd"`},
	{`"1"`, `"""1"""`, `"\u0031"`},
	{`"# , { }"`, `"""# , { }"""`, `"\u0023 , { }"`},
	{`"null"`, `"""null"""`},
	{`"\b\f\r"`, `"\u0008\u000c\u000d"`},
}

// where a string literal can stand
var literalSlots = []string{
	"type T { a(x: String = %): Int }", "extend type T { a(x: String = %): Int }", "interface T { a(x: String = %): Int }", "extend interface T { b: Int a(y: Int, x: String = %): Int }",
	"type T { a(x: [String] = [%]): Int }", "type T { a(x: [String!]! = [\"z\", %]): Int }", "type T { a(x: I = {k: %}): Int }", "type T { a(x: I = {j: 1, k: [%, %]}): Int }",
	"input T { a: String = % }", "extend input T { a: String = % }", "input T { a: [String] = [%, null] b: Int }", "input T { a: I = {k: {k: %}} }",
	"directive @d(x: String = %) on FIELD", "directive @d(y: Int, x: [String!] = [%]) on FIELD | OBJECT", "directive @d(x: I = {k: %}) on FIELD",
	"type T @d(x: %) { a: Int }", "interface T @d(x: %) { a: Int }", "input T @d(x: %) { a: Int }", "extend type T @d(x: %)", "extend interface T @d(x: %)", "extend input T @d(x: %)", "scalar T @d(x: %)", "enum T @d(x: %) { A }", "union T @d(x: %) = A",
	"type T { a: Int @d(x: %) }", "interface T { a: Int @d(x: %) }", "input T { a: Int @d(x: %) }", "extend type T { a: Int @d(x: %) }", "enum T { A @d(x: %) }", "extend enum T { A @d(x: %) }", "type T { a(x: Int @d(x: %)): Int }",
	"type T { a: Int @deprecated(reason: %) }", "interface T { a: Int @deprecated(reason: %) }", "enum T { A @deprecated(reason: %) B }", "input T { a: Int @deprecated(reason: %) }", "type T { a(x: Int @deprecated(reason: %)): Int }",
	"type T @d(x: %) @d(x: \"q\") { a: Int }", "type T { a: Int @d(x: %, y: 1) @d(x: %, y: 2) }", "type T { a: Int @d @d(x: [%]) }", "directive @d(z: Int = 1, x: String = % @deprecated(reason: %)) repeatable on FIELD",
}

func (l *layouts) literals() {
	type job struct {
		slot string
		set  int
	}
	var js []job
	for _, s := range literalSlots {
		for i := range spellings {
			js = append(js, job{s, i})
		}
	}
	n := 0
	for _, s := range spellings {
		n += len(s)
	}
	l.r.Par(int64(len(js)), func(w *e.W, i int64) {
		for _, a := range spellings[js[i].set] {
			for _, b := range spellings[js[i].set] {
				l.texts(w, l.order+i, "string spelled differently", strings.ReplaceAll(js[i].slot, "%", a), strings.ReplaceAll(js[i].slot, "%", b))
			}
		}
	})
	l.order += int64(len(js))
	l.r.AddStates(len(literalSlots) * n)
	l.r.Space("string literals in all spellings of the same text, all pairs", "positions", len(literalSlots), "texts", len(spellings), "spellings", n)
}

// rewritings of a schema: everything the other spaces do one at a time, and some of it together
func rewritings(s *m.Schema, f func(what string, v *m.Schema)) {
	f("reversed", reversed(s))
	f("one definition per file", s.Spread(len(s.Types)+len(s.Dirs)+len(s.Roots)+1, 1))
	f("reversed, two files", reversed(s).Spread(2, 1))
	extVariants(s, f)
	permVariants(s, f)
}

// neighbourhoods: every rewriting of every schema one step away from every kernel
func (l *layouts) neighbourhoods(o StepOpt) {
	ks := kernels()
	for _, p := range sortedKeys(ks) {
		for _, k := range ks[p] {
			if l.r.Stopped() {
				return
			}
			near, _ := neighbourhood(k.s, append(genSteps(k.s, o), k.extra...))
			near = append([]*m.Schema{k.s}, near...)
			n := l.rewriteAll(near)
			l.r.Space(k.name+": every schema at most one step from the base, every rewriting", "schemas", len(near), "rewritings", n)
		}
	}
}

func (l *layouts) rewriteAll(ss []*m.Schema) int64 {
	cnt := make([]int64, l.r.Workers)
	l.r.Par(int64(len(ss)), func(w *e.W, i int64) {
		o := m.Render(ss[i])
		oa, err := parse(o)
		if err != nil {
			panic(err)
		}
		l.same(w, l.order+i, "compared with a copy", o, o)
		rewritings(ss[i], func(what string, v *m.Schema) {
			cnt[w.ID]++
			rv := renderAny(v)
			w.Case(func() string { return what + "\n" + o.Text() + "\n---\n" + rv.Text() })
			va, err := parse(rv)
			if err != nil {
				panic(err)
			}
			l.r.AddTransitions(2)
			l.r.AddTraces(2)
			if g := append(diffOf(oa, va), diffOf(va, oa)...); len(g) > 0 {
				l.report(l.order+i, what, o.Text(), rv.Text(), g)
			}
		})
	})
	l.order += int64(len(ss))
	l.r.AddStates(len(ss))
	var n int64
	for _, c := range cnt {
		n += c
	}
	return n
}

// names: every identifier of the bases and kernels replaced by every special name
func (l *layouts) names(bases []*m.Schema) {
	var ss []*m.Schema
	ks := kernels()
	for _, p := range sortedKeys(ks) {
		for _, k := range ks[p] {
			bases = append(bases, k.s)
		}
	}
	for _, b := range bases {
		for _, id := range identsOf(b) {
			for _, n := range specialNames {
				if n == id.name {
					continue
				}
				c := renamedEverywhere(b, id.class, id.name, n)
				if wellFormed(c) && validDoc(c) != nil {
					ss = append(ss, c)
				}
			}
		}
	}
	ss = dedupe(ss)
	l.r.Par(int64(len(ss)), func(w *e.W, i int64) {
		o := m.Render(ss[i])
		l.same(w, l.order+i, "compared with a copy", o, o)
		l.same(w, l.order+i, "reversed", o, m.Render(reversed(ss[i])))
		extVariants(ss[i], func(what string, v *m.Schema) {
			if what == "one extension block per element" || what == "one extension block per type" {
				l.same(w, l.order+i, what, o, renderAny(v))
			}
		})
	})
	l.order += int64(len(ss))
	l.r.AddStates(len(ss))
	l.r.Space("every identifier of every base renamed to every special name: copy, reversed, regrouped", "bases", len(bases), "schemas", len(ss))
}

// together: all pairs of the rewritings of a base
func (l *layouts) together(bases []*m.Schema) {
	for _, b := range bases {
		if l.r.Stopped() {
			return
		}
		var vs []*m.Schema
		vs = append(vs, b)
		rewritings(b, func(what string, v *m.Schema) { vs = append(vs, v) })
		per := make([][]*ast.SchemaDocument, l.r.Workers)
		n := int64(len(vs))
		l.r.Par(n, func(w *e.W, i int64) {
			if per[w.ID] == nil {
				for _, v := range vs {
					a, err := parse(renderAny(v))
					if err != nil {
						panic(err)
					}
					per[w.ID] = append(per[w.ID], a)
				}
			}
			for j := range vs {
				w.Case(func() string { return renderAny(vs[i]).Text() + "\n---\n" + renderAny(vs[j]).Text() })
				l.r.AddTransitions(1)
				l.r.AddTraces(1)
				if g := diffOf(per[w.ID][i], per[w.ID][j]); len(g) > 0 {
					l.report(l.order+i*n+int64(j), "two rewritings of a schema", renderAny(vs[i]).Text(), renderAny(vs[j]).Text(), g)
				}
			}
		})
		l.order += n * n
		l.r.AddStates(len(vs))
		l.r.Space("all ordered pairs of the rewritings of a base", "rewritings", n, "pairs", n*n)
	}
}

// scales: long lists, compared with a copy and reversed
func (l *layouts) scales() {
	sc := allScales(l.r)
	for _, k := range sortedKeys(sc) {
		var ss []*m.Schema
		for _, p := range sc[k] {
			ss = append(ss, p[0], p[1])
		}
		ss = dedupe(ss)
		l.r.Par(int64(len(ss)), func(w *e.W, i int64) {
			o := m.Render(ss[i])
			l.same(w, l.order+i, "compared with a copy", o, o)
			l.same(w, l.order+i, "reversed", o, m.Render(reversed(ss[i])))
			l.same(w, l.order+i, "one definition per file", o, renderAny(ss[i].Spread(len(ss[i].Types)+1, 1)))
		})
		l.order += int64(len(ss))
		l.r.AddStates(len(ss))
		l.r.Space(k+": copy, reversed, one definition per file", "schemas", len(ss))
	}
}

// renderAny renders a schema which may be distributed over files
func renderAny(s *m.Schema) *m.Rendered {
	n := 0
	for _, x := range s.Roots {
		n = max(n, x.File)
	}
	for _, x := range s.Types {
		n = max(n, x.File)
	}
	for _, x := range s.Dirs {
		n = max(n, x.File)
	}
	if n == 0 {
		return m.Render(s)
	}
	var names []string
	for i := 0; i <= n; i++ {
		names = append(names, fmt.Sprintf("x/f%03d.graphql", n-i))
	}
	return m.Render(s, names...)
}
