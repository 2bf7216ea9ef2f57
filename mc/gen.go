package main

import (
	"fmt"
	"strings"

	e "verifmc/engine"
	m "verifmc/model"
)

// Step is a change of one thing of a schema; Do reports false when it is not applicable (any more).
type Step struct {
	Name string
	Do   func(s *m.Schema) bool
}

// StepOpt says what the generator puts in.
type StepOpt struct {
	Names    []string // names for added and renamed elements
	Types    []string // type references to change to
	InTypes  []string
	Defaults []string
	Descs    []string
	Values   []string // argument values of applied directives
	Light    bool     // without the attribute combinations of added elements
}

var smallOpt = StepOpt{
	Names: []string{"new"}, Types: []string{"Int", "Int!", "Str", "[Int]", "[Int!]!"}, InTypes: []string{"Int", "Int!", "Str", "[Int]", "[Int!]!"},
	Defaults: []string{"", "1", "2", "[1]"}, Descs: []string{"", "d1", "d2"}, Values: []string{"1", "[1]"},
}

var tinyOpt = StepOpt{
	Names: []string{"new"}, Types: []string{"Int!", "[Int]"}, InTypes: []string{"Int!", "[Int]"},
	Defaults: []string{"", "1"}, Descs: []string{"", "d1"}, Values: []string{"2"}, Light: true,
}

func nthBlock(s *m.Schema, name string, ext bool, nth int) *m.Type {
	for i := range s.Types {
		t := &s.Types[i]
		if t.Name == name && t.Ext == ext {
			if nth == 0 {
				return t
			}
			nth--
		}
	}
	return nil
}

func dropBlock(s *m.Schema, name string, ext bool, nth int) bool {
	for i := range s.Types {
		if s.Types[i].Name == name && s.Types[i].Ext == ext {
			if nth == 0 {
				s.Types = append(s.Types[:i:i], s.Types[i+1:]...)
				return true
			}
			nth--
		}
	}
	return false
}

func typeNamed(s *m.Schema, name string) bool {
	for _, t := range s.Types {
		if t.Name == name {
			return true
		}
	}
	return false
}

// fieldIn: the field of that name in any block of the type
func elemIn(s *m.Schema, typ string, ext bool, name string) bool {
	for i := range s.Types {
		t := &s.Types[i]
		if t.Name != typ {
			continue
		}
		for _, f := range t.Fields {
			if f.Name == name {
				return true
			}
		}
		for _, v := range t.Values {
			if v.Name == name {
				return true
			}
		}
		for _, v := range t.Members {
			if v == name {
				return true
			}
		}
	}
	return false
}

func ifaceIn(s *m.Schema, typ, name string) bool {
	for i := range s.Types {
		if s.Types[i].Name == typ && inList(s.Types[i].Ifaces, name) {
			return true
		}
	}
	return false
}

func inList(l []string, x string) bool {
	for _, s := range l {
		if s == x {
			return true
		}
	}
	return false
}

func idxOf(l []string, x string) int {
	for i, s := range l {
		if s == x {
			return i
		}
	}
	return -1
}

func insert[T any](l []T, at int, x T) []T {
	out := append([]T{}, l[:at]...)
	out = append(out, x)
	return append(out, l[at:]...)
}

func removeAt[T any](l []T, i int) []T { return append(append([]T{}, l[:i]...), l[i+1:]...) }

// genSteps enumerates every single change of the schema within the options.
func genSteps(s *m.Schema, o StepOpt) []Step {
	var out []Step
	add := func(name string, do func(s *m.Schema) bool) { out = append(out, Step{name, do}) }
	nth := map[string]int{}
	for _, t := range s.Types {
		key := m.Cont(t.Ext) + t.Name
		k := nth[key]
		nth[key]++
		blockSteps(add, t, k, o)
	}
	for _, n := range o.Names {
		if typeNamed(s, n) {
			continue
		}
		for _, kind := range m.AllKinds {
			for _, ext := range []bool{false, true} {
				if o.Light && kind != m.Object && ext {
					continue
				}
				descs := []string{"", "d1"}
				if ext || o.Light {
					descs = descs[:1]
				}
				for _, ds := range descs {
					t := body(kind, n, "")
					t.Ext, t.Desc = ext, ds
					if ds != "" && len(t.Fields) > 0 {
						t.Fields[0].Type = "Int!"
					}
					add(fmt.Sprintf("add %s %s ext=%v %s", kind, n, ext, ds), func(s *m.Schema) bool {
						if typeNamed(s, t.Name) {
							return false
						}
						s.Types = append(s.Types, t.Clone())
						return true
					})
				}
			}
		}
	}
	for _, d := range s.Dirs {
		dirDefSteps(add, d, o)
	}
	for _, n := range o.Names {
		for v := 0; v < 3; v++ {
			if v > 0 && o.Light {
				continue
			}
			d := m.DirDef{Name: n, Locs: []string{"FIELD"}}
			if v == 1 {
				d.Desc, d.Repeatable, d.Args = "d1", true, []m.Arg{{Name: "a", Type: "Int!"}}
			}
			if v == 2 {
				d.Locs = []string{"OBJECT", "FIELD_DEFINITION"}
			}
			add(fmt.Sprintf("add @%s %d", n, v), func(s *m.Schema) bool {
				for _, x := range s.Dirs {
					if x.Name == d.Name {
						return false
					}
				}
				c := d
				c.Args = append([]m.Arg(nil), d.Args...)
				c.Locs = append([]string(nil), d.Locs...)
				s.Dirs = append(s.Dirs, c)
				return true
			})
		}
	}
	return out
}

type adder = func(name string, do func(s *m.Schema) bool)

func blockSteps(add adder, t m.Type, k int, o StepOpt) {
	name, ext := t.Name, t.Ext
	lb := fmt.Sprintf("%s%s#%d", m.Cont(ext), name, k)
	at := func(s *m.Schema) *m.Type { return nthBlock(s, name, ext, k) }
	on := func(what string, f func(s *m.Schema, t *m.Type) bool) {
		add(lb+" "+what, func(s *m.Schema) bool {
			b := at(s)
			return b != nil && f(s, b)
		})
	}
	add(lb+" removed", func(s *m.Schema) bool { return dropBlock(s, name, ext, k) })
	for _, n := range o.Names {
		if n == name {
			continue
		}
		on("renamed "+n, func(s *m.Schema, b *m.Type) bool {
			if typeNamed(s, n) {
				return false
			}
			b.Name = n
			return true
		})
	}
	if !ext {
		for _, d := range o.Descs {
			on("desc "+d, func(s *m.Schema, b *m.Type) bool {
				if b.Desc == d {
					return false
				}
				b.Desc = d
				return true
			})
		}
		on("becomes extension", func(s *m.Schema, b *m.Type) bool {
			if nthBlock(s, name, true, 0) != nil {
				return false
			}
			b.Ext, b.Desc = true, ""
			return true
		})
	} else {
		on("becomes definition", func(s *m.Schema, b *m.Type) bool {
			if nthBlock(s, name, false, 0) != nil || nthBlock(s, name, true, 1) != nil {
				return false
			}
			b.Ext = false
			return true
		})
	}
	for _, kind := range m.AllKinds {
		if kind == t.Kind || o.Light && kind != m.Scalar && kind != m.Input {
			continue
		}
		on("kind "+kind, func(s *m.Schema, b *m.Type) bool {
			if nthBlock(s, name, ext, 1) != nil || b.Kind == kind {
				return false
			}
			c := body(kind, name, "")
			c.Ext, c.Desc = ext, b.Desc
			*b = c
			return true
		})
	}
	if t.Kind == m.Object || t.Kind == m.Interface {
		listSteps(on, "iface", t.Ifaces, o.Names, func(b *m.Type) *[]string { return &b.Ifaces }, func(s *m.Schema, n string) bool { return ifaceIn(s, name, n) })
	}
	if t.Kind == m.Union {
		listSteps(on, "member", t.Members, o.Names, func(b *m.Type) *[]string { return &b.Members }, func(s *m.Schema, n string) bool { return elemIn(s, name, ext, n) })
	}
	if t.Kind == m.Object || t.Kind == m.Interface || t.Kind == m.Scalar || t.Kind == m.Input {
		dirSteps(add, lb, t.Dirs, o, func(s *m.Schema) *[]m.Applied {
			if b := at(s); b != nil {
				return &b.Dirs
			}
			return nil
		})
	}
	for _, v := range t.Values {
		valueSteps(add, lb, name, ext, k, v, o)
	}
	if t.Kind == m.Enum {
		for _, n := range o.Names {
			if badEnumName(n) {
				continue
			}
			for i, v := range []m.Value{{}, {Desc: "d1"}, {Dirs: []m.Applied{ap("deprecated")}}, {Desc: "d1", Dirs: []m.Applied{ap("other"), ap("deprecated", "reason", `"r"`)}}} {
				v.Name = n
				if o.Light && i > 0 && i != 2 {
					continue
				}
				for _, front := range []bool{false, true} {
					if front && i > 0 {
						continue
					}
					on(fmt.Sprintf("add value %s %d front=%v", n, i, front), func(s *m.Schema, b *m.Type) bool {
						if elemIn(s, name, ext, n) || b.Kind != m.Enum {
							return false
						}
						p := len(b.Values)
						if front {
							p = 0
						}
						v.Dirs = append([]m.Applied(nil), v.Dirs...)
						b.Values = insert(b.Values, p, v)
						return true
					})
				}
			}
		}
		on("values swapped", func(s *m.Schema, b *m.Type) bool {
			if len(b.Values) < 2 {
				return false
			}
			b.Values[0], b.Values[1] = b.Values[1], b.Values[0]
			return true
		})
	}
	for _, f := range t.Fields {
		fieldSteps(add, lb, t.Kind, name, ext, k, f, o)
	}
	if t.Kind == m.Object || t.Kind == m.Interface || t.Kind == m.Input {
		var variants []m.Field
		if t.Kind == m.Input {
			variants = []m.Field{{Type: "Int"}, {Type: "Int!"}, {Type: "Int!", Default: "1"}, {Type: "[Int]!"}, {Type: name}, {Type: "[" + name + "]!"}, {Type: name + "!"}, {Type: "Int", Desc: "d1", Dirs: []m.Applied{ap("deprecated")}}, {Type: "Int!", Dirs: []m.Applied{ap("x")}, Desc: "d1"}, {Type: "Int!", Dirs: []m.Applied{ap("deprecated")}}, {Type: "Int!", Default: "null"}, {Type: "[Int!]"}}
		} else {
			variants = []m.Field{{Type: "Int"}, {Type: "Int!"}, {Type: "Int", Desc: "d1"}, {Type: "Int", Dirs: []m.Applied{ap("deprecated")}}, {Type: "[Int!]!", Args: []m.Arg{{Name: "x", Type: "Int!"}}}, {Type: name, Dirs: []m.Applied{ap("x")}}}
		}
		for _, n := range o.Names {
			for i, v := range variants {
				v.Name = n
				if o.Light && i > 1 {
					continue
				}
				for _, front := range []bool{false, true} {
					if front && i > 0 {
						continue
					}
					on(fmt.Sprintf("add field %s %d front=%v", n, i, front), func(s *m.Schema, b *m.Type) bool {
						if elemIn(s, name, ext, n) || b.Kind != t.Kind {
							return false
						}
						p := len(b.Fields)
						if front {
							p = 0
						}
						c := v
						c.Dirs = append([]m.Applied(nil), v.Dirs...)
						c.Args = append([]m.Arg(nil), v.Args...)
						b.Fields = insert(b.Fields, p, c)
						return true
					})
				}
			}
		}
		on("fields swapped", func(s *m.Schema, b *m.Type) bool {
			if len(b.Fields) < 2 {
				return false
			}
			b.Fields[0], b.Fields[1] = b.Fields[1], b.Fields[0]
			return true
		})
	}
}

func badEnumName(n string) bool { return n == "true" || n == "false" || n == "null" }

func listSteps(on func(string, func(*m.Schema, *m.Type) bool), what string, cur, names []string, get func(*m.Type) *[]string, present func(*m.Schema, string) bool) {
	for _, x := range cur {
		on(what+" "+x+" removed", func(s *m.Schema, b *m.Type) bool {
			l := get(b)
			i := idxOf(*l, x)
			if i < 0 || what == "member" && len(*l) == 1 {
				return false
			}
			*l = removeAt(*l, i)
			return true
		})
		for _, n := range names {
			on(what+" "+x+" replaced by "+n, func(s *m.Schema, b *m.Type) bool {
				l := get(b)
				i := idxOf(*l, x)
				if i < 0 || present(s, n) {
					return false
				}
				c := append([]string{}, *l...)
				c[i] = n
				*l = c
				return true
			})
		}
	}
	for _, n := range names {
		for _, front := range []bool{false, true} {
			on(fmt.Sprintf("%s %s added front=%v", what, n, front), func(s *m.Schema, b *m.Type) bool {
				if present(s, n) || what == "member" && b.Kind != m.Union || what == "iface" && b.Kind != m.Object && b.Kind != m.Interface {
					return false
				}
				l := get(b)
				p := len(*l)
				if front {
					p = 0
				}
				*l = insert(*l, p, n)
				return true
			})
		}
	}
	on(what+"s swapped", func(s *m.Schema, b *m.Type) bool {
		l := get(b)
		if len(*l) < 2 {
			return false
		}
		c := append([]string{}, *l...)
		c[0], c[1] = c[1], c[0]
		*l = c
		return true
	})
}

// dirSteps: changes of a list of applied directives
func dirSteps(add adder, lb string, cur []m.Applied, o StepOpt, get func(s *m.Schema) *[]m.Applied) {
	on := func(what string, f func(l []m.Applied) ([]m.Applied, bool)) {
		add(lb+" @: "+what, func(s *m.Schema) bool {
			l := get(s)
			if l == nil {
				return false
			}
			n, ok := f(append([]m.Applied(nil), *l...))
			if ok {
				*l = n
			}
			return ok
		})
	}
	count := func(l []m.Applied, name string) int {
		k := 0
		for _, a := range l {
			if a.Name == name {
				k++
			}
		}
		return k
	}
	var fresh []m.Applied
	for _, n := range o.Names {
		fresh = append(fresh, ap(n))
		if !o.Light {
			fresh = append(fresh, ap(n, "v", "1"))
		}
	}
	if len(o.Values) > 4 {
		for _, v := range o.Values {
			fresh = append(fresh, ap("new", "v", v))
		}
	}
	fresh = append(fresh, ap("deprecated"), ap("deprecated", "reason", `"r1"`))
	for _, a := range fresh {
		for _, front := range []bool{false, true} {
			if front && (o.Light || len(a.Args) > 0) {
				continue
			}
			on(fmt.Sprintf("%s added front=%v", a, front), func(l []m.Applied) ([]m.Applied, bool) {
				if a.Name == "deprecated" && count(l, "deprecated") > 0 {
					return nil, false
				}
				p := len(l)
				if front {
					p = 0
				}
				return insert(l, p, a), true
			})
		}
	}
	find := func(l []m.Applied, name string, nth int) int {
		for i, a := range l {
			if a.Name == name {
				if nth == 0 {
					return i
				}
				nth--
			}
		}
		return -1
	}
	nth := map[string]int{}
	for _, a := range cur {
		k := nth[a.Name]
		nth[a.Name]++
		id := fmt.Sprintf("%s#%d", a.Name, k)
		edit := func(what string, f func(a *m.Applied) bool) {
			on(id+" "+what, func(l []m.Applied) ([]m.Applied, bool) {
				i := find(l, a.Name, k)
				if i < 0 {
					return nil, false
				}
				l[i].Args = append([]m.KV(nil), l[i].Args...)
				return l, f(&l[i])
			})
		}
		on(id+" removed", func(l []m.Applied) ([]m.Applied, bool) {
			i := find(l, a.Name, k)
			if i < 0 {
				return nil, false
			}
			return removeAt(l, i), true
		})
		if a.Name != "deprecated" {
			on(id+" repeated", func(l []m.Applied) ([]m.Applied, bool) { return append(l, a), true })
			for _, n := range o.Names {
				edit("renamed "+n, func(a *m.Applied) bool { a.Name = n; return true })
			}
		}
		for _, kvp := range a.Args {
			vals := o.Values
			if a.Name == "deprecated" {
				vals = []string{`"r1"`, `"r9"`, `""`}
				if len(o.Values) > 4 {
					for _, v := range o.Values {
						if v == "null" || v[0] == '"' {
							vals = append(vals, v)
						}
					}
				}
			}
			for _, v := range vals {
				edit(kvp.K+" = "+v, func(a *m.Applied) bool {
					for i := range a.Args {
						if a.Args[i].K == kvp.K && a.Args[i].V != v {
							a.Args[i].V = v
							return true
						}
					}
					return false
				})
			}
			edit(kvp.K+" dropped", func(a *m.Applied) bool {
				for i := range a.Args {
					if a.Args[i].K == kvp.K {
						a.Args = removeAt(a.Args, i)
						return true
					}
				}
				return false
			})
		}
		if a.Name != "deprecated" {
			for _, n := range o.Names {
				edit("argument "+n+" added", func(a *m.Applied) bool {
					for i := range a.Args {
						if a.Args[i].K == n {
							return false
						}
					}
					a.Args = append(a.Args, kv(n, "1"))
					return true
				})
			}
			for _, v := range o.Values {
				if v == "1" {
					continue
				}
				edit("argument v added, "+v, func(a *m.Applied) bool {
					for i := range a.Args {
						if a.Args[i].K == "v" {
							return false
						}
					}
					a.Args = append(a.Args, kv("v", v))
					return true
				})
			}
		} else if len(a.Args) == 0 {
			edit("reason added", func(a *m.Applied) bool {
				if len(a.Args) > 0 {
					return false
				}
				a.Args = append(a.Args, kv("reason", `"r1"`))
				return true
			})
		}
	}
	on("swapped", func(l []m.Applied) ([]m.Applied, bool) {
		if len(l) < 2 {
			return nil, false
		}
		l[0], l[1] = l[1], l[0]
		return l, true
	})
}

func valueSteps(add adder, lb, typ string, ext bool, k int, v m.Value, o StepOpt) {
	at := func(s *m.Schema) (*m.Type, int) {
		b := nthBlock(s, typ, ext, k)
		if b == nil {
			return nil, -1
		}
		for i := range b.Values {
			if b.Values[i].Name == v.Name {
				return b, i
			}
		}
		return nil, -1
	}
	on := func(what string, f func(s *m.Schema, b *m.Type, i int) bool) {
		add(lb+"."+v.Name+" "+what, func(s *m.Schema) bool {
			b, i := at(s)
			return b != nil && f(s, b, i)
		})
	}
	on("removed", func(s *m.Schema, b *m.Type, i int) bool {
		if len(b.Values) == 1 {
			return false
		}
		b.Values = removeAt(b.Values, i)
		return true
	})
	for _, n := range o.Names {
		if badEnumName(n) {
			continue
		}
		on("renamed "+n, func(s *m.Schema, b *m.Type, i int) bool {
			if elemIn(s, typ, ext, n) {
				return false
			}
			b.Values[i].Name = n
			return true
		})
	}
	for _, d := range o.Descs {
		on("desc "+d, func(s *m.Schema, b *m.Type, i int) bool {
			ch := b.Values[i].Desc != d
			b.Values[i].Desc = d
			return ch
		})
	}
	// only deprecations are compared on enum values; other directives are noise
	dirSteps(add, lb+"."+v.Name, v.Dirs, o, func(s *m.Schema) *[]m.Applied {
		b, i := at(s)
		if b == nil {
			return nil
		}
		return &b.Values[i].Dirs
	})
}

func fieldSteps(add adder, lb, kind, typ string, ext bool, k int, f m.Field, o StepOpt) {
	at := func(s *m.Schema) (*m.Type, int) {
		b := nthBlock(s, typ, ext, k)
		if b == nil {
			return nil, -1
		}
		for i := range b.Fields {
			if b.Fields[i].Name == f.Name {
				return b, i
			}
		}
		return nil, -1
	}
	on := func(what string, g func(s *m.Schema, b *m.Type, i int) bool) {
		add(lb+"."+f.Name+" "+what, func(s *m.Schema) bool {
			b, i := at(s)
			return b != nil && g(s, b, i)
		})
	}
	on("removed", func(s *m.Schema, b *m.Type, i int) bool {
		if len(b.Fields) == 1 {
			return false
		}
		b.Fields = removeAt(b.Fields, i)
		return true
	})
	for _, n := range o.Names {
		on("renamed "+n, func(s *m.Schema, b *m.Type, i int) bool {
			if elemIn(s, typ, ext, n) {
				return false
			}
			b.Fields[i].Name = n
			return true
		})
	}
	on("moved to the other block", func(s *m.Schema, b *m.Type, i int) bool {
		x := nthBlock(s, typ, !ext, 0)
		if x == nil || len(b.Fields) == 1 || x.Kind != b.Kind {
			return false
		}
		x.Fields = append(x.Fields, b.Fields[i])
		b.Fields = removeAt(b.Fields, i)
		return true
	})
	types := o.Types
	if kind == m.Input {
		types = o.InTypes
	}
	for _, ty := range types {
		on("type "+ty, func(s *m.Schema, b *m.Type, i int) bool {
			ch := b.Fields[i].Type != ty
			b.Fields[i].Type = ty
			return ch
		})
	}
	for _, ty := range toggles(f.Type) {
		if inList(types, ty) {
			continue
		}
		on("type "+ty, func(s *m.Schema, b *m.Type, i int) bool {
			ch := b.Fields[i].Type != ty
			b.Fields[i].Type = ty
			return ch
		})
	}
	if kind == m.Input {
		for _, df := range o.Defaults {
			on("default "+df, func(s *m.Schema, b *m.Type, i int) bool {
				ch := b.Fields[i].Default != df
				b.Fields[i].Default = df
				return ch
			})
		}
	}
	for _, d := range o.Descs {
		on("desc "+d, func(s *m.Schema, b *m.Type, i int) bool {
			ch := b.Fields[i].Desc != d
			b.Fields[i].Desc = d
			return ch
		})
	}
	dirSteps(add, lb+"."+f.Name, f.Dirs, o, func(s *m.Schema) *[]m.Applied {
		b, i := at(s)
		if b == nil {
			return nil
		}
		return &b.Fields[i].Dirs
	})
	if kind != m.Input {
		argSteps(add, lb+"."+f.Name, f.Args, o, func(s *m.Schema) *[]m.Arg {
			b, i := at(s)
			if b == nil {
				return nil
			}
			return &b.Fields[i].Args
		})
	}
}

func toggles(t string) []string {
	if strings.HasSuffix(t, "!") {
		return []string{t[:len(t)-1], "[" + t + "]"}
	}
	return []string{t + "!", "[" + t + "]"}
}

func argSteps(add adder, lb string, cur []m.Arg, o StepOpt, get func(s *m.Schema) *[]m.Arg) {
	find := func(l []m.Arg, name string) int {
		for i := range l {
			if l[i].Name == name {
				return i
			}
		}
		return -1
	}
	on := func(what string, g func(l []m.Arg) ([]m.Arg, bool)) {
		add(lb+"() "+what, func(s *m.Schema) bool {
			l := get(s)
			if l == nil {
				return false
			}
			n, ok := g(append([]m.Arg(nil), *l...))
			if ok {
				*l = n
			}
			return ok
		})
	}
	for _, a := range cur {
		edit := func(what string, g func(l []m.Arg, i int) bool) {
			on(a.Name+" "+what, func(l []m.Arg) ([]m.Arg, bool) {
				i := find(l, a.Name)
				if i < 0 {
					return nil, false
				}
				return l, g(l, i)
			})
		}
		on(a.Name+" removed", func(l []m.Arg) ([]m.Arg, bool) {
			i := find(l, a.Name)
			if i < 0 {
				return nil, false
			}
			return removeAt(l, i), true
		})
		for _, n := range o.Names {
			edit("renamed "+n, func(l []m.Arg, i int) bool {
				if find(l, n) >= 0 {
					return false
				}
				l[i].Name = n
				return true
			})
		}
		for _, ty := range append(append([]string{}, o.InTypes...), toggles(a.Type)...) {
			edit("type "+ty, func(l []m.Arg, i int) bool {
				ch := l[i].Type != ty
				l[i].Type = ty
				return ch
			})
		}
		for _, df := range o.Defaults {
			edit("default "+df, func(l []m.Arg, i int) bool {
				ch := l[i].Default != df
				l[i].Default = df
				return ch
			})
		}
		for _, d := range o.Descs {
			edit("desc "+d, func(l []m.Arg, i int) bool {
				ch := l[i].Desc != d
				l[i].Desc = d
				return ch
			})
		}
		for _, ds := range [][]m.Applied{{ap("deprecated")}, {ap("x", "v", "1")}} { // not compared
			if o.Light {
				continue
			}
			edit("directives", func(l []m.Arg, i int) bool {
				l[i].Dirs = append([]m.Applied(nil), ds...)
				return true
			})
		}
	}
	for _, n := range o.Names {
		for j, v := range []m.Arg{{Type: "Int"}, {Type: "Int!"}, {Type: "Int!", Default: "1"}, {Type: "[Int]!"}, {Type: "[Int!]"}, {Type: "Int", Desc: "d1"}, {Type: "Int!", Dirs: []m.Applied{ap("deprecated")}}, {Type: "Int!", Default: "null"}} {
			if o.Light && j > 1 {
				continue
			}
			v.Name = n
			for _, front := range []bool{false, true} {
				if front && j > 0 {
					continue
				}
				on(fmt.Sprintf("add %s %d front=%v", n, j, front), func(l []m.Arg) ([]m.Arg, bool) {
					if find(l, n) >= 0 {
						return nil, false
					}
					p := len(l)
					if front {
						p = 0
					}
					return insert(l, p, v), true
				})
			}
		}
	}
	on("swapped", func(l []m.Arg) ([]m.Arg, bool) {
		if len(l) < 2 {
			return nil, false
		}
		l[0], l[1] = l[1], l[0]
		return l, true
	})
}

func dirDefSteps(add adder, d m.DirDef, o StepOpt) {
	name := d.Name
	at := func(s *m.Schema) *m.DirDef {
		for i := range s.Dirs {
			if s.Dirs[i].Name == name {
				return &s.Dirs[i]
			}
		}
		return nil
	}
	on := func(what string, f func(s *m.Schema, d *m.DirDef) bool) {
		add("@"+name+" "+what, func(s *m.Schema) bool {
			x := at(s)
			return x != nil && f(s, x)
		})
	}
	add("@"+name+" removed", func(s *m.Schema) bool {
		for i := range s.Dirs {
			if s.Dirs[i].Name == name {
				s.Dirs = removeAt(s.Dirs, i)
				return true
			}
		}
		return false
	})
	for _, n := range o.Names {
		on("renamed "+n, func(s *m.Schema, d *m.DirDef) bool {
			for i := range s.Dirs {
				if s.Dirs[i].Name == n {
					return false
				}
			}
			d.Name = n
			return true
		})
	}
	on("repeatable toggled", func(s *m.Schema, d *m.DirDef) bool { d.Repeatable = !d.Repeatable; return true })
	for _, ds := range o.Descs {
		on("desc "+ds, func(s *m.Schema, d *m.DirDef) bool {
			ch := d.Desc != ds
			d.Desc = ds
			return ch
		})
	}
	for _, l := range d.Locs {
		on("location "+l+" removed", func(s *m.Schema, d *m.DirDef) bool {
			i := idxOf(d.Locs, l)
			if i < 0 || len(d.Locs) == 1 {
				return false
			}
			d.Locs = removeAt(d.Locs, i)
			return true
		})
		on("location "+l+" replaced", func(s *m.Schema, d *m.DirDef) bool {
			i := idxOf(d.Locs, l)
			if i < 0 || inList(d.Locs, "SCALAR") {
				return false
			}
			c := append([]string{}, d.Locs...)
			c[i] = "SCALAR"
			d.Locs = c
			return true
		})
	}
	locs := []string{"QUERY", "FIELD_DEFINITION", "OBJECT", "ENUM_VALUE"}
	if o.Light {
		locs = locs[:2]
	}
	for _, l := range locs {
		for _, front := range []bool{false, true} {
			on(fmt.Sprintf("location %s added front=%v", l, front), func(s *m.Schema, d *m.DirDef) bool {
				if inList(d.Locs, l) {
					return false
				}
				p := len(d.Locs)
				if front {
					p = 0
				}
				d.Locs = insert(d.Locs, p, l)
				return true
			})
		}
	}
	argSteps(add, "@"+name, d.Args, o, func(s *m.Schema) *[]m.Arg {
		if x := at(s); x != nil {
			return &x.Args
		}
		return nil
	})
}

// rootSteps: changes of the root operation types
func rootSteps(types []string) []Step {
	var out []Step
	ops := []string{"query", "mutation", "subscription"}
	find := func(s *m.Schema, op string) (int, int) {
		for i := range s.Roots {
			for j := range s.Roots[i].Ops {
				if s.Roots[i].Ops[j].K == op {
					return i, j
				}
			}
		}
		return -1, -1
	}
	for _, op := range ops {
		out = append(out, Step{"root " + op + " removed", func(s *m.Schema) bool {
			i, j := find(s, op)
			if i < 0 {
				return false
			}
			s.Roots[i].Ops = removeAt(s.Roots[i].Ops, j)
			if len(s.Roots[i].Ops) == 0 {
				s.Roots = removeAt(s.Roots, i)
			}
			return true
		}})
		for _, t := range types {
			out = append(out, Step{"root " + op + " -> " + t, func(s *m.Schema) bool {
				i, j := find(s, op)
				if i < 0 || s.Roots[i].Ops[j].V == t {
					return false
				}
				s.Roots[i].Ops[j].V = t
				return true
			}})
			for _, ext := range []bool{false, true} {
				out = append(out, Step{fmt.Sprintf("root %s: %s added ext=%v", op, t, ext), func(s *m.Schema) bool {
					if i, _ := find(s, op); i >= 0 {
						return false
					}
					for i := range s.Roots {
						if s.Roots[i].Ext == ext {
							s.Roots[i].Ops = append(s.Roots[i].Ops, kv(op, t))
							return true
						}
					}
					s.Roots = append(s.Roots, m.Root{Ext: ext, Ops: []m.KV{kv(op, t)}})
					return true
				}})
			}
		}
	}
	out = append(out, Step{"schema definition becomes extension", func(s *m.Schema) bool {
		for i := range s.Roots {
			if !s.Roots[i].Ext {
				s.Roots[i].Ext = true
				return true
			}
		}
		return false
	}}, Step{"schema extension becomes definition", func(s *m.Schema) bool {
		x := -1
		for i := range s.Roots {
			if !s.Roots[i].Ext {
				return false
			}
			x = i
		}
		if x < 0 {
			return false
		}
		s.Roots[x].Ext = false
		return true
	}}, Step{"no schema blocks", func(s *m.Schema) bool {
		ok := len(s.Roots) > 0
		s.Roots = nil
		return ok
	}})
	return out
}

// names which something could treat in a special way
var specialNames = strings.Fields(`a b x A B X _ __ _a _A a_ A_ __a __A __T a1 A1 _1 aB Ab AB aa AA a_b A_B
 id ID Id ids name Name key value type types input enum interface union scalar directive extend schema implements repeatable on fragment query mutation subscription
 true false null Int Float String Boolean Date DateTime JSON Upload Any Query Mutation Subscription Node Edge PageInfo Connection UserConnection Input Payload Error Result
 __Type __Schema __Field __typename __type __schema _Service _Entity _Any _FieldSet _entities _service
 deprecated reason include skip if specifiedBy url oneOf defer stream label cached isDeprecated deprecationReason
 extends external requires provides tag fields link import shareable inaccessible override federation resolvable
 first last after before edges node cursor pageInfo hasNextPage limit offset filter sort orderBy
 default description test Test tmp internal Internal _internal private legacy old new old_ unknown UNKNOWN UNSPECIFIED None none other OTHER nil NULL TRUE FALSE
 a0123456789 averyveryveryveryveryveryveryveryverylongnamewhichismuchlongerthanusual AVeryVeryVeryVeryVeryVeryVeryVeryVeryLongNameWhichIsMuchLongerThanUsual`)

// builtin type references
var specialTypes = []string{"Int", "Float", "String", "Boolean", "ID", "Date", "Query", "Mutation", "Node", "__Type", "Int!", "ID!", "[ID]", "[ID!]", "[String!]!", "T", "[T]", "T!", "_T", "t", "Ta"}

// renamedEverywhere renames an identifier wherever it stands (types with their references; fields, arguments, values, directives by their kind).
func renamedEverywhere(s *m.Schema, class, from, to string) *m.Schema {
	c := s.Clone()
	ren := func(p *string) {
		if *p == from {
			*p = to
		}
	}
	ref := func(p *string) {
		if class == "type" {
			core := strings.Trim(*p, "[]!")
			if core == from {
				*p = strings.Replace(*p, core, to, 1)
			}
		}
	}
	app := func(ds []m.Applied) {
		for i := range ds {
			if class == "directive" {
				ren(&ds[i].Name)
			}
			if class == "dirarg" {
				for j := range ds[i].Args {
					ren(&ds[i].Args[j].K)
				}
			}
		}
	}
	for i := range c.Roots {
		for j := range c.Roots[i].Ops {
			ref(&c.Roots[i].Ops[j].V)
		}
	}
	for i := range c.Types {
		t := &c.Types[i]
		if class == "type" {
			ren(&t.Name)
		}
		for j := range t.Ifaces {
			ref(&t.Ifaces[j])
		}
		for j := range t.Members {
			ref(&t.Members[j])
		}
		app(t.Dirs)
		for j := range t.Values {
			if class == "value" {
				ren(&t.Values[j].Name)
			}
			app(t.Values[j].Dirs)
		}
		for j := range t.Fields {
			f := &t.Fields[j]
			if class == "field" {
				ren(&f.Name)
			}
			ref(&f.Type)
			app(f.Dirs)
			for k := range f.Args {
				if class == "arg" {
					ren(&f.Args[k].Name)
				}
				ref(&f.Args[k].Type)
				app(f.Args[k].Dirs)
			}
		}
	}
	for i := range c.Dirs {
		if class == "directive" {
			ren(&c.Dirs[i].Name)
		}
		for k := range c.Dirs[i].Args {
			if class == "dirarg" {
				ren(&c.Dirs[i].Args[k].Name)
			}
			ref(&c.Dirs[i].Args[k].Type)
		}
	}
	return c
}

type ident struct{ class, name string }

func identsOf(s *m.Schema) []ident {
	seen := map[ident]bool{}
	var out []ident
	add := func(class, n string) {
		k := ident{class, n}
		if n != "" && n != "deprecated" && n != "reason" && !seen[k] {
			seen[k] = true
			out = append(out, k)
		}
	}
	app := func(ds []m.Applied) {
		for _, d := range ds {
			if d.Name == "deprecated" {
				continue
			}
			add("directive", d.Name)
			for _, a := range d.Args {
				add("dirarg", a.K)
			}
		}
	}
	for _, t := range s.Types {
		add("type", t.Name)
		for _, x := range append(append([]string{}, t.Ifaces...), t.Members...) {
			add("type", x)
		}
		app(t.Dirs)
		for _, v := range t.Values {
			add("value", v.Name)
			app(v.Dirs)
		}
		for _, f := range t.Fields {
			add("field", f.Name)
			add("type", strings.Trim(f.Type, "[]!"))
			app(f.Dirs)
			for _, a := range f.Args {
				add("arg", a.Name)
			}
		}
	}
	for _, d := range s.Dirs {
		add("directive", d.Name)
		for _, a := range d.Args {
			add("dirarg", a.Name)
		}
	}
	return out
}

// wellFormed: no duplicates, no forbidden names
func wellFormed(s *m.Schema) bool {
	defs := map[string]bool{}
	content := map[string]bool{}
	once := func(k string) bool {
		if content[k] {
			return false
		}
		content[k] = true
		return true
	}
	for _, t := range s.Types {
		if !t.Ext {
			if defs[t.Name] {
				return false
			}
			defs[t.Name] = true
		}
		for _, f := range t.Fields {
			if !once("f:" + t.Name + "." + f.Name) {
				return false
			}
			for _, a := range f.Args {
				if !once("f:" + t.Name + "." + f.Name + "." + a.Name) {
					return false
				}
			}
			if !applOK(f.Dirs) {
				return false
			}
		}
		for _, v := range t.Values {
			if !once("v:"+t.Name+"."+v.Name) || badEnumName(v.Name) || !applOK(v.Dirs) {
				return false
			}
		}
		for _, x := range t.Members {
			if !once("m:" + t.Name + "." + x) {
				return false
			}
		}
		for _, x := range t.Ifaces {
			if !once("i:" + t.Name + "." + x) {
				return false
			}
		}
		if !applOK(t.Dirs) {
			return false
		}
	}
	for _, d := range s.Dirs {
		if !once("d:" + d.Name) {
			return false
		}
		for _, a := range d.Args {
			if !once("d:" + d.Name + "." + a.Name) {
				return false
			}
		}
	}
	return true
}

func applOK(ds []m.Applied) bool {
	dep := 0
	for _, d := range ds {
		if d.Name == "deprecated" {
			dep++
			for _, a := range d.Args {
				if a.K != "reason" {
					return false
				}
			}
		}
		args := map[string]bool{}
		for _, a := range d.Args {
			if args[a.K] {
				return false
			}
			args[a.K] = true
		}
	}
	return dep <= 1
}

// neighbourhood: all the distinct well-formed schemas one step away
func neighbourhood(base *m.Schema, steps []Step) ([]*m.Schema, []string) {
	seen := map[uint64]bool{h64(m.Render(base).Text()): true}
	var out []*m.Schema
	var names []string
	for _, st := range steps {
		c := base.Clone()
		if !st.Do(c) || !wellFormed(c) {
			continue
		}
		k := h64(m.Render(c).Text())
		if seen[k] {
			continue
		}
		seen[k] = true
		if validDoc(c) == nil {
			continue
		}
		out = append(out, c)
		names = append(names, st.Name)
	}
	return out, names
}

// exploreSteps: (a) all ordered pairs of schemas at most one step from the base; (b) for every schema A one step from the
// base (and the base), all schemas one further step from A, in both directions.
func exploreSteps(r *e.Run, name string, base *m.Schema, extra []Step, o StepOpt, check func(w *e.W, o, n *Doc) (string, []Got)) {
	if r.Stopped() {
		return
	}
	steps := append(genSteps(base, o), extra...)
	near, _ := neighbourhood(base, steps)
	near = append([]*m.Schema{base}, near...)
	explorePairs(r, []Universe{{Name: name + ": all pairs at most one step from the base", S: near}}, check)
	if r.Stopped() {
		return
	}
	exploreFrom(r, name+": one step from every neighbour of the base", near, func(s *m.Schema) []Step { return append(genSteps(s, o), extra...) }, true, check)
}

// exploreFrom: for every start, all schemas one step away; back: the reverse direction too
func exploreFrom(r *e.Run, name string, starts []*m.Schema, stepsOf func(*m.Schema) []Step, back bool, check func(w *e.W, o, n *Doc) (string, []Got)) {
	if r.Stopped() {
		return
	}
	counts := make([]int, len(starts))
	r.Par(int64(len(starts)), func(w *e.W, i int64) {
		a := starts[i]
		da := mkDoc(a)
		seen := map[uint64]bool{h64(da.R.Text()): true}
		for j, st := range stepsOf(a) {
			if r.Stopped() {
				return
			}
			c := a.Clone()
			if !st.Do(c) || !wellFormed(c) {
				continue
			}
			rn := m.Render(c)
			k := h64(rn.Text())
			if seen[k] {
				continue
			}
			seen[k] = true
			dc := validDoc(c)
			if dc == nil {
				continue
			}
			counts[i]++
			for dir := 0; dir < 2; dir++ {
				o, n := da, dc
				if dir == 1 {
					if !back {
						break
					}
					o, n = dc, da
				}
				w.Case(func() string { return name + ": " + st.Name + "\n--- old\n" + o.R.Text() + "\n--- new\n" + n.R.Text() })
				why, got := check(w, o, n)
				r.AddTransitions(1)
				r.AddTraces(1)
				w.Outcome(outcomeOf(got))
				if why != "" {
					rep := pairReplay(o, n, why, got)
					rep["space"], rep["step"] = name, st.Name
					r.Violate(i*10000+int64(2*j+dir), "pair:"+fmt.Sprintf("%x", h64(o.R.Text()+"\x00"+n.R.Text())), fmt.Sprintf("%s\n(%s)\n--- old\n%s--- new\n%s", why, st.Name, clipS(o.R.Text(), 900), clipS(n.R.Text(), 900)), rep)
				}
			}
		}
	})
	total := 0
	for _, c := range counts {
		total += c
	}
	r.AddStates(total)
	r.Space(name, "start_schemas", len(starts), "successors", total)
}

// exploreNames: every identifier of the base replaced everywhere by every special name and by every other identifier of
// the base, and from each of these schemas every step (whose added and renamed elements have the given names); and from
// the base, every step with all special names.
func exploreNames(r *e.Run, name string, base *m.Schema, extra []Step, check func(w *e.W, o, n *Doc) (string, []Got)) {
	ids := identsOf(base)
	var own []string
	for _, id := range ids {
		own = append(own, id.name)
	}
	all := append(append([]string{}, specialNames...), own...)
	var starts []*m.Schema
	for _, id := range ids {
		for _, n := range all {
			if n == id.name {
				continue
			}
			c := renamedEverywhere(base, id.class, id.name, n)
			if wellFormed(c) && validDoc(c) != nil {
				starts = append(starts, c)
			}
		}
	}
	starts = dedupe(starts)
	o := tinyOpt
	exploreFrom(r, name+": every identifier renamed to every special name, every step", starts, func(s *m.Schema) []Step { return append(genSteps(s, o), extra...) }, true, check)
	o2 := tinyOpt
	o2.Names = all
	o2.Types, o2.InTypes = append(specialTypes, tinyOpt.Types...), append(specialTypes, tinyOpt.InTypes...)
	o2.Defaults = literals
	o2.Descs = descriptions
	o2.Values = literals[1:]
	exploreFrom(r, name+": every step with every special name, type, literal and description", []*m.Schema{base}, func(s *m.Schema) []Step { return append(genSteps(s, o2), extra...) }, true, check)
}

// --- base schemas

func kernelTypes() *m.Schema {
	return &m.Schema{Roots: []m.Root{{Ops: []m.KV{kv("query", "Q"), kv("mutation", "M")}}}, Types: []m.Type{
		{Kind: m.Object, Name: "Q", Desc: "d0", Fields: []m.Field{fld("f", "Int")}},
		{Kind: m.Object, Name: "M", Fields: []m.Field{fld("f", "Int")}},
		{Kind: m.Enum, Name: "E", Ext: true, Values: []m.Value{{Name: "V"}}},
		{Kind: m.Union, Name: "U", Members: []string{"Q", "M"}},
		{Kind: m.Scalar, Name: "S", Desc: "d0"},
		{Kind: m.Input, Name: "I", Fields: []m.Field{fld("f", "Int")}},
		{Kind: m.Input, Name: "I", Ext: true, Fields: []m.Field{fld("g", "Int")}},
	}}
}

func kernelRoots() *m.Schema {
	t := func(n string) m.Type { return m.Type{Kind: m.Object, Name: n, Fields: []m.Field{fld("f", "Int")}} }
	return &m.Schema{Roots: []m.Root{{Ops: []m.KV{kv("query", "Query")}}, {Ext: true, Ops: []m.KV{kv("subscription", "S")}}},
		Types: []m.Type{t("Query"), t("Mutation"), t("S")}}
}

func kernelFields(kind string) *m.Schema {
	return &m.Schema{Types: []m.Type{
		{Kind: kind, Name: "T", Fields: []m.Field{
			{Name: "f", Type: "Int", Args: []m.Arg{{Name: "x", Type: "Int", Desc: "d0"}, {Name: "y", Type: "Int!", Default: "1"}}},
			{Name: "g", Type: "[T!]!", Desc: "d0", Dirs: []m.Applied{ap("deprecated", "reason", `"r0"`)}, Args: []m.Arg{{Name: "x", Type: "[Int]"}}},
		}},
		{Kind: kind, Name: "T", Ext: true, Fields: []m.Field{{Name: "h", Type: "Int!", Args: []m.Arg{{Name: "x", Type: "Int!"}}}}},
	}}
}

func kernelInputs() *m.Schema {
	return &m.Schema{Types: []m.Type{
		{Kind: m.Input, Name: "T", Fields: []m.Field{
			{Name: "f", Type: "Int", Desc: "d0"},
			{Name: "g", Type: "[Int!]!", Default: "[1]"},
			{Name: "h", Type: "T", Dirs: []m.Applied{ap("deprecated")}},
		}},
		{Kind: m.Input, Name: "T", Ext: true, Fields: []m.Field{{Name: "i", Type: "Int!"}}},
		{Kind: m.Input, Name: "J", Fields: []m.Field{{Name: "f", Type: "Int", Default: "1"}}},
	}}
}

func kernelSets() *m.Schema {
	return &m.Schema{Types: []m.Type{
		{Kind: m.Enum, Name: "E", Values: []m.Value{{Name: "A", Desc: "d0"}, {Name: "B", Dirs: []m.Applied{ap("deprecated", "reason", `"r0"`)}}}},
		{Kind: m.Enum, Name: "E", Ext: true, Values: []m.Value{{Name: "C"}}},
		{Kind: m.Union, Name: "U", Members: []string{"O", "P"}},
		{Kind: m.Union, Name: "U", Ext: true, Members: []string{"Q"}},
		{Kind: m.Object, Name: "O", Ifaces: []string{"I", "J"}, Fields: []m.Field{fld("f", "Int")}},
		{Kind: m.Object, Name: "O", Ext: true, Ifaces: []string{"K"}, Fields: []m.Field{fld("g", "Int")}},
	}}
}

func kernelDirDefs() *m.Schema {
	return &m.Schema{Dirs: []m.DirDef{
		{Name: "d", Desc: "d0", Args: []m.Arg{{Name: "x", Type: "Int", Desc: "d0"}, {Name: "y", Type: "[Int!]!", Default: "[1]"}}, Locs: []string{"FIELD", "ENUM"}},
		{Name: "e", Repeatable: true, Args: []m.Arg{{Name: "x", Type: "Int!"}}, Locs: []string{"OBJECT"}},
		{Name: "f", Locs: []string{"FIELD"}},
	}}
}

func kernelApplied() *m.Schema {
	return &m.Schema{Types: []m.Type{
		{Kind: m.Object, Name: "T", Dirs: []m.Applied{ap("a", "x", "1", "y", "2"), ap("b"), ap("b", "x", "1")}, Fields: []m.Field{
			{Name: "f", Type: "Int", Dirs: []m.Applied{ap("a", "x", "1", "y", "[1,2]"), ap("a", "x", "3", "y", "4"), ap("a", "x", "5", "y", "6")}},
			{Name: "g", Type: "Int", Dirs: []m.Applied{ap("deprecated", "reason", `"r0"`), ap("b")}},
		}},
		{Kind: m.Object, Name: "T", Ext: true, Dirs: []m.Applied{ap("a", "x", "1")}, Fields: []m.Field{{Name: "h", Type: "Int", Dirs: []m.Applied{ap("c", "x", "{a:1}")}}}},
		{Kind: m.Input, Name: "I", Fields: []m.Field{{Name: "f", Type: "Int", Dirs: []m.Applied{ap("a", "x", "1"), ap("deprecated")}}}},
		{Kind: m.Interface, Name: "N", Dirs: []m.Applied{ap("a", "x", "1")}, Fields: []m.Field{{Name: "f", Type: "Int", Dirs: []m.Applied{ap("b")}}}},
		{Kind: m.Enum, Name: "E", Values: []m.Value{{Name: "A", Dirs: []m.Applied{ap("deprecated")}}, {Name: "B", Dirs: []m.Applied{ap("a", "x", "1")}}}},
	}}
}

type kernel struct {
	name  string
	s     *m.Schema
	extra []Step
}

func kernels() map[string][]kernel {
	return map[string][]kernel{
		"C03": {{"types", kernelTypes(), nil}, {"roots", kernelRoots(), rootSteps([]string{"Query", "Mutation", "S"})}},
		"C04": {{"object fields", kernelFields(m.Object), nil}, {"interface fields", kernelFields(m.Interface), nil}},
		"C05": {{"input fields", kernelInputs(), nil}},
		"C06": {{"enums, unions, interfaces", kernelSets(), nil}},
		"C07": {{"directive definitions", kernelDirDefs(), nil}},
		"C08": {{"applied directives", kernelApplied(), nil}},
	}
}

func exploreKernels(r *e.Run, prop string, check func(w *e.W, o, n *Doc) (string, []Got)) {
	for _, k := range kernels()[prop] {
		exploreSteps(r, k.name, k.s, k.extra, smallOpt, check)
		exploreTwo(r, k.name, k.s, append(genSteps(k.s, smallOpt), k.extra...), check)
		exploreNames(r, k.name, k.s, k.extra, check)
		explorePadded(r, k.name, k.s, k.extra, check)
		exploreRewritten(r, k.name, k.s, append(genSteps(k.s, smallOpt), k.extra...), check)
		if o := tinyOpt; prop != "C08" || r.Thorough() {
			o.Light = !r.Thorough() || prop == "C08"
			exploreThree(r, k.name, k.s, append(genSteps(k.s, o), k.extra...), check)
		}
	}
}

// exploreTwo: from the base to the base with every pair of steps, both directions
func exploreTwo(r *e.Run, name string, base *m.Schema, steps []Step, check func(w *e.W, o, n *Doc) (string, []Got)) {
	near, names := neighbourhood(base, steps)
	by := map[string]Step{}
	for _, st := range steps {
		by[st.Name] = st
	}
	counts := make([]int, len(near))
	bases := make([]*Doc, r.Workers)
	r.Par(int64(len(near)), func(w *e.W, i int64) {
		if bases[w.ID] == nil {
			bases[w.ID] = mkDoc(base)
		}
		db := bases[w.ID]
		for j := int(i) + 1; j < len(near); j++ {
			if r.Stopped() {
				return
			}
			c := near[i].Clone()
			if !by[names[j]].Do(c) || !wellFormed(c) {
				c = near[j].Clone()
				if !by[names[i]].Do(c) || !wellFormed(c) {
					continue
				}
			}
			dc := validDoc(c)
			if dc == nil {
				continue
			}
			counts[i]++
			for dir := 0; dir < 2; dir++ {
				o, n := db, dc
				if dir == 1 {
					o, n = dc, db
				}
				w.Case(func() string {
					return name + ": " + names[i] + " + " + names[j] + "\n--- old\n" + o.R.Text() + "\n--- new\n" + n.R.Text()
				})
				why, got := check(w, o, n)
				r.AddTransitions(1)
				r.AddTraces(1)
				w.Outcome(outcomeOf(got))
				if why != "" {
					rep := pairReplay(o, n, why, got)
					rep["space"], rep["steps"] = name, []string{names[i], names[j]}
					r.Violate(i*10000+int64(2*j+dir), "pair:"+fmt.Sprintf("%x", h64(o.R.Text()+"\x00"+n.R.Text())), fmt.Sprintf("%s\n(%s + %s)\n--- old\n%s--- new\n%s", why, names[i], names[j], clipS(o.R.Text(), 900), clipS(n.R.Text(), 900)), rep)
				}
			}
		}
	})
	total := 0
	for _, c := range counts {
		total += c
	}
	r.AddStates(total)
	r.Space(name+": every pair of steps at once, both directions", "steps", len(near), "schemas", total)
}

// allKernels: the neighbourhoods of all kernels (without the name substitutions)
func allKernels(r *e.Run, o StepOpt, check func(w *e.W, o, n *Doc) (string, []Got)) {
	ks := kernels()
	for _, p := range sortedKeys(ks) {
		for _, k := range ks[p] {
			exploreSteps(r, k.name, k.s, k.extra, o, check)
		}
	}
}

// exploreRewritten: from the base, every schema one step away in another layout (order, extension blocks, files), both directions
func exploreRewritten(r *e.Run, name string, base *m.Schema, steps []Step, check func(w *e.W, o, n *Doc) (string, []Got)) {
	if r.Stopped() {
		return
	}
	near, names := neighbourhood(base, steps)
	bases := make([]*Doc, r.Workers)
	counts := make([]int, r.Workers)
	r.Par(int64(len(near)), func(w *e.W, i int64) {
		if bases[w.ID] == nil {
			bases[w.ID] = mkDoc(base)
		}
		k := int64(0)
		rewritings(near[i], func(what string, v *m.Schema) {
			if r.Stopped() || !wellFormed(v) {
				return
			}
			x := renderAny(v)
			a, err := parse(x)
			if err != nil {
				panic(err)
			}
			d := &Doc{S: v, R: x, A: a}
			counts[w.ID]++
			for dir := 0; dir < 2; dir++ {
				o, n := bases[w.ID], d
				if dir == 1 {
					o, n = d, o
				}
				k++
				w.Case(func() string {
					return name + ": " + names[i] + ", " + what + "\n--- old\n" + o.R.Text() + "\n--- new\n" + n.R.Text()
				})
				why, got := check(w, o, n)
				r.AddTransitions(1)
				r.AddTraces(1)
				w.Outcome(outcomeOf(got))
				if why != "" {
					rep := pairReplay(o, n, why, got)
					rep["space"], rep["step"], rep["layout"] = name, names[i], what
					r.Violate(i*10000+k, "pair:"+fmt.Sprintf("%x", h64(o.R.Text()+"\x00"+n.R.Text())), fmt.Sprintf("%s\n(%s, %s)\n--- old\n%s--- new\n%s", why, names[i], what, clipS(o.R.Text(), 900), clipS(n.R.Text(), 900)), rep)
				}
			}
		})
	})
	total := 0
	for _, c := range counts {
		total += c
	}
	r.AddStates(total)
	r.Space(name+": every step in every layout, both directions", "steps", len(near), "schemas", total)
}

// exploreThree: from the base to the base with every three steps, both directions
func exploreThree(r *e.Run, name string, base *m.Schema, steps []Step, check func(w *e.W, o, n *Doc) (string, []Got)) {
	if r.Stopped() {
		return
	}
	near, names := neighbourhood(base, steps)
	by := map[string]Step{}
	for _, st := range steps {
		by[st.Name] = st
	}
	bases := make([]*Doc, r.Workers)
	counts := make([]int, r.Workers)
	nn := int64(len(near))
	r.Par(nn*nn, func(w *e.W, ij int64) {
		i, j := ij/nn, ij%nn
		if j <= i {
			return
		}
		if bases[w.ID] == nil {
			bases[w.ID] = mkDoc(base)
		}
		two := near[i].Clone()
		if !by[names[j]].Do(two) || !wellFormed(two) {
			return
		}
		for k := j + 1; k < nn; k++ {
			if r.Stopped() {
				return
			}
			c := two.Clone()
			if !by[names[k]].Do(c) || !wellFormed(c) {
				continue
			}
			d := validDoc(c)
			if d == nil {
				continue
			}
			counts[w.ID]++
			for dir := 0; dir < 2; dir++ {
				o, n := bases[w.ID], d
				if dir == 1 {
					o, n = d, o
				}
				w.Case(func() string {
					return name + ": " + names[i] + " + " + names[j] + " + " + names[k] + "\n--- old\n" + o.R.Text() + "\n--- new\n" + n.R.Text()
				})
				why, got := check(w, o, n)
				r.AddTransitions(1)
				r.AddTraces(1)
				w.Outcome(outcomeOf(got))
				if why != "" {
					rep := pairReplay(o, n, why, got)
					rep["space"], rep["steps"] = name, []string{names[i], names[j], names[k]}
					r.Violate(ij*nn*2+2*k+int64(dir), "pair:"+fmt.Sprintf("%x", h64(o.R.Text()+"\x00"+n.R.Text())), fmt.Sprintf("%s\n(%s + %s + %s)\n--- old\n%s--- new\n%s", why, names[i], names[j], names[k], clipS(o.R.Text(), 900), clipS(n.R.Text(), 900)), rep)
				}
			}
		}
	})
	total := 0
	for _, c := range counts {
		total += c
	}
	r.AddStates(total)
	r.Space(name+": every three steps at once, both directions", "steps", len(near), "schemas", total)
}

// padded: every list of the schema which has an element gets k further elements, before or behind
func padded(base *m.Schema, k int, front bool) *m.Schema {
	s := base.Clone()
	names := func(cap bool) []string {
		out := make([]string, k)
		for i := range out {
			out[i] = fmt.Sprintf("p%d", (i*7)%k)
			if k%7 == 0 {
				out[i] = fmt.Sprintf("p%d", k-i)
			}
			if cap {
				out[i] = strings.ToUpper(out[i])
			}
		}
		return out
	}
	for i := range s.Types {
		t := &s.Types[i]
		tag := fmt.Sprint(i) // the blocks of a type must not have elements in common
		app := func(l []m.Applied) []m.Applied {
			if len(l) == 0 {
				return l
			}
			var more []m.Applied
			for _, n := range names(false) {
				more = append(more, ap("d"+n, "x", "1"))
			}
			return pad(l, more, front)
		}
		t.Dirs = app(t.Dirs)
		if len(t.Fields) > 0 {
			for j := range t.Fields {
				f := &t.Fields[j]
				f.Dirs = app(f.Dirs)
				if len(f.Args) > 0 {
					var more []m.Arg
					for _, n := range names(false) {
						more = append(more, m.Arg{Name: n, Type: "Int"})
					}
					f.Args = pad(f.Args, more, front)
				}
			}
			var more []m.Field
			for _, n := range names(false) {
				more = append(more, fld(n+"_"+tag, "Int"))
			}
			t.Fields = pad(t.Fields, more, front)
		}
		if len(t.Values) > 0 {
			for j := range t.Values {
				t.Values[j].Dirs = app(t.Values[j].Dirs)
			}
			var more []m.Value
			for _, n := range names(true) {
				more = append(more, m.Value{Name: n + "_" + tag})
			}
			t.Values = pad(t.Values, more, front)
		}
		var more []string
		for _, n := range names(true) {
			more = append(more, n+"_"+tag)
		}
		if len(t.Members) > 0 {
			t.Members = pad(t.Members, more, front)
		}
		if len(t.Ifaces) > 0 {
			t.Ifaces = pad(t.Ifaces, more, front)
		}
	}
	if len(s.Types) > 0 {
		var more []m.Type
		for _, n := range names(true) {
			more = append(more, body(m.Object, n, ""))
		}
		s.Types = pad(s.Types, more, front)
	}
	for i := range s.Dirs {
		d := &s.Dirs[i]
		if len(d.Args) > 0 {
			var more []m.Arg
			for _, n := range names(false) {
				more = append(more, m.Arg{Name: n, Type: "Int"})
			}
			d.Args = pad(d.Args, more, front)
		}
	}
	if len(s.Dirs) > 0 {
		var more []m.DirDef
		for _, n := range names(false) {
			more = append(more, m.DirDef{Name: n, Locs: []string{"FIELD"}})
		}
		s.Dirs = pad(s.Dirs, more, front)
	}
	return s
}

func pad[T any](l, more []T, front bool) []T {
	if front {
		return append(append([]T{}, more...), l...)
	}
	return append(append([]T{}, l...), more...)
}

// explorePadded: the steps of the base, among many further elements
func explorePadded(r *e.Run, name string, base *m.Schema, extra []Step, check func(w *e.W, o, n *Doc) (string, []Got)) {
	var starts []*m.Schema
	for _, k := range []int{1, 2, 3, 4, 5, 7, 8, 9, 11, 12, 16, 17, 33, 65} {
		if k > 40 && !r.Thorough() {
			break
		}
		for _, front := range []bool{false, true} {
			if s := padded(base, k, front); wellFormed(s) && validDoc(s) != nil {
				starts = append(starts, s)
			} else {
				panic("padded " + m.Render(s).Text())
			}
		}
	}
	exploreFrom(r, name+": every step among 1 to 33 (thorough: 65) further elements of every list", starts, func(*m.Schema) []Step { return append(genSteps(base, smallOpt), extra...) }, true, check)
	for _, k := range []int{2, 3, 8} {
		exploreTwo(r, fmt.Sprintf("%s among %d further elements", name, k), padded(base, k, k != 3), append(genSteps(base, tinyOpt), extra...), check)
	}
}
