package main

import (
	"fmt"
	"strings"

	e "verifmc/engine"
	m "verifmc/model"
)

// relatedNames: one name in every relation to another one which something could confuse it with (case, affixes, parts,
// length, reversal, one character more, less or other, everything but the last or first character of a long name)
var relatedNames = func() []string {
	out := strings.Fields(`User user USER uSER Users Usert Xser Ussr Usr Use Us U ser resU UserUser UserType TypeUser UserInput InputUser UserV2 UserV1 NewUser UserNew OldUser
 UserOld User_ _User __User User1 User2 User10 User01 UserInterface IUser UserEnum UserId UserID User_Id AUserB QueryType MutationType Queries RootQuery QueryRoot query mutation_`)
	long := strings.Repeat("abcdefgh", 40)
	for _, n := range []int{15, 31, 63, 127, 255} {
		out = append(out, long[:n], long[:n]+"X", long[:n]+"Y", "X"+long[:n], "Y"+long[:n])
	}
	return out
}()

func uniq(l []string) []string {
	seen := map[string]bool{}
	var out []string
	for _, s := range l {
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	return out
}

// nameSlot builds a schema whose elements of one class have the names.
type nameSlot struct {
	name  string
	build func(names ...string) *m.Schema
}

func each(names []string, f func(n string)) {
	for _, n := range names {
		f(n)
	}
}

func nameSlots(prop string) []nameSlot {
	var out []nameSlot
	add := func(name string, build func(s *m.Schema, n string)) {
		out = append(out, nameSlot{name, func(names ...string) *m.Schema {
			s := &m.Schema{}
			each(names, func(n string) { build(s, n) })
			return s
		}})
	}
	one := func(name string, t m.Type, build func(t *m.Type, n string)) {
		out = append(out, nameSlot{name, func(names ...string) *m.Schema {
			s := &m.Schema{Types: []m.Type{t}}
			c := s.Clone()
			each(names, func(n string) { build(&c.Types[0], n) })
			return c
		}})
	}
	switch prop {
	case "C03":
		for _, k := range m.AllKinds {
			add(k+" types", func(s *m.Schema, n string) { s.Types = append(s.Types, body(k, n, "")) })
		}
		add("type extensions", func(s *m.Schema, n string) {
			t := body(m.Object, n, "")
			t.Ext = true
			s.Types = append(s.Types, t)
		})
		out = append(out, nameSlot{"root types", func(names ...string) *m.Schema {
			s := &m.Schema{Roots: []m.Root{{}}}
			for i, n := range names {
				s.Roots[0].Ops = append(s.Roots[0].Ops, kv([]string{"query", "mutation"}[i], n))
			}
			return s
		}})
	case "C04":
		one("object fields", m.Type{Kind: m.Object, Name: "T"}, func(t *m.Type, n string) { t.Fields = append(t.Fields, fld(n, "Int")) })
		one("interface fields", m.Type{Kind: m.Interface, Name: "T"}, func(t *m.Type, n string) { t.Fields = append(t.Fields, fld(n, "Int")) })
		one("arguments", m.Type{Kind: m.Object, Name: "T", Fields: []m.Field{fld("f", "Int")}}, func(t *m.Type, n string) {
			t.Fields[0].Args = append(t.Fields[0].Args, m.Arg{Name: n, Type: "Int"})
		})
		one("required arguments", m.Type{Kind: m.Interface, Name: "T", Fields: []m.Field{fld("f", "Int")}}, func(t *m.Type, n string) {
			t.Fields[0].Args = append(t.Fields[0].Args, m.Arg{Name: n, Type: "Int!"})
		})
	case "C05":
		one("input fields", m.Type{Kind: m.Input, Name: "T"}, func(t *m.Type, n string) { t.Fields = append(t.Fields, fld(n, "Int")) })
		one("required input fields", m.Type{Kind: m.Input, Name: "T"}, func(t *m.Type, n string) { t.Fields = append(t.Fields, fld(n, "Int!")) })
	case "C06":
		one("enum values", m.Type{Kind: m.Enum, Name: "T"}, func(t *m.Type, n string) { t.Values = append(t.Values, m.Value{Name: n}) })
		one("members", m.Type{Kind: m.Union, Name: "T"}, func(t *m.Type, n string) { t.Members = append(t.Members, n) })
		one("interfaces", m.Type{Kind: m.Object, Name: "T", Fields: []m.Field{fld("f", "Int")}}, func(t *m.Type, n string) { t.Ifaces = append(t.Ifaces, n) })
	case "C07":
		add("directives", func(s *m.Schema, n string) { s.Dirs = append(s.Dirs, m.DirDef{Name: n, Locs: []string{"FIELD"}}) })
		for _, typ := range []string{"Int", "Int!"} {
			out = append(out, nameSlot{"directive arguments " + typ, func(names ...string) *m.Schema {
				d := m.DirDef{Name: "d", Locs: []string{"FIELD"}}
				each(names, func(n string) { d.Args = append(d.Args, m.Arg{Name: n, Type: typ}) })
				return &m.Schema{Dirs: []m.DirDef{d}}
			}})
		}
	case "C08":
		for _, pos := range []string{"object", "object field", "input field"} {
			out = append(out, nameSlot{"directives on " + pos, func(names ...string) *m.Schema {
				var ds []m.Applied
				each(names, func(n string) { ds = append(ds, ap(n)) })
				return withDirs(pos, ds)
			}}, nameSlot{"arguments of directives on " + pos, func(names ...string) *m.Schema {
				a := m.Applied{Name: "d"}
				each(names, func(n string) { a.Args = append(a.Args, kv(n, "1")) })
				return withDirs(pos, []m.Applied{a})
			}})
		}
	}
	return out
}

// exploreNamePairs: for all ordered pairs of names X, Y: X becomes Y; Y is added to X, before or behind it; and both removed again.
func exploreNamePairs(r *e.Run, prop string, check func(w *e.W, o, n *Doc) (string, []Got)) {
	names := uniq(append(append([]string{}, specialNames...), relatedNames...))
	for _, sl := range nameSlots(prop) {
		if r.Stopped() {
			return
		}
		var ok []string
		for _, n := range names {
			if s := sl.build(n); wellFormed(s) && validDoc(s) != nil {
				ok = append(ok, n)
			}
		}
		space := "all pairs of names of " + sl.name
		nn := int64(len(ok))
		ones := make([][]*Doc, r.Workers)
		r.Par(nn*nn, func(w *e.W, i int64) {
			x, y := i/nn, i%nn
			if x == y {
				return
			}
			if ones[w.ID] == nil {
				ones[w.ID] = make([]*Doc, nn)
			}
			get := func(k int64) *Doc {
				if ones[w.ID][k] == nil {
					ones[w.ID][k] = mkDoc(sl.build(ok[k]))
				}
				return ones[w.ID][k]
			}
			try := func(k int, o, n *Doc) {
				w.Case(func() string { return space + "\n--- old\n" + o.R.Text() + "\n--- new\n" + n.R.Text() })
				why, got := check(w, o, n)
				r.AddTransitions(1)
				r.AddTraces(1)
				w.Outcome(outcomeOf(got))
				if why != "" {
					rep := pairReplay(o, n, why, got)
					rep["space"] = space
					r.Violate(i*4+int64(k), "pair:"+fmt.Sprintf("%x", h64(o.R.Text()+"\x00"+n.R.Text())), fmt.Sprintf("%s\n--- old\n%s--- new\n%s", why, clipS(o.R.Text(), 700), clipS(n.R.Text(), 700)), rep)
				}
			}
			dx, dy := get(x), get(y)
			try(0, dx, dy)
			s := sl.build(ok[x], ok[y])
			if !wellFormed(s) {
				return
			}
			if both := validDoc(s); both != nil {
				try(1, dx, both)
				try(2, dy, both)
				try(3, both, dx)
				try(4, both, dy)
			}
		})
		r.AddStates(int(nn * nn))
		r.Space(space, "names", nn, "schemas", nn*nn)
	}
}

// refNames: all pairs of differently (and equally) named types in references of every small shape
func refNames(r *e.Run) {
	few := uniq(strings.Fields("Int Float String Boolean ID Date JSON Any Query Node T t A a User user Users UserInput IUser _Any __Type"))
	many := uniq(append(append([]string{}, specialNames...), relatedNames...))
	shapes := []string{"%s", "%s!", "[%s]", "[%s]!", "[%s!]", "[%s!]!"}
	for _, pos := range refPositions {
		for _, sp := range []struct {
			what   string
			names  []string
			shapes []string
		}{{"types of special names in every shape", few, shapes}, {"special names", many, []string{"%s", "[%s!]"}}} {
			var refs []string
			for _, n := range sp.names {
				for _, s := range sp.shapes {
					refs = append(refs, fmt.Sprintf(s, n))
				}
			}
			u := Universe{Name: pos + ": references to " + sp.what}
			for _, t := range refs {
				u.S = append(u.S, withRef(pos, t))
			}
			explorePairs(r, []Universe{u}, refCheck)
		}
	}
}
