package main

import (
	"fmt"
	"strings"

	"github.com/CrowdStrike/gql/pkg/compare"

	e "verifmc/engine"
	m "verifmc/model"
)

// decoration: attributes given to every element of a schema at once. Apart from the default values none of them has a
// say in which operations are valid.
type decoration struct {
	desc string
	depr int // 0 no, 1 plain, 2 with a reason, 3 an empty reason
	k    int // applications of a custom directive
	def  int // 1: every optional input of a known type has a default value, 2: every input has, 3: none has
	ext  int // 1: every type is declared with its first element only, the others come with an extension
}

func (d decoration) String() string {
	return fmt.Sprintf("desc=%q deprecated=%d custom=%d defaults=%d extension=%d", d.desc, d.depr, d.k, d.def, d.ext)
}

func defaultFor(t string) string {
	base := strings.TrimSuffix(t, "!")
	switch {
	case strings.HasPrefix(base, "["):
		return "[]"
	case base == "Int":
		return "4"
	case base == "Float":
		return "4.5"
	case base == "ID", base == "String":
		return `"s"`
	case base == "E":
		return "A"
	case base == "In":
		return "{r: 5}"
	}
	return ""
}

func (d decoration) apply(s *m.Schema) *m.Schema {
	c := s.Clone()
	dirs := func(deprecatable bool) []m.Applied {
		var l []m.Applied
		for i := 0; i < d.k; i++ {
			l = append(l, ap("k", "v", fmt.Sprint(i)))
		}
		if deprecatable {
			switch d.depr {
			case 1:
				l = append(l, ap("deprecated"))
			case 2:
				l = append(l, ap("deprecated", "reason", `"r"`))
			case 3:
				l = append(l, ap("deprecated", "reason", `""`))
			}
		}
		return l
	}
	def := func(typ, old string) string {
		x := defaultFor(typ)
		switch {
		case d.def == 3:
			return ""
		case old != "" || d.def == 0:
			return old
		case d.def == 1 && m.NonNull(typ):
			return ""
		}
		return x
	}
	args := func(l []m.Arg) {
		for i := range l {
			l[i].Desc, l[i].Dirs, l[i].Default = d.desc, dirs(true), def(l[i].Type, l[i].Default)
		}
	}
	for i := range c.Types {
		t := &c.Types[i]
		if !t.Ext {
			t.Desc = d.desc
		}
		if t.Kind != m.Union && t.Kind != m.Enum {
			t.Dirs = dirs(false)
		}
		for j := range t.Fields {
			f := &t.Fields[j]
			f.Desc, f.Dirs = d.desc, dirs(true)
			args(f.Args)
			if t.Kind == m.Input {
				f.Default = def(f.Type, f.Default)
			}
		}
		for j := range t.Values {
			t.Values[j].Desc, t.Values[j].Dirs = d.desc, dirs(true)
		}
	}
	for i := range c.Dirs {
		c.Dirs[i].Desc = d.desc
		args(c.Dirs[i].Args)
	}
	if d.ext == 1 {
		var more []m.Type
		for i := range c.Types {
			t := &c.Types[i]
			if t.Ext {
				continue
			}
			x := m.Type{Kind: t.Kind, Name: t.Name, Ext: true}
			if len(t.Fields) > 1 {
				x.Fields, t.Fields = t.Fields[1:], t.Fields[:1:1]
			}
			if len(t.Values) > 1 {
				x.Values, t.Values = t.Values[1:], t.Values[:1:1]
			}
			if len(t.Members) > 1 {
				x.Members, t.Members = t.Members[1:], t.Members[:1:1]
			}
			if len(x.Fields)+len(x.Values)+len(x.Members) > 0 {
				more = append(more, x)
			}
		}
		c.Types = append(c.Types, more...)
	}
	c.Dirs = append(c.Dirs, m.DirDef{Name: "k", Repeatable: true, Args: []m.Arg{{Name: "v", Type: "Int"}}, Locs: []string{"OBJECT", "INTERFACE", "SCALAR", "INPUT_OBJECT", "FIELD_DEFINITION", "INPUT_FIELD_DEFINITION", "ENUM_VALUE", "ARGUMENT_DEFINITION"}})
	return c
}

func decorations(full bool) []decoration {
	var out []decoration
	for _, desc := range []string{"", "d"} {
		for _, depr := range []int{0, 1, 2, 3} {
			for k := 0; k <= 2; k++ {
				for def := 0; def <= 3; def++ {
					for ext := 0; ext <= 1; ext++ {
						if !full && (depr == 3 || k == 2 || def == 1) {
							continue
						}
						out = append(out, decoration{desc, depr, k, def, ext})
					}
				}
			}
		}
	}
	return out
}

// decoratedClient: every decoration of every schema at most one edit away from the client schema, compared (both ways)
// with every decoration of the client schema.
func decoratedClient(r *e.Run, near []*cstate) {
	if r.Stopped() {
		return
	}
	ops := clientOps()
	ds := decorations(r.Thorough())
	type dstate struct {
		s     *m.Schema
		valid bits
	}
	base := make([]dstate, len(ds))
	r.Par(int64(len(ds)), func(w *e.W, i int64) {
		s := ds[i].apply(near[0].s)
		base[i] = dstate{s, validityOf(s, ops)}
	})
	for i, b := range base {
		if b.valid == nil && !r.Stopped() {
			panic("decorated schema is not valid: " + ds[i].String() + "\n" + m.Render(b.s).Text())
		}
	}
	docs := make([][]*Doc, r.Workers)
	r.Par(int64(r.Workers), func(w *e.W, i int64) {
		for _, b := range base {
			docs[i] = append(docs[i], mkDoc(b.s))
		}
	})
	if r.Stopped() {
		return
	}
	n := int64(len(ds))
	counts := make([][2]int64, r.Workers)
	r.Par(int64(len(near))*n, func(w *e.W, i int64) {
		// whether an operation is valid depends on the decoration by its defaults only
		nd, d := near[i/n], ds[i%n]
		s := d.apply(nd.s)
		valid := nd.valid
		if d.def != 0 {
			valid = validityOf(s, ops)
		}
		if valid == nil {
			return
		}
		x := mkDoc(s)
		counts[w.ID][0]++
		for j, b := range base {
			if ds[j].ext != d.ext {
				continue // moving elements to an extension is reported as breaking anyway
			}
			for dir := 0; dir < 2; dir++ {
				from, to, o, nw := b.valid, valid, docs[w.ID][j], x
				if dir == 1 {
					from, to, o, nw = valid, b.valid, x, docs[w.ID][j]
				}
				r.AddTransitions(1)
				bad := from.sub(to)
				if bad < 0 {
					w.Outcome("no operation lost")
					continue
				}
				counts[w.ID][1]++
				w.Case(func() string { return "--- old\n" + o.R.Text() + "\n--- new\n" + nw.R.Text() })
				cs := compare.FindChangesInSchemas(o.A, nw.A)
				r.AddTraces(1)
				w.Outcome("an operation lost")
				if !hasBreaking(cs) {
					lostOp(r, i*2*n+int64(j*2+dir), "decorated schemas", o, nw, ops[bad], cs)
				}
			}
		}
	})
	var st, lost int64
	for _, c := range counts {
		st, lost = st+c[0], lost+c[1]
	}
	r.AddStates(int(st))
	r.Space("every decoration of every schema at most one edit away x every decoration of the client schema, both directions", "decorations", len(ds), "decorated_schemas", st, "pairs", st*n, "pairs_which_invalidate_an_operation", lost)
}
