package model

// Grades
const (
	NonBreaking = 0
	Dangerous   = 1
	Breaking    = 2
)

// Exp is an expected change.
type Exp struct {
	CT   string
	Crit int
	Path string   // "" = not specified
	Msg  []string // substrings the message has to contain
	Pos  []Loc    // acceptable locations
}

type differ struct {
	o, n   *Schema
	ro, rn *Rendered
	out    []Exp
}

// Diff computes the expected changes between two schemas. ro/rn may be nil when positions don't matter.
func Diff(o, n *Schema, ro, rn *Rendered) []Exp {
	d := &differ{o: o, n: n, ro: ro, rn: rn}
	d.roots()
	d.types()
	d.directives()
	return d.out
}

func (d *differ) op(k string) []Loc {
	if d.ro == nil {
		return nil
	}
	return d.ro.Pos[k]
}
func (d *differ) np(k string) []Loc {
	if d.rn == nil {
		return nil
	}
	return d.rn.Pos[k]
}

func (d *differ) add(ct string, crit int, path string, pos []Loc, msg ...string) {
	d.out = append(d.out, Exp{CT: ct, Crit: crit, Path: path, Msg: msg, Pos: pos})
}

func q(s string) string { return "'" + s + "'" }

// --- root operations

var defaultRoot = map[string]string{"query": "Query", "mutation": "Mutation", "subscription": "Subscription"}
var rootCT = map[string]string{"query": "SCHEMA_QUERY_TYPE_CHANGED", "mutation": "SCHEMA_MUTATION_TYPE_CHANGED", "subscription": "SCHEMA_SUBSCRIPTION_TYPE_CHANGED"}

func explicit(s *Schema, op string) string {
	for _, ext := range []bool{false, true} {
		for _, r := range s.Roots {
			if r.Ext != ext {
				continue
			}
			for _, kv := range r.Ops {
				if kv.K == op {
					return kv.V
				}
			}
		}
	}
	return ""
}

func hasSchemaDef(s *Schema) bool {
	for _, r := range s.Roots {
		if !r.Ext {
			return true
		}
	}
	return false
}

// EffectiveRoot is the type name of a root operation or "".
func EffectiveRoot(s *Schema, op string) string {
	if e := explicit(s, op); e != "" {
		return e
	}
	if hasSchemaDef(s) {
		return ""
	}
	for _, t := range s.Types {
		if t.Name == defaultRoot[op] {
			return t.Name
		}
	}
	return ""
}

func (d *differ) roots() {
	for _, op := range []string{"query", "mutation", "subscription"} {
		if explicit(d.o, op) == "" && explicit(d.n, op) == "" && !hasSchemaDef(d.o) && !hasSchemaDef(d.n) {
			continue // both rely on the default names
		}
		a, b := EffectiveRoot(d.o, op), EffectiveRoot(d.n, op)
		pos := func(p func(string) []Loc, t string) []Loc {
			return append(append([]Loc{}, p("root:"+op)...), p("any:"+t)...)
		}
		switch {
		case a == b:
		case a == "":
			d.add(rootCT[op], NonBreaking, "", pos(d.np, b), op, "added")
		case b == "":
			d.add(rootCT[op], Breaking, "", pos(d.op, a), op, "removed")
		default:
			d.add(rootCT[op], Breaking, "", pos(d.np, b), op, q(a), q(b))
		}
	}
}

// --- types

func merged(s *Schema, ext bool) ([]string, map[string]*Type) {
	var names []string
	m := map[string]*Type{}
	for i := range s.Types {
		t := s.Types[i]
		if t.Ext != ext {
			continue
		}
		if m[t.Name] == nil {
			c := t.Clone()
			m[t.Name] = &c
			names = append(names, t.Name)
			continue
		}
		x := m[t.Name]
		x.Ifaces = append(x.Ifaces, t.Ifaces...)
		x.Dirs = append(x.Dirs, t.Dirs...)
		x.Fields = append(x.Fields, t.Fields...)
		x.Values = append(x.Values, t.Values...)
		x.Members = append(x.Members, t.Members...)
	}
	return names, m
}

func (d *differ) types() {
	for _, ext := range []bool{false, true} {
		c := Cont(ext)
		on, om := merged(d.o, ext)
		nn, nm := merged(d.n, ext)
		for _, name := range on {
			if nm[name] == nil {
				msg := []string{q(name), "removed"}
				if ext {
					msg = append(msg, "xtended")
				}
				d.add("TYPE_REMOVED", Breaking, name, d.op(c+name), msg...)
			}
		}
		for _, name := range nn {
			if om[name] != nil {
				continue
			}
			msg := []string{q(name), "added"}
			if ext {
				msg = append(msg, "xtended")
			}
			d.add("TYPE_ADDED", NonBreaking, name, d.np(c+name), msg...)
			if ext && nm[name].Kind == Input {
				oldDef, newDef := false, false
				var oldFields []Field
				for _, t := range d.o.Types {
					if !t.Ext && t.Name == name {
						oldDef = true
						oldFields = t.Fields
					}
				}
				for _, t := range d.n.Types {
					if !t.Ext && t.Name == name {
						newDef = true
					}
				}
				if oldDef || !newDef { // the type itself is not new
					for _, f := range nm[name].Fields {
						if required(f.Type, f.Default) && findField(oldFields, f.Name) == nil {
							d.add("INPUT_FIELD_ADDED", Breaking, name+"."+f.Name, d.np(c+name+"."+f.Name), q(f.Name), q(name), "added")
						}
					}
				}
			}
		}
		for _, name := range on {
			if nm[name] != nil {
				d.pair(c, om[name], nm[name])
			}
		}
	}
}

func required(typ, def string) bool { return NonNull(typ) && def == "" }

func findField(fs []Field, name string) *Field {
	for i := range fs {
		if fs[i].Name == name {
			return &fs[i]
		}
	}
	return nil
}
func findArg(as []Arg, name string) *Arg {
	for i := range as {
		if as[i].Name == name {
			return &as[i]
		}
	}
	return nil
}
func findValue(vs []Value, name string) *Value {
	for i := range vs {
		if vs[i].Name == name {
			return &vs[i]
		}
	}
	return nil
}
func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func (d *differ) pair(c string, o, n *Type) {
	name := n.Name
	here := d.np(c + name)
	if o.Desc != n.Desc {
		d.add("TYPE_DESCRIPTION_CHANGED", NonBreaking, name, here, q(name), "description")
	}
	if o.Kind != n.Kind {
		d.add("TYPE_KIND_CHANGED", Breaking, name, here, q(name), q(KindName[o.Kind]), q(KindName[n.Kind]))
		return
	}
	switch o.Kind {
	case Object, Interface:
		if o.Kind == Object {
			for _, i := range o.Ifaces {
				if !has(n.Ifaces, i) {
					d.add("OBJECT_TYPE_INTERFACE_REMOVED", Breaking, name, append(d.op(c+name), here...), q(name), q(i), "no longer")
				}
			}
			for _, i := range n.Ifaces {
				if !has(o.Ifaces, i) {
					d.add("OBJECT_TYPE_INTERFACE_ADDED", Dangerous, name, here, q(name), q(i))
				}
			}
		}
		d.applied(o.Dirs, n.Dirs, name, here)
		for i := range o.Fields {
			of := &o.Fields[i]
			nf := findField(n.Fields, of.Name)
			co := name + "." + of.Name
			if nf == nil {
				d.add("FIELD_REMOVED", Breaking, co, append(append([]Loc{}, d.op(c+co)...), here...), co, "removed")
				continue
			}
			fp := d.np(c + co)
			if of.Type != nf.Type {
				crit := Breaking
				if Included(nf.Type, of.Type) {
					crit = NonBreaking
				}
				d.add("FIELD_TYPE_CHANGED", crit, co, fp, q(co), q(of.Type), q(nf.Type))
			}
			if of.Desc != nf.Desc {
				d.add("FIELD_DESCRIPTION_CHANGED", NonBreaking, co, fp, q(co), "description")
			}
			d.deprecation("FIELD", co, of.Dirs, nf.Dirs, fp, co)
			d.args(c, co, of, nf)
			d.applied(of.Dirs, nf.Dirs, co, fp)
		}
		for i := range n.Fields {
			nf := &n.Fields[i]
			if findField(o.Fields, nf.Name) == nil {
				co := name + "." + nf.Name
				d.add("FIELD_ADDED", NonBreaking, co, d.np(c+co), q(co), "added")
			}
		}
	case Input:
		for i := range o.Fields {
			of := &o.Fields[i]
			nf := findField(n.Fields, of.Name)
			co := name + "." + of.Name
			if nf == nil {
				d.add("INPUT_FIELD_REMOVED", Breaking, co, append(append([]Loc{}, d.op(c+co)...), here...), co, "removed")
				continue
			}
			fp := d.np(c + co)
			if of.Type != nf.Type {
				crit := Breaking
				if Included(of.Type, nf.Type) {
					crit = NonBreaking
				}
				d.add("INPUT_FIELD_TYPE_CHANGED", crit, co, fp, q(co), q(of.Type), q(nf.Type))
			}
			d.defaults("INPUT_FIELD_DEFAULT_VALUE_CHANGED", co, of.Default, nf.Default, nf.Type, fp, q(co))
			if of.Desc != nf.Desc {
				d.add("INPUT_FIELD_DESCRIPTION_CHANGED", NonBreaking, co, fp, q(co), "description")
			}
			d.deprecation("INPUT_FIELD", co, of.Dirs, nf.Dirs, fp, co)
			d.applied(of.Dirs, nf.Dirs, co, fp)
		}
		for i := range n.Fields {
			nf := &n.Fields[i]
			if findField(o.Fields, nf.Name) == nil {
				co := name + "." + nf.Name
				crit := Dangerous
				if required(nf.Type, nf.Default) {
					crit = Breaking
				}
				d.add("INPUT_FIELD_ADDED", crit, co, d.np(c+co), q(nf.Name), q(name), "added")
			}
		}
	case Enum:
		for i := range o.Values {
			ov := &o.Values[i]
			nv := findValue(n.Values, ov.Name)
			co := name + "." + ov.Name
			if nv == nil {
				d.add("ENUM_VALUE_REMOVED", Breaking, co, append(append([]Loc{}, d.op(c+co)...), here...), q(ov.Name), q(name), "removed")
				continue
			}
			vp := d.np(c + co)
			if ov.Desc != nv.Desc {
				d.add("ENUM_VALUE_DESCRIPTION_CHANGED", NonBreaking, co, vp, q(ov.Name), q(name), "description")
			}
			d.deprecation("ENUM_VALUE", co, ov.Dirs, nv.Dirs, vp, q(ov.Name), q(name))
		}
		for i := range n.Values {
			nv := &n.Values[i]
			if findValue(o.Values, nv.Name) == nil {
				co := name + "." + nv.Name
				d.add("ENUM_VALUE_ADDED", Dangerous, co, d.np(c+co), q(nv.Name), q(name), "added")
			}
		}
	case Union:
		for _, m := range o.Members {
			if !has(n.Members, m) {
				d.add("UNION_MEMBER_REMOVED", Breaking, name, append(append([]Loc{}, d.op(c+name)...), here...), q(m), q(name), "removed")
			}
		}
		for _, m := range n.Members {
			if !has(o.Members, m) {
				d.add("UNION_MEMBER_ADDED", Dangerous, name, here, q(m), q(name), "added")
			}
		}
	}
}

func (d *differ) defaults(ct, path, od, nd, ntype string, pos []Loc, msg ...string) {
	if od == nd {
		return
	}
	crit := Dangerous
	if required(ntype, nd) {
		crit = Breaking
	}
	for _, v := range []string{od, nd} {
		if v != "" {
			msg = append(msg, MsgValue(v))
		}
	}
	d.add(ct, crit, path, pos, append(msg, "default")...)
}

// MsgValue is how a literal shows up in a message (only for canonically written literals).
func MsgValue(v string) string { return v }

func (d *differ) args(c, co string, of, nf *Field) {
	for i := range of.Args {
		oa := &of.Args[i]
		na := findArg(nf.Args, oa.Name)
		ap := co + "." + oa.Name
		if na == nil {
			d.add("FIELD_ARGUMENT_REMOVED", Breaking, ap, append(append([]Loc{}, d.op(c+ap)...), d.np(c+co)...), oa.Name, q(co), "removed")
			continue
		}
		pos := d.np(c + ap)
		if oa.Type != na.Type {
			crit := Breaking
			if Included(oa.Type, na.Type) {
				crit = NonBreaking
			}
			d.add("FIELD_ARGUMENT_TYPE_CHANGED", crit, ap, pos, q(oa.Name), q(co), q(oa.Type), q(na.Type))
		}
		d.defaults("FIELD_ARGUMENT_DEFAULT_CHANGED", ap, oa.Default, na.Default, na.Type, pos, q(oa.Name), q(co))
		if oa.Desc != na.Desc {
			d.add("FIELD_ARGUMENT_DESCRIPTION_CHANGED", NonBreaking, ap, pos, q(oa.Name), q(co), "description")
		}
	}
	for i := range nf.Args {
		na := &nf.Args[i]
		if findArg(of.Args, na.Name) == nil {
			ap := co + "." + na.Name
			crit := Dangerous
			if required(na.Type, na.Default) {
				crit = Breaking
			}
			d.add("FIELD_ARGUMENT_ADDED", crit, ap, d.np(c+ap), na.Name, q(co), "added")
		}
	}
}

// --- applied directives

const deprecated = "deprecated"

func depr(ds []Applied) *Applied {
	for i := range ds {
		if ds[i].Name == deprecated {
			return &ds[i]
		}
	}
	return nil
}

func argVal(a *Applied, name string) (string, bool) {
	for _, kv := range a.Args {
		if kv.K == name {
			return kv.V, true
		}
	}
	return "", false
}

func (d *differ) deprecation(prefix, path string, o, n []Applied, pos []Loc, msg ...string) {
	od, nd := depr(o), depr(n)
	switch {
	case od == nil && nd != nil:
		d.add(prefix+"_DEPRECATION_ADDED", Dangerous, path, pos, append(msg, "deprecated")...)
	case od != nil && nd == nil:
		d.add(prefix+"_DEPRECATION_REMOVED", Dangerous, path, pos, append(msg, "deprecation removed")...)
	case od != nil && nd != nil:
		or, oh := argVal(od, "reason")
		nr, nh := argVal(nd, "reason")
		if or != nr || oh != nh {
			d.add(prefix+"_DEPRECATION_REASON_CHANGED", NonBreaking, path, pos, append(msg, "reason")...)
		}
	}
}

func named(ds []Applied, name string) []Applied {
	var out []Applied
	for _, a := range ds {
		if a.Name == name {
			out = append(out, a)
		}
	}
	return out
}

func sameApplied(a, b Applied) bool {
	if len(a.Args) != len(b.Args) {
		return false
	}
	for _, kv := range a.Args {
		if v, ok := argVal(&b, kv.K); !ok || v != kv.V {
			return false
		}
	}
	return true
}

func (d *differ) applied(o, n []Applied, elem string, pos []Loc) {
	for _, a := range o {
		if a.Name == deprecated {
			continue
		}
		ol, nl := named(o, a.Name), named(n, a.Name)
		nm := q("@" + a.Name)
		switch {
		case len(nl) == 0:
			d.add("DIRECTIVE_REMOVED", Dangerous, elem, pos, nm, q(elem), "removed")
		case len(ol) == 1 && len(nl) == 1:
			b := nl[0]
			for _, kv := range a.Args {
				v, ok := argVal(&b, kv.K)
				if !ok {
					d.add("DIRECTIVE_ARGUMENT_REMOVED", Dangerous, "", pos, nm, q(kv.K), q(elem), "removed")
				} else if v != kv.V {
					d.add("DIRECTIVE_ARGUMENT_VALUE_CHANGED", Dangerous, "", pos, nm, q(kv.K), q(elem), kv.V, v)
				}
			}
			for _, kv := range b.Args {
				if _, ok := argVal(&a, kv.K); !ok {
					d.add("DIRECTIVE_ARGUMENT_ADDED", NonBreaking, "", pos, nm, q(kv.K), q(elem), "added")
				}
			}
		default:
			same := false
			for _, b := range nl {
				same = same || sameApplied(a, b)
			}
			if !same {
				d.add("DIRECTIVE_CHANGED", Dangerous, elem, pos, nm, q(elem), "changed")
			}
		}
	}
	for _, b := range n {
		if b.Name != deprecated && len(named(o, b.Name)) == 0 {
			d.add("DIRECTIVE_ADDED", NonBreaking, elem, pos, q("@"+b.Name), q(elem), "added")
		}
	}
}

// --- directive definitions

func findDir(ds []DirDef, name string) *DirDef {
	for i := range ds {
		if ds[i].Name == name {
			return &ds[i]
		}
	}
	return nil
}

func (d *differ) directives() {
	for i := range d.o.Dirs {
		o := &d.o.Dirs[i]
		n := findDir(d.n.Dirs, o.Name)
		path := "@" + o.Name
		nm := q(path)
		key := "dir:" + o.Name
		if n == nil {
			d.add("DIRECTIVE_REMOVED", Breaking, path, d.op(key), nm, "removed")
			continue
		}
		here := d.np(key)
		both := append(append([]Loc{}, d.op(key)...), here...)
		if o.Desc != n.Desc {
			d.add("DIRECTIVE_DESCRIPTION_CHANGED", NonBreaking, path, here, nm, "description")
		}
		for _, l := range o.Locs {
			if !has(n.Locs, l) {
				d.add("DIRECTIVE_LOCATION_REMOVED", Breaking, path, both, nm, q(l), "removed")
			}
		}
		for _, l := range n.Locs {
			if !has(o.Locs, l) {
				d.add("DIRECTIVE_LOCATION_ADDED", NonBreaking, path, here, nm, q(l), "added")
			}
		}
		if o.Repeatable && !n.Repeatable {
			d.add("DIRECTIVE_REPEATABLE_REMOVED", Breaking, path, both, nm, "removed")
		}
		if !o.Repeatable && n.Repeatable {
			d.add("DIRECTIVE_REPEATABLE_ADDED", NonBreaking, path, here, nm, "added")
		}
		for j := range o.Args {
			oa := &o.Args[j]
			na := findArg(n.Args, oa.Name)
			ap := path + "." + oa.Name
			if na == nil {
				d.add("DIRECTIVE_ARGUMENT_REMOVED", Breaking, ap, append(append([]Loc{}, d.op(key+"."+oa.Name)...), here...), q(oa.Name), nm, "removed")
				continue
			}
			pos := d.np(key + "." + oa.Name)
			if oa.Type != na.Type {
				crit := Breaking
				if Included(oa.Type, na.Type) {
					crit = NonBreaking
				}
				d.add("DIRECTIVE_ARGUMENT_TYPE_CHANGED", crit, ap, pos, q(oa.Name), nm, q(oa.Type), q(na.Type))
			}
			d.defaults("DIRECTIVE_ARGUMENT_DEFAULT_VALUE_CHANGED", ap, oa.Default, na.Default, na.Type, pos, q(oa.Name), nm)
			if oa.Desc != na.Desc {
				d.add("DIRECTIVE_ARGUMENT_DESCRIPTION_CHANGED", NonBreaking, ap, pos, q(oa.Name), nm, "description")
			}
		}
		for j := range n.Args {
			na := &n.Args[j]
			if findArg(o.Args, na.Name) == nil {
				crit := NonBreaking
				if required(na.Type, na.Default) {
					crit = Breaking
				}
				d.add("DIRECTIVE_ARGUMENT_ADDED", crit, path+"."+na.Name, d.np(key+"."+na.Name), na.Name, nm, "added")
			}
		}
	}
	for i := range d.n.Dirs {
		n := &d.n.Dirs[i]
		if findDir(d.o.Dirs, n.Name) == nil {
			d.add("DIRECTIVE_ADDED", NonBreaking, "@"+n.Name, d.np("dir:"+n.Name), q("@"+n.Name), "added")
		}
	}
}
