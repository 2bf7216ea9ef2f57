// Package model is a boring, independent model of GraphQL SDL documents: it renders them to text with
// known element positions and computes the reference difference of two documents.
package model

import (
	"fmt"
	"strings"
)

// KV is a name/literal pair.
type KV struct{ K, V string }

// Applied is a directive application.
type Applied struct {
	Name string
	Args []KV
}

func (a Applied) String() string {
	var sb strings.Builder
	sb.WriteString("@" + a.Name)
	if len(a.Args) > 0 {
		sb.WriteString("(")
		for i, kv := range a.Args {
			if i > 0 {
				sb.WriteString(", ")
			}
			sb.WriteString(kv.K + ": " + kv.V)
		}
		sb.WriteString(")")
	}
	return sb.String()
}

// Arg is an argument definition (Default "" means none, Desc "" means none).
type Arg struct {
	Name, Type, Default, Desc string
	Dirs                      []Applied
}

// Field is an output field or an input field.
type Field struct {
	Name, Type, Default, Desc string
	Args                      []Arg
	Dirs                      []Applied
}

// Value is an enum value.
type Value struct {
	Name, Desc string
	Dirs       []Applied
}

// Kinds
const (
	Scalar    = "scalar"
	Object    = "type"
	Interface = "interface"
	Union     = "union"
	Enum      = "enum"
	Input     = "input"
)

// AllKinds of types
var AllKinds = []string{Scalar, Object, Interface, Union, Enum, Input}

// KindName is the documented upper-case name of a kind.
var KindName = map[string]string{Scalar: "SCALAR", Object: "OBJECT", Interface: "INTERFACE", Union: "UNION", Enum: "ENUM", Input: "INPUT_OBJECT"}

// Type is a type definition or one extension block.
type Type struct {
	Kind, Name, Desc string
	Ext              bool
	Ifaces           []string
	Dirs             []Applied
	Fields           []Field
	Values           []Value
	Members          []string
	File             int
}

// Root is a schema definition or extension block.
type Root struct {
	Ext  bool
	Ops  []KV
	Dirs []Applied
	File int
}

// DirDef is a directive definition.
type DirDef struct {
	Name, Desc string
	Repeatable bool
	Args       []Arg
	Locs       []string
	File       int
}

// Schema is a whole document (possibly spread over several files).
type Schema struct {
	Roots []Root
	Types []Type
	Dirs  []DirDef
}

// Loc is a file/line pair.
type Loc struct {
	File string
	Line int
}

// Rendered is the text of a schema and where its elements are.
type Rendered struct {
	Names []string // file names
	Texts []string
	Pos   map[string][]Loc // element key -> lines
}

// Text of all the files
func (r *Rendered) Text() string {
	if len(r.Texts) == 1 {
		return r.Texts[0]
	}
	var sb strings.Builder
	for i, t := range r.Texts {
		fmt.Fprintf(&sb, "#### file %s\n%s\n", r.Names[i], t)
	}
	return sb.String()
}

// Files returns contents by file name.
func (r *Rendered) Files() map[string][]byte {
	m := map[string][]byte{}
	for i, n := range r.Names {
		m[n] = []byte(r.Texts[i])
	}
	return m
}

type printer struct {
	sb   []strings.Builder
	line []int
	cur  int
	r    *Rendered
	tall bool
	keys []string // tall: the elements which start with the next text
	tail bool     // tall: the next text is the rest of an element
}

// words splits a text into tokens: strings, names with their signs, punctuators.
func words(s string) (out []string) {
	for i := 0; i < len(s); {
		j := i + 1
		switch c := s[i]; {
		case c == ' ':
			i++
			continue
		case strings.HasPrefix(s[i:], `"""`):
			j = i + 3
			for !strings.HasPrefix(s[j:], `"""`) {
				if strings.HasPrefix(s[j:], `\"""`) {
					j += 3
				}
				j++
			}
			j += 3
		case c == '"':
			for s[j] != '"' {
				if s[j] == '\\' {
					j++
				}
				j++
			}
			j++
		case strings.IndexByte("@:=!|&{}()[],$", c) < 0:
			for j < len(s) && strings.IndexByte(" @:=!|&{}()[],$\"", s[j]) < 0 {
				j++
			}
		}
		out = append(out, s[i:j])
		i = j
	}
	return
}

// lnTall writes every token on a line of its own; an element is where its description, its keyword and its name are, and
// (for directives applied to it) where these are.
func (p *printer) lnTall(s string) {
	named, at, depth := p.tail, 0, 0
	for _, t := range words(s) {
		switch { // at: 1 after '@', 2 after the name of an applied directive
		case depth > 0 && (t == "(" || t == "[" || t == "{"), depth == 0 && at == 2 && t == "(":
			depth++
		case depth > 0 && (t == ")" || t == "]" || t == "}"):
			depth--
		case depth > 0:
		case t == "@":
			at = 1
		case at == 1:
			at = 2
		default:
			at = 0
		}
		mark := at > 0
		if !named {
			mark = true
			switch t {
			case "type", "interface", "union", "enum", "input", "scalar", "extend", "directive", "@":
				named = !p.decl()
			default:
				named = t[0] != '"'
			}
		}
		if mark {
			for _, k := range p.keys {
				p.r.Pos[k] = append(p.r.Pos[k], Loc{p.r.Names[p.cur], p.line[p.cur]})
			}
		}
		p.sb[p.cur].WriteString(t)
		p.sb[p.cur].WriteByte('\n')
		p.line[p.cur] += 1 + strings.Count(t, "\n")
	}
	p.keys, p.tail = nil, false
}

// decl: the pending element is a definition of a type or a directive.
func (p *printer) decl() bool {
	for _, k := range p.keys {
		if strings.Contains(k, ".") || strings.HasPrefix(k, "root:") {
			return false
		}
	}
	return true
}

func (p *printer) ln(s string) {
	if p.tall {
		p.lnTall(s)
		return
	}
	p.sb[p.cur].WriteString(s)
	p.sb[p.cur].WriteByte('\n')
	p.line[p.cur]++
}

func (p *printer) mark(key string) {
	if p.tall {
		p.keys = append(p.keys, key)
		return
	}
	p.r.Pos[key] = append(p.r.Pos[key], Loc{p.r.Names[p.cur], p.line[p.cur]})
}

// Quote renders a description as GraphQL string literal.
func Quote(s string) string {
	var sb strings.Builder
	sb.WriteByte('"')
	for _, r := range s {
		switch r {
		case '"':
			sb.WriteString(`\"`)
		case '\\':
			sb.WriteString(`\\`)
		case '\n':
			sb.WriteString(`\n`)
		case '\t':
			sb.WriteString(`\t`)
		default:
			sb.WriteRune(r)
		}
	}
	sb.WriteByte('"')
	return sb.String()
}

func desc(d string) string {
	if d == "" {
		return ""
	}
	return Quote(d) + " "
}

func dirs(ds []Applied) string {
	var sb strings.Builder
	for _, d := range ds {
		sb.WriteString(" " + d.String())
	}
	return sb.String()
}

// Cont is the container prefix of a type: "def:" or "ext:".
func Cont(ext bool) string {
	if ext {
		return "ext:"
	}
	return "def:"
}

// Render writes the schema, every element on a line of its own.
// names are the file names (File indices of the elements refer to them).
func Render(s *Schema, names ...string) *Rendered { return render(s, false, names) }

// RenderTall writes every token on a line of its own.
func RenderTall(s *Schema, names ...string) *Rendered { return render(s, true, names) }

func render(s *Schema, tall bool, names []string) *Rendered {
	if len(names) == 0 {
		names = []string{"s.graphql"}
	}
	r := &Rendered{Names: names, Pos: map[string][]Loc{}}
	p := &printer{sb: make([]strings.Builder, len(names)), line: make([]int, len(names)), r: r, tall: tall}
	for i := range p.line {
		p.line[i] = 1
	}
	for _, root := range s.Roots {
		p.cur = root.File
		kw := "schema"
		if root.Ext {
			kw = "extend schema"
		}
		if len(root.Ops) == 0 {
			p.ln(kw + dirs(root.Dirs))
			continue
		}
		p.ln(kw + dirs(root.Dirs) + " {")
		for _, op := range root.Ops {
			p.mark("root:" + op.K)
			p.ln("  " + op.K + ": " + op.V)
		}
		p.ln("}")
	}
	for _, t := range s.Types {
		p.cur = t.File
		c := Cont(t.Ext)
		key := c + t.Name
		p.mark(key)
		p.mark("any:" + t.Name)
		head := ""
		if t.Ext {
			head = "extend "
		} else {
			head = desc(t.Desc)
		}
		head += t.Kind + " " + t.Name
		if len(t.Ifaces) > 0 {
			head += " implements " + strings.Join(t.Ifaces, " & ")
		}
		head += dirs(t.Dirs)
		switch t.Kind {
		case Union:
			if len(t.Members) > 0 {
				head += " = " + strings.Join(t.Members, " | ")
			}
			p.ln(head)
		case Enum:
			if len(t.Values) == 0 {
				p.ln(head)
				break
			}
			p.ln(head + " {")
			for _, v := range t.Values {
				p.mark(key + "." + v.Name)
				p.ln("  " + desc(v.Desc) + v.Name + dirs(v.Dirs))
			}
			p.ln("}")
		default:
			if len(t.Fields) == 0 {
				p.ln(head)
				break
			}
			p.ln(head + " {")
			for _, f := range t.Fields {
				fk := key + "." + f.Name
				p.mark(fk)
				def := ""
				if f.Default != "" {
					def = " = " + f.Default
				}
				if len(f.Args) == 0 {
					p.ln("  " + desc(f.Desc) + f.Name + ": " + f.Type + def + dirs(f.Dirs))
					continue
				}
				p.ln("  " + desc(f.Desc) + f.Name + "(")
				p.args(fk, f.Args, "    ")
				p.mark(fk) // the type and the directives are on this line
				p.tail = true
				p.ln("  ): " + f.Type + def + dirs(f.Dirs))
			}
			p.ln("}")
		}
	}
	for _, d := range s.Dirs {
		p.cur = d.File
		key := "dir:" + d.Name
		p.mark(key)
		tail := ""
		if d.Repeatable {
			tail = " repeatable"
		}
		tail += " on " + strings.Join(d.Locs, " | ")
		if len(d.Args) == 0 {
			p.ln(desc(d.Desc) + "directive @" + d.Name + tail)
			continue
		}
		p.ln(desc(d.Desc) + "directive @" + d.Name + "(")
		p.args(key, d.Args, "  ")
		p.ln(")" + tail)
	}
	r.Texts = make([]string, len(names))
	for i := range names {
		r.Texts[i] = p.sb[i].String()
	}
	return r
}

func (p *printer) args(key string, args []Arg, indent string) {
	for _, a := range args {
		p.mark(key + "." + a.Name)
		def := ""
		if a.Default != "" {
			def = " = " + a.Default
		}
		p.ln(indent + desc(a.Desc) + a.Name + ": " + a.Type + def + dirs(a.Dirs))
	}
}

// Clone makes a deep copy.
func (s *Schema) Clone() *Schema {
	c := &Schema{}
	for _, r := range s.Roots {
		r.Ops = append([]KV(nil), r.Ops...)
		r.Dirs = cloneDirs(r.Dirs)
		c.Roots = append(c.Roots, r)
	}
	for _, t := range s.Types {
		c.Types = append(c.Types, t.Clone())
	}
	for _, d := range s.Dirs {
		d.Args = cloneArgs(d.Args)
		d.Locs = append([]string(nil), d.Locs...)
		c.Dirs = append(c.Dirs, d)
	}
	return c
}

// Clone makes a deep copy.
func (t Type) Clone() Type {
	t.Ifaces = append([]string(nil), t.Ifaces...)
	t.Members = append([]string(nil), t.Members...)
	t.Dirs = cloneDirs(t.Dirs)
	fs := t.Fields
	t.Fields = nil
	for _, f := range fs {
		f.Args = cloneArgs(f.Args)
		f.Dirs = cloneDirs(f.Dirs)
		t.Fields = append(t.Fields, f)
	}
	vs := t.Values
	t.Values = nil
	for _, v := range vs {
		v.Dirs = cloneDirs(v.Dirs)
		t.Values = append(t.Values, v)
	}
	return t
}

func cloneArgs(as []Arg) []Arg {
	var c []Arg
	for _, a := range as {
		a.Dirs = cloneDirs(a.Dirs)
		c = append(c, a)
	}
	return c
}

func cloneDirs(ds []Applied) []Applied {
	var c []Applied
	for _, d := range ds {
		d.Args = append([]KV(nil), d.Args...)
		c = append(c, d)
	}
	return c
}

// Shift puts k lines (comments) in front of every file.
func (r *Rendered) Shift(k int) {
	if k == 0 {
		return
	}
	for i := range r.Texts {
		r.Texts[i] = strings.Repeat("#\n", k) + r.Texts[i]
	}
	for _, ls := range r.Pos {
		for i := range ls {
			ls[i].Line += k
		}
	}
}

// Spread distributes the top-level blocks over n files.
func (s *Schema) Spread(n, from int) *Schema {
	c := s.Clone()
	k := from
	for i := range c.Roots {
		c.Roots[i].File = k % n
		k++
	}
	for i := range c.Types {
		c.Types[i].File = k % n
		k++
	}
	for i := range c.Dirs {
		c.Dirs[i].File = k % n
		k++
	}
	return c
}
