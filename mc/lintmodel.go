package main

import (
	"fmt"
	"sort"
	"strings"

	cmdlint "github.com/CrowdStrike/gql/cmd/linter"
	"github.com/CrowdStrike/gql/pkg/linter"
	"github.com/vektah/gqlparser/v2/ast"
	"github.com/vektah/gqlparser/v2/parser"
)

// LDesc is a description: its source text and whether it is a non-empty description.
type LDesc struct {
	Lit string
	OK  bool
}

// elements of a schema document as the lint rules see them
type (
	LArg struct {
		Name, Type, Default string
		Desc                LDesc
		Dirs                string
	}
	LField struct {
		Name, Type, Default string
		Desc                LDesc
		Args                []LArg
		Dirs                string
	}
	LVal struct {
		Name string
		Desc LDesc
		Dirs string
	}
	// LType is a type definition or extension; Kind "raw" is any other text of a document
	LType struct {
		Kind, Name string
		Ext        bool
		Desc       LDesc
		Fields     []LField
		Vals       []LVal
		Members    []string
		Impl       []string
		Dirs       string
	}
	LSchema struct{ Types []LType }
)

// LTok is a lexical token of the rendered schema.
type LTok struct {
	Text string
	Key  string // element it stands for, "" for none
}

// lexRef splits a type reference.
func lexRef(t string) []string {
	var out []string
	for i := 0; i < len(t); {
		if strings.IndexByte("[]!", t[i]) >= 0 {
			out = append(out, t[i:i+1])
			i++
			continue
		}
		j := i
		for j < len(t) && strings.IndexByte("[]!", t[j]) < 0 {
			j++
		}
		out = append(out, t[i:j])
		i = j
	}
	return out
}

// Toks lists the tokens of the schema.
func (s *LSchema) Toks() []LTok {
	var out []LTok
	put := func(text, key string) { out = append(out, LTok{text, key}) }
	ref := func(t, key string) {
		// the parser locates a list type at its element: any of the leading tokens stands for the reference
		for _, x := range lexRef(t) {
			if strings.IndexByte("]!", x[0]) < 0 {
				put(x, key)
			} else {
				put(x, "")
			}
		}
	}
	desc := func(d LDesc) {
		if d.Lit != "" {
			put(d.Lit, "")
		}
	}
	dirs := func(d string) {
		if d != "" {
			put(d, "")
		}
	}
	for ti, t := range s.Types {
		k := fmt.Sprintf("t%d", ti)
		if t.Kind == "raw" {
			put(t.Name, "")
			continue
		}
		if t.Ext {
			put("extend", "")
		} else {
			desc(t.Desc)
		}
		put(t.Kind, "")
		put(t.Name, k)
		for i, x := range t.Impl {
			put([]string{"implements", "&"}[min(i, 1)], "")
			put(x, "")
		}
		dirs(t.Dirs)
		if len(t.Members) > 0 {
			put("=", "")
			for i, x := range t.Members {
				if i > 0 {
					put("|", "")
				}
				put(x, "")
			}
		}
		if t.Ext && len(t.Members)+len(t.Fields)+len(t.Vals)+len(t.Impl)+len(t.Dirs) == 0 {
			put("@", "")
			put("x", "")
		}
		if len(t.Vals) > 0 {
			put("{", "")
			for vi, v := range t.Vals {
				desc(v.Desc)
				put(v.Name, fmt.Sprintf("%sv%d", k, vi))
				dirs(v.Dirs)
			}
			put("}", "")
		}
		if len(t.Fields) > 0 {
			put("{", "")
			for fi, f := range t.Fields {
				fk := fmt.Sprintf("%sf%d", k, fi)
				desc(f.Desc)
				put(f.Name, fk)
				if len(f.Args) > 0 {
					put("(", "")
					for ai, a := range f.Args {
						desc(a.Desc)
						put(a.Name, fmt.Sprintf("%sa%d", fk, ai))
						put(":", "")
						ref(a.Type, "")
						if a.Default != "" {
							put("=", "")
							put(a.Default, "")
						}
						dirs(a.Dirs)
					}
					put(")", "")
				}
				put(":", "")
				ref(f.Type, fk+":")
				if f.Default != "" {
					put("=", "")
					put(f.Default, "")
				}
				dirs(f.Dirs)
			}
			put("}", "")
		}
	}
	return out
}

// LErr is an expected lint error: the element it is about and words which have to be in its message.
type LErr struct {
	Rule, Key, Coord string
	Words            []string
}

func isLower(b byte) bool { return b >= 'a' && b <= 'z' }
func isUpper(b byte) bool { return b >= 'A' && b <= 'Z' }
func isDigit(b byte) bool { return b >= '0' && b <= '9' }

func badEnum(n string) bool {
	for i := 0; i < len(n); i++ {
		if isLower(n[i]) {
			return true
		}
	}
	return false
}

func badField(n string) bool {
	if !isLower(n[0]) {
		return true
	}
	for i := 0; i < len(n); i++ {
		if n[i] == '_' {
			return true
		}
	}
	return false
}

func endsConnection(n string) bool {
	const c = "Connection"
	return len(n) >= len(c) && n[len(n)-len(c):] == c
}

// baseName of a type reference
func baseName(t string) string { return strings.Trim(t, "[]!") }

func intOrIntNN(t string) bool { return t == "Int" || t == "Int!" }

// Expect is the reference linter.
func (s *LSchema) Expect() []LErr {
	var out []LErr
	add := func(rule, key, coord string, words ...string) { out = append(out, LErr{rule, key, coord, words}) }
	for ti, t := range s.Types {
		k := fmt.Sprintf("t%d", ti)
		if t.Kind == "raw" {
			continue
		}
		if !t.Ext && !t.Desc.OK {
			add("type-desc", k, t.Name)
		}
		if isLower(t.Name[0]) {
			add("type-caps", k, t.Name)
		}
		for vi, v := range t.Vals {
			vk := fmt.Sprintf("%sv%d", k, vi)
			if !v.Desc.OK {
				add("enum-desc", vk, t.Name+"."+v.Name)
			}
			if badEnum(v.Name) {
				add("enum-caps", vk, t.Name+"."+v.Name)
			}
		}
		for fi, f := range t.Fields {
			fk := fmt.Sprintf("%sf%d", k, fi)
			if !f.Desc.OK {
				add("field-desc", fk+":", t.Name+"."+f.Name)
			}
			if badField(f.Name) {
				add("field-camel", fk+":", t.Name+"."+f.Name)
			}
			for ai, a := range f.Args {
				if !a.Desc.OK {
					add("args-desc", fmt.Sprintf("%sa%d", fk, ai), t.Name+"."+f.Name+"."+a.Name)
				}
			}
			if !t.Ext && endsConnection(baseName(f.Type)) {
				typ, at := map[string]string{}, map[string]string{}
				for ai, a := range f.Args {
					typ[a.Name], at[a.Name] = a.Type, fmt.Sprintf("%sa%d", fk, ai)
				}
				fwd := typ["first"] != "" && typ["after"] != ""
				bwd := typ["last"] != "" && typ["before"] != ""
				if !fwd && !bwd {
					add("relay-conn-args", fk+":", f.Name)
				}
				if x := typ["first"]; x != "" && (!intOrIntNN(x) || x == "Int!" && bwd) {
					add("relay-conn-args", at["first"], f.Name, "first")
				}
				if x := typ["last"]; x != "" && (!intOrIntNN(x) || x == "Int!" && fwd) {
					add("relay-conn-args", at["last"], f.Name, "last")
				}
			}
		}
		if !t.Ext && endsConnection(t.Name) {
			if t.Kind != "type" {
				add("relay-conn-type", k, t.Name)
				continue
			}
			edges, page := false, false
			for fi, f := range t.Fields {
				fk := fmt.Sprintf("%sf%d:", k, fi)
				if f.Name == "edges" {
					edges = true
					if f.Type[0] != '[' {
						add("relay-conn-type", fk, t.Name, "edges")
					}
				}
				if f.Name == "pageInfo" {
					page = true
					if f.Type != "PageInfo!" {
						add("relay-conn-type", fk, t.Name, "pageInfo")
					}
				}
			}
			if !edges {
				add("relay-conn-type", k, t.Name, "edges")
			}
			if !page {
				add("relay-conn-type", k, t.Name, "pageInfo")
			}
		}
	}
	return out
}

// physical gives line and column (in characters) of every byte offset: LF, CR and CRLF end a line.
func physical(text string, off int) (line, col int) {
	line, col = 1, 1
	for i, r := range text {
		if i >= off {
			break
		}
		switch {
		case r == '\n' && i > 0 && text[i-1] == '\r':
			// second half of a line end
		case r == '\n' || r == '\r':
			line, col = line+1, 1
		default:
			col++
		}
	}
	return
}

// LDoc is a laid-out schema.
type LDoc struct {
	S    *LSchema
	Text string
	Pos  map[string][]LC // where the tokens of an element are
}

// LC is a line and a column.
type LC struct{ Line, Col int }

func (d *LDoc) at(key string, line, col int, withCol bool) bool {
	for _, p := range d.Pos[key] {
		if p.Line == line && (!withCol || p.Col == col) {
			return true
		}
	}
	return false
}

// layOut joins the tokens: sep(i) comes before token i (and after the last one).
func layOut(s *LSchema, sep func(i int) string) *LDoc {
	d := &LDoc{S: s, Pos: map[string][]LC{}}
	var sb strings.Builder
	toks := s.Toks()
	off := map[string][]int{}
	for i, t := range toks {
		sb.WriteString(sep(i))
		if t.Key != "" {
			off[t.Key] = append(off[t.Key], sb.Len())
		}
		sb.WriteString(t.Text)
	}
	sb.WriteString(sep(len(toks)))
	d.Text = sb.String()
	for k, os := range off {
		for _, o := range os {
			l, c := physical(d.Text, o)
			d.Pos[k] = append(d.Pos[k], LC{l, c})
		}
	}
	return d
}

// own line for every element, as people write schemas
func pretty(s *LSchema) *LDoc {
	toks := s.Toks()
	return layOut(s, func(i int) string {
		switch {
		case i == 0:
			return ""
		case i == len(toks):
			return "\n"
		}
		t, p := toks[i], toks[i-1]
		if t.Key != "" && !strings.HasSuffix(t.Key, ":") || t.Text == "}" || t.Text == "extend" || strings.HasPrefix(t.Text, `"`) {
			return "\n  "
		}
		if p.Text == "}" {
			return "\n\n"
		}
		return " "
	})
}

func (x LErr) String() string { return fmt.Sprintf("%s on %s %v", x.Rule, x.Coord, x.Words) }

func lintString(x linter.LintErrorWithMetadata) string {
	msg := "<nil>"
	if x.Err != nil {
		msg = x.Err.Error()
	}
	return fmt.Sprintf("%d:%d %s: %s", x.Line, x.Column, x.Rule, msg)
}

func lintStrings(l []linter.LintErrorWithMetadata) []string {
	out := []string{}
	for _, x := range l {
		out = append(out, lintString(x))
	}
	return out
}

func nameByte(b byte) bool { return isLower(b) || isUpper(b) || isDigit(b) || b == '_' || b == '.' }

// mentions tells whether the text has the coordinate as a whole word.
func mentions(text, coord string) bool {
	for from := 0; ; {
		i := strings.Index(text[from:], coord)
		if i < 0 {
			return false
		}
		i += from
		j := i + len(coord)
		if (i == 0 || !nameByte(text[i-1])) && (j == len(text) || !nameByte(text[j]) || text[j] == '.' && (j+1 == len(text) || text[j+1] == ' ')) {
			return true
		}
		from = i + 1
	}
}

// lintMatch compares lint errors with the expected ones; at: also line and column.
func lintMatch(d *LDoc, exp []LErr, got []linter.LintErrorWithMetadata, line, col bool) string {
	if len(exp) == 0 && len(got) == 0 {
		return ""
	}
	fits := func(x *LErr, g *linter.LintErrorWithMetadata) bool {
		if x.Rule != string(g.Rule) || g.Err == nil {
			return false
		}
		msg := g.Err.Error()
		if !mentions(msg, x.Coord) {
			return false
		}
		for _, w := range x.Words {
			if !mentions(msg, w) {
				return false
			}
		}
		return !line || d.at(x.Key, g.Line, g.Column, col)
	}
	owner := make([]int, len(got))
	for i := range owner {
		owner[i] = -1
	}
	var try func(i int, seen []bool) bool
	try = func(i int, seen []bool) bool {
		for j := range got {
			if seen[j] || !fits(&exp[i], &got[j]) {
				continue
			}
			seen[j] = true
			if owner[j] < 0 || try(owner[j], seen) {
				owner[j] = i
				return true
			}
		}
		return false
	}
	var missing, extra []string
	for i := range exp {
		// quick: the next free fitting one
		done := false
		for j := range got {
			if owner[j] < 0 && fits(&exp[i], &got[j]) {
				owner[j] = i
				done = true
				break
			}
		}
		if !done && !try(i, make([]bool, len(got))) {
			missing = append(missing, fmt.Sprintf("%s at %v", exp[i], d.Pos[exp[i].Key]))
		}
	}
	for j := range got {
		if owner[j] < 0 {
			extra = append(extra, lintString(got[j]))
		}
	}
	if missing == nil && extra == nil {
		return ""
	}
	s := ""
	if missing != nil {
		s += "expected but not reported: " + strings.Join(missing, "; ") + "\n"
	}
	if extra != nil {
		s += "reported but not expected: " + strings.Join(extra, "; ") + "\n"
	}
	return s
}

// parses tells whether the GraphQL parser accepts the text (Lint exits the process otherwise).
func parses(text string) bool {
	_, err := parser.ParseSchema(&ast.Source{Name: "s.graphql", Input: text})
	return err == nil
}

// rulesOf resolves rule names through the command's own resolution; the rule table is used once per process.
func rulesOf(names ...string) []linter.LintRuleFunc {
	fs, err := cmdlint.FindTheRulesToApply(names)
	if err != nil {
		panic(fmt.Sprint("rule names ", names, " are not accepted: ", err))
	}
	return fs
}

var allRuleNames = []string{"type-desc", "args-desc", "field-desc", "enum-caps", "enum-desc", "field-camel", "type-caps", "relay-conn-type", "relay-conn-args"}

// lintText runs the lint command's function; the text must be accepted by the parser.
func lintText(text string, rules []linter.LintRuleFunc) []linter.LintErrorWithMetadata {
	if !parses(text) {
		panic("harness: the parser rejects the schema\n" + text)
	}
	return cmdlint.Lint("s.graphql", text, rules)
}

// onlyRules filters the expected errors.
func onlyRules(l []LErr, rules ...string) []LErr {
	var out []LErr
	for _, x := range l {
		for _, n := range rules {
			if x.Rule == n {
				out = append(out, x)
			}
		}
	}
	return out
}

// inOrder checks ascending positions.
func inOrder(l []linter.LintErrorWithMetadata) bool {
	return sort.SliceIsSorted(l, func(i, j int) bool {
		return l[i].Line < l[j].Line || l[i].Line == l[j].Line && l[i].Column < l[j].Column
	})
}
