package main

import (
	"fmt"
	"hash/fnv"
	"sort"
	"strconv"
	"strings"

	"github.com/CrowdStrike/gql/pkg/compare"
	"github.com/CrowdStrike/gql/utils"
	"github.com/vektah/gqlparser/v2/ast"
	"github.com/vektah/gqlparser/v2/parser"

	e "verifmc/engine"
	m "verifmc/model"
)

// Doc is a model schema with its text and its parsed form.
type Doc struct {
	S     *m.Schema
	R     *m.Rendered
	A     *ast.SchemaDocument
	Label string
}

func parse(r *m.Rendered) (*ast.SchemaDocument, error) { return utils.ParseSchema(r.Files()) }

func mkDoc(s *m.Schema, names ...string) *Doc {
	d := &Doc{S: s, R: m.Render(s, names...)}
	a, err := parse(d.R)
	if err != nil {
		panic(fmt.Sprintf("the harness (or the parser wrapper) failed on a valid schema: %v\n%s", err, d.R.Text()))
	}
	d.A = a
	return d
}

// validDoc: the parsed schema, or nil when the parser itself (not the wrapper of the program) rejects the text.
func validDoc(s *m.Schema, names ...string) *Doc {
	r := m.Render(s, names...)
	for n, t := range r.Files() {
		if _, err := parser.ParseSchema(&ast.Source{Name: n, Input: string(t)}); err != nil {
			return nil
		}
	}
	return mkDoc(s, names...)
}

// Fresh parses the document again.
func (d *Doc) Fresh() *ast.SchemaDocument {
	a, err := parse(d.R)
	if err != nil {
		panic(err)
	}
	return a
}

// Got is an observed change.
type Got struct {
	CT   string
	Crit int
	Path string
	Msg  string
	File string
	Line int
	NoPo bool
}

func (g Got) String() string {
	return fmt.Sprintf("%s/%s path=%q %q %s:%d", g.CT, critName[g.Crit], g.Path, g.Msg, g.File, g.Line)
}

var critName = map[int]string{0: "NonBreaking", 1: "Dangerous", 2: "Breaking"}

func observe(cs []*compare.Change) []Got {
	out := make([]Got, 0, len(cs))
	for _, c := range cs {
		if c == nil {
			out = append(out, Got{CT: "nil change"})
			continue
		}
		g := Got{CT: string(c.GetChangeType()), Crit: int(c.GetChangeCriticalityLevel()), Path: c.GetPath(), Msg: c.GetMessage()}
		if p := c.GetPosition(); p != nil {
			g.Line = p.Line
			if p.Src != nil {
				g.File = p.Src.Name
			}
		} else {
			g.NoPo = true
		}
		out = append(out, g)
	}
	return out
}

// diffOf gives the changes as they are reported: found, and grouped by their grades.
func diffOf(o, n *ast.SchemaDocument) []Got {
	groups := compare.GroupChanges(compare.FindChangesInSchemas(o, n))
	var out []Got
	for _, c := range gradesOf(groups) {
		for _, g := range observe(groups[c]) {
			g.Crit = int(c)
			out = append(out, g)
		}
	}
	return out
}

func gradesOf(groups map[compare.Criticality][]*compare.Change) []compare.Criticality {
	var ks []compare.Criticality
	for k := range groups {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] > ks[j] })
	return ks
}

func expStr(x m.Exp) string {
	return fmt.Sprintf("%s/%s path=%q msg~%v at %v", x.CT, critName[x.Crit], x.Path, x.Msg, x.Pos)
}

// what to compare
type matchOpt struct{ msg, pos bool }

func fits(x *m.Exp, g *Got, o matchOpt) bool {
	if x.CT != g.CT || x.Crit != g.Crit || (x.Path != "" && x.Path != g.Path) {
		return false
	}
	for _, s := range x.Msg {
		if !strings.Contains(g.Msg, s) {
			return false
		}
	}
	if o.pos {
		for _, l := range x.Pos {
			if l.File == g.File && l.Line == g.Line {
				return true
			}
		}
		return false
	}
	return true
}

// match returns "" when the observed changes are exactly the expected ones.
func match(exp []m.Exp, got []Got, o matchOpt) string {
	if len(exp) == 0 && len(got) == 0 {
		return ""
	}
	if !o.msg { // keep only quoted names in the expectation (they identify the element), not the wording
		for i := range exp {
			var keep []string
			for _, s := range exp[i].Msg {
				if strings.HasPrefix(s, "'") {
					keep = append(keep, s)
				}
			}
			exp[i].Msg = keep
		}
	}
	used := make([]bool, len(got))
	owner := make([]int, len(got))
	for i := range owner {
		owner[i] = -1
	}
	var try func(i int, seen []bool) bool
	try = func(i int, seen []bool) bool { // bipartite matching (augmenting paths)
		for j := range got {
			if seen[j] || !fits(&exp[i], &got[j], o) {
				continue
			}
			seen[j] = true
			if owner[j] < 0 || try(owner[j], seen) {
				owner[j] = i
				used[j] = true
				return true
			}
		}
		return false
	}
	var missing []string
	for i := range exp {
		if !try(i, make([]bool, len(got))) {
			missing = append(missing, expStr(exp[i]))
		}
	}
	var extra []string
	for j := range got {
		if !used[j] {
			extra = append(extra, got[j].String())
		}
	}
	if missing == nil && extra == nil {
		return ""
	}
	s := ""
	if missing != nil {
		s += "expected but not reported: " + strings.Join(missing, "; ") + "\n"
	}
	if extra != nil {
		s += "reported but not expected: " + strings.Join(extra, "; ") + "\n"
	}
	return s
}

func gotStrings(gs []Got) []string {
	out := []string{}
	for _, g := range gs {
		out = append(out, g.String())
	}
	return out
}

// outcome class of a change list: the sorted distinct type/grade pairs.
func outcomeOf(gs []Got) string {
	if len(gs) == 0 {
		return "no change"
	}
	set := map[string]bool{}
	for _, g := range gs {
		set[g.CT+"/"+critName[g.Crit][:1]] = true
	}
	var l []string
	for k := range set {
		l = append(l, k)
	}
	sort.Strings(l)
	if len(l) > 3 {
		return fmt.Sprintf("%d kinds of changes", len(l))
	}
	return strings.Join(l, "+")
}

// Universe is a set of schemas of which all ordered pairs are explored.
type Universe struct {
	Name string
	S    []*m.Schema
}

func dedupe(ss []*m.Schema) []*m.Schema {
	seen := map[string]bool{}
	var out []*m.Schema
	for _, s := range ss {
		t := m.Render(s).Text()
		if !seen[t] {
			seen[t] = true
			out = append(out, s)
		}
	}
	return out
}

func docs(ss []*m.Schema) []*Doc {
	out := make([]*Doc, len(ss))
	for i, s := range ss {
		out[i] = mkDoc(s)
	}
	return out
}

func pairReplay(o, n *Doc, why string, got []Got) map[string]any {
	return map[string]any{"old": o.R.Text(), "new": n.R.Text(), "why": why, "got": gotStrings(got)}
}

func h64(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// explorePairs evaluates check on every ordered pair of every universe.
func explorePairs(r *e.Run, us []Universe, check func(w *e.W, o, n *Doc) (string, []Got)) {
	var base int64
	for _, u := range us {
		if r.Stopped() {
			return
		}
		u.S = dedupe(u.S)
		// every worker has its own parsed copies, so that workers share nothing
		per := make([][]*Doc, r.Workers)
		n := int64(len(u.S))
		r.AddStates(len(u.S))
		r.Par(int64(r.Workers)*0+int64(r.Workers), func(w *e.W, i int64) {
			per[i] = docs(u.S)
		})
		if r.Stopped() {
			return
		}
		b := base
		r.Par(n*n, func(w *e.W, i int64) {
			ds := per[w.ID]
			o, nw := ds[i/n], ds[i%n]
			w.Case(func() string { return u.Name + "\n--- old\n" + o.R.Text() + "\n--- new\n" + nw.R.Text() })
			why, got := check(w, o, nw)
			r.AddTransitions(1)
			r.AddTraces(1)
			w.Outcome(outcomeOf(got))
			if why != "" {
				ok := 0
				for k := 0; k < 5; k++ { // the same pair, parsed afresh
					fo, fn := &Doc{S: o.S, R: o.R, A: o.Fresh()}, &Doc{S: nw.S, R: nw.R, A: nw.Fresh()}
					if y, _ := check(w, fo, fn); y != "" {
						ok++
					}
				}
				rep := pairReplay(o, nw, why, got)
				rep["space"] = u.Name
				rep["reproduced_on_fresh_documents"] = strconv.Itoa(ok) + "/5"
				r.Violate(b+i, "pair:"+fmt.Sprintf("%x", h64(o.R.Text()+"\x00"+nw.R.Text())), fmt.Sprintf("%s\n--- old\n%s--- new\n%s", why, o.R.Text(), nw.R.Text()), rep)
			}
		})
		base += n * n
		r.Space(u.Name, "schemas", n, "ordered_pairs", n*n)
		if len(u.S) > 1 {
			mid := u.S[len(u.S)/2]
			lst := u.S[len(u.S)-1]
			r.Sample(map[string]string{"space": u.Name, "old": m.Render(mid).Text(), "new": m.Render(lst).Text()})
		}
	}
}

// explorePairList evaluates check on listed pairs.
func explorePairList(r *e.Run, name string, ps [][2]*m.Schema, check func(w *e.W, o, n *Doc) (string, []Got)) {
	if r.Stopped() {
		return
	}
	seen := map[uint64]bool{}
	for _, p := range ps {
		for _, s := range p {
			k := h64(m.Render(s).Text())
			if !seen[k] {
				seen[k] = true
			}
		}
	}
	r.AddStates(len(seen))
	r.Par(int64(len(ps)), func(w *e.W, i int64) {
		o, n := mkDoc(ps[i][0]), mkDoc(ps[i][1])
		w.Case(func() string { return name + "\n--- old\n" + o.R.Text() + "\n--- new\n" + n.R.Text() })
		why, got := check(w, o, n)
		r.AddTransitions(1)
		r.AddTraces(1)
		w.Outcome(outcomeOf(got))
		if why != "" {
			rep := pairReplay(o, n, why, got)
			rep["space"] = name
			r.Violate(i, "pair:"+fmt.Sprintf("%x", h64(o.R.Text()+"\x00"+n.R.Text())), fmt.Sprintf("%s\n--- old\n%s--- new\n%s", why, clipS(o.R.Text(), 700), clipS(n.R.Text(), 700)), rep)
		}
	})
	r.Space(name, "schemas", len(seen), "pairs", len(ps))
}

func clipS(s string, n int) string {
	if len(s) > n {
		return s[:n] + "...\n"
	}
	return s
}

// refCheck compares with the reference difference.
func refCheck(w *e.W, o, n *Doc) (string, []Got) {
	got := diffOf(o.A, n.A)
	exp := m.Diff(o.S, n.S, nil, nil)
	return match(exp, got, matchOpt{}), got
}
