package main

import (
	"errors"
	"fmt"

	"strings"

	cmdlint "github.com/CrowdStrike/gql/cmd/linter"
	"github.com/CrowdStrike/gql/pkg/linter"
	"github.com/vektah/gqlparser/v2/ast"

	e "verifmc/engine"
)

// layoutSpace lints laid-out schemas with all the rules: every error has to be at line and column of its element, in order.
func layoutSpace(r *e.Run, name string, n int64, build func(i int64) *LDoc) {
	if r.Stopped() {
		return
	}
	fs := rulesOf()
	cnt := make([]int64, r.Workers)
	r.Par(n, func(w *e.W, i int64) {
		d := build(i)
		if d == nil {
			return
		}
		cnt[w.ID]++
		w.Case(func() string { return d.Text })
		got := lintText(d.Text, fs)
		r.AddTransitions(1)
		r.AddTraces(1)
		last := 0
		if len(got) > 0 {
			last = got[len(got)-1].Line
		}
		w.Outcome(fmt.Sprintf("%d errors up to line %d", min(len(got), 20), min(last, 9)))
		why := ""
		if !inOrder(got) {
			why = fmt.Sprintf("not in position order: %v\n", lintStrings(got))
		}
		why += lintMatch(d, d.S.Expect(), got, true, true)
		if why != "" {
			r.Violate(i, fmt.Sprintf("layout:%x", h64(d.Text)), fmt.Sprintf("%s--- schema\n%q", why, clipS(d.Text, 1500)), map[string]any{"schema": d.Text, "why": why, "got": lintStrings(got)})
		}
	})
	var total int64
	for _, c := range cnt {
		total += c
	}
	r.AddStates(int(total))
	r.Space(name, "documents", total)
	for i := n / 2; i < n && i < n/2+50; i++ {
		if d := build(i); d != nil {
			r.Sample(map[string]any{"space": name, "schema": clipS(d.Text, 600)})
			break
		}
	}
}

// needGap tells whether two tokens would run together without a separator.
func needGap(a, b string) bool {
	w := func(c byte) bool { return isLower(c) || isUpper(c) || isDigit(c) || c == '_' || c == '.' || c == '-' }
	return w(a[len(a)-1]) && w(b[0]) || a[len(a)-1] == '"' && b[0] == '"'
}

// layoutDocs are small schemas which break most rules; d is the description of every element which can have one.
func layoutDocs(d LDesc) []*LSchema {
	f := func(name, typ string, args ...LArg) LField { return LField{Name: name, Type: typ, Args: args, Desc: d} }
	a := func(name, typ, def string) LArg { return LArg{Name: name, Type: typ, Default: def, Desc: d} }
	v := func(n ...string) (out []LVal) {
		for _, x := range n {
			out = append(out, LVal{Name: x, Desc: d})
		}
		return
	}
	return []*LSchema{
		{[]LType{{Kind: "scalar", Name: "sc", Desc: d}, {Kind: "scalar", Name: "Sd", Desc: d}}},
		{[]LType{{Kind: "type", Name: "a", Desc: d, Fields: []LField{f("B", "I")}}}},
		{[]LType{{Kind: "enum", Name: "e", Desc: d, Vals: v("a", "b")}}},
		{[]LType{{Kind: "union", Name: "u", Desc: d, Members: []string{"A"}}, {Kind: "enum", Ext: true, Name: "x", Vals: v("q")}}},
		{[]LType{{Kind: "type", Ext: true, Name: "a", Fields: []LField{f("B", "[I!]", a("x", "I", "1"))}}}},
		{[]LType{{Kind: "interface", Name: "xConnection", Desc: d, Fields: []LField{f("g", "xConnection!", a("first", "S", ""))}}}},
		{[]LType{{Kind: "type", Name: "yConnection", Desc: d, Fields: []LField{f("edges", "E"), f("pageInfo", "P")}}}},
		{[]LType{{Kind: "input", Name: "i", Desc: d, Fields: []LField{{Name: "A", Type: "S", Default: `"é#\""`, Desc: d}, {Name: "b_", Type: "[S]", Desc: d}}}}},
		{[]LType{
			{Kind: "type", Name: "q", Desc: d, Fields: []LField{f("c", "aConnection", a("first", "Int!", ""), a("last", "Int!", "3"), a("after", "S", `"é"`), a("before", "S", "")), f("_d", "[[Int!]!]!")}},
			{Kind: "enum", Name: "ee", Desc: d, Vals: v("A", "b", "Cc")},
			{Kind: "interface", Name: "zConnection", Desc: d, Fields: []LField{f("G", "Int")}},
			{Kind: "type", Ext: true, Name: "q", Fields: []LField{f("H", "aConnection", a("last", "S", ""))}},
		}},
	}
}

var layDescs = []LDesc{
	{}, {`"d"`, true}, {"\"\"\"\n  d\n  \"\"\"", true}, {`"""é 世 😀 d"""`, true}, {"\"\"\"a\r\n\rb\né\"\"\"", true}, {`"\"é\u00e9\\"`, true}, {"\"\"\"x \\\"\"\" y\"\"\"", true}, {`"#lint-disable type-caps"`, true},
	{`""`, false}, {`""""""`, false}, {"\"\"\"\n\n  \"\"\"", false},
}

func l08(r *e.Run) {
	seps := []string{" ", "", "\n", "\r\n", "\t", ",", "#é,\"\n"}
	if r.Thorough() {
		seps = append(seps, "\r", "\n\n", "  ")
	}
	// 1. all separator assignments of short documents
	lim := int64(e.Pick(r, 20000, 1000000))
	for k, s := range layoutDocs(LDesc{}) {
		s := s
		toks := s.Toks()
		gaps := len(toks) + 1
		// as many leading separators as fit, all the choices for a window of gaps, one blank elsewhere
		ns := int64(len(seps))
		win, n := 0, int64(1)
		for win < gaps && n*ns <= lim {
			win++
			n *= ns
		}
		for from := 0; from+win <= gaps; from += max(1, win-2) {
			from := from
			layoutSpace(r, fmt.Sprintf("document %d: every separator in gaps %d to %d of %d", k, from, from+win-1, gaps), n, func(i int64) *LDoc {
				ch := make([]string, win)
				for j := range ch {
					ch[j] = seps[i%ns]
					i /= ns
				}
				for j, x := range ch {
					if g := from + j; x == "" && g > 0 && g < gaps-1 && needGap(toks[g-1].Text, toks[g].Text) {
						return nil
					}
				}
				return layOut(s, func(g int) string {
					if g >= from && g < from+win {
						return ch[g-from]
					}
					return " "
				})
			})
			if win == gaps {
				break
			}
		}
	}
	// everything which pairs of changes make of schemas: on lines of their own, and all on one line
	for ki, kernel := range lintKernels() {
		docs := nearDocs(r, kernel, e.Pick(r, 6, 1))
		layoutSpace(r, fmt.Sprintf("all pairs of changes of kernel %d", ki), 2*docs.n, func(i int64) *LDoc {
			d := docs.at(i / 2)
			if d == nil {
				return nil
			}
			if i%2 == 1 {
				return layOut(d.S, func(int) string { return " " })
			}
			return d
		})
	}
	// 2. every pair of gaps with every pair of separators, with every description, in every style
	seps2 := []string{"", " ", "\n", "\r", "\r\n", "\t", ",", ", ,", "\n\n\n", "\r\r\n", " \t ", "#\n", "# é世😀\n", "#\"\"\"\r\n", "  ", "\n\t", "            "}
	styles := []string{" ", "\n", "\r\n", "\t", "\r"}
	ns2 := int64(len(seps2))
	nst := int64(len(styles))
	for k := range layoutDocs(LDesc{}) {
		for di, d := range layDescs {
			s := layoutDocs(d)[k]
			toks := s.Toks()
			g := int64(len(toks) + 1)
			if k == 8 && !r.Thorough() && di > 3 {
				continue
			}
			layoutSpace(r, fmt.Sprintf("document %d, description %q: every pair of gaps", k, d.Lit), g*g*ns2*ns2*nst, func(i int64) *LDoc {
				x, y := int(i%g), int(i/g%g)
				if x >= y {
					return nil
				}
				i /= g * g
				sx, sy, st := seps2[i%ns2], seps2[i/ns2%ns2], styles[i/ns2/ns2]
				if !r.Thorough() && (k == 8 && y-x > 3 || k == 8 && st == "\t" || di > 2 && st != "\r\n") {
					return nil
				}
				bad := func(p int, t string) bool {
					return t == "" && p > 0 && p < len(toks) && needGap(toks[p-1].Text, toks[p].Text)
				}
				if bad(x, sx) || bad(y, sy) {
					return nil
				}
				return layOut(s, func(p int) string {
					switch p {
					case x:
						return sx
					case y:
						return sy
					}
					return st
				})
			})
		}
	}
	// 3. a different description on every element
	nd := int64(len(layDescs))
	for k := range layoutDocs(LDesc{}) {
		n := int64(len(describable(layoutDocs(LDesc{})[k])))
		if n == 0 {
			continue
		}
		tot, m := int64(1), int64(0)
		for m < n && tot*nd <= int64(e.Pick(r, 5000, 300000)) {
			tot *= nd
			m++
		}
		for from := int64(0); from+m <= n; from++ {
			from := from
			layoutSpace(r, fmt.Sprintf("document %d: every description on elements %d to %d of %d", k, from, from+m-1, n), tot, func(i int64) *LDoc {
				s := layoutDocs(LDesc{})[k]
				for j, d := range describable(s) {
					if int64(j) >= from && int64(j) < from+m {
						*d = layDescs[i%nd]
						i /= nd
					}
				}
				return pretty(s)
			})
		}
	}
	// 4. large distances: wide lines and many lines
	wides := []int{1, 2, 9, 10, 98, 99, 100, 127, 128, 255, 256, 998, 999, 1000, 4095, 4096, 32767, 32768, 65535, 65536, 100000}
	fills := []string{" ", "\n", "\r\n", "\t", ",", "#é\n", "é"}
	docs5 := layoutDocs(LDesc{})
	nw, nfl, nd5 := int64(len(wides)), int64(len(fills)), int64(len(docs5))
	layoutSpace(r, "large distances", nw*nfl*nd5*5, func(i int64) *LDoc {
		wd, fl, s, where := wides[i%nw], fills[i/nw%nfl], docs5[i/nw/nfl%nd5], i/nw/nfl/nd5
		t := strings.Repeat(fl, wd)
		if fl == "é" {
			t = "#" + t + "\n"
		}
		g := len(s.Toks()) / 2
		return layOut(s, func(p int) string {
			if where == 0 && p == 0 || where == 1 && p == g || where == 2 && p <= 2 {
				return " " + t
			}
			if where == 3 && p%7 == 3 || where == 4 && p == g { // on some lines of many
				return t + " "
			}
			if where >= 3 && p%5 == 0 {
				return "\n"
			}
			return " "
		})
	})
	orderSpaces(r)
}

// rulesGiving makes lint rules which report the given positions.
func rulesGiving(at []LC, split int) []linter.LintRuleFunc {
	var l [2]linter.LintErrorsWithMetadata
	for i, p := range at {
		k := 0
		if i >= split {
			k = 1
		}
		l[k] = append(l[k], linter.LintErrorWithMetadata{Rule: linter.LintRule(fmt.Sprint("rule", k)), Line: p.Line, Column: p.Col, Err: errors.New(fmt.Sprint("error ", i))})
	}
	var out []linter.LintRuleFunc
	for k := range l {
		k := k
		out = append(out, func(*ast.SchemaDocument) linter.LintErrorsWithMetadata {
			return append(linter.LintErrorsWithMetadata{}, l[k]...)
		})
	}
	return out
}

// orderSpace: the errors of arbitrary rules come out completely and in position order.
func orderSpace(r *e.Run, name string, n int64, build func(i int64) []LC) {
	if r.Stopped() {
		return
	}
	r.Par(n, func(w *e.W, i int64) {
		at := build(i)
		w.Case(func() string { return fmt.Sprint(at) })
		why := ""
		for pass := 0; pass < 2; pass++ {
			var got []linter.LintErrorWithMetadata
			if pass == 0 {
				got = cmdlint.Lint("s.graphql", "scalar S\n", rulesGiving(at, len(at)*2/3))
			} else {
				var l linter.LintErrorsWithMetadata
				for k, f := range rulesGiving(at, len(at)) {
					if k == 0 {
						l = f(nil)
					}
				}
				got = l.GetSortedErrors()
			}
			r.AddTransitions(1)
			seen := map[string]bool{}
			for _, g := range got {
				var k int
				if g.Err == nil {
					why = "an error without message"
					continue
				}
				if c, _ := fmt.Sscanf(g.Err.Error(), "error %d", &k); c != 1 || k >= len(at) || at[k] != (LC{g.Line, g.Column}) {
					why = "an error was changed: " + lintString(g)
				}
				seen[g.Err.Error()] = true
			}
			if len(got) != len(at) || len(seen) != len(at) {
				why = fmt.Sprintf("%d errors came out of %d", len(seen), len(at))
			} else if !inOrder(got) {
				why = "not in position order"
			}
			if why != "" {
				var out []string
				for _, g := range got {
					out = append(out, fmt.Sprintf("%d:%d", g.Line, g.Column))
				}
				why += fmt.Sprintf("; in: %v, out: %v", at, out)
				break
			}
		}
		r.AddTraces(1)
		w.Outcome(fmt.Sprintf("%d errors sorted", min(len(at), 50)))
		if why != "" {
			r.Violate(i, fmt.Sprintf("order:%v", at), why, map[string]any{"positions": at, "why": why})
		}
	})
	r.AddStates(int(n))
	r.Space(name, "error lists", n)
	r.Sample(map[string]any{"space": name, "positions": fmt.Sprint(build(n / 2))})
}

func orderSpaces(r *e.Run) {
	vals := []LC{{1, 1}, {1, 2}, {1, 10}, {2, 1}, {2, 9}, {9, 3}, {10, 1}, {10, 2}, {100, 1}, {2, 100}}
	ml := e.Pick(r, 5, 6)
	n, at := seqCount(len(vals), ml)
	orderSpace(r, fmt.Sprintf("all lists of up to %d errors over ten positions", ml), n, func(i int64) []LC {
		var l []LC
		for _, x := range at(i) {
			l = append(l, vals[x])
		}
		return l
	})
	three := []LC{{2, 10}, {10, 2}, {10, 10}}
	m2 := e.Pick(r, 9, 12)
	n2, at2 := seqCount(3, m2)
	orderSpace(r, fmt.Sprintf("all lists of up to %d errors over three positions", m2), n2, func(i int64) []LC {
		var l []LC
		for _, x := range at2(i) {
			l = append(l, three[x])
		}
		return l
	})
	// extreme positions
	ls := []int{1, 2, 3, 10, 99, 100, 255, 256, 257, 999, 1000, 1001, 65535, 65536, 1000000, 1<<31 - 1}
	cs := []int{1, 2, 9, 10, 99, 100, 101, 255, 256, 257, 999, 1000, 1001, 1023, 1024, 9999, 10000, 10001, 65535, 65536, 65537, 99999, 100000, 1000000, 1 << 20, 1 << 24, 1<<31 - 1}
	nx := int64(len(ls) * len(cs))
	ext := func(i int64) LC { return LC{ls[i%int64(len(ls))], cs[i/int64(len(ls))]} }
	orderSpace(r, "all pairs of errors over extreme positions", nx*nx, func(i int64) []LC { return []LC{ext(i % nx), ext(i / nx)} })
	// longer than the thresholds of sorting algorithms
	bits := e.Pick(r, 15, 20)
	orderSpace(r, fmt.Sprintf("all lists of %d errors over two positions", bits), 1<<bits, func(i int64) []LC {
		l := make([]LC, bits)
		for k := range l {
			l[k] = []LC{{9, 100}, {10, 9}}[i>>k&1]
		}
		return l
	})
	max := int64(e.Pick(r, 80, 300))
	orderSpace(r, "long lists in patterns", max*60, func(i int64) []LC {
		n, p := int(i%max)+1, int(i/max)
		l := make([]LC, n)
		for k := range l {
			x := k
			switch p % 6 {
			case 1:
				x = n - k
			case 2:
				x = k * 7 % n
			case 3:
				x = k % 3
			case 4:
				x = (k * k) % 11
			case 5:
				x = k ^ 5
			}
			switch p / 6 {
			case 0:
				l[k] = LC{x, 1}
			case 1:
				l[k] = LC{1, x}
			case 2:
				l[k] = LC{x / 10, x % 10}
			case 3:
				l[k] = LC{x % 10, x / 10}
			case 4:
				l[k] = LC{x, n - k}
			case 5:
				l[k] = LC{1000000 - x, x}
			case 6:
				l[k] = LC{x / 2, 100 - x}
			case 7:
				l[k] = LC{1 << (x % 20), 3}
			case 8:
				l[k] = LC{7, 1 << (x % 20)}
			default:
				l[k] = LC{x % 2, x % 5}
			}
		}
		return l
	})
	// one element out of place in an ordered list, all positions and sizes
	mx := int64(e.Pick(r, 40, 90))
	orderSpace(r, "one error out of place", mx*mx*mx, func(i int64) []LC {
		n, a, b := int(i%mx)+1, int(i/mx%mx), int(i/mx/mx)
		l := make([]LC, n)
		for k := range l {
			l[k] = LC{k/3 + 1, k%3*50 + 1}
		}
		if a < n && b < n {
			l[a], l[b] = l[b], l[a]
		}
		return l
	})
}
