package main

import (
	"fmt"
	"regexp"
	"sort"
	"strings"

	"github.com/CrowdStrike/gql/pkg/linter"

	e "verifmc/engine"
)

var positionText = regexp.MustCompile(`\b\d+:\d+\b`)

// local is a lint error in a form which does not depend on where its definition is.
type local struct {
	rule      string
	line, col int
	text      string
}

func locals(errs []linter.LintErrorWithMetadata, shift int) []local {
	out := make([]local, len(errs))
	for i, x := range errs {
		out[i] = local{string(x.Rule), x.Line + shift, x.Column, positionText.ReplaceAllString(x.Err.Error(), "")}
	}
	return out
}

func sortLocals(l []local) {
	sort.Slice(l, func(i, j int) bool {
		a, b := l[i], l[j]
		if a.line != b.line {
			return a.line < b.line
		}
		if a.col != b.col {
			return a.col < b.col
		}
		if a.rule != b.rule {
			return a.rule < b.rule
		}
		return a.text < b.text
	})
}

// lblock is a part of a document with whole lines, and the errors of the document which consists of it alone.
type lblock struct {
	text  string
	lines int
	errs  []local
}

func mkBlock(text string, fs []linter.LintRuleFunc) *lblock {
	if !strings.HasSuffix(text, "\n") {
		text += "\n"
	}
	if !parses(text) {
		return nil
	}
	return &lblock{text, strings.Count(text, "\n"), locals(lintText(text, fs), 0)}
}

func localityCheck(r *e.Run, w *e.W, order int64, name string, bs []*lblock, fs []linter.LintRuleFunc) {
	var t strings.Builder
	var exp []local
	at := 0
	for _, b := range bs {
		t.WriteString(b.text)
		for _, x := range b.errs {
			x.line += at
			exp = append(exp, x)
		}
		at += b.lines
	}
	text := t.String()
	w.Case(func() string { return name + "\n" + text })
	r.AddTransitions(1)
	r.AddTraces(1)
	raw := lintText(text, fs)
	got := locals(raw, 0)
	w.Outcome(fmt.Sprintf("%d errors", min(len(got), 30)))
	sortLocals(exp)
	sortLocals(got)
	why := ""
	for i, j := 0, 0; i < len(exp) || j < len(got); {
		switch {
		case i < len(exp) && j < len(got) && exp[i] == got[j]:
			i++
			j++
		case j == len(got) || i < len(exp) && lessLocal(exp[i], got[j]):
			why += fmt.Sprintf("reported for a definition alone, but not in the document: %+v\n", exp[i])
			i++
		default:
			why += fmt.Sprintf("reported in the document, but not for the definition alone: %+v\n", got[j])
			j++
		}
	}
	if why == "" && !inOrder(raw) {
		why = "the errors are not in the order of their positions\n"
	}
	if why != "" {
		var parts []string
		for _, b := range bs {
			parts = append(parts, b.text)
		}
		r.Violate(order, fmt.Sprintf("lint:%x", h64(text)), clipS(why, 1500)+"--- schema\n"+clipS(text, 1500), map[string]any{"space": name, "schema": text, "definitions": parts, "why": why, "got": lintStrings(raw)})
	}
}

func lessLocal(a, b local) bool {
	l := []local{b, a}
	sortLocals(l)
	return l[0] == a && a != b
}

// l11: the errors of a document are those of its definitions taken alone
func l11(r *e.Run) {
	fs := rulesOf(allRuleNames...)
	// no lint comment: these reach beyond their definition
	texts := []string{
		"", "\n\n", "# a comment\n", "# lint-disable type-desc\n", "\"\"\"\n#lint-disable type-desc\n\"\"\"\nscalar Q\n",
		"type A { a: Int }", "\"d\" type A { \"d\" a(\"d\" x: Int): Int }", "type A { a(x: Int): Int }", "type a { B: Int }", "extend type A { b: Int }", "extend type A { \"d\" b: Int c(x: Int): Int }",
		"extend type a { b: Int }", "type A", "type A implements I & J @d(x: 1) { a_b: Int }", "type B { a: Int b: Int }", "\"\"\"d\"\"\" type B { a: Int }",
		"interface I { a: Int }", "\"d\" interface I { \"d\" a(x: Int): Int }", "extend interface I { b(\"\" x: Int): Int }", "interface A { a: Int }",
		"enum E { A B }", "enum E { a B }", "\"d\" enum E { \"d\" A \"d\" B }", "enum E { C }", "enum E { \"d\" C }", "extend enum E { D }", "extend enum E { \"d\" d }", "\"d\" enum F { \"d\" A b }", "enum e { A }", "extend enum F { A }",
		"enum A { X }",
		"union U = A | B", "\"d\" union U = A", "extend union U = C", "scalar S", "\"d\" scalar S @s", "extend scalar S @t", "scalar s",
		"input N { a: Int = 1 }", "\"d\" input N { \"d\" a: [Int!]! B: Int }", "extend input N { b_c: Int }", "input A { z: Int }",
		"type AConnection { a: Int }", "\"d\" type AConnection { \"d\" edges: [AEdge] \"d\" pageInfo: PageInfo! }", "type AConnection { edges: Int pageInfo: [PageInfo!]! }", "extend type AConnection { edges: [AEdge] pageInfo: PageInfo! }",
		"interface AConnection { edges: [AEdge] }", "scalar BConnection", "type PageInfo { a: Int }", "scalar PageInfo", "type AEdge { node: A }", "type Connection { edges: [Int] }",
		"type Q { as: AConnection }", "type Q { as(first: Int, after: ID): AConnection }", "\"d\" type Q { \"d\" as(\"d\" first: Int!, \"d\" after: ID \"d\" last: Int \"d\" before: ID): [AConnection!]! }", "extend type Q { bs(first: String): BConnection }",
		"type Q { bs(last: [Int], before: ID): BConnection a(x: Int): Int }",
		"directive @d(x: Int) on OBJECT", "\"d\" directive @D(\"d\" B: Int) repeatable on FIELD", "schema { query: Q }", "\"d\" schema @d { query: Q mutation: M }", "extend schema @d { subscription: S }",
		"type __A { __a: Int }", "type é { a: Int }",
		// many errors of a sort in one definition
		"type a { A: Int B_b: Int c_c: Int D: Int e_: Int }", "input n {\n  A: Int\n  B_b: Int c_c: Int\n  D: Int\n}", "enum g { a b c d e }", "extend enum G {\n a\n b c\n d }", "extend interface I { a_(b: Int c: Int d: Int e: Int): Int A: Int B: Int }",
		"interface I { a(b: Int c: Int d: Int e: Int): Int b(\n b: Int\n c: Int): Int }", "type R { a: AConnection b(first: Int!): AConnection c(last: String before: ID): [AConnection] d(first: Float): AConnection }",
		// definitions which describe what others leave undescribed
		"\"d\" type A implements I { \"d\" a(\"d\" x: Int): Int }", "\"d\" interface J implements I { \"d\" a: Int \"d\" b(x: Int): Int }", "extend type A implements I @d { \"d\" a: Int \"d\" B: Int }", "interface I implements J { a(x: Int): Int B: Int }",
		"\"d\" input O { \"d\" a: N = {a: 1} \"d\" b: E = A }", "extend union U = A", "\"d\" extend",
	}
	var bs []*lblock
	for _, t := range texts {
		if b := mkBlock(t, fs); b != nil {
			bs = append(bs, b)
		}
	}
	n := int64(len(bs))
	for k := 1; k <= e.Pick(r, 3, 4); k++ {
		if r.Stopped() {
			return
		}
		name := fmt.Sprintf("all sequences of %d of %d definitions, with repetitions", k, n)
		alpha := bs
		if k == 4 { // every second one
			alpha = nil
			for i := range bs {
				if i%2 == 0 || strings.Contains(bs[i].text, "num E") || strings.Contains(bs[i].text, "type A") {
					alpha = append(alpha, bs[i])
				}
			}
			name = fmt.Sprintf("all sequences of %d of %d definitions, with repetitions", k, len(alpha))
		}
		a := int64(len(alpha))
		tot := int64(1)
		for i := 0; i < k; i++ {
			tot *= a
		}
		r.Par(tot, func(w *e.W, i int64) {
			l := make([]*lblock, k)
			for x, j := i, 0; j < k; j++ {
				l[j] = alpha[x%a]
				x /= a
			}
			localityCheck(r, w, i, name, l, fs)
		})
		r.AddStates(int(tot))
		r.Space(name, "documents", tot)
		r.Sample(map[string]string{"space": name, "first": alpha[a/2].text, "second": alpha[a-1].text})
	}
	// one definition among many copies of another one
	counts := []int{2, 7, 8, 15, 16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300}
	r.Par(n*n*int64(len(counts)), func(w *e.W, i int64) {
		c := counts[i%int64(len(counts))]
		x := i / int64(len(counts))
		if !r.Thorough() && (x/n)%7 != 0 && (x%n)%7 != 0 {
			return
		}
		l := make([]*lblock, 0, c+1)
		for j := 0; j < c; j++ {
			l = append(l, bs[x/n])
		}
		l = append(l, bs[x%n])
		if i%2 == 0 {
			l[0], l[c] = l[c], l[0]
		}
		localityCheck(r, w, i, "one definition next to many of another one", l, fs)
	})
	r.Space("one definition next to many of another one", "definitions", n, "numbers", len(counts))
	// all the definitions at once, in every rotation, both directions
	r.Par(n*2, func(w *e.W, i int64) {
		l := append(append([]*lblock{}, bs[i/2:]...), bs[:i/2]...)
		if i%2 == 1 {
			for a, b := 0, len(l)-1; a < b; a, b = a+1, b-1 {
				l[a], l[b] = l[b], l[a]
			}
		}
		localityCheck(r, w, i, "all definitions, every rotation", l, fs)
	})
	r.Space("all definitions, every rotation", "documents", n*2)
	// the neighbourhoods of the kernels, definition by definition
	for ki, kernel := range lintKernels() {
		if r.Stopped() {
			return
		}
		d := nearDocs(r, kernel, e.Pick(r, 4, 1))
		cnt := make([]int64, r.Workers)
		r.Par(d.n, func(w *e.W, i int64) {
			doc := d.at(i)
			if doc == nil {
				return
			}
			var l []*lblock
			for _, t := range doc.S.Types {
				b := mkBlock(pretty(&LSchema{[]LType{t}}).Text, fs)
				if b == nil {
					return
				}
				l = append(l, b)
			}
			cnt[w.ID]++
			localityCheck(r, w, i, fmt.Sprintf("all pairs of changes of kernel %d", ki), l, fs)
		})
		var total int64
		for _, c := range cnt {
			total += c
		}
		r.AddStates(int(total))
		r.Space(fmt.Sprintf("all pairs of changes of kernel %d", ki), "documents", total)
	}
	r.Assume("a document is taken apart at line ends between its definitions", "documents with lint comments are the subject of L05 and L06")
}
