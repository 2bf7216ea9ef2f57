package main

import (
	"fmt"
	"strings"

	cmdlint "github.com/CrowdStrike/gql/cmd/linter"
	"github.com/CrowdStrike/gql/pkg/compare"
	"github.com/CrowdStrike/gql/pkg/linter"
	"github.com/CrowdStrike/gql/utils"
	"github.com/vektah/gqlparser/v2/ast"

	e "verifmc/engine"
)

// robust evaluates one text in the process: acceptance, linting, comparing with the base schema in both directions.
func robust(w *e.W, text, base string, rules []linter.LintRuleFunc) (why string) {
	r := w.R
	ok := false
	if msg := e.Guard(func() { ok = parses(text) }); msg != "" {
		// the parser itself panics: the commands must not
		return "the parser panics on the text: " + msg
	}
	var doc *ast.SchemaDocument
	if msg := e.Guard(func() {
		var err error
		doc, err = utils.ParseSchema(map[string][]byte{"s.graphql": []byte(text)})
		if (err == nil) != ok {
			why = fmt.Sprintf("the parser accepts the text: %v; loading it fails with: %v", ok, err)
		}
		if err == nil && doc == nil && why == "" {
			why = "loading the text gives nothing"
		}
	}); msg != "" {
		return msg
	}
	r.AddTransitions(1)
	if why != "" {
		return why
	}
	if !ok {
		w.Outcome("rejected")
		return ""
	}
	if msg := e.Guard(func() {
		l := cmdlint.Lint("s.graphql", text, rules)
		w.Outcome(fmt.Sprintf("accepted, %d lint errors", min(len(l), 9)))
	}); msg != "" {
		return "linting: " + msg
	}
	if msg := e.Guard(func() {
		load := func(t string) *ast.SchemaDocument {
			d, err := utils.ParseSchema(map[string][]byte{"s.graphql": []byte(t)})
			if err != nil {
				panic(err)
			}
			return d
		}
		for _, c := range [][]*compare.Change{
			compare.FindChangesInSchemas(doc, load(base)), compare.FindChangesInSchemas(load(base), doc), compare.FindChangesInSchemas(doc, load(text)),
		} {
			for _, g := range compare.GroupChanges(c) {
				observe(g)
			}
		}
	}); msg != "" {
		return "comparing: " + msg
	}
	r.AddTransitions(4)
	return ""
}

func robustSpace(r *e.Run, name, base string, n int64, at func(i int64) string) {
	if r.Stopped() {
		return
	}
	rules := rulesOf()
	cnt := make([]int64, r.Workers)
	r.Par(n, func(w *e.W, i int64) {
		text := at(i)
		if text == "\x00skip" {
			return
		}
		cnt[w.ID]++
		w.Case(func() string { return fmt.Sprintf("%q", text) })
		why := robust(w, text, base, rules)
		r.AddTraces(1)
		if why != "" {
			r.Violate(i, fmt.Sprintf("input:%x", h64(text)), fmt.Sprintf("%s\n--- text %q", clipS(why, 1500), clipS(text, 800)), map[string]any{"text": text, "why": why, "other": base})
		}
	})
	var t int64
	for _, x := range cnt {
		t += x
	}
	r.AddStates(int(t))
	r.Space(name, "texts", t)
	if n > 3 {
		r.Sample(map[string]any{"space": name, "text": clipS(at(n/2+1), 300)})
	}
}

const robustBase = "\"d\" type A implements I & J @d(a: 1) {\n  \"\"\"d\n  e\"\"\" f(\"x\" a: [Int!]! = [1, 2] @d, b: In = {x: 1.5e3, y: {z: \"s\\n\"}}): B! @deprecated(reason: \"r\")\n}\n" +
	"interface I { f: B }\nunion U @d = | A | B\nenum E { V W @deprecated }\ninput In { x: Float = -1 y: In = null }\nscalar S @specifiedBy(url: \"u\")\n" +
	"directive @d(a: Int = 0, e: E = V) repeatable on FIELD_DEFINITION | OBJECT # c\nschema @d { query: A mutation: B }\n" +
	"extend type A { g: S }\nextend enum E { X }\nextend union U = C\nextend input In { w: ID! }\nextend schema { subscription: A }\nextend scalar S @d\nextend interface I @d\n"

var robustToks = []string{"type", "A", "{", "}", "f", ":", "Int", "[", "]", "!", "(", ")", "=", "@", "|", "&", "schema", "extend", "enum", "union", "input", "interface", "scalar", "directive", "on", "implements", "query", "repeatable", "\"s\"", "\"\"\"b\"\"\"", "1", "$", "#c\n", "...", "null", "FIELD", "\"", "\x00", "é"}

// tokensOf splits a text into its tokens with the white space in front of each.
func tokensOf(text string) []string {
	var out []string
	i := 0
	for i < len(text) {
		j := i
		for j < len(text) && strings.IndexByte(" \n\t,", text[j]) >= 0 {
			j++
		}
		switch {
		case j == len(text):
		case strings.HasPrefix(text[j:], `"""`):
			k := strings.Index(text[j+3:], `"""`)
			j += k + 6
		case text[j] == '"':
			j++
			for text[j] != '"' {
				if text[j] == '\\' {
					j++
				}
				j++
			}
			j++
		case text[j] == '#':
			for j < len(text) && text[j] != '\n' {
				j++
			}
		default:
			k := j
			for k < len(text) && (nameByte(text[k]) || text[k] == '-') {
				k++
			}
			if k == j {
				k++
			}
			j = k
		}
		out = append(out, text[i:j])
		i = j
	}
	return out
}

// fragments which are accepted one by one, though many of them make no sense.
var oddFragments = []string{
	"type A", "type A { a: Int }", "type A { a: Int a: Int }", "type A { a: String } type A { a: Int }", "type A { a(x: Int, x: Int): Int }", "type A implements B", "type A implements A & A & A { a: A }", "type A @d @d(x: 1) @d(x: 1, x: 2)",
	"extend type A { a: Int }", "extend type A implements I", "extend type A @d", "extend type A { b(c: Int! = null): [[A]!]! }", "extend enum A { X }", "extend union A = B", "extend input A { a: Int! }", "extend scalar A @d", "extend interface A { a: Int }", "extend interface A implements B",
	"enum A", "enum A { X X }", "enum A { X @deprecated @deprecated(reason: null) }", "enum A { Y X @deprecated(reason: 1) }", "union A", "union A = B | B", "union A = A", "input A", "input A { a: A! = {} }", "input A { a: Int! = [1, {b: $v}] }", "input A { a: Int = [] a: [Int] = [[]] }", "interface A", "interface A { a: Int @deprecated }", "scalar A", "scalar A @specifiedBy(url: \"x\")", "\"d\" scalar A", "\"\" type A { \"\" a(\"\" b: Int): Int }",
	"directive @d on FIELD", "directive @d(a: Int = 1, a: Int) repeatable on FIELD | FIELD | OBJECT", "directive @d on | FIELD", "\"d\" directive @d(x: Int!) on QUERY directive @d on QUERY", "directive @deprecated(reason: String = \"x\") on FIELD_DEFINITION",
	"schema { query: A }", "schema { query: A query: B }", "schema { mutation: Nowhere } schema { query: A }", "schema @d { query: Q }", "extend schema @d", "extend schema { query: A }", "extend schema { subscription: A } extend schema { subscription: B }", "\"d\" schema { query: Query mutation: Mutation }",
	"type Query { q: A }", "type Mutation", "extend type Query { q: A }", "interface Subscription { s: Int }", "scalar Query", "extend type Subscription { s: Int }",
	"type A { a: Int @deprecated(reason: \"a\") @deprecated }", "type A { a: Int @d(x: {a: 1, b: [1, 2]}) @d }", "type A { a: Int @d(x: $v) }", "type __A { __a: __Int }", "type Connection { edges: Int pageInfo: [PageInfo!]! }", "type A { a(first: [Int], first: Int, after: ID): AConnection }", "enum E { true_ A a }", "type type { type: type input: input query: query }", "enum enum { enum on }", "input In { a: Int = 1e400 b: Int = -0 c: String = \"\\u0000\" }",
	"", "# only a comment", "\"d\" extend type A { a: Int }", "type A { a: Int! @deprecated(reason: \"\"\"b\n c\"\"\") }",
}

func l10(r *e.Run) {
	r.Assume("the acceptance of the vendored GraphQL parser (gqlparser) is taken as given", "nesting is explored up to 10,000 levels")
	if !parses(robustBase) {
		panic("harness: the base schema is rejected")
	}
	small := "type A { a: Int }"
	// 1. token sequences
	ml := e.Pick(r, 4, 5)
	n, at := seqCount(len(robustToks), ml)
	robustSpace(r, fmt.Sprintf("all sequences of up to %d of %d tokens", ml, len(robustToks)), small, n, func(i int64) string {
		var sb strings.Builder
		for k, x := range at(i) {
			if k > 0 {
				sb.WriteByte(' ')
			}
			sb.WriteString(robustToks[x])
		}
		return sb.String()
	})
	// inside of constructs
	in := []string{"type A { %s }", "type A { f%s: Int }", "type A { f: %s }", "type A { f: Int %s }", "type A %s { f: Int }", "input A { f: Int = %s }", "enum A { %s }", "union A %s", "directive @d %s", "schema %s", "extend %s", "type A @d(%s)", "\"d\" %s"}
	m2 := e.Pick(r, 3, 4)
	n2, at2 := seqCount(len(robustToks), m2)
	robustSpace(r, fmt.Sprintf("all sequences of up to %d tokens inside of %d constructs", m2, len(in)), small, n2*int64(len(in)), func(i int64) string {
		var l []string
		for _, x := range at2(i / int64(len(in))) {
			l = append(l, robustToks[x])
		}
		return fmt.Sprintf(in[i%int64(len(in))], strings.Join(l, " "))
	})
	// 2. short byte strings
	robustSpace(r, "all texts of up to two bytes", small, 1+256+65536, func(i int64) string {
		switch {
		case i == 0:
			return ""
		case i <= 256:
			return string([]byte{byte(i - 1)})
		}
		i -= 257
		return string([]byte{byte(i), byte(i >> 8)})
	})
	crit := []string{"\"", "\\", "#", "\n", "\r", "\x00", "\xff", "\xc3", "\xef\xbb\xbf", "\ufeff", "u", "{", "}", "$", ".", "-", "1", "e", "@", "a", " ", ":", "&", "!", "|"}
	m3 := e.Pick(r, 4, 5)
	n3, at3 := seqCount(len(crit), m3)
	robustSpace(r, fmt.Sprintf("all sequences of up to %d critical bytes", m3), small, n3, func(i int64) string {
		var sb strings.Builder
		for _, x := range at3(i) {
			sb.WriteString(crit[x])
		}
		return sb.String()
	})
	strCtx := []string{"\"%s\" scalar A", "\"\"\"%s\"\"\" scalar A", "scalar A # %s", "scalar A @d(a: \"%s\")", "input A { a: Int = %s }", "input A { a: Int = 1%s }", "%sscalar A", "scalar A%s"}
	m4 := e.Pick(r, 3, 4)
	n4, at4 := seqCount(len(crit), m4)
	robustSpace(r, fmt.Sprintf("all sequences of up to %d critical bytes inside of strings, comments and values", m4), small, n4*int64(len(strCtx)), func(i int64) string {
		var sb strings.Builder
		for _, x := range at4(i / int64(len(strCtx))) {
			sb.WriteString(crit[x])
		}
		return fmt.Sprintf(strCtx[i%int64(len(strCtx))], sb.String())
	})
	// 3. damage to a rich schema
	b := robustBase
	nb := int64(len(b))
	robustSpace(r, "every byte of a rich schema replaced by every byte", b, nb*256, func(i int64) string { return b[:i/256] + string([]byte{byte(i)}) + b[i/256+1:] })
	robustSpace(r, "every byte inserted everywhere", b, (nb+1)*256, func(i int64) string { return b[:i/256] + string([]byte{byte(i)}) + b[i/256:] })
	robustSpace(r, "every part cut out, every prefix and suffix", b, nb*nb, func(i int64) string {
		x, y := i%nb, i/nb
		if x > y || (!r.Thorough() && y-x > 40 && x != 0 && y != nb-1) {
			return "\x00skip"
		}
		return b[:x] + b[y+1:]
	})
	ts := tokensOf(b)
	if strings.Join(ts, "") != b {
		panic("harness: tokensOf")
	}
	nt := int64(len(ts))
	vocab := robustToks
	robustSpace(r, "every token replaced by, or preceded by, every token", b, nt*int64(len(vocab))*2, func(i int64) string {
		x, v, ins := i%nt, vocab[i/nt%int64(len(vocab))], i/nt/int64(len(vocab)) == 1
		t := append([]string{}, ts...)
		if ins {
			t[x] = " " + v + " " + t[x]
		} else {
			t[x] = " " + v
		}
		return strings.Join(t, "")
	})
	robustSpace(r, "every pair of tokens dropped, swapped or doubled", b, nt*nt*3, func(i int64) string {
		x, y, op := i%nt, i/nt%nt, i/nt/nt
		if x > y {
			return "\x00skip"
		}
		t := append([]string{}, ts...)
		switch op {
		case 0:
			t[x], t[y] = "", ""
		case 1:
			t[x], t[y] = t[y], t[x]
		case 2:
			t[x] += " " + t[x]
			if x != y {
				t[y] += " " + t[y]
			}
		}
		return strings.Join(t, "")
	})
	// 4. nesting and length
	depth := []int{1, 2, 10, 100, 1000, 10000}
	shapes := []func(n int) string{
		func(n int) string {
			return "input A { a: " + strings.Repeat("[", n) + "I" + strings.Repeat("]", n) + " }"
		},
		func(n int) string { return "input A { a: " + strings.Repeat("[", n) },
		func(n int) string {
			return "input A { a: I = " + strings.Repeat("[", n) + strings.Repeat("]", n) + " }"
		},
		func(n int) string {
			return "input A { a: I = " + strings.Repeat("{a:", n) + "1" + strings.Repeat("}", n) + " }"
		},
		func(n int) string { return "input A { a: I = " + strings.Repeat("{a:", n) },
		func(n int) string { return strings.Repeat("{", n) }, func(n int) string { return strings.Repeat("scalar A ", n) }, func(n int) string { return strings.Repeat("extend type A { a: Int } ", n/10+1) },
		func(n int) string { return "type A { " + strings.Repeat("a: Int ", n/10+1) + "}" }, func(n int) string { return "scalar " + strings.Repeat("A", n) }, func(n int) string { return "scalar A " + strings.Repeat("@d ", n) },
		func(n int) string { return "\"" + strings.Repeat("\\\"", n) + "\" scalar A" }, func(n int) string { return "\"\"\"" + strings.Repeat("\\\"\"\"", n) + "\"\"\" scalar A" }, func(n int) string { return "#" + strings.Repeat("\"", n) + "\nscalar A" },
		func(n int) string { return "union A = " + strings.Repeat("|B", n) }, func(n int) string { return "type A implements " + strings.Repeat("&B", n) },
	}
	robustSpace(r, "nesting and length", small, int64(len(depth)*len(shapes)), func(i int64) string { return shapes[i/int64(len(depth))](depth[i%int64(len(depth))]) })
	oddPairs(r)
	severalFiles(r)
	malformedCLI(r)
	severalFilesCLI(r)
}

// severalFiles: several files of which any may be malformed are rejected exactly when one of them is, whatever their names,
// order and content.
func severalFiles(r *e.Run) {
	if r.Stopped() {
		return
	}
	var texts []string
	n, at := seqCount(len(robustToks), e.Pick(r, 2, 3))
	for i := int64(0); i < n; i++ {
		var l []string
		for _, x := range at(i) {
			l = append(l, robustToks[x])
		}
		texts = append(texts, strings.Join(l, " "))
	}
	for i := 0; i < 256; i++ {
		texts = append(texts, string([]byte{byte(i)}), " "+string([]byte{byte(i)}), string([]byte{byte(i)})+"\n", "scalar A"+string([]byte{byte(i)}), string([]byte{byte(i)})+"scalar A")
	}
	for i := 0; i < len(robustBase); i++ {
		texts = append(texts, robustBase[:i], robustBase[i:], robustBase[:i]+robustBase[i+1:])
	}
	texts = append(texts, oddFragments...)
	others := []string{"", " ", "\n", "#", "a", "{", "scalar Base\n", robustBase}
	names := [][]string{{"a.graphql", "b.graphql"}, {"b.graphql", "a.graphql"}, {"a.graphql", "b.graphql", "c.graphql"}, {"b.graphql", "a.graphql", "c.graphql"}, {"c.graphql", "a.graphql", "b.graphql"}}
	type setting struct {
		names []string
		other []string
	}
	var sets []setting
	for _, ns := range names {
		for _, o := range others {
			if len(ns) == 2 {
				sets = append(sets, setting{ns, []string{o}})
				continue
			}
			for _, o2 := range others {
				sets = append(sets, setting{ns, []string{o, o2}})
			}
		}
	}
	good := map[string]bool{}
	for _, o := range others {
		good[o] = parses(o)
	}
	r.Par(int64(len(texts)), func(w *e.W, i int64) {
		t := texts[i]
		ok := parses(t)
		for k, st := range sets {
			files := map[string][]byte{st.names[0]: []byte(t)}
			all := ok
			for j, o := range st.other {
				files[st.names[j+1]] = []byte(o)
				all = all && good[o]
			}
			w.Case(func() string { return fmt.Sprintf("%q", files) })
			why := ""
			if msg := e.Guard(func() {
				d, err := utils.ParseSchema(files)
				switch {
				case err == nil && !all:
					why = "one of the files is rejected by the parser, but they are accepted together"
				case err != nil && all:
					why = "every file is accepted by the parser, but they are rejected together: " + err.Error()
				case err == nil && d == nil:
					why = "loading the files gives nothing"
				}
			}); msg != "" {
				why = msg
			}
			r.AddTransitions(1)
			r.AddTraces(1)
			w.Outcome(fmt.Sprintf("several files, all accepted: %v", all))
			if why != "" {
				r.Violate(i*int64(len(sets))+int64(k), fmt.Sprintf("files:%x", h64(fmt.Sprintf("%q", files))), fmt.Sprintf("%s\n--- files %s", clipS(why, 1500), clipS(fmt.Sprintf("%q", files), 800)), map[string]any{"files": fmt.Sprintf("%q", files), "why": why})
			}
		}
	})
	r.AddStates(len(texts) * len(sets))
	r.Space("two and three files loaded together", "texts", len(texts), "names_and_other_files", len(sets))
}

// severalFilesCLI: one malformed file among three, in every place, for both commands.
func severalFilesCLI(r *e.Run) {
	if r.Stopped() {
		return
	}
	bad := []string{"{", "}", "a", "!", "\x00", "\"", "\"a", "\"\"\"", "1", "type", "type A {", "scalar A }", "scalar A\n\n\n{", "# c\n$", "enum E { true }", "query { a }", "\ufeff\ufeff", "\xff", "extend", "schema {}", "type A { a: }", "directive @d on NOWHERE"}
	var use []string
	for _, b := range bad {
		if !parses(b) {
			use = append(use, b)
		}
	}
	others := []string{"", "# nothing\n", "\"d\" scalar A\n", "type a { B: Int }\n"}
	kinds := []string{"lint", "compare, old", "compare, new", "compare, both"}
	r.Par(int64(len(use)*3*len(others)*len(kinds)), func(w *e.W, i int64) {
		k := i
		kind := k % int64(len(kinds))
		k /= int64(len(kinds))
		other := others[k%int64(len(others))]
		k /= int64(len(others))
		pos, text := k%3, use[k/3]
		dir := workDir(w, "bad3")
		emptyDir(dir)
		for j, n := range []string{"a.graphql", "b.graphql", "c.graphql"} {
			if int64(j) == pos {
				putFile(dir, n, text)
			} else {
				putFile(dir, n, other)
			}
		}
		putFile(dir, "base.gql", "scalar Base\n")
		name := []string{"a.graphql", "b.graphql", "c.graphql"}[pos]
		w.Case(func() string {
			return fmt.Sprintf("%s: %s has %q, the other files have %q", kinds[kind], name, text, other)
		})
		var c CLI
		want := "*.graphql"
		switch kind {
		case 0:
			c, want = runGQL(r, dir, nil, "lint", "-f", "*.graphql"), name
		case 1:
			c = runGQL(r, dir, nil, "compare", "-o", "*.graphql", "-n", "base.gql")
		case 2:
			c = runGQL(r, dir, nil, "compare", "-o", "base.gql", "-n", "*.graphql")
		case 3:
			c = runGQL(r, dir, nil, "compare", "-o", "*.graphql", "-n", "*.graphql")
		}
		r.AddTransitions(1)
		r.AddTraces(1)
		w.Outcome(fmt.Sprintf("%s: exit status %d", kinds[kind], c.Code))
		why := ""
		switch {
		case c.Hung:
			why = "the command did not terminate"
		case c.Code != 1 || c.Signal != "" || strings.Contains(c.Err, "panic:"):
			why = "rejected by the parser, but no clean exit with status 1"
		case !strings.Contains(c.Out+c.Err, want):
			why = "rejected by the parser, but the message does not contain " + want
		case finalVerdict(c.Out + c.Err):
			why = "rejected by the parser, but a verdict is printed"
		}
		if why != "" {
			r.Violate(i, fmt.Sprintf("cli3:%s:%d:%x:%x", kinds[kind], pos, h64(text), h64(other)), fmt.Sprintf("%s: %s\n%s\n--- %s has %q, the other files have %q", kinds[kind], why, c, name, text, other), map[string]any{"kind": kinds[kind], "text": text, "other": other, "position": pos, "why": why, "run": c})
		}
	})
	r.AddStates(len(use) * 3 * len(others) * len(kinds))
	r.Space("runs of the commands with one malformed file among three", "malformed_texts", len(use), "places", 3, "other_files", len(others), "ways", kinds)
}

func finalVerdict(s string) bool {
	for _, v := range []string{"no lint errors", "Total lint errors", "No changes found", "No breaking changes", "Breaking changes in schema"} {
		if strings.Contains(s, v) {
			return true
		}
	}
	return false
}

// oddPairs compares accepted documents which make no sense with each other.
func oddPairs(r *e.Run) {
	if r.Stopped() {
		return
	}
	var one, two []string
	for _, f := range oddFragments {
		if parses(f) {
			one = append(one, f)
		}
	}
	for _, a := range one {
		for _, b := range one {
			two = append(two, a+"\n"+b)
		}
	}
	lists := [][2][]string{{one, two}, {two, one}}
	if r.Thorough() {
		lists = [][2][]string{{two, two}}
	}
	rules := rulesOf()
	for li, p := range lists {
		per := make([][2][]*ast.SchemaDocument, r.Workers)
		for k := range per {
			for side, l := range p {
				for _, t := range l {
					d, err := utils.ParseSchema(map[string][]byte{"s.graphql": []byte(t)})
					if err != nil {
						r.Violate(0, fmt.Sprintf("input:%x", h64(t)), "an accepted text is rejected when it is loaded: "+err.Error(), map[string]any{"text": t})
						return
					}
					per[k][side] = append(per[k][side], d)
				}
			}
		}
		n := int64(len(p[0])) * int64(len(p[1]))
		r.Par(n, func(w *e.W, i int64) {
			x, y := i%int64(len(p[0])), i/int64(len(p[0]))
			w.Case(func() string { return fmt.Sprintf("old %q new %q", p[0][x], p[1][y]) })
			var c []*compare.Change
			msg := e.Guard(func() {
				c = compare.FindChangesInSchemas(per[w.ID][0][x], per[w.ID][1][y])
				for _, g := range compare.GroupChanges(c) {
					observe(g)
				}
				if y == 0 {
					cmdlint.Lint("s.graphql", p[0][x], rules)
				}
			})
			r.AddTransitions(1)
			r.AddTraces(1)
			w.Outcome(fmt.Sprintf("odd schemas, %d changes", min(len(c), 9)))
			if msg != "" {
				r.Violate(i, fmt.Sprintf("odd:%x", h64(p[0][x]+"\x00"+p[1][y])), fmt.Sprintf("old %q\nnew %q\n%s", p[0][x], p[1][y], clipS(msg, 1500)), map[string]any{"old": p[0][x], "new": p[1][y], "panic": msg})
			}
		})
		r.AddStates(len(p[0]) + len(p[1]))
		r.Space(fmt.Sprintf("pairs of accepted documents which make no sense (%d)", li), "pairs", n)
	}
}

// malformedCLI runs both commands.
func malformedCLI(r *e.Run) {
	var texts []string
	add := func(t ...string) { texts = append(texts, t...) }
	n, at := seqCount(len(robustToks), 2)
	for i := int64(0); i < n; i++ {
		var l []string
		for _, x := range at(i) {
			l = append(l, robustToks[x])
		}
		add(strings.Join(l, " "))
	}
	for i := 0; i < 256; i++ {
		add(string([]byte{byte(i)}), "scalar A "+string([]byte{byte(i)}))
	}
	step := e.Pick(r, 2, 1)
	for i := 0; i < len(robustBase); i += step {
		add(robustBase[:i], robustBase[i:], robustBase[:i]+"\""+robustBase[i:], robustBase[:i]+"\x00"+robustBase[i+1:], robustBase[:i]+"}"+robustBase[i:])
		if r.Thorough() {
			for _, c := range []string{"\\", "#", "\n", "\r", "{", "$", "\xff", "a", " ", ":", "[", "!"} {
				add(robustBase[:i]+c+robustBase[i:], robustBase[:i]+c+robustBase[i+1:])
			}
		}
	}
	for _, f := range oddFragments {
		add(f, f+" }", f+"\n\"", "\""+f, f+f)
	}
	for _, d := range []int{1, 100, 10000} {
		add("input A { a: "+strings.Repeat("[", d), "input A { a: I = "+strings.Repeat("{a:", d), "input A { a: I = "+strings.Repeat("[", d)+strings.Repeat("]", d)+"}", strings.Repeat("}", d), strings.Repeat("\x00", d), "input A { a: "+strings.Repeat("[", d)+"A"+strings.Repeat("]", d)+" }")
	}
	// binary looking files
	bin := make([]byte, 3000)
	for i := range bin {
		bin[i] = byte(i*i*31 + i>>3)
	}
	add(string(bin), "\x7fELF\x02\x01\x01", "\x1f\x8b\x08", "PK\x03\x04", "\xff\xfes\x00c\x00", "<html></html>", "{\"data\": 1}", "query { a }", "fragment F on A { a }", "%s%d%n", "%!v(MISSING)")
	base := "scalar Base\n"
	kinds := []string{"lint", "lint, standard input", "compare, old", "compare, new", "lint, one of three files", "compare, one of two old files", "compare, one of two new files"}
	r.Par(int64(len(texts)*len(kinds)), func(w *e.W, i int64) {
		text, kind := texts[i/int64(len(kinds))], i%int64(len(kinds))
		if kind >= 4 && !r.Thorough() && (i/int64(len(kinds)))%3 != kind-4 {
			return
		}
		ok := parses(text)
		dir := workDir(w, "bad")
		emptyDir(dir)
		w.Case(func() string { return kinds[kind] + ": " + fmt.Sprintf("%q", text) })
		var c CLI
		want := ""
		switch kind {
		case 0:
			putFile(dir, "bad.graphql", text)
			c, want = runGQL(r, dir, nil, "lint", "-f", "bad.graphql"), "bad.graphql"
		case 1:
			c, want = runGQL(r, dir, []byte(text), "lint"), "stdin"
		case 2:
			putFile(dir, "bad.graphql", text)
			putFile(dir, "base.gql", base)
			c, want = runGQL(r, dir, nil, "compare", "-o", "bad.graphql", "-n", "base.gql"), "bad.graphql"
		case 3:
			putFile(dir, "bad.graphql", text)
			putFile(dir, "base.gql", base)
			c, want = runGQL(r, dir, nil, "compare", "-o", "base.gql", "-n", "bad.graphql"), "bad.graphql"
		case 4:
			putFile(dir, "bad.graphql", text)
			putFile(dir, "a.graphql", base)
			putFile(dir, "z.graphql", base)
			c, want = runGQL(r, dir, nil, "lint", "-f", "*.graphql"), "bad.graphql"
		case 5, 6:
			putFile(dir, []string{"a.graphql", "z.graphql"}[len(text)%2], base)
			putFile(dir, "bad.graphql", text)
			putFile(dir, "base.gql", base)
			if kind == 5 {
				c = runGQL(r, dir, nil, "compare", "-o", "*.graphql", "-n", "base.gql")
			} else {
				c = runGQL(r, dir, nil, "compare", "-o", "base.gql", "-n", "*.graphql")
			}
			want = "*.graphql"
		}
		r.AddTransitions(1)
		r.AddTraces(1)
		w.Outcome(fmt.Sprintf("command: accepted %v, exit status %d", ok, c.Code))
		why := ""
		switch {
		case c.Hung:
			why = "the command did not terminate"
		case c.Code != 0 && c.Code != 1 || c.Signal != "" || strings.Contains(c.Err, "panic:") || strings.Contains(c.Err, "fatal error:"):
			why = "the command crashed"
		case !ok && c.Code != 1:
			why = "rejected by the parser, but not exit status 1"
		case !ok && !strings.Contains(c.Out+c.Err, want):
			why = "rejected by the parser, but the message does not contain " + want
		case !ok && finalVerdict(c.Out+c.Err):
			why = "rejected by the parser, but a verdict is printed"
		case ok && !finalVerdict(c.Out):
			why = "accepted by the parser, but no verdict is printed"
		}
		if why != "" {
			r.Violate(i, fmt.Sprintf("cli:%s:%x", kinds[kind], h64(text)), fmt.Sprintf("%s: %s\n%s\n--- text %q", kinds[kind], why, c, clipS(text, 800)), map[string]any{"kind": kinds[kind], "text": text, "why": why, "run": c})
		}
	})
	r.AddStates(len(texts))
	r.Space("runs of the commands", "texts", len(texts), "ways", kinds)
}
