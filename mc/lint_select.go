package main

import (
	"fmt"
	"sort"
	"strings"

	cmdlint "github.com/CrowdStrike/gql/cmd/linter"
	"github.com/CrowdStrike/gql/pkg/linter"

	e "verifmc/engine"
)

// selDocs are documents in which every rule has something to say, in different mixtures and orders.
func selDocs() []string {
	all := "type aConnection {\n  F_x(a: Int, first: String): bConnection\n  edges: Int\n}\nenum e { a B }\ninterface BConnection { g: Int }\n"
	conn := "\"d\" type XConnection { \"d\" pageInfo: PageInfo }\n\"d\" type YConnection { \"d\" edges: [E] \"d\" pageInfo: PageInfo! }\n" +
		"\"d\" type Q {\n  \"d\" x: XConnection\n \"d\" y(first: Int!, after: ID, last: Int!, before: ID): [YConnection]\n \"d\" z(last: Float): YConnection!\n}\n"
	naming := "\"d\" enum aE { \"d\" aB \"d\" CD \"d\" Cd }\n\"d\" input aI { \"d\" A: Int \"d\" b_c: Int \"d\" bc: Int }\nextend type q { \"d\" _x(\"d\" y: Int): Int }\n"
	undescribed := "type A { a(b: Int, c: Int): Int }\nscalar S\nenum E { A B }\nextend enum E { C }\nunion U = A\ninput I { a: Int }\n"
	sorted := "type zz { c(z: Int, b: Int, a: Int): bConnection b: Int a(y: Int, x: Int): aConnection }\nenum y { c b a C B A }\ninterface aConnection { pageInfo: PageInfo edges: [Int] }\n"
	inline := "#lint-disable type-desc, enum-caps\n" + all + "#lint-enable type-desc\n" + strings.NewReplacer("aConn", "cConn", "BConn", "DConn").Replace(all) + "type q { a: Int } #lint-disable-line type-caps,field-desc\n"
	one := strings.ReplaceAll(all, "\n", " ")
	clean := "\"d\" type A { \"d\" a: Int }\n"
	return []string{all, conn, naming, undescribed, sorted, inline, one, clean, all + conn, sorted + naming}
}

// selectProblem compares the errors of a selection with the errors of the full run.
func selectProblem(full, got []linter.LintErrorWithMetadata, chosen map[string]bool) string {
	var want, have []string
	for _, x := range full {
		if chosen[string(x.Rule)] {
			want = append(want, lintString(x))
		}
	}
	for _, x := range got {
		have = append(have, lintString(x))
	}
	if !inOrder(got) {
		return fmt.Sprintf("not in position order: %v", have)
	}
	sort.Strings(want)
	sort.Strings(have)
	if strings.Join(want, "\n") != strings.Join(have, "\n") {
		return fmt.Sprintf("the full run reports for these rules:\n %s\nwith the selection reported:\n %s", strings.Join(want, "\n "), strings.Join(have, "\n "))
	}
	return ""
}

// selSpace checks selections given as lists of spelled names.
func selSpace(r *e.Run, name string, n int64, ds []string, fulls [][]linter.LintErrorWithMetadata, at func(i int64) (spelled, canon []string)) {
	if r.Stopped() {
		return
	}
	cnt := make([]int64, r.Workers)
	r.Par(n, func(w *e.W, i int64) {
		sp, canon := at(i)
		if sp == nil {
			return
		}
		cnt[w.ID]++
		w.Case(func() string { return fmt.Sprintf("rules %q", sp) })
		why, doc := "", ""
		fs, err := cmdlint.FindTheRulesToApply(sp)
		if err != nil {
			why = fmt.Sprint("the names are rejected: ", err)
		} else {
			chosen := map[string]bool{}
			for _, c := range canon {
				chosen[c] = true
			}
			for k, d := range ds {
				got := cmdlint.Lint("s.graphql", d, fs)
				r.AddTransitions(1)
				w.Outcome(fmt.Sprintf("%d rules, %d errors", len(chosen), min(len(got), 12)))
				if why = selectProblem(fulls[k], got, chosen); why != "" {
					doc = d
					break
				}
			}
		}
		r.AddTraces(1)
		if why != "" {
			r.Violate(i, fmt.Sprintf("rules:%q", sp), fmt.Sprintf("rules %q: %s\n--- schema\n%s", sp, why, doc), map[string]any{"rules": sp, "schema": doc, "why": why})
		}
	})
	var total int64
	for _, c := range cnt {
		total += c
	}
	r.AddStates(int(total))
	r.Space(name, "selections", total, "documents", len(ds))
	for i := n / 2; i < n; i++ {
		if sp, _ := at(i); sp != nil {
			r.Sample(map[string]any{"space": name, "rules": sp})
			break
		}
	}
}

func titled(s string, mask int64) string { // letters chosen by mask in upper case
	b := []byte(s)
	k := 0
	for i := range b {
		if isLower(b[i]) {
			if mask>>k&1 == 1 {
				b[i] -= 32
			}
			k++
		}
	}
	return string(b)
}

func letters(s string) (n int) {
	for i := range s {
		if isLower(s[i]) {
			n++
		}
	}
	return
}

func l07(r *e.Run) {
	ds := selDocs()
	allFs := rulesOf()
	var fulls [][]linter.LintErrorWithMetadata
	seen := map[string]bool{}
	for _, d := range ds {
		if !parses(d) {
			panic("harness: the parser rejects\n" + d)
		}
		f := cmdlint.Lint("s.graphql", d, allFs)
		fulls = append(fulls, f)
		for _, x := range f {
			seen[string(x.Rule)] = true
		}
	}
	for i, n := range allRuleNames {
		if !seen[n] {
			r.Violate(int64(i), "full:"+n, "with an empty rule list no error of rule "+n+" is reported for documents which violate every rule", map[string]any{"documents": ds})
		}
	}
	k := int64(len(allRuleNames))
	// 1. every subset
	selSpace(r, "every subset of the rules", 1<<k, ds, fulls, func(i int64) ([]string, []string) {
		if i == 0 {
			return []string{}, allRuleNames
		}
		var l []string
		for j, n := range allRuleNames {
			if i>>j&1 == 1 {
				l = append(l, n)
			}
		}
		return l, l
	})
	// 2. every sequence with repetitions
	ml := e.Pick(r, 4, 5)
	ns, at := seqCount(int(k), ml)
	selSpace(r, fmt.Sprintf("every sequence of up to %d names with repetitions", ml), ns, ds, fulls, func(i int64) ([]string, []string) {
		if i == 0 {
			return nil, nil
		}
		var l []string
		for _, x := range at(i) {
			l = append(l, allRuleNames[x])
		}
		return l, l
	})
	// 3. every permutation of all the rules
	fact := int64(1)
	for j := int64(2); j <= k; j++ {
		fact *= j
	}
	few, fewF := ds[:1], fulls[:1]
	if r.Thorough() {
		few, fewF = ds[:6], fulls[:6]
	}
	selSpace(r, "every order of all the rules", fact, few, fewF, func(i int64) ([]string, []string) {
		left := append([]string{}, allRuleNames...)
		var l []string
		for j := k; j > 0; j-- {
			x := i % j
			i /= j
			l = append(l, left[x])
			left = append(left[:x], left[x+1:]...)
		}
		return l, l
	})
	// 4. letter case: every pattern of every name
	var offs []int64
	var tot int64
	for _, n := range allRuleNames {
		offs = append(offs, tot)
		tot += 1 << letters(n)
	}
	selSpace(r, "every letter case of every name", tot, ds[:2], fulls[:2], func(i int64) ([]string, []string) {
		j := sort.Search(len(offs), func(x int) bool { return offs[x] > i }) - 1
		return []string{titled(allRuleNames[j], i-offs[j])}, []string{allRuleNames[j]}
	})
	// 5. spaces and case of several names, repeated in different spellings
	forms := []func(s string) string{
		func(s string) string { return s }, func(s string) string { return " " + s }, func(s string) string { return s + " " }, func(s string) string { return "  " + s + "   " },
		strings.ToUpper, func(s string) string { return " " + strings.ToUpper(s) }, func(s string) string { return "\t" + titled(s, 1) + "\t" }, func(s string) string { return titled(s, 0x5555) + " \t" },
	}
	nf := int64(len(forms))
	selSpace(r, "spellings of two names", k*k*nf*nf, ds[:2], fulls[:2], func(i int64) ([]string, []string) {
		a, b, f, g := allRuleNames[i%k], allRuleNames[i/k%k], forms[i/k/k%nf], forms[i/k/k/nf]
		return []string{f(a), g(b)}, []string{a, b}
	})
	selSpace(r, "spellings of three names", 3*3*3*nf*nf*nf, ds[:1], fulls[:1], func(i int64) ([]string, []string) {
		var sp, ca []string
		for j := 0; j < 3; j++ {
			ca = append(ca, allRuleNames[i%3*4])
			i /= 3
		}
		for j := 0; j < 3; j++ {
			sp = append(sp, forms[i%nf](ca[j]))
			i /= nf
		}
		return sp, ca
	})
	// 6. every rule alone, on everything that changes make of schemas, and all subsets of parts of a document
	for ki, kernel := range lintKernels() {
		docs := nearDocs(r, kernel, e.Pick(r, 60, 8))
		selDocSpace(r, fmt.Sprintf("every rule alone on the neighbourhood of kernel %d", ki), docs)
	}
	parts := []LType{{Kind: "raw", Name: "directive @d(a: Int) on OBJECT"}, {Kind: "raw", Name: "schema { query: q }"}, {Kind: "type", Name: "a", Fields: []LField{{Name: "B", Type: "xConnection", Args: []LArg{{Name: "x", Type: "Int"}}}}},
		{Kind: "type", Name: "a", Ext: true, Fields: []LField{{Name: "C", Type: "Int", Args: []LArg{{Name: "x", Type: "Int"}}}}}, {Kind: "enum", Name: "e", Vals: []LVal{{Name: "x"}}}, {Kind: "enum", Name: "e", Ext: true, Vals: []LVal{{Name: "y"}}},
		{Kind: "interface", Name: "iConnection", Fields: []LField{{Name: "edges", Type: "Int"}}}, {Kind: "type", Name: "oConnection", Fields: []LField{{Name: "edges", Type: "Int"}}}, {Kind: "input", Name: "n", Ext: true, Fields: []LField{{Name: "N", Type: "Int"}}}, {Kind: "scalar", Name: "s"}, {Kind: "union", Name: "u", Members: []string{"a"}}}
	selDocSpace(r, "every rule alone on every subset of definitions and extensions", docSpace{1 << len(parts), func(i int64) *LDoc {
		s := &LSchema{}
		for k, p := range parts {
			if i>>k&1 == 1 {
				s.Types = append(s.Types, p)
			}
		}
		return pretty(s)
	}})
	unknownRules(r)
	selCLI(r, ds)
}

// selDocSpace compares every single rule, and every rule left out, with the full run, on many documents.
func selDocSpace(r *e.Run, name string, docs docSpace) {
	if r.Stopped() {
		return
	}
	all := rulesOf()
	var single, others [][]linter.LintRuleFunc
	for i, n := range allRuleNames {
		single = append(single, rulesOf(n))
		others = append(others, rulesOf(append(append([]string{}, allRuleNames[i+1:]...), allRuleNames[:i]...)...))
	}
	cnt := make([]int64, r.Workers)
	r.Par(docs.n, func(w *e.W, i int64) {
		d := docs.at(i)
		if d == nil {
			return
		}
		cnt[w.ID]++
		w.Case(func() string { return d.Text })
		full := cmdlint.Lint("s.graphql", d.Text, all)
		for k, n := range allRuleNames {
			but := map[string]bool{}
			for _, x := range allRuleNames {
				but[x] = x != n
			}
			why := selectProblem(full, cmdlint.Lint("s.graphql", d.Text, single[k]), map[string]bool{n: true})
			if why == "" {
				why = selectProblem(full, cmdlint.Lint("s.graphql", d.Text, others[k]), but)
			}
			r.AddTransitions(2)
			r.AddTraces(2)
			w.Outcome(fmt.Sprintf("one rule of a full run with %d errors", min(len(full), 12)))
			if why != "" {
				r.Violate(i, fmt.Sprintf("near:%x", h64(d.Text+n)), fmt.Sprintf("rule %s alone, or all the others: %s\n--- schema\n%s", n, why, d.Text), map[string]any{"rule": n, "schema": d.Text, "why": why})
			}
		}
	})
	var total int64
	for _, c := range cnt {
		total += c
	}
	r.AddStates(int(total))
	r.Space(name, "documents", total, "selections", 2*len(allRuleNames))
}

// unknownNames are names next to the names of the rules.
func unknownNames() []string {
	set := map[string]bool{}
	add := func(s string) {
		for _, n := range allRuleNames {
			if strings.EqualFold(strings.TrimSpace(s), n) {
				return
			}
		}
		set[s] = true
	}
	abc := "abcdefghijklmnopqrstuvwxyz-_ .,;0123456789*\"'\t"
	for _, n := range allRuleNames {
		for i := 0; i <= len(n); i++ {
			for _, c := range abc {
				add(n[:i] + string(c) + n[i:])
				if i < len(n) {
					add(n[:i] + string(c) + n[i+1:])
				}
			}
			if i < len(n) {
				add(n[:i] + n[i+1:])
			}
			if i+1 < len(n) {
				add(n[:i] + n[i+1:i+2] + n[i:i+1] + n[i+2:])
			}
			add(n[:i])
			add(n[i:])
		}
		add(strings.ReplaceAll(n, "-", ""))
		add(strings.ReplaceAll(n, "-", "_"))
		add(strings.ReplaceAll(n, "-", " "))
		add("no-" + n)
		add("^" + n + "$")
		for _, o := range allRuleNames {
			add(n + o)
			add(n + " " + o)
			add(n + ", " + o)
		}
	}
	for _, s := range []string{"all", "none", "*", "", " ", "desc", "type", "TYPE", "relay", "relay-conn", "conn-args", "TypesHaveDescription", "types-desc", "é", "type-desc\x00"} {
		add(s)
	}
	return sortedKeys(set)
}

func unknownRules(r *e.Run) {
	un := unknownNames()
	shape := func(i int64) []string {
		x := un[i%int64(len(un))]
		switch i / int64(len(un)) {
		case 0:
			return []string{x}
		case 1:
			return []string{"type-desc", x}
		case 2:
			return []string{x, "type-desc"}
		case 3:
			return []string{"type-desc", " " + strings.ToUpper(x) + " ", "enum-caps"}
		case 4:
			return []string{x, x}
		}
		return append(append([]string{}, allRuleNames...), x)
	}
	n := int64(len(un)) * 6
	r.Par(n, func(w *e.W, i int64) {
		l := shape(i)
		x := un[i%int64(len(un))]
		w.Case(func() string { return fmt.Sprintf("rules %q", l) })
		fs, err := cmdlint.FindTheRulesToApply(l)
		r.AddTransitions(1)
		r.AddTraces(1)
		why := ""
		switch {
		case err == nil:
			why = fmt.Sprintf("accepted, with %d rules", len(fs))
		case !strings.Contains(strings.ToLower(err.Error()), strings.ToLower(strings.TrimSpace(x))):
			why = "the error does not name the rule: " + err.Error()
		}
		w.Outcome(fmt.Sprintf("unknown name rejected: %v", err != nil))
		if why != "" {
			r.Violate(i, fmt.Sprintf("unknown:%q", l), fmt.Sprintf("the unknown rule name %q in the list %q: %s", x, l, why), map[string]any{"rules": l, "why": why})
		}
	})
	r.AddStates(int(n))
	r.Space("unknown names", "names", len(un), "lists", n)
	r.Sample(map[string]any{"space": "unknown names", "rules": shape(n / 2)})
}

// printedErrors are the error lines of a file in what gql lint printed.
func printedErrors(out, file string) []string {
	var l []string
	for _, x := range strings.Split(out, "\n") {
		if strings.HasPrefix(x, file+":") {
			l = append(l, x)
		}
	}
	return l
}

func presented(file string, l []linter.LintErrorWithMetadata) []string {
	var out []string
	for _, x := range l {
		out = append(out, fmt.Sprintf("%s:%d:%d %s", file, x.Line, x.Column, x.Err.Error()))
	}
	return out
}

// posOrder tells whether printed errors ("file:line:col message") are in position order.
func posOrder(file string, l []string) bool {
	pl, pc := 0, 0
	for _, x := range l {
		var a, b int
		if k, _ := fmt.Sscanf(x[len(file)+1:], "%d:%d", &a, &b); k != 2 {
			return false
		}
		if a < pl || a == pl && b < pc {
			return false
		}
		pl, pc = a, b
	}
	return true
}

// selCLI runs the command with the rules flag.
func selCLI(r *e.Run, ds []string) {
	type caseT struct {
		args  []string
		names []string // canonical
		bad   string   // the unknown name
		doc   int
	}
	var cs []caseT
	for i := 1; i < 1<<len(allRuleNames); i++ {
		var l []string
		for j, n := range allRuleNames {
			if i>>j&1 == 1 {
				l = append(l, n)
			}
		}
		var rep []string
		for _, n := range l {
			rep = append(rep, "-r", n)
		}
		cs = append(cs, caseT{[]string{"-r", strings.Join(l, ",")}, l, "", i % 7})
		if i%5 == 0 || r.Thorough() {
			cs = append(cs, caseT{rep, l, "", (i + 3) % 7}, caseT{[]string{"--rules= " + strings.ToUpper(strings.Join(l, " , "))}, l, "", (i + 1) % 7})
		}
	}
	for _, a := range allRuleNames {
		for _, b := range allRuleNames {
			cs = append(cs, caseT{[]string{"-r", b + "," + a}, []string{a, b}, "", 0}, caseT{[]string{"--rules", a, "--rules", b + " , " + strings.ToUpper(a)}, []string{a, b}, "", 5})
		}
	}
	for d := range ds {
		cs = append(cs, caseT{nil, allRuleNames, "", d}, caseT{[]string{"-r", ""}, allRuleNames, "", d})
	}
	un := []string{"nosuchrule", "type_desc", "typedesc", "type-descs", "ype-desc", "Type-Des", "type desc", "args-desc-x", "all", "*", "relay-conn", "caps", "enum-cap", "0", "type-desc:"}
	for _, u := range un {
		for d := 0; d < len(ds); d += 3 {
			cs = append(cs, caseT{[]string{"-r", u}, nil, u, d}, caseT{[]string{"-r", "type-desc," + u}, nil, u, d}, caseT{[]string{"-r", u + ",enum-caps,type-caps"}, nil, u, d},
				caseT{[]string{"-r", "type-desc", "-r", u, "-r", "field-desc"}, nil, u, d}, caseT{[]string{"--rules=type-caps, " + u}, nil, u, d})
		}
	}
	cs = append(cs, caseT{[]string{"-r", "type-desc,"}, nil, " ", 0}, caseT{[]string{"-r", " "}, nil, " ", 0}, caseT{[]string{"-r", "type-desc,,enum-caps"}, nil, " ", 7})
	allFs := rulesOf()
	fulls := make([][]linter.LintErrorWithMetadata, len(ds))
	for i, d := range ds {
		fulls[i] = cmdlint.Lint("s.graphql", d, allFs)
	}
	r.Par(int64(len(cs)), func(w *e.W, i int64) {
		c := cs[i]
		dir := workDir(w, "sel")
		putFile(dir, "s.graphql", ds[c.doc])
		w.Case(func() string { return fmt.Sprintf("lint %q\n%s", c.args, ds[c.doc]) })
		args := append([]string{"lint", "-f", "s.graphql"}, c.args...)
		var stdin []byte
		name := "s.graphql"
		if i%4 == 3 { // the schema from standard input
			args, stdin, name = append([]string{"lint"}, c.args...), []byte(ds[c.doc]), "/dev/stdin"
		}
		x := runGQL(r, dir, stdin, args...)
		r.AddTransitions(1)
		r.AddTraces(1)
		w.Outcome(fmt.Sprintf("command: exit status %d", x.Code))
		why := ""
		got := printedErrors(x.Out, name)
		if c.bad != "" {
			switch {
			case x.Code != 1:
				why = "an unknown rule, but not exit status 1"
			case !strings.Contains(strings.ToLower(x.Out+x.Err), strings.ToLower(c.bad)) && c.bad != " ":
				why = "the message does not name the unknown rule " + c.bad
			case len(got) > 0 || strings.Contains(x.Out, "no lint errors") || strings.Contains(x.Out, "Total lint errors"):
				why = "an unknown rule, but the schema was linted"
			}
		} else {
			chosen := map[string]bool{}
			for _, n := range c.names {
				chosen[n] = true
			}
			var sel []linter.LintErrorWithMetadata
			for _, f := range fulls[c.doc] {
				if chosen[string(f.Rule)] {
					sel = append(sel, f)
				}
			}
			want := presented(name, sel)
			if !posOrder(name, got) {
				why = "not in position order"
			}
			sort.Strings(want)
			sorted := append([]string{}, got...)
			sort.Strings(sorted)
			if strings.Join(want, "\n") != strings.Join(sorted, "\n") {
				why = fmt.Sprintf("expected\n %s", strings.Join(want, "\n "))
			}
			if x.Code != min(1, len(want)) {
				why = fmt.Sprintf("exit status %d with %d errors", x.Code, len(want))
			}
		}
		if why != "" {
			r.Violate(i, fmt.Sprintf("cli:%q", args), fmt.Sprintf("gql %q: %s\n%s\n--- schema\n%s", args, why, x, ds[c.doc]), map[string]any{"args": args, "schema": ds[c.doc], "why": why, "run": x})
		}
	})
	r.AddStates(len(cs))
	r.Space("runs of the command with a rules flag", "runs", len(cs))
}
