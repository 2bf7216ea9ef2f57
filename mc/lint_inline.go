package main

import (
	"fmt"
	"sort"
	"strings"

	cmdlint "github.com/CrowdStrike/gql/cmd/linter"
	"github.com/CrowdStrike/gql/pkg/linter"
	"github.com/vektah/gqlparser/v2/ast"
	"github.com/vektah/gqlparser/v2/parser"

	e "verifmc/engine"
)

// Cmt is a comment of a document (from '#' to the end of its line) and its line.
type Cmt struct {
	Text string
	Line int
}

// inlineCmd parses an inline lint comment: the command and the rules it names.
func inlineCmd(c string) (cmd string, rules []string) {
	if !strings.HasPrefix(c, "#lint-") {
		return "", nil
	}
	cmd, rest := c[1:], ""
	if i := strings.IndexAny(cmd, " \t"); i >= 0 {
		cmd, rest = cmd[:i], cmd[i:]
	}
	switch cmd {
	case "lint-disable", "lint-enable", "lint-disable-line":
	default:
		return "", nil
	}
	for _, x := range strings.Split(rest, ",") {
		rules = append(rules, strings.ToLower(strings.Trim(x, " \t")))
	}
	return cmd, rules
}

// suppressed is the reference automaton of the inline comments for one rule and one line; cs are in document order.
func suppressed(cs []Cmt, rule string, line int) bool {
	off := false
	for _, c := range cs {
		cmd, rules := inlineCmd(c.Text)
		named := false
		for _, x := range rules {
			if x == rule {
				named = true
			}
		}
		if !named {
			continue
		}
		switch cmd {
		case "lint-disable-line":
			if c.Line == line {
				return true
			}
		case "lint-disable":
			if c.Line < line {
				off = true
			}
		case "lint-enable":
			if c.Line < line {
				off = false
			}
		}
	}
	return off
}

// rawErrors runs the rules without the inline comments, in position order.
func rawErrors(text string, rules []linter.LintRuleFunc) []linter.LintErrorWithMetadata {
	doc, err := parser.ParseSchema(&ast.Source{Name: "s.graphql", Input: text})
	if err != nil {
		panic("harness: the parser rejects the schema\n" + text)
	}
	var out []linter.LintErrorWithMetadata
	for _, f := range rules {
		out = append(out, f(doc)...)
	}
	sort.SliceStable(out, func(i, j int) bool {
		return out[i].Line < out[j].Line || out[i].Line == out[j].Line && out[i].Column < out[j].Column
	})
	return out
}

// sameErrors compares two lists of errors which are in position order (ties in any order).
func sameErrors(want, got []linter.LintErrorWithMetadata) string {
	if !inOrder(got) {
		return fmt.Sprint("not in position order: ", lintStrings(got))
	}
	cnt := map[string]int{}
	for _, x := range want {
		cnt[lintString(x)]++
	}
	for _, x := range got {
		cnt[lintString(x)]--
	}
	var missing, extra []string
	for k, v := range cnt {
		for ; v > 0; v-- {
			missing = append(missing, k)
		}
		for ; v < 0; v++ {
			extra = append(extra, k)
		}
	}
	if missing == nil && extra == nil {
		return ""
	}
	sort.Strings(missing)
	sort.Strings(extra)
	return fmt.Sprintf("expected but not reported: %v\nreported but not expected: %v\n", missing, extra)
}

// inlineCheck lints the text and compares with the filtered raw errors.
func inlineCheck(r *e.Run, w *e.W, order int64, text string, cs []Cmt, names []string, fs []linter.LintRuleFunc, raw []linter.LintErrorWithMetadata) {
	w.Case(func() string { return text })
	var want []linter.LintErrorWithMetadata
	for _, x := range raw {
		if !suppressed(cs, string(x.Rule), x.Line) {
			want = append(want, x)
		}
	}
	got := cmdlint.Lint("s.graphql", text, fs)
	r.AddTransitions(1)
	r.AddTraces(1)
	w.Outcome(fmt.Sprintf("%d of %d errors suppressed", len(raw)-len(want), len(raw)))
	if why := sameErrors(want, got); why != "" {
		r.Violate(order, fmt.Sprintf("inline:%x", h64(text)), fmt.Sprintf("%scomments: %v\n--- schema\n%s", why, cs, clipS(text, 1500)), map[string]any{"schema": text, "comments": fmt.Sprint(cs), "rules": names, "why": why, "got": lintStrings(got)})
	}
}

// inlineSpace explores every assignment of comments to the slots of a document: "\x00" marks a slot, each slot is the
// rest of a line.
func inlineSpace(r *e.Run, name, doc string, alphabet []string, names []string) {
	if r.Stopped() {
		return
	}
	parts := strings.Split(doc, "\x00")
	slots := len(parts) - 1
	lines := make([]int, slots)
	at := 1
	for i := 0; i < slots; i++ {
		at += strings.Count(parts[i], "\n")
		lines[i] = at
	}
	n := int64(1)
	for i := 0; i < slots; i++ {
		n *= int64(len(alphabet))
	}
	fs := rulesOf(names...)
	raw := rawErrors(strings.ReplaceAll(doc, "\x00", ""), fs)
	if len(raw) == 0 {
		panic("harness: no errors in " + doc)
	}
	r.AddStates(int(n))
	r.Par(n, func(w *e.W, i int64) {
		var sb strings.Builder
		var cs []Cmt
		order := i
		for k := 0; k < slots; k++ {
			sb.WriteString(parts[k])
			c := alphabet[i%int64(len(alphabet))]
			i /= int64(len(alphabet))
			if c != "" {
				sb.WriteString(c)
				cs = append(cs, Cmt{c, lines[k]})
			}
		}
		sb.WriteString(parts[slots])
		inlineCheck(r, w, order, sb.String(), cs, names, fs, raw)
	})
	r.Space(name, "comment_slots", slots, "comments", len(alphabet), "documents", n, "errors_without_comments", len(raw))
	r.Sample(map[string]any{"space": name, "document": strings.ReplaceAll(doc, "\x00", "<slot>"), "comments": alphabet})
}

func l05(r *e.Run) {
	two := []string{"type-desc", "field-desc"}
	// two rules; errors of both on several lines, on the lines of comments, and on a common line
	doc := "\x00\ntype A { a: Int } \x00\n\x00\ntype B {\n  b: Int \x00\n}\n\x00\nscalar C\n"
	core := []string{"", "#lint-disable type-desc", "#lint-enable type-desc", "#lint-disable-line type-desc", "#lint-disable type-desc,field-desc", "#lint-enable field-desc, type-desc", "#lint-disable field-desc", "#lint-disable-line field-desc"}
	inlineSpace(r, "all sequences of commands for two rules", doc, core, two)
	// one rule, longer documents: every sequence of disable / enable / disable-line at 8 (10) places
	doc1 := "\x00\nscalar A \x00\nscalar B \x00\n\x00\nscalar C \x00\nscalar D\n\x00\nscalar E \x00\n\x00\n"
	inlineSpace(r, "all sequences of commands for one rule", doc1, []string{"", "#lint-disable type-desc", "#lint-enable type-desc", "#lint-disable-line type-desc"}, []string{"type-desc"})
	if r.Thorough() {
		doc2 := "\x00\nscalar A \x00\nscalar B \x00\n\x00\nscalar C \x00\nscalar D\n\x00\nscalar E \x00\n\x00\nscalar F \x00\nscalar G\n\x00\n"
		inlineSpace(r, "all sequences of commands for one rule, ten places", doc2, []string{"", "#lint-disable type-desc", "#lint-enable type-desc", "#lint-disable-line type-desc"}, []string{"type-desc"})
	}
	// every rule separately: the comment names one rule, the document has errors of all of them
	all := "\x00\ntype aConnection {\n  F_x(a: Int, first: String): bConnection \x00\n}\n\x00\nenum e { a } \x00\ninterface BConnection { g: Int } \x00\n"
	var per []string
	for _, n := range allRuleNames {
		per = append(per, "#lint-disable "+n, "#lint-disable-line "+n, "#lint-enable "+n)
	}
	per = append(per, "")
	inlineSpace(r, "every rule by name, all the rules run", all[strings.Index(all, "type"):], per, allRuleNames)
	inlineSpace(r, "every rule by name, at the top and in the middle", strings.Replace(strings.Replace(all, "bConnection \x00", "bConnection", 1), "} \x00\ninter", "}\ninter", 1), per, allRuleNames)
	// spellings of comments, in pairs, against each rule list
	spell := []string{""}
	for _, cmd := range []string{"lint-disable", "lint-enable", "lint-disable-line"} {
		for _, rest := range []string{" type-desc", " TYPE-DESC", " Type-Desc", "  type-desc  ", "\ttype-desc", " type-desc,field-desc", " type-desc , field-desc", " field-desc,\ttype-desc ,", " ,type-desc", ",type-desc", " type-desc field-desc", "", " ", " ,", " ,,", " nosuchrule", " type-desc,nosuchrule", " nosuchrule , type-desc", " type-des", " type-descs", " atype-desc", " type_desc", " 'type-desc'", " type-desc;field-desc", " args-desc, type-desc, enum-caps", ":type-desc", " type-desc,type-desc", "type-desc", " all", " *"} {
			spell = append(spell, "#"+cmd+rest)
		}
	}
	for _, x := range []string{"#lint-foo type-desc", "#lint- type-desc", "#lint-", "#lint", "# lint-disable type-desc", "#\tlint-disable type-desc", "##lint-disable type-desc", "#LINT-DISABLE type-desc", "#Lint-Disable type-desc", "#lint-disable-lines type-desc", "#lint-disable-next-line type-desc", "#lint-enable-line type-desc", "#lint-disabled type-desc", "#lint_disable type-desc", "#x lint-disable type-desc", "#lint-disable-line-line type-desc", "# #lint-disable type-desc", "#eslint-disable type-desc"} {
		spell = append(spell, x)
	}
	inlineSpace(r, "spellings of comments", "\x00\nscalar A \x00\ntype B { a: Int }\n", spell, two)
	inlineSpace(r, "spellings of comments after a disable", "#lint-disable type-desc\n\x00\nscalar A\n\x00\nscalar B \x00\n"[len("#lint-disable type-desc\n"):], spell, []string{"type-desc"})
	// several errors of one rule on the same line, several comments directly after each other
	inlineSpace(r, "many errors on a line", "\x00\n\x00\nscalar A scalar B type C { a: Int b: Int } \x00\n\x00\nscalar D type E { c: Int }\n", core, two)
	// first and last line of the document, no line end at the end
	inlineSpace(r, "last line without line end", "scalar A \x00\nscalar B \x00\n\x00\n\ntype C { a: Int } \x00", core, two)
	// far apart and on lines with several digits
	far := "\x00\n" + strings.Repeat("\n", 8) + "scalar A \x00\n" + strings.Repeat("# filler\n", 88) + "\x00\nscalar B \x00\n" + strings.Repeat("\n", 900) + "\x00\ntype C { a: Int }\n"
	inlineSpace(r, "lines with one to four digits", far, core, two)
	manyComments(r)
	commentSizes(r, two)
	// rule lists: every sequence of pieces
	pieces := []string{"type-desc", "field-desc", ",", " ", "\t", "TYPE-desc", "x"}
	for _, cmd := range []string{"#lint-disable", "#lint-disable-line", "#lint-disable type-desc,field-desc\n#lint-enable"} {
		n, at := seqCount(len(pieces), e.Pick(r, 6, 7))
		textSpace(r, "every rule list of up to so many pieces after "+strings.ReplaceAll(cmd, "\n", " "), n, two, func(i int64) string {
			var sb strings.Builder
			for _, x := range at(i) {
				sb.WriteString(pieces[x])
			}
			if strings.HasSuffix(cmd, "-line") {
				return "type A { a: Int } " + cmd + sb.String() + "\nscalar B\n"
			}
			return cmd + sb.String() + "\ntype A { a: Int }\nscalar B #\n"
		})
	}
	// names which resemble a rule have no effect
	for _, rule := range allRuleNames {
		near := nearNames(rule)
		doc := all[strings.Index(all, "type"):]
		doc = strings.ReplaceAll(doc, "\x00", "")
		textSpace(r, "names next to "+rule, int64(2*len(near)), allRuleNames, func(i int64) string {
			if i%2 == 0 {
				return "#lint-disable " + near[i/2] + "\n" + doc
			}
			return strings.ReplaceAll(doc, " }", " } #lint-disable-line "+near[i/2]+"\n")
		})
	}
	// other white space between and around the command and the names does not belong to them
	cmds := []string{"lint-disable", "lint-enable", "lint-disable-line", "lint-disable-file", "lint-", "lint-DISABLE", "lint-disable-", "lint-disable,", "lint-disable:", "lint_disable"}
	for _, pre := range []string{"#", "##", "# #", "#x ", "#-", "#lint-disable #"} {
		textSpace(r, "commands after "+pre, int64(len(cmds)*len(cmds)*4), []string{"type-desc"}, func(i int64) string {
			c, d := cmds[i%int64(len(cmds))], cmds[i/int64(len(cmds))%int64(len(cmds))]
			k := i / int64(len(cmds)*len(cmds))
			sep := []string{" ", "\t", ",", ""}[k]
			return pre + c + sep + "type-desc\nscalar A " + "#" + d + " type-desc\nscalar B " + pre + d + " type-desc\nscalar C"
		})
	}
}

// textSpace explores documents, with the comments found by a scanner.
func textSpace(r *e.Run, name string, n int64, names []string, build func(i int64) string) {
	if r.Stopped() {
		return
	}
	fs := rulesOf(names...)
	r.AddStates(int(n))
	r.Par(n, func(w *e.W, i int64) {
		text := build(i)
		cs, _ := scanDoc(text)
		inlineCheck(r, w, i, text, cs, names, fs, rawErrors(text, fs))
	})
	r.Space(name, "documents", n)
	r.Sample(map[string]any{"space": name, "document": clipS(build(n*2/3), 500)})
}

// manyComments: long alternating histories.
func manyComments(r *e.Run) {
	max := int64(e.Pick(r, 60, 200))
	fs := rulesOf("type-desc")
	r.AddStates(int(max * 9))
	r.Par(max*9, func(w *e.W, i int64) {
		n, pat := i/9+1, i%9
		var sb strings.Builder
		var cs []Cmt
		for k := int64(0); k < n; k++ {
			c := []string{"#lint-disable type-desc", "#lint-enable type-desc", "#lint-disable field-desc"}[(k*(pat/3+1)+pat)%3]
			fmt.Fprintf(&sb, "%s\nscalar S%d\n", c, k)
			cs = append(cs, Cmt{c, int(2*k + 1)})
		}
		text := sb.String()
		inlineCheck(r, w, i, text, cs, []string{"type-desc"}, fs, rawErrors(text, fs))
	})
	r.Space("long histories of comments", "documents", max*9)
}
