package main

import (
	"fmt"
	"sort"
	"strings"
	"unicode"

	cmdlint "github.com/CrowdStrike/gql/cmd/linter"
	"github.com/CrowdStrike/gql/pkg/linter"

	e "verifmc/engine"
)

// scanDoc is an independent scanner of a document which the parser accepts: it finds the comments and the names that
// start with "tq", with their physical lines.
func scanDoc(text string) (cs []Cmt, names []Cmt) {
	line := 1
	n := len(text)
	eol := func(i int) int { // length of the line end at i
		if text[i] == '\r' && i+1 < n && text[i+1] == '\n' {
			return 2
		}
		if text[i] == '\r' || text[i] == '\n' {
			return 1
		}
		return 0
	}
	for i := 0; i < n; {
		if k := eol(i); k > 0 {
			line++
			i += k
			continue
		}
		switch c := text[i]; {
		case c == '#':
			j := i
			for j < n && text[j] != '\n' && text[j] != '\r' {
				j++
			}
			cs = append(cs, Cmt{text[i:j], line})
			i = j
		case strings.HasPrefix(text[i:], `"""`):
			i += 3
			for i < n && !strings.HasPrefix(text[i:], `"""`) {
				if strings.HasPrefix(text[i:], `\"""`) {
					i += 4
					continue
				}
				if k := eol(i); k > 0 {
					line++
					i += k
					continue
				}
				i++
			}
			i += 3
		case c == '"':
			i++
			for i < n && text[i] != '"' {
				if text[i] == '\\' {
					i++
				}
				i++
			}
			i++
		case isLower(c) || isUpper(c) || c == '_':
			j := i
			for j < n && (isLower(text[j]) || isUpper(text[j]) || isDigit(text[j]) || text[j] == '_') {
				j++
			}
			if strings.HasPrefix(text[i:j], "tq") {
				names = append(names, Cmt{text[i:j], line})
			}
			i = j
		default:
			i++
		}
	}
	return
}

func namesRule(comment, rule string) (cmd string, named bool) {
	if !strings.HasPrefix(comment, "#lint-") {
		return "", false
	}
	cmd, rest := comment[1:], ""
	if i := strings.IndexAny(cmd, " \t"); i >= 0 {
		cmd, rest = cmd[:i], cmd[i:]
	}
	for _, x := range strings.Split(rest, ",") {
		if strings.EqualFold(strings.TrimFunc(x, unicode.IsSpace), rule) {
			named = true
		}
	}
	return
}

// hiddenBy tells whether the comments suppress the rule at the line.
func hiddenBy(cs []Cmt, rule string, line int) bool {
	off := false
	for _, c := range cs {
		cmd, named := namesRule(c.Text, rule)
		if !named {
			continue
		}
		switch {
		case cmd == "lint-disable-line" && c.Line == line:
			return true
		case cmd == "lint-disable" && c.Line < line:
			off = true
		case cmd == "lint-enable" && c.Line < line:
			off = false
		}
	}
	return off
}

// commentSpace lints every accepted text of a space.
func commentSpace(r *e.Run, name string, n int64, build func(i int64) string) {
	if r.Stopped() {
		return
	}
	fs := rulesOf("type-caps")
	acc := make([]int64, r.Workers)
	r.Par(n, func(w *e.W, i int64) {
		text := build(i)
		if text == "" {
			return
		}
		w.Case(func() string { return fmt.Sprintf("%q", text) })
		if !parses(text) {
			w.Outcome("rejected by the parser")
			return
		}
		acc[w.ID]++
		cs, names := scanDoc(text)
		var want []string
		for _, x := range names {
			if !hiddenBy(cs, "type-caps", x.Line) {
				want = append(want, fmt.Sprintf("%d %s", x.Line, x.Text))
			}
		}
		var got []linter.LintErrorWithMetadata
		msg := e.Guard(func() { got = cmdlint.Lint("s.graphql", text, fs) })
		r.AddTransitions(1)
		r.AddTraces(1)
		w.Outcome(fmt.Sprintf("%d comments, %d of %d reported", min(len(cs), 9), len(want), len(names)))
		why := ""
		if msg != "" {
			why = msg
		} else {
			var have []string
			for _, g := range got {
				at := "?"
				for _, x := range names {
					if g.Err != nil && mentions(g.Err.Error(), x.Text) {
						at = x.Text
					}
				}
				have = append(have, fmt.Sprintf("%d %s", g.Line, at))
			}
			sort.Strings(want)
			sort.Strings(have)
			if strings.Join(want, ";") != strings.Join(have, ";") {
				why = fmt.Sprintf("expected errors (line, type): %v; reported: %v; comments: %q", want, have, cs)
			}
		}
		if why != "" {
			r.Violate(i, fmt.Sprintf("comments:%x", h64(text)), fmt.Sprintf("%s\n--- schema %q", why, clipS(text, 1500)), map[string]any{"schema": text, "why": why, "got": lintStrings(got)})
		}
	})
	var total int64
	for _, a := range acc {
		total += a
	}
	r.AddStates(int(total))
	r.Space(name, "texts", n, "accepted_by_the_parser", total)
	for i := n / 3; i < n && i < n/3+200; i++ {
		if t := build(i); t != "" && parses(t) {
			r.Sample(map[string]any{"space": name, "schema": clipS(t, 600)})
			break
		}
	}
}

// strOver is the i-th string over the alphabet with length at most max (i < count).
func strOver(alphabet []string, max int) (int64, func(i int64) string) {
	k := int64(len(alphabet))
	n, p := int64(0), int64(1)
	for l := 0; l <= max; l++ {
		n += p
		p *= k
	}
	return n, func(i int64) string {
		p, l := int64(1), 0
		for i >= p {
			i -= p
			p *= k
			l++
		}
		var sb strings.Builder
		for ; l > 0; l-- {
			sb.WriteString(alphabet[i%k])
			i /= k
		}
		return sb.String()
	}
}

func l06(r *e.Run) {
	const off, on, ln = "#lint-disable type-caps", "#lint-enable type-caps", "#lint-disable-line type-caps"
	// 1. every sequence of pieces; "@" is replaced by a fresh type name
	pieces := []string{
		"scalar @\n", "scalar @ ", off + "\n", off + "\r", on + "\r\n", ln + "\n", ln + "\r\n",
		"\"" + off + "\" scalar @\n", "\"\"\"" + off + "\"\"\" scalar @\r\n", "\"\"\"\n" + off + "\n\"\"\" scalar @\n", "\"\"\"a\r" + ln + "\r\r\n\"\"\" scalar @\r",
		"\"\"\" \\\"\"\" " + off + " \"\"\" scalar @ " + ln + "\n", "\"\\\"" + off + "\" scalar @ ", "\"\\\\\"scalar @" + off + "\n", "\ufeff", "# é世😀\n", "#\"\"\"\n", "#\"\r", "\"é世😀\" scalar @ ", ",,\t\r\n", "\r", "\n",
		"scalar @ ~d(a: \"" + off + "\")\n", "input @ { x: Int = 1 " + off + "\n }\n", "scalar @ ~d(b: \"\"\"\n" + off + "\r\n\"\"\")" + ln + "\r",
		"\"\\u0022\" scalar @ ", "\"\\n\" scalar @\n", "#\\\n", "#lint-disable other\r\n",
	}
	max := e.Pick(r, 4, 5)
	np, at := seqCount(len(pieces), max)
	commentSpace(r, fmt.Sprintf("all sequences of up to %d pieces of text", max), np, func(i int64) string {
		seq := at(i)
		var sb strings.Builder
		for k, x := range seq {
			sb.WriteString(strings.ReplaceAll(strings.ReplaceAll(pieces[x], "@", fmt.Sprintf("tq%d", k)), "~", "@"))
		}
		sb.WriteString("scalar tqz\n")
		return sb.String()
	})
	// 2. critical characters in every context
	chars := []string{`"`, `\`, "#", "\n", "\r", "a", " ", "\xc3\xa9", ","}
	ctx := map[string]string{
		"in a block string": "scalar tq0\n\"\"\"<>\"\"\"\nscalar tq1 " + ln + "\nscalar tq2 <>" + off + "\nscalar tq3\n",
		"in a string":       "scalar tq0\r\n\"<>\"\nscalar tq1 " + ln + "\rscalar tq2\n" + off + "\nscalar tq3\n",
		"in a comment":      "scalar tq0\n#<>\nscalar tq1 " + ln + "<>\nscalar tq2\n",
		"in a comment in front of a block string": "scalar tq0 #<>\n\"\"\"\n" + off + "\n\"\"\"\nscalar tq1 " + ln + "\nscalar tq2\n",
		"between tokens":                          "scalar tq0<>scalar<>tq1 " + ln + "\nscalar tq2" + off + "<>scalar tq3",
		"at the start and at the end":             "<>" + off + "\nscalar tq1\n" + on + "\nscalar tq2 <>",
		"inside an argument value of a directive": "scalar tq0 @d(a: \"<>\", b: \"\"\"<>\"\"\")\nscalar tq1 " + ln + "\nscalar tq2\n",
		"around a lint comment":                   "scalar tq0<>" + ln + "<>\nscalar tq1<>" + off + "\r<>scalar tq2",
		"after a lint comment without a line end": "scalar tq0\nscalar tq1 " + ln + "<>",
		"after an escaped triple quote":           "\"\"\"\\\"\"\"<>\"\"\"\nscalar tq0 " + ln + "\nscalar tq1\n",
		"in a field description in the middle":    "type tq0 {\n\"\"\"\n<>\n\"\"\"\na: Int " + ln + "\n}\nscalar tq1 " + ln + "\nscalar tq2",
		"as a value":                              "scalar tq0 @d(a: [<>]) " + ln + "\nscalar tq1 @d(a: [x<> 1<>,-<>]) #<>\nscalar tq2" + off + "\nscalar tq3",
		"as a name":                               "type tq0 { <>: I } " + ln + "\ntype tq1 { x<>x: I<> }\n" + off + "\nscalar tq3",
		"after a byte order mark":                 "\ufeff<>scalar tq0 " + ln + "\n\ufeffscalar tq1\ufeff<>" + off + "\nscalar tq2",
	}
	n, str := strOver(chars, e.Pick(r, 5, 6))
	for _, k := range sortedKeys(ctx) {
		c := ctx[k]
		commentSpace(r, "critical characters "+k, n, func(i int64) string { return strings.ReplaceAll(c, "<>", str(i)) })
	}
	// 3. every pair of bytes in every context
	for _, k := range sortedKeys(ctx) {
		c := ctx[k]
		commentSpace(r, "all pairs of bytes "+k, 65536+256, func(i int64) string {
			if i < 256 {
				return strings.ReplaceAll(c, "<>", string([]byte{byte(i)}))
			}
			i -= 256
			if byte(i) == 't' && byte(i>>8) == 'q' {
				return "" // would make a name which is taken for a type
			}
			return strings.ReplaceAll(c, "<>", string([]byte{byte(i), byte(i >> 8)}))
		})
	}
	// 4. every Unicode character in comments and strings
	commentSpace(r, "every Unicode character", 0x110000, func(i int64) string {
		x := string(rune(i))
		return "#" + x + "\n\"" + x + "\"scalar tq0 " + ln + "\n\"\"\"" + x + off + "\"\"\" scalar tq1 #" + x + "\n" + off + "\nscalar tq2 #" + x
	})
	// 5. escapes
	esc := []string{`\"`, `\\`, `\/`, `\b`, `\f`, `\n`, `\r`, `\t`, `\u0022`, `\u005C`, `\u0023`, `\u000A`, `\uD83D\uDE00`, "é", "x", "#", `\u0000`, `\`}
	n, str = strOver(esc, e.Pick(r, 3, 4))
	commentSpace(r, "escapes in strings", n, func(i int64) string {
		return "\"" + str(i) + "\" scalar tq0 " + ln + "\n\"" + str(i) + off + "\"\nscalar tq1\nscalar tq2"
	})
	n, str = strOver([]string{`"""`, `"`, `\"""`, `\`, "#", "\n", " "}, e.Pick(r, 6, 7))
	commentSpace(r, "adjacent strings and block strings", n*3, func(i int64) string {
		x := str(i / 3)
		switch i % 3 {
		case 0:
			return "scalar tq0 @d(a: [" + x + "]) " + ln + "\nscalar tq1\n" + off + "\nscalar tq2"
		case 1:
			return "scalar tq0 @d(a: [\"\"\"" + x + "\"\"\"]) " + ln + "\nscalar tq1\n" + off + "\nscalar tq2"
		}
		return "scalar tq0 @d(a: [\"" + x + "\"\"\"]) " + ln + "\nscalar tq1\n" + off + "\nscalar tq2"
	})
	hex := "0123456789abcdefABCDEF"
	nh := int64(len(hex))
	commentSpace(r, "every unicode escape, in every letter case", nh*nh*nh*nh, func(i int64) string {
		x := string([]byte{hex[i%nh], hex[i/nh%nh], hex[i/nh/nh%nh], hex[i/nh/nh/nh]})
		return "\"\\u" + x + "\" scalar tq0 " + ln + "\n\"" + off + "\\u" + x + "\" scalar tq1"
	})
	// the end of the document directly after a token
	ends := []string{"", "a", " ", "\n", "#", "\"\"", "\"a\"", "{a:B}", "@d", "@d(a:\"\")", "@d(a:\"\"\"x\"\"\")"}
	n, str = strOver(append([]string{`\"""`, `\`, "é"}, chars[:6]...), 4)
	commentSpace(r, "strings close to the end of the document", n*int64(len(ends))*3, func(i int64) string {
		x, end, k := str(i%n), ends[i/n%int64(len(ends))], i/n/int64(len(ends))
		switch k {
		case 0:
			return "scalar tq0\n\"\"\"" + x + "\"\"\"type tqa" + end
		case 1:
			return "scalar tq0\n\"" + x + "\"type tqa" + end
		}
		return "scalar tq0 " + off + "\ntype tqa" + end + "#" + x
	})
	// numbers in every form
	n, str = strOver([]string{"-", "+", ".", "0", "1", "9", "e", "E"}, e.Pick(r, 5, 7))
	commentSpace(r, "numbers", n*3, func(i int64) string {
		x := str(i / 3)
		switch i % 3 {
		case 0:
			return "input tq0 { x: Int = " + x + off + "\n}\nscalar tq1 " + ln + "\nscalar tq2"
		case 1:
			return "scalar tq0 @d(a: [" + x + " " + x + "," + x + "]) " + ln + "\nscalar tq1\n#" + x + "\n" + off + "\nscalar tq2"
		}
		return "type tq0 { f(a: T = {x:" + x + "}): Int @d(b: " + x + ") }" + ln + "\ntype tq1"
	})
	// lint comments in all gaps of a document with every kind of token
	toks := strings.Fields(`schema @ d { query : Query } extend schema { mutation : Mutation } "text" type tq0 implements & I & J2 @ d ( a : 1 , b : - ) { "x" f ( "y" a : [ [ Int ! ] ! ] ! = [ 1 , -0.5e+3 ] b : _In = { k : E_X , l : null , m : true , n : """z""" } ) : Q3 ! @ e }
		scalar tq1 @ e union tq2 = | A | B enum tq3 { "v" A_1 @ d B true_ } input tq4 { a : String = "s\"t" @ e b : Float = 1.5 } interface tq5 implements I { a : Int } directive @ dd ( a : Int = 0 ) repeatable on | FIELD | ENUM extend type tq6 @ f extend union tq7 = Q0 extend input tq8 { z : [ Q4 ] = [ ] } extend enum tq9 { Z } extend interface tqa { q : Int } extend scalar tqb @ g`)
	for i, t := range toks {
		if t == "-" {
			toks[i] = "-7"
		}
	}
	var gap []string
	for _, c := range []string{off, on, ln} {
		gap = append(gap, c+"\n", "\r\n"+c+"\r", " "+c+"\r\n\n")
	}
	ng, nt := int64(len(gap)), int64(len(toks)+1)
	commentSpace(r, "lint comments in all pairs of gaps of a document with every kind of token", nt*nt*ng*ng, func(i int64) string {
		a, b := i%nt, i/nt%nt
		if b < a || !r.Thorough() && b > a+3 && (i/nt/nt%ng%3 != 0 || i/nt/nt/ng%3 != 0) {
			return ""
		}
		ga, gb := gap[i/nt/nt%ng], gap[i/nt/nt/ng]
		var sb strings.Builder
		for k := int64(0); k < nt; k++ {
			if k == a {
				sb.WriteString(ga)
			}
			if k == b && a != b {
				sb.WriteString(gb)
			}
			if k == nt-1 {
				break
			}
			sb.WriteString(toks[k])
			switch {
			case k%9 == 8:
				sb.WriteString("\n")
			case toks[k] != "@":
				sb.WriteString(" ")
			}
		}
		return sb.String()
	})
	// 6. sizes
	sizes := []int{1, 2, 100, 255, 256, 511, 512, 1023, 4095, 4096, 4097, 65535, 65536, 65537, 200000}
	fill := []string{"x", "é", "\n", "\r\n", "\r", " ", "#\n", "\"\"\"", "# lint\r\n"}
	commentSpace(r, "long comments, strings and gaps", int64(len(sizes)*len(fill)*4), func(i int64) string {
		s := sizes[i%int64(len(sizes))]
		f := fill[i/int64(len(sizes))%int64(len(fill))]
		x := strings.Repeat(f, s)
		tail := "scalar tq1 " + ln + "\nscalar tq2\n" + off + "\nscalar tq3"
		switch i / int64(len(sizes)*len(fill)) {
		case 0:
			return "#" + x + "\n" + tail
		case 1:
			return "\"\"\"" + x + "\"\"\"" + tail
		case 2:
			return "\"" + x + "\" " + tail
		}
		return x + tail + x
	})
}

// seqCount enumerates all sequences of length 0..max over k symbols.
func seqCount(k, max int) (int64, func(i int64) []int) {
	n, p := int64(0), int64(1)
	for l := 0; l <= max; l++ {
		n += p
		p *= int64(k)
	}
	return n, func(i int64) []int {
		p, l := int64(1), 0
		for i >= p {
			i -= p
			p *= int64(k)
			l++
		}
		out := make([]int, l)
		for j := range out {
			out[j] = int(i % int64(k))
			i /= int64(k)
		}
		return out
	}
}
