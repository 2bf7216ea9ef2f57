package main

import (
	"fmt"
	"strings"
	"sync"

	"github.com/CrowdStrike/gql/pkg/linter"

	e "verifmc/engine"
)

// ---- a reference reading of command lines ----

type flagDef struct {
	long  string
	short byte
	kind  byte // 's' text, 'b' yes or no, 'l' list
}

var compareFlags = []flagDef{{"oldversion", 'o', 's'}, {"newversion", 'n', 's'}, {"breaking-change-only", 'b', 'b'}, {"exclude-print-filepath", 'e', 'b'}, {"help", 'h', 'b'}}
var lintFlags = []flagDef{{"filepath", 'f', 's'}, {"rules", 'r', 'l'}, {"help", 'h', 'b'}}

type settings struct {
	text  map[string]string
	yes   map[string]bool
	list  map[string][]string
	extra bool // arguments which belong to no flag
	bad   bool
}

func boolWord(s string) (val, ok bool) {
	switch s {
	case "1", "t", "T", "true", "TRUE", "True":
		return true, true
	case "0", "f", "F", "false", "FALSE", "False":
		return false, true
	}
	return false, false
}

// readLine gives the meaning of the arguments after the name of the command.
func readLine(defs []flagDef, args []string) settings {
	s := settings{text: map[string]string{}, yes: map[string]bool{}, list: map[string][]string{}}
	set := func(d flagDef, v string) {
		switch d.kind {
		case 's':
			s.text[d.long] = v
		case 'l':
			if v != "" {
				s.list[d.long] = append(s.list[d.long], strings.Split(v, ",")...)
			}
		case 'b':
			b, ok := boolWord(v)
			if !ok {
				s.bad = true
			}
			s.yes[d.long] = b
		}
	}
	for i := 0; i < len(args) && !s.bad; i++ {
		a := args[i]
		switch {
		case a == "--":
			s.extra = s.extra || i+1 < len(args)
			return s
		case strings.HasPrefix(a, "--"):
			name, val, has := strings.Cut(a[2:], "=")
			var d flagDef
			for _, x := range defs {
				if x.long == name {
					d = x
				}
			}
			switch {
			case d.long == "":
				s.bad = true
			case has:
				set(d, val)
			case d.kind == 'b':
				set(d, "true")
			case i+1 < len(args):
				i++
				set(d, args[i])
			default:
				s.bad = true
			}
		case len(a) > 1 && a[0] == '-':
			for k := 1; k < len(a) && !s.bad; k++ {
				var d flagDef
				for _, x := range defs {
					if x.short == a[k] {
						d = x
					}
				}
				rest := a[k+1:]
				switch {
				case d.long == "":
					s.bad = true
				case len(rest) > 1 && rest[0] == '=':
					set(d, rest[1:])
					k = len(a)
				case d.kind == 'b':
					set(d, "true")
				case rest != "":
					set(d, rest)
					k = len(a)
				case i+1 < len(args):
					i++
					set(d, args[i])
				default:
					s.bad = true
				}
			}
		default:
			s.extra = true
		}
	}
	return s
}

var c19Verdicts = []string{"No changes found", "No breaking changes found", "Breaking changes in schema", "Schema has no lint errors", "Total lint errors found"}

func hasVerdict(c CLI) bool {
	for _, v := range c19Verdicts {
		if strings.Contains(c.Out, v) {
			return true
		}
	}
	return false
}

type memo struct {
	mu sync.Mutex
	m  map[string]CLI
}

func (m *memo) get(k string, f func() CLI) CLI {
	m.mu.Lock()
	c, ok := m.m[k]
	m.mu.Unlock()
	if !ok {
		c = f()
		m.mu.Lock()
		m.m[k] = c
		m.mu.Unlock()
	}
	return c
}

func c19(r *e.Run) {
	dir := workDir(&e.W{R: r}, "c19")
	files := map[string]string{
		"sa.graphql": "type Query { a: Int b: Int c_c: Int }\n\"d\"\nenum E { X y }\n", "sb.graphql": "type Query { a: Int! b: String }\n\"d\"\nenum E { X y z }\n",
		"c.graphql": "type Query { a: Int b: Int c_c: Int d: Int }\n\"d\"\nenum E { X y }\n", "=sb.graphql": "type Z { Y: Int }\n", "-b": "\"d\" type Y { \"d\" y: Int }\n",
	}
	for _, n := range sortedKeys(files) {
		putFile(dir, n, files[n])
	}
	canon := func(cmd string, s settings) []string {
		args := []string{cmd}
		if cmd == "compare" {
			args = append(args, "--oldversion="+s.text["oldversion"], "--newversion="+s.text["newversion"])
			for _, b := range []string{"breaking-change-only", "exclude-print-filepath"} {
				if s.yes[b] {
					args = append(args, "--"+b)
				}
			}
			return args
		}
		args = append(args, "--filepath="+s.text["filepath"])
		if l := s.list["rules"]; len(l) > 0 {
			args = append(args, "--rules="+strings.Join(l, ","))
		}
		return args
	}
	seen := memo{m: map[string]CLI{}}
	stdin := []byte("type q { a_a: Int }\n")
	run := func(args []string) CLI { return runGQL(r, dir, stdin, args...) }
	explore := func(cmd string, defs []flagDef, pieces []string, depth int) {
		n := int64(1)
		for i := 0; i < depth; i++ {
			n *= int64(len(pieces))
		}
		counts := make([]int64, r.Workers)
		r.Par(n, func(w *e.W, i int64) {
			var args []string
			for k, j := 0, i; k < depth; k++ {
				args = append(args, strings.Fields(strings.ReplaceAll(pieces[j%int64(len(pieces))], "''", "\x01"))...)
				j /= int64(len(pieces))
			}
			for k := range args {
				args[k] = strings.ReplaceAll(args[k], "\x01", "")
			}
			s := readLine(defs, args)
			if s.extra {
				return // arguments without a flag: not specified
			}
			line := append([]string{cmd}, args...)
			text := fmt.Sprintf("gql %q", line)
			w.Case(func() string { return text })
			counts[w.ID]++
			r.AddTransitions(1)
			r.AddTraces(1)
			got := run(line)
			why := ""
			switch {
			case s.bad:
				w.Outcome(cmd + ": rejected")
				if got.Code != 1 || hasVerdict(got) || got.Out+got.Err == "" {
					why = "a wrong command line must lead to exit status 1, a message and no verdict"
				}
			case s.yes["help"]:
				w.Outcome(cmd + ": help")
				if got.Code != 0 || hasVerdict(got) || !strings.Contains(got.Out, "Usage:") {
					why = "help must be shown, with exit status 0 and no verdict"
				}
				for _, d := range defs {
					if !strings.Contains(got.Out, "-"+string(d.short)+", --"+d.long) {
						why = "the help does not show --" + d.long
					}
				}
				if cmd == "lint" {
					list := got.Out
					if _, after, ok := strings.Cut(got.Out, "available rules"); ok {
						list = after
					}
					for _, x := range linter.AllTheRules {
						if !mentions(list, string(x.Name)) {
							why = "the help does not show the rule " + string(x.Name)
						}
					}
				}
			default:
				c := canon(cmd, s)
				want := seen.get(strings.Join(c, "\x00"), func() CLI { return run(c) })
				w.Outcome(fmt.Sprintf("%s: exit status %d", cmd, want.Code))
				if o, n := s.text["oldversion"], s.text["newversion"]; cmd == "compare" && o != n && files[o] != "" && files[n] != "" {
					if gs, err := changesOfFiles(o, files[o], n, files[n]); err == nil {
						why = reportProblem(want, gs, s.yes["breaking-change-only"], s.yes["exclude-print-filepath"])
					}
				}
				if !got.same(want) {
					why += fmt.Sprintf("expected the same as from gql %q:\n%v\n", c, want)
				}
				if cmd == "compare" && (s.text["oldversion"] == "" || s.text["newversion"] == "") && (got.Code != 1 || hasVerdict(got)) {
					why = "a comparison without both paths must lead to exit status 1 and no verdict"
				}
			}
			if got.Hung {
				why = "the command does not end"
			}
			if why != "" {
				r.Violate(i, "line:"+text, fmt.Sprintf("%s: %s\ngot: %v", text, why, got), map[string]any{"command line": text, "why": why, "got": got.String()})
			}
		})
		tot := int64(0)
		for _, c := range counts {
			tot += c
		}
		r.AddStates(int(tot))
		r.Space(fmt.Sprintf("gql %s: all sequences of %d of %d pieces of command lines", cmd, depth, len(pieces)), "command_lines", tot)
		r.Sample(map[string]any{"command": cmd, "pieces": pieces[:min(len(pieces), 40)]})
	}
	comparePieces := []string{
		"-o sa.graphql", "-osa.graphql", "-o=sb.graphql", "--oldversion sa.graphql", "--oldversion=sb.graphql", "-n sb.graphql", "-nc.graphql", "-n=sa.graphql", "--newversion c.graphql", "--newversion=sb.graphql",
		"-b", "--breaking-change-only", "-b=false", "-e", "--exclude-print-filepath=true", "--exclude-print-filepath=0", "-be", "-ebo sa.graphql",
	}
	oddCompare := []string{"-o", "-n ''", "--oldversion=", "--newversion", "-x", "--old sa.graphql", "-b=maybe", "--exclude-print-filepath=2", "-h", "--help", "--help=false", "--", "-on sb.graphql", "-bno=sb.graphql", "-eb=false", "-o -b", "-n --", "-n==sb.graphql", "--oldversion==sb.graphql",
		"--OLDVERSION=sa.graphql", "-O sa.graphql", "-f sa.graphql", "--breaking-change-only=F", "-bbe", "-n nosuch"}
	lintPieces := []string{
		"-f sa.graphql", "-fsb.graphql", "-f=c.graphql", "--filepath sb.graphql", "--filepath=sa.graphql", "-r type-desc", "-rfield-desc", "-r=enum-caps", "--rules enum-desc,type-desc", "--rules=field-camel", "-r Type-Desc,enum-caps",
		"-f s?.graphql", "--filepath=",
	}
	oddLint := []string{"-r", "-r ''", "-f ''", "--rules=", "-f", "-x", "--rule type-desc", "-h", "--help", "--", "-f -b", "-f -f", "-f==sb.graphql", "-r nosuch", "-r type-desc,", "-o sa.graphql", "-fr type-desc", "-rf sa.graphql", "--FILEPATH=sa.graphql", "-h=false", "-e"}
	quick := e.Pick(r, 3, 4)
	for d := 0; d <= quick && !r.Stopped(); d++ {
		explore("compare", compareFlags, comparePieces, d)
		explore("lint", lintFlags, lintPieces, d)
	}
	if r.Stopped() {
		return
	}
	// all flags at once: every spelling of each, in every order
	alts := [][]string{{"-o sa.graphql", "-osa.graphql", "--oldversion=sa.graphql", "-o sb.graphql", "--oldversion sb.graphql"}, {"-n sb.graphql", "-n=c.graphql", "--newversion c.graphql"}, {"-b", "--breaking-change-only", "-b=false", "--breaking-change-only=1"}, {"-e", "--exclude-print-filepath", "-e=0", "--exclude-print-filepath=true"}}
	exploreOrders := func(cmd string, defs []flagDef, alts [][]string) {
		var lines []string
		var rec func(left [][]string, line string)
		rec = func(left [][]string, line string) {
			if len(left) == 0 {
				lines = append(lines, line)
			}
			for k, a := range left {
				rest := append(append([][]string{}, left[:k]...), left[k+1:]...)
				for _, x := range a {
					rec(rest, line+" "+x)
				}
			}
		}
		rec(alts, "")
		explore(cmd, defs, lines, 1)
	}
	exploreOrders("compare", compareFlags, alts)
	exploreOrders("lint", lintFlags, [][]string{{"-f sa.graphql", "--filepath=sb.graphql", "-f=c.graphql"}, {"-r type-desc", "--rules=type-desc,enum-caps", "-rfield-desc"}, {"--rules field-camel", "-r=type-caps"}, {"-f sa.graphql", "--filepath c.graphql"}})
	both := func(base, odd []string) []string { return append(append([]string{}, base...), odd...) }
	d := 3
	explore("compare", compareFlags, both([]string{"-o sa.graphql", "-n sb.graphql", "-osa.graphql -nsb.graphql", "-b", "-e", "-o sa.graphql -n c.graphql -e"}, oddCompare), d)
	explore("lint", lintFlags, both([]string{"-f sa.graphql", "-r type-desc", "-f sb.graphql -r enum-caps", "--filepath=c.graphql"}, oddLint), d)
	// no, unknown and odd commands
	for _, x := range []struct {
		args []string
		code int
	}{
		{nil, 0}, {[]string{"-h"}, 0}, {[]string{"--help"}, 0}, {[]string{"help"}, 0}, {[]string{"help", "lint"}, 0}, {[]string{"help", "compare"}, 0}, {[]string{"nosuch"}, 1}, {[]string{"Lint"}, 1}, {[]string{"lints", "-f", "sa.graphql"}, 1}, {[]string{"comp", "-o", "sa.graphql", "-n", "sb.graphql"}, 1},
		{[]string{"-x"}, 1}, {[]string{"--nosuch"}, 1}, {[]string{"-f", "sa.graphql"}, 1}, {[]string{"COMPARE", "-o", "sa.graphql", "-n", "c.graphql"}, 1},
	} {
		got := run(x.args)
		r.AddTransitions(1)
		r.AddTraces(1)
		if got.Code != x.code || hasVerdict(got) || got.Out+got.Err == "" {
			r.Violate(1<<40, fmt.Sprintf("line:%q", x.args), fmt.Sprintf("gql %q: expected exit status %d, a message and no verdict, got %v", x.args, x.code, got), map[string]any{"command line": x.args, "got": got.String()})
		}
	}
	r.Space("unknown commands and help")
	r.Assume("arguments which belong to no flag are not specified (the README warns of unquoted wildcards)")
}
