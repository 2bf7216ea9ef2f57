package main

import (
	"fmt"
	"sort"
	"strings"

	e "verifmc/engine"
	m "verifmc/model"
)

func quoted(msg string) []string {
	var out []string
	parts := strings.Split(msg, "'")
	for i := 1; i < len(parts); i += 2 {
		out = append(out, parts[i])
	}
	sort.Strings(out)
	return out
}

// mirrorKey classifies a change: dir is +1 addition, -1 removal, 0 modification.
func mirrorKey(g Got) (key string, dir int) {
	ct := g.CT
	switch {
	case strings.HasSuffix(ct, "_ADDED"):
		ct, dir = strings.TrimSuffix(ct, "_ADDED"), 1
	case strings.HasSuffix(ct, "_REMOVED"):
		ct, dir = strings.TrimSuffix(ct, "_REMOVED"), -1
	}
	id := g.Path
	switch ct {
	case "UNION_MEMBER", "OBJECT_TYPE_INTERFACE", "DIRECTIVE_LOCATION":
		id += "|" + strings.Join(quoted(g.Msg), ",")
	case "DIRECTIVE":
		id += "|" + strings.Join(quoted(g.Msg), ",")
	case "SCHEMA_QUERY_TYPE_CHANGED", "SCHEMA_MUTATION_TYPE_CHANGED", "SCHEMA_SUBSCRIPTION_TYPE_CHANGED":
		id = ""
		switch {
		case strings.Contains(g.Msg, "added"):
			dir = 1
		case strings.Contains(g.Msg, "removed"):
			dir = -1
		}
	case "TYPE":
		if strings.Contains(g.Msg, "xtended") {
			id += "|extension"
		}
	}
	return ct + "|" + id, dir
}

// requiredIn tells whether an added argument or input field is required in the new schema.
func requiredIn(s *m.Schema, ct, path string) bool {
	p := strings.Split(path, ".")
	req := func(t, d string) bool { return m.NonNull(t) && d == "" }
	switch ct {
	case "DIRECTIVE_ARGUMENT_ADDED":
		for _, d := range s.Dirs {
			for _, a := range d.Args {
				if "@"+d.Name == p[0] && len(p) == 2 && a.Name == p[1] && req(a.Type, a.Default) {
					return true
				}
			}
		}
	case "INPUT_FIELD_ADDED":
		for _, t := range s.Types {
			for _, f := range t.Fields {
				if t.Name == p[0] && len(p) == 2 && f.Name == p[1] && req(f.Type, f.Default) {
					return true
				}
			}
		}
	case "FIELD_ARGUMENT_ADDED":
		for _, t := range s.Types {
			for _, f := range t.Fields {
				for _, a := range f.Args {
					if t.Name == p[0] && len(p) == 3 && f.Name == p[1] && a.Name == p[2] && req(a.Type, a.Default) {
						return true
					}
				}
			}
		}
	}
	return false
}

func hasExt(s *m.Schema, name string) bool {
	for _, t := range s.Types {
		if t.Ext && t.Name == name {
			return true
		}
	}
	return false
}

func extField(s *m.Schema, path string) bool {
	p := strings.Split(path, ".")
	for _, t := range s.Types {
		if t.Ext && t.Name == p[0] {
			for _, f := range t.Fields {
				if len(p) == 2 && f.Name == p[1] {
					return true
				}
			}
		}
	}
	return false
}

// definedArg tells whether path is an argument of a directive definition of either schema.
func definedArg(o, n *m.Schema, path string) bool {
	for _, s := range []*m.Schema{o, n} {
		for _, d := range s.Dirs {
			for _, a := range d.Args {
				if "@"+d.Name+"."+a.Name == path {
					return true
				}
			}
		}
	}
	return false
}

func mirrorBag(o, n *m.Schema, gs []Got) (plus, minus, mod map[string]int, bad string) {
	plus, minus, mod = map[string]int{}, map[string]int{}, map[string]int{}
	for _, g := range gs {
		if g.CT == "DIRECTIVE_CHANGED" {
			if g.Crit != 1 {
				bad = "not Dangerous: " + g.String()
			}
			continue // repeated directives: not a single application
		}
		if g.CT == "INPUT_FIELD_ADDED" && !hasExt(o, strings.Split(g.Path, ".")[0]) && extField(n, g.Path) {
			continue // reported in addition to the added extension; the extension's removal covers the reverse
		}
		k, dir := mirrorKey(g)
		if g.CT == "DIRECTIVE_ARGUMENT_ADDED" || g.CT == "DIRECTIVE_ARGUMENT_REMOVED" {
			if definedArg(o, n, g.Path) && (dir == 1 || g.Crit == 2) {
				k = "DIRECTIVE_ARGUMENT definition " + g.Path
			} else {
				k = "DIRECTIVE_ARGUMENT applied " + strings.Join(quoted(g.Msg), ",")
			}
		}
		if g.CT == "DIRECTIVE_ARGUMENT_VALUE_CHANGED" { // the values are swapped in the reverse direction
			k = "DIRECTIVE_ARGUMENT_VALUE " + strings.Join(quoted(g.Msg), ",")
		}
		applied := strings.HasPrefix(g.CT, "DIRECTIVE_ARGUMENT") && strings.Contains(k, "applied") || strings.HasPrefix(k, "DIRECTIVE|") && !strings.HasPrefix(g.Path, "@")
		dep := strings.Contains(g.CT, "_DEPRECATION_")
		switch {
		case dir > 0:
			plus[k]++
			if g.Crit == 2 && !requiredIn(n, g.CT, g.Path) {
				bad = "an addition is graded Breaking: " + g.String()
			}
			if g.Crit != 2 && requiredIn(n, g.CT, g.Path) {
				bad = "a required addition is not graded Breaking: " + g.String()
			}
		case dir < 0:
			minus[k]++
			if (applied || dep) && g.Crit != 1 || !(applied || dep) && g.Crit != 2 {
				bad = "wrong grade of a removal: " + g.String()
			}
		default:
			mod[k]++
		}
	}
	return
}

func sameBag(a, b map[string]int) string {
	var out []string
	for k, n := range a {
		if b[k] != n {
			out = append(out, fmt.Sprintf("%s: %d times forward, %d times in the reverse comparison", k, n, b[k]))
		}
	}
	for k, n := range b {
		if a[k] == 0 {
			out = append(out, fmt.Sprintf("%s: never forward, %d times in the reverse comparison", k, n))
		}
	}
	sort.Strings(out)
	return strings.Join(out, "\n")
}

func mirrorCheck(w *e.W, o, n *Doc) (string, []Got) {
	f := diffOf(o.A, n.A)
	b := diffOf(n.A, o.A)
	fp, fm, fo, bad1 := mirrorBag(o.S, n.S, f)
	bp, bm, bo, bad2 := mirrorBag(n.S, o.S, b)
	why := ""
	for _, s := range []string{bad1, bad2} {
		if s != "" {
			why += s + "\n"
		}
	}
	if s := sameBag(fp, bm); s != "" {
		why += "additions vs reverse removals: " + s + "\n"
	}
	if s := sameBag(fm, bp); s != "" {
		why += "removals vs reverse additions: " + s + "\n"
	}
	if s := sameBag(fo, bo); s != "" {
		why += "modifications: " + s + "\n"
	}
	return why, f
}

// allUniverses of the compare checks
func allUniverses(r *e.Run) []Universe {
	var us []Universe
	us = append(us, uTypes(r)...)
	us = append(us, uRoots(r)...)
	for _, k := range []string{m.Object, m.Interface, m.Input} {
		us = append(us, uFields(r, k)...)
	}
	us = append(us, uSets(r)...)
	us = append(us, uDirDefs(r)...)
	us = append(us, uApplied(r)...)
	us = append(us, uRefs(r)...)
	us = append(us, editUniverse(r))
	return us
}

// editUniverse: the rich schema, and every schema one edit away
func editUniverse(r *e.Run) Universe {
	u := Universe{Name: "rich schema with every single edit"}
	base := richBase()
	u.S = append(u.S, base)
	for _, ed := range edits() {
		u.S = append(u.S, applyEdits(base, ed))
	}
	return u
}

func allScales(r *e.Run) map[string][][2]*m.Schema {
	n := e.Pick(r, 14, 40)
	return map[string][][2]*m.Schema{
		"many types": scalePairs(n, typeScale), "many extensions": scalePairs(n, extScale),
		"many fields": scalePairs(n, fieldScale(m.Object)), "many interface fields": scalePairs(n, fieldScale(m.Interface)), "many input fields": scalePairs(n, fieldScale(m.Input)),
		"many arguments": scalePairs(n, argScale(m.Object)), "many enum values": scalePairs(n, enumScale), "many union members": scalePairs(n, unionScale),
		"many interfaces": scalePairs(n, ifaceScale), "many directives": scalePairs(n, dirScale), "many directive arguments": scalePairs(n, dirArgScale),
	}
}

func sortedKeys[V any](mm map[string]V) []string {
	var ks []string
	for k := range mm {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func c15(r *e.Run) {
	explorePairs(r, allUniverses(r), mirrorCheck)
	sc := allScales(r)
	for _, k := range sortedKeys(sc) {
		explorePairList(r, k, sc[k], mirrorCheck)
	}
	allKernels(r, e.Pick(r, tinyOpt, smallOpt), mirrorCheck)
	compareAssume(r)
	r.Assume("a repeated directive's DIRECTIVE_CHANGED report has no mirror image (excluded by the property)")
}
