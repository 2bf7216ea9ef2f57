package main

import (
	"fmt"
	"sort"
	"strings"

	e "verifmc/engine"
	m "verifmc/model"
)

func changeKey(g Got) string { return g.CT + "|" + critName[g.Crit] + "|" + g.Path + "|" + g.Msg }

func bagOf(gs []Got) map[string]int {
	b := map[string]int{}
	for _, g := range gs {
		b[changeKey(g)]++
	}
	return b
}

func bagDiff(want, got map[string]int) string {
	var out []string
	for k, n := range want {
		if got[k] < n {
			out = append(out, fmt.Sprintf("reported for the edits alone but %d/%d times together: %s", got[k], n, k))
		}
	}
	for k, n := range got {
		if want[k] < n {
			out = append(out, fmt.Sprintf("reported %d times together but %d times for the edits alone: %s", n, want[k], k))
		}
	}
	sort.Strings(out)
	return strings.Join(out, "\n")
}

// combos enumerates all conflict-free combinations of size k.
func combos(es []Edit, k int, f func(idx []int)) {
	conf := make([][]bool, len(es))
	for i := range es {
		conf[i] = make([]bool, len(es))
		for j := range es {
			conf[i][j] = i == j || conflicts(es[i], es[j])
		}
	}
	var idx []int
	var rec func(from int)
	rec = func(from int) {
		if len(idx) == k {
			f(idx)
			return
		}
	next:
		for i := from; i < len(es); i++ {
			for _, j := range idx {
				if conf[i][j] {
					continue next
				}
			}
			idx = append(idx, i)
			rec(i + 1)
			idx = idx[:len(idx)-1]
		}
	}
	rec(0)
}

func reversed(s *m.Schema) *m.Schema {
	c := s.Clone()
	for i, j := 0, len(c.Types)-1; i < j; i, j = i+1, j-1 {
		c.Types[i], c.Types[j] = c.Types[j], c.Types[i]
	}
	for i, j := 0, len(c.Dirs)-1; i < j; i, j = i+1, j-1 {
		c.Dirs[i], c.Dirs[j] = c.Dirs[j], c.Dirs[i]
	}
	for k := range c.Types {
		t := &c.Types[k]
		for i, j := 0, len(t.Fields)-1; i < j; i, j = i+1, j-1 {
			t.Fields[i], t.Fields[j] = t.Fields[j], t.Fields[i]
		}
		for i, j := 0, len(t.Values)-1; i < j; i, j = i+1, j-1 {
			t.Values[i], t.Values[j] = t.Values[j], t.Values[i]
		}
		for f := range t.Fields {
			as := t.Fields[f].Args
			for i, j := 0, len(as)-1; i < j; i, j = i+1, j-1 {
				as[i], as[j] = as[j], as[i]
			}
		}
	}
	return c
}

func c10(r *e.Run) {
	base := richBase()
	es := edits()
	doc := mkDoc(base)
	single := make([]map[string]int, len(es))  // base -> base+edit
	inverse := make([]map[string]int, len(es)) // base+edit -> base
	for i, ed := range es {
		d := mkDoc(applyEdits(base, ed))
		g := diffOf(doc.Fresh(), d.A)
		single[i] = bagOf(g)
		inverse[i] = bagOf(diffOf(mkDoc(applyEdits(base, ed)).A, doc.Fresh()))
		if why := match(m.Diff(base, d.S, nil, nil), g, matchOpt{}); why != "" {
			r.Violate(int64(i), "edit:"+ed.Name, ed.Name+": "+why, pairReplay(doc, d, why, g))
		}
		if why := match(m.Diff(d.S, base, nil, nil), diffOf(mkDoc(d.S).A, doc.Fresh()), matchOpt{}); why != "" {
			r.Violate(int64(i), "edit-:"+ed.Name, "undo "+ed.Name+": "+why, pairReplay(d, doc, why, nil))
		}
		r.AddTransitions(2)
		r.AddTraces(2)
	}
	r.AddStates(len(es) + 1)
	r.Space("edit alphabet", "edits", len(es))
	check := func(w *e.W, order int64, idx []int, variant int) {
		var sel []Edit
		var names []string
		for _, i := range idx {
			sel = append(sel, es[i])
			names = append(names, es[i].Name)
		}
		if variant&1 == 1 { // the other order of applying
			for i, j := 0, len(sel)-1; i < j; i, j = i+1, j-1 {
				sel[i], sel[j] = sel[j], sel[i]
			}
		}
		s := applyEdits(base, sel...)
		o := base
		if variant&2 == 2 {
			s = reversed(s)
		}
		do, dn := mkDoc(o), mkDoc(s)
		w.Case(func() string { return strings.Join(names, " + ") })
		want := map[string]int{}
		parts := single
		if variant&4 == 4 {
			parts = inverse
			do, dn = dn, do
		}
		for _, i := range idx {
			for k, n := range parts[i] {
				want[k] += n
			}
		}
		g := diffOf(do.A, dn.A)
		why := bagDiff(want, bagOf(g))
		if why == "" {
			why = match(m.Diff(do.S, dn.S, nil, nil), g, matchOpt{})
		}
		r.AddTransitions(1)
		r.AddTraces(1)
		w.Outcome(fmt.Sprintf("%d changes", len(g)))
		if why != "" {
			rep := pairReplay(do, dn, why, g)
			rep["edits"] = names
			r.Violate(order, fmt.Sprintf("combo:%s:%d", strings.Join(names, "+"), variant), strings.Join(names, " + ")+"\n"+why, rep)
		}
	}
	var order int64 = 1000
	maxK := e.Pick(r, 3, 4)
	for k := 2; k <= maxK && !r.Stopped(); k++ {
		var list [][]int
		combos(es, k, func(idx []int) { list = append(list, append([]int(nil), idx...)) })
		variants := []int{0, 3, 4, 6}
		if k == 3 {
			variants = e.Pick(r, []int{0}, []int{0, 3, 4})
		}
		if k == 4 {
			variants = []int{0}
		}
		b := order
		r.Par(int64(len(list)*len(variants)), func(w *e.W, i int64) {
			check(w, b+i, list[int(i)/len(variants)], variants[int(i)%len(variants)])
		})
		order += int64(len(list) * len(variants))
		r.AddStates(len(list))
		r.Space(fmt.Sprintf("combinations of %d edits", k), "combinations", len(list), "orders/directions", len(variants))
	}
	// large combinations: greedy maximal conflict-free sets starting at every edit, and those without one or two of their members
	var big [][]int
	for st := range es {
		set := []int{st}
		for d := 1; d < len(es); d++ {
			i := (st + d) % len(es)
			ok := true
			for _, j := range set {
				ok = ok && !conflicts(es[i], es[j])
			}
			if ok {
				set = append(set, i)
			}
		}
		sort.Ints(set)
		big = append(big, set)
		if st%e.Pick(r, 4, 1) == 0 {
			for x := range set {
				one := append(append([]int{}, set[:x]...), set[x+1:]...)
				big = append(big, one)
			}
		}
	}
	b := order
	r.Par(int64(len(big)*4), func(w *e.W, i int64) { check(w, b+i, big[i/4], []int{0, 3, 4, 6}[i%4]) })
	r.AddStates(len(big))
	r.Space("maximal combinations", "combinations", len(big))
	// all pairs of generated single steps on the rich schema: one on each side, and both on one side
	o := e.Pick(r, tinyOpt, smallOpt)
	steps := append(genSteps(base, o), rootSteps([]string{"Query", "Mut", "Post"})...)
	near, _ := neighbourhood(base, steps)
	explorePairs(r, []Universe{{Name: "rich schema: one step on each side", S: append([]*m.Schema{base}, near...)}}, refCheck)
	exploreTwo(r, "rich schema", base, steps, refCheck)
	r.Sample(map[string]any{"edits": []string{es[0].Name, es[7].Name}, "changes": bagOf(diffOf(doc.Fresh(), mkDoc(applyEdits(base, es[0], es[7])).A))})
	compareAssume(r)
}
