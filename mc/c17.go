package main

import (
	"fmt"

	"github.com/CrowdStrike/gql/pkg/compare"

	e "verifmc/engine"
	m "verifmc/model"
)

// worst grade of a comparison: 0 nothing worse than NonBreaking, 1 Dangerous, 2 Breaking
func worst(o, n *Doc) int {
	w := 0
	for k, cs := range compare.GroupChanges(compare.FindChangesInSchemas(o.A, n.A)) {
		if len(cs) > 0 && int(k) > w {
			w = int(k)
		}
	}
	return w
}

func repeatsDirective(s *m.Schema) bool {
	rep := func(ds []m.Applied) bool {
		for i := range ds {
			for j := range ds[:i] {
				if ds[i].Name == ds[j].Name {
					return true
				}
			}
		}
		return false
	}
	byType := map[string][]m.Applied{} // the extensions of a type count as one element
	for _, t := range s.Types {
		k := fmt.Sprint(t.Name, t.Ext)
		byType[k] = append(byType[k], t.Dirs...)
		for _, f := range t.Fields {
			if rep(f.Dirs) {
				return true
			}
		}
	}
	for _, ds := range byType {
		if rep(ds) {
			return true
		}
	}
	return false
}

func chainReplay(why string, ds ...*Doc) (string, map[string]any) {
	rep := map[string]any{"why": why}
	text := why + "\n"
	for i, d := range ds {
		rep[fmt.Sprintf("version%d", i+1)] = d.R.Text()
		text += fmt.Sprintf("--- version %d\n%s", i+1, clipS(d.R.Text(), 700))
	}
	rep["changes 1 to 3"] = gotStrings(diffOf(ds[0].A, ds[2].A))
	rep["changes 1 to 2"] = gotStrings(diffOf(ds[0].A, ds[1].A))
	rep["changes 2 to 3"] = gotStrings(diffOf(ds[1].A, ds[2].A))
	return text, rep
}

// chains: all triples (first, middle, last) of a set of schemas
func chains(r *e.Run, name string, ss []*m.Schema) {
	if r.Stopped() {
		return
	}
	ss = dedupe(ss)
	n := len(ss)
	per := make([][]*Doc, r.Workers)
	r.Par(int64(r.Workers), func(w *e.W, i int64) { per[i] = docs(ss) })
	if r.Stopped() {
		return
	}
	grade := make([]uint8, n*n)
	r.Par(int64(n)*int64(n), func(w *e.W, i int64) {
		ds := per[w.ID]
		o, nw := ds[i/int64(n)], ds[i%int64(n)]
		w.Case(func() string { return name + "\n--- old\n" + o.R.Text() + "\n--- new\n" + nw.R.Text() })
		g := worst(o, nw)
		grade[i] = uint8(g)
		w.Outcome("worst grade of a step: " + critName[g])
		r.AddTransitions(1)
		r.AddTraces(1)
	})
	if r.Stopped() {
		return
	}
	r.AddStates(n)
	repeats := make([]bool, n)
	for i, s := range ss {
		repeats[i] = repeatsDirective(s)
	}
	words := (n + 63) / 64
	for limit := 0; limit < 2; limit++ { // 0: neither Dangerous nor Breaking, 1: not Breaking
		what := [...]string{"no Dangerous or Breaking change", "no Breaking change"}[limit]
		ok := make([][]uint64, n) // ok[a] has bit b: the comparison of a with b is at most of grade limit
		steps := 0
		for a := range ok {
			ok[a] = make([]uint64, words)
			for b := 0; b < n; b++ {
				if int(grade[a*n+b]) <= limit && (limit == 1 || !repeats[a] && !repeats[b]) {
					ok[a][b/64] |= 1 << (b % 64)
					steps++
				}
			}
		}
		paths := make([]int, n)
		r.Par(int64(n), func(w *e.W, ia int64) {
			a := int(ia)
			for b := 0; b < n; b++ {
				if ok[a][b/64]>>(b%64)&1 == 0 {
					continue
				}
				for k := 0; k < words; k++ {
					paths[a] += popcount(ok[b][k])
					bad := ok[b][k] &^ ok[a][k]
					for c := k * 64; bad != 0; c, bad = c+1, bad>>1 {
						if bad&1 == 0 {
							continue
						}
						ds := per[w.ID]
						text, rep := chainReplay(fmt.Sprintf("%s: from version 1 to 2 and from 2 to 3 there is %s, from 1 to 3 there is one", name, what), ds[a], ds[b], ds[c])
						rep["space"] = name
						r.Violate(ia, "chain:"+fmt.Sprintf("%x", h64(ds[a].R.Text()+"\x00"+ds[b].R.Text()+"\x00"+ds[c].R.Text())), text, rep)
						return
					}
				}
			}
		})
		total := 0
		for _, p := range paths {
			total += p
		}
		r.Space(name+": all histories of three versions, "+what, "schemas", n, "comparisons", n*n, "steps", steps, "histories", total)
	}
}

func popcount(x uint64) (n int) {
	for ; x != 0; x &= x - 1 {
		n++
	}
	return
}

// chainSteps: all histories base, one step, another step (and the same backwards, and base as the middle one: chains)
func chainSteps(r *e.Run, name string, base *m.Schema, steps []Step, stepsOf func(*m.Schema) []Step) {
	near, _ := neighbourhood(base, steps)
	bases := make([]*Doc, r.Workers)
	counts := make([]int, len(near))
	held := make([]int, len(near))
	r.Par(int64(len(near)), func(w *e.W, i int64) {
		if bases[w.ID] == nil {
			bases[w.ID] = mkDoc(base)
		}
		da, db := bases[w.ID], mkDoc(near[i])
		ab, ba := worst(da, db), worst(db, da)
		seen := map[uint64]bool{}
		ra, rb := repeatsDirective(base), repeatsDirective(near[i])
		for _, st := range stepsOf(near[i]) {
			if r.Stopped() {
				return
			}
			if ab == 2 && ba == 2 {
				break
			}
			c := near[i].Clone()
			if !st.Do(c) || !wellFormed(c) {
				continue
			}
			k := h64(m.Render(c).Text())
			if seen[k] {
				continue
			}
			seen[k] = true
			dc := validDoc(c)
			if dc == nil {
				continue
			}
			counts[i]++
			rp := ra || rb || repeatsDirective(c)
			for dir := 0; dir < 2; dir++ {
				ds := []*Doc{da, db, dc}
				first := ab
				if dir == 1 {
					ds = []*Doc{dc, db, da}
					first = ba
				}
				if first == 2 {
					continue
				}
				w.Case(func() string {
					return name + ": " + st.Name + "\n" + ds[0].R.Text() + "---\n" + ds[1].R.Text() + "---\n" + ds[2].R.Text()
				})
				var second int
				if dir == 0 {
					second = worst(db, dc)
				} else {
					second = worst(dc, db)
				}
				r.AddTransitions(2)
				r.AddTraces(2)
				lim := max(first, second)
				if lim == 2 {
					continue
				}
				if lim == 0 && rp {
					lim = 1
				}
				held[i]++
				all := worst(ds[0], ds[2])
				w.Outcome("worst grades of two steps and of the whole: " + critName[first] + ", " + critName[second] + ", " + critName[all])
				if all > lim {
					text, rep := chainReplay(fmt.Sprintf("%s: both steps are at most %s, the whole is %s", name, critName[lim], critName[all]), ds...)
					rep["space"], rep["step"] = name, st.Name
					r.Violate(i, "chain:"+fmt.Sprintf("%x", h64(ds[0].R.Text()+"\x00"+ds[1].R.Text()+"\x00"+ds[2].R.Text())), text, rep)
				}
			}
		}
	})
	total, h := 0, 0
	for i := range counts {
		total += counts[i]
		h += held[i]
	}
	if len(near) > 0 {
		last := near[len(near)-1]
		r.Sample(map[string]string{"space": name, "version 1": m.Render(base).Text(), "version 2": m.Render(last).Text()})
	}
	r.AddStates(total)
	r.Space(name+": all histories of two steps", "middle_versions", len(near), "last_versions", total, "histories_without_breaking_step", h)
}

func c17(r *e.Run) {
	for _, u := range allUniverses(r) {
		chains(r, u.Name, u.S)
	}
	ks := kernels()
	for _, p := range sortedKeys(ks) {
		for _, k := range ks[p] {
			o := smallOpt
			steps := append(genSteps(k.s, o), k.extra...)
			near, _ := neighbourhood(k.s, steps)
			chains(r, k.name+": at most one step from the base", append([]*m.Schema{k.s}, near...))
			chainSteps(r, k.name, k.s, append(genSteps(k.s, o), k.extra...), func(s *m.Schema) []Step { return append(genSteps(s, o), k.extra...) })
		}
	}
	rich := richBase()
	near, _ := neighbourhood(rich, genSteps(rich, e.Pick(r, tinyOpt, smallOpt)))
	chains(r, "rich schema: at most one step from the base", append([]*m.Schema{rich}, near...))
	if r.Thorough() {
		chainSteps(r, "rich schema", rich, genSteps(rich, tinyOpt), func(s *m.Schema) []Step { return genSteps(s, tinyOpt) })
	}
	compareAssume(r)
}
