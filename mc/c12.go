package main

import (
	"fmt"

	e "verifmc/engine"
	m "verifmc/model"
)

// layouts of the two sides: number of files and lines shifted, so that lines and files of both sides differ.
type layout struct {
	name           string
	oFiles, nFiles int
	oShift, nShift int
	tall           bool // every token on a line of its own
}

func namesFor(side string, n int) []string {
	var out []string
	for i := 0; i < n; i++ {
		out = append(out, fmt.Sprintf("%s/%c.graphql", side, 'c'-rune(i)))
	}
	return out
}

func layDoc(s *m.Schema, side string, files, shift int, tall bool) *Doc {
	sp := s.Spread(files, 0)
	d := &Doc{S: sp, R: m.Render(sp, namesFor(side, files)...)}
	if tall {
		d.R = m.RenderTall(sp, namesFor(side, files)...)
	}
	d.R.Shift(shift)
	a, err := parse(d.R)
	if err != nil {
		panic(fmt.Sprint("the parser wrapper failed on a valid schema: ", err, "\n", d.R.Text()))
	}
	d.A = a
	return d
}

func c12(r *e.Run) {
	layouts := []layout{
		{"one file each, new shifted", 1, 1, 0, 37, false},
		{"two and three files, every token on a line of its own", 2, 3, 5, 0, true},
	}
	check := func(w *e.W, o, n *Doc) (string, []Got) {
		got := diffOf(o.A, n.A)
		exp := m.Diff(o.S, n.S, o.R, n.R)
		for i := range exp {
			if len(exp[i].Pos) == 0 {
				return "harness: no position for " + expStr(exp[i]), got
			}
		}
		return match(exp, got, matchOpt{msg: true, pos: true}), got
	}
	us := allUniverses(r)
	var base int64
	for _, lay := range layouts {
		for _, u := range us {
			if r.Stopped() {
				return
			}
			u.S = dedupe(u.S)
			n := int64(len(u.S))
			r.AddStates(len(u.S))
			per := make([][2][]*Doc, r.Workers)
			r.Par(int64(r.Workers), func(w *e.W, i int64) {
				for _, s := range u.S {
					per[i][0] = append(per[i][0], layDoc(s, "old", lay.oFiles, lay.oShift, lay.tall))
					per[i][1] = append(per[i][1], layDoc(s, "new", lay.nFiles, lay.nShift, lay.tall))
				}
			})
			if r.Stopped() {
				return
			}
			b := base
			cnt := n * n
			r.Par(cnt, func(w *e.W, k int64) {
				i, j := k/n, k%n
				o, nw := per[w.ID][0][i], per[w.ID][1][j]
				w.Case(func() string { return "old:\n" + o.R.Text() + "\nnew:\n" + nw.R.Text() })
				why, got := check(w, o, nw)
				r.AddTransitions(1)
				r.AddTraces(1)
				w.Outcome(outcomeOf(got))
				if why != "" {
					rep := pairReplay(o, nw, why, got)
					rep["space"] = u.Name + ", " + lay.name
					r.Violate(b+k, "pair:"+fmt.Sprintf("%x", h64(o.R.Text()+"\x00"+nw.R.Text())), fmt.Sprintf("%s\n--- old\n%s--- new\n%s", why, clipS(o.R.Text(), 800), clipS(nw.R.Text(), 800)), rep)
				}
			})
			base += cnt
			r.Space(u.Name+", "+lay.name, "schemas", n, "ordered_pairs", cnt)
			if lay.oFiles == 1 && len(u.S) > 3 {
				r.Sample(map[string]any{"space": u.Name, "old": per[0][0][1].R.Text(), "new": per[0][1][3].R.Text(), "changes": gotStrings(diffOf(per[0][0][1].A, per[0][1][3].A))})
			}
		}
	}
	sc := allScales(r)
	for _, k := range sortedKeys(sc) {
		ps := sc[k]
		r.Par(int64(len(ps)), func(w *e.W, i int64) {
			o, n := layDoc(ps[i][0], "old", 1, 0, true), layDoc(ps[i][1], "new", 2, 91, false)
			w.Case(func() string { return k + "\n" + o.R.Text() + n.R.Text() })
			why, got := check(w, o, n)
			r.AddTransitions(1)
			r.AddTraces(1)
			if why != "" {
				r.Violate(base+i, "scale:"+k+fmt.Sprint(i), why, pairReplay(o, n, why, got))
			}
		})
		r.Space(k, "pairs", len(ps))
	}
	allKernels(r, e.Pick(r, tinyOpt, smallOpt), func(w *e.W, o, n *Doc) (string, []Got) {
		return check(w, layDoc(o.S, "old", 2, 3, false), layDoc(n.S, "new", 3, 37, true))
	})
	compareAssume(r)
	r.Assume("messages are checked for the names, old/new values and the words the property demands, not for their exact wording")
}
