package model

import "strings"

// Ref is a parsed type reference.
type Ref struct {
	Name    string
	Elem    *Ref
	NonNull bool
}

// ParseRef parses a type reference such as [A!]!.
func ParseRef(s string) *Ref {
	s = strings.TrimSpace(s)
	r := &Ref{}
	if strings.HasSuffix(s, "!") {
		r.NonNull = true
		s = s[:len(s)-1]
	}
	if strings.HasPrefix(s, "[") {
		r.Elem = ParseRef(s[1 : len(s)-1])
	} else {
		r.Name = s
	}
	return r
}

// val is a structural GraphQL value: null, a non-null value of a named type, or a list with at most one element
// (two lists types are included in each other iff their elements are, so longer lists add nothing).
type val struct {
	null  bool
	named string
	elem  *val // nil for the empty list
	list  bool
}

func values(names []string, depth int) []*val {
	vs := []*val{{null: true}}
	for _, n := range names {
		vs = append(vs, &val{named: n})
	}
	if depth > 0 {
		vs = append(vs, &val{list: true})
		for _, v := range values(names, depth-1) {
			vs = append(vs, &val{list: true, elem: v})
		}
	}
	return vs
}

func (r *Ref) accepts(v *val) bool {
	if v.null {
		return !r.NonNull
	}
	if r.Elem == nil {
		return !v.list && v.named == r.Name
	}
	return v.list && (v.elem == nil || r.Elem.accepts(v.elem))
}

func (r *Ref) depth() int {
	if r.Elem == nil {
		return 0
	}
	return 1 + r.Elem.depth()
}

func (r *Ref) named() string {
	for r.Elem != nil {
		r = r.Elem
	}
	return r.Name
}

// Included reports whether every structural value of a is a value of b, by enumeration of all the values.
func Included(a, b string) bool {
	ra, rb := ParseRef(a), ParseRef(b)
	d := ra.depth()
	if rb.depth() > d {
		d = rb.depth()
	}
	names := []string{ra.named()}
	if rb.named() != ra.named() {
		names = append(names, rb.named())
	}
	for _, v := range values(names, d+1) {
		if ra.accepts(v) && !rb.accepts(v) {
			return false
		}
	}
	return true
}

// NonNull reports whether the reference is non-null at its outermost level.
func NonNull(t string) bool { return strings.HasSuffix(t, "!") }

// Refs enumerates every type reference over the names up to the given list depth.
func Refs(names []string, depth int) []string {
	level := append([]string(nil), names...)
	var nn []string
	for _, n := range level {
		nn = append(nn, n+"!")
	}
	level = append(level, nn...)
	out := append([]string(nil), level...)
	for d := 0; d < depth; d++ {
		var next []string
		for _, t := range level {
			next = append(next, "["+t+"]", "["+t+"]!")
		}
		out = append(out, next...)
		level = next
	}
	return out
}
