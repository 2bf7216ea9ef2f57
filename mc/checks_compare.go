package main

import (
	e "verifmc/engine"
	m "verifmc/model"
)

func c03(r *e.Run) {
	r.Wide = true
	us := append(uTypes(r), uRoots(r)...)
	explorePairs(r, us, refCheck)
	explorePairList(r, "many types", scalePairs(e.Pick(r, 20, 60), typeScale), refCheck)
	explorePairList(r, "many extensions", scalePairs(e.Pick(r, 20, 60), extScale), refCheck)
	exploreKernels(r, "C03", refCheck)
	exploreNamePairs(r, "C03", refCheck)
	compareAssume(r)
}

func compareAssume(r *e.Run) {
	r.Assume("element names, types, literals and descriptions outside the stated alphabets behave like those inside",
		"documents with two definitions of the same type, field or argument are out of scope",
		"the reference difference (mc/model/diff.go) is written from the properties' text; type compatibility is decided by enumerating value sets")
}

func c04(r *e.Run) {
	r.Wide = true
	us := append(uFields(r, m.Object), uFields(r, m.Interface)...)
	explorePairs(r, us, refCheck)
	for _, k := range []string{m.Object, m.Interface} {
		explorePairList(r, k+": many fields", scalePairs(e.Pick(r, 20, 60), fieldScale(k)), refCheck)
		explorePairList(r, k+": many arguments", scalePairs(e.Pick(r, 16, 40), argScale(k)), refCheck)
	}
	exploreKernels(r, "C04", refCheck)
	exploreNamePairs(r, "C04", refCheck)
	compareAssume(r)
}

func c05(r *e.Run) {
	r.Wide = true
	explorePairs(r, uFields(r, m.Input), refCheck)
	explorePairList(r, "input: many fields", scalePairs(e.Pick(r, 20, 60), fieldScale(m.Input)), refCheck)
	exploreKernels(r, "C05", refCheck)
	exploreNamePairs(r, "C05", refCheck)
	compareAssume(r)
}

func c06(r *e.Run) {
	r.Wide = true
	explorePairs(r, uSets(r), refCheck)
	explorePairList(r, "many enum values", scalePairs(e.Pick(r, 24, 70), enumScale), refCheck)
	explorePairList(r, "many union members", scalePairs(e.Pick(r, 24, 70), unionScale), refCheck)
	explorePairList(r, "many interfaces", scalePairs(e.Pick(r, 24, 70), ifaceScale), refCheck)
	exploreKernels(r, "C06", refCheck)
	exploreNamePairs(r, "C06", refCheck)
	compareAssume(r)
}

func c07(r *e.Run) {
	r.Wide = true
	explorePairs(r, uDirDefs(r), refCheck)
	explorePairList(r, "many directives", scalePairs(e.Pick(r, 20, 60), dirScale), refCheck)
	explorePairList(r, "many directive arguments", scalePairs(e.Pick(r, 16, 40), dirArgScale), refCheck)
	exploreKernels(r, "C07", refCheck)
	exploreNamePairs(r, "C07", refCheck)
	compareAssume(r)
}

func c08(r *e.Run) {
	explorePairs(r, append(uApplied(r), repeatedPairs(r)...), refCheck)
	exploreKernels(r, "C08", refCheck)
	exploreNamePairs(r, "C08", refCheck)
	compareAssume(r)
}

func c09(r *e.Run) {
	r.Wide = true
	explorePairs(r, uRefs(r), refCheck)
	refNames(r)
	r.Assume("list depth up to 4 (thorough: 5) over 2 (thorough: 3) type names", "a type reference is safe iff its value set is included, decided by enumerating structural values (null, named, empty and one-element lists)")
}
