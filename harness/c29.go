package main

import (
	"github.com/freerware/negotiator"
	"github.com/freerware/negotiator/proactive"
	"github.com/freerware/negotiator/representation"
	"github.com/freerware/negotiator/transparent"
)

var permutations = [][]int{{0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}

// overlapping are three elements of the header that apply to the same things,
// with any weights of one decimal (of the same one for all languages, they are
// different).
func overlapping(h int) []string {
	q := func(n string) string { return ";q=0." + string([]byte{ndByte(n, digits)}) }
	switch h {
	case media:
		switch ndCase("media", 3) {
		case 0:
			return []string{"a/b" + q("q1"), "a/*" + q("q2"), "*/*" + q("q3")}
		case 1:
			return []string{"a/b" + q("q1"), "a/b;p=1" + q("q2"), "a/*" + q("q3")}
		}
		return []string{"a/c" + q("q1"), "a/c;p=1;r=2" + q("q2"), "a/c;p=1" + q("q3")}
	case lang:
		a, b, c := ndByte("q1", digits), ndByte("q2", digits), ndByte("q3", digits)
		ndAssume(a != b && b != c && c != a)
		return []string{"en;q=0." + string([]byte{a}), "*;q=0." + string([]byte{b}), "fr;q=0." + string([]byte{c})}
	case charset:
		return []string{"x-a" + q("q1"), "*" + q("q2"), "utf-8" + q("q3")}
	case coding:
		return []string{"gzip" + q("q1"), "*" + q("q2"), "identity" + q("q3")}
	}
	d := string([]byte{ndByte("color", digits)})
	return []string{"color=" + d, "!frames", "color=5"}
}

// C29_Elements: three elements of any header with any weights of one decimal
// that apply to the same things, such as wildcards, in any order.
func C29_Elements() {
	h := ndCase("header", directives)
	n := regarding(h)
	es := overlapping(h)
	reps := listed()
	reps[1].SetContentType("a/c;p=1;r=2")
	reps[2].SetContentType("a/d")
	p := permutations[ndPick("permutation", len(permutations))]
	name := "Accept-Features"
	if h < headers {
		name = headerNames[h]
	}
	a := negotiate(n, newRequest(append(rest(h), name, es[0]+","+es[1]+","+es[2])...), as(reps...)...)
	b := negotiate(n, newRequest(append(rest(h), name, es[p[0]]+","+es[p[1]]+","+es[p[2]])...), as(reps...)...)
	a.observe()
	ndAssert(same(a, b), "the order of preferences has no effect")
}

// C29_Representations: three representations in any order, of which one isn't
// as good as the others in source quality of any decimal, with any weights of
// one decimal for one of the headers, for the proactive and the transparent
// negotiator: the one served is the same, unless it is as good as the other
// one.
func C29_Representations() {
	h := ndCase("header", directives)
	plain := func(...representation.Representation) representation.Representation {
		return newRep(spec{mt: "text/plain", q: 1, body: "list"})
	}
	var n negotiator.Negotiator = transparent.New(transparent.ListRepresentation(plain))
	if h < headers && ndCase("transparent", 2) == 0 {
		n = proactive.New(proactive.DisableNotAcceptableRepresentation())
	}
	es := overlapping(h)
	reps := listed()
	reps[1].SetContentType("a/c;p=1;r=2")
	reps[2].SetContentType("a/d")
	for i, k := range []string{"s1", "s2", "s3"}[:ndBound(1, 2)] {
		reps[i].SetSourceQuality(float32(ndInt(k, 1, 10)) / 10)
	}
	p := permutations[ndPick("permutation", len(permutations))]
	name := "Accept-Features"
	if h < headers {
		name = headerNames[h]
	}
	r := newRequest(append(rest(h), name, es[0]+","+es[1]+","+es[2])...)
	a := negotiate(n, r, as(reps...)...)
	b := negotiate(n, r, as(reps[p[0]], reps[p[1]], reps[p[2]])...)
	i, j := a.served(reps...), b.served(reps...)
	ndObserveInt("status", a.w.status())
	ndObserveInt("served", i)
	if i == j || i < 0 || j < 0 {
		ndAssert(i == j, "the order of representations has no effect on whether one is served")
		return
	}
	// both are the best when either is served when it is the first one.
	c := negotiate(n, r, as(reps[i], reps[j])...)
	d := negotiate(n, r, as(reps[j], reps[i])...)
	ndReach("tied")
	ndAssert(c.served(reps...) == i && d.served(reps...) == j, "the order of representations has no effect unless they are equally good")
}
