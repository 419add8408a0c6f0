package main

import "github.com/freerware/negotiator/proactive"

// C05_Single: one representation with any value of an attribute, or none, and
// the header that regards it with any two (thorough: three) distinct ranges in
// any order, each without a weight or with any weight of one decimal.
func C05_Single() {
	r, o := single()
	ndAssert(o.err == nil, "no error")
	ndAssert(!r.ok || o.w.status() == 200, "an acceptable representation is served")
	if o.w.status() == 200 {
		ndReach("served")
	}
}

// C05_Mixed: two (thorough: three) representations with any of two languages,
// charsets, source qualities of one decimal, and types and codings that
// differ; up to two headers (thorough: all four) have two ranges, such as a
// wildcard, with any weights of one decimal.
func C05_Mixed() {
	ranks, got, o := mixed()
	ndAssert(o.err == nil, "no error")
	ok := false
	for _, r := range ranks {
		ok = ok || r.ok
	}
	ndAssert(!ok || got >= 0, "one of the acceptable representations is served")
}

// C05_Small: a representation with any source quality and any weight of each of
// the four headers from 0.001 to 0.009, with or without another one that is
// excluded by any of them.
func C05_Small() {
	var kv []string
	small := func(name string) string { return ";q=0.00" + string([]byte{ndByte(name, digits[1:])}) }
	x := ndCase("excluded", 5)
	for h, e := range []string{"a/b", "en", "x-a", "gzip"} {
		v := e + small(headerNames[h])
		if x == h+1 {
			v = []string{"a/c", "fr", "x-b", "deflate"}[h] + ";q=0, " + v
		} else if ndPick(headerNames[h]+".wildcard", 2) == 1 {
			v = []string{"a/*", "*", "*", "*"}[h] + small(headerNames[h])
		}
		kv = append(kv, headerNames[h], v)
	}
	r := newRep(spec{mt: "a/b", lang: "en", cs: "x-a", enc: []string{"gzip"}, q: float32(ndInt("source", 1, 9)) / 1000, body: "1"})
	reps := []*rep{r}
	if x > 0 {
		s := spec{mt: "a/b", lang: "en", cs: "x-a", enc: []string{"gzip"}, q: 1, body: "2"}
		switch x - 1 {
		case media:
			s.mt = "a/c"
		case lang:
			s.lang = "fr"
		case charset:
			s.cs = "x-b"
		case coding:
			s.enc = []string{"deflate"}
		}
		reps = []*rep{newRep(s), r}
	}
	o := negotiate(proactive.New(), newRequest(kv...), as(reps...)...)
	o.observe()
	ndReach("served")
	ndAssert(o.err == nil && o.w.status() == 200 && string(o.w.body) == "1", "an acceptable representation is served")
}
