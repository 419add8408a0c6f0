package main

import (
	"strconv"

	"github.com/freerware/negotiator/transparent"
)

// negotiable is a variant of transparent negotiation.
type negotiable struct {
	variant
	feature string
	factor  int // tenths: the factor of the feature
}

// weightOf is the weight of the most specific range, in tenths, along with
// whether it is definite.
func weightOf(es []element, has, header bool, specific, wildcard func(e element) bool) (int, bool) {
	switch {
	case !has:
		return 10, true
	case !header:
		return 10, false
	}
	for _, e := range es {
		if specific(e) {
			return e.v / 100, true
		}
	}
	for _, e := range es {
		if wildcard(e) {
			return e.v / 100, false
		}
	}
	return 0, true
}

// overall is the overall quality in hundred thousandths, along with whether it
// is definite.
func (p pref) overall(v negotiable, features bool) (int, bool) {
	t, d1 := weightOf(p.media, v.mt.t != 0, len(p.media) > 0,
		func(e element) bool { return e.t == v.mt.t && e.s == v.mt.s },
		func(e element) bool { return e.t == v.mt.t && e.s == '*' })
	if t == 0 && d1 {
		// neither the type nor a wildcard of its own.
		for _, e := range p.media {
			if e.t == v.mt.t && e.s == v.mt.s {
				return 0, true
			}
		}
		for _, e := range p.media {
			if e.t == '*' {
				t, d1 = e.v/100, false
			}
		}
	}
	wild := func(e element) bool { return e.name == "*" }
	l, d2 := weightOf(p.lang, v.lang != "", len(p.lang) > 0, func(e element) bool { return e.name == v.lang }, wild)
	c, d3 := weightOf(p.charset, v.charset != "", len(p.charset) > 0, func(e element) bool { return e.name == v.charset }, wild)
	f, d4 := 10, true
	if v.feature != "" {
		if features {
			f = v.factor
		} else {
			d4 = false
		}
	}
	return v.sq / 100 * t * l * c * f, d1 && d2 && d3 && d4
}

// selected states that the best variant is served, if it is definite.
func selected(p pref, kv []string, features bool, vs []negotiable) {
	var reps []*rep
	best := -1
	top := 0
	definite, some := false, false
	for i := range vs {
		v := &vs[i]
		k := string(rune('1' + i))
		s := spec{mt: v.mt.text, lang: v.lang, cs: v.charset, q: float32(v.sq) / 1000, body: k, loc: at(k)}
		if v.feature != "" {
			s.feats = []string{v.feature}
		}
		v.r = newRep(s)
		reps = append(reps, v.r)
		q, d := p.overall(*v, features)
		switch {
		case best < 0 || q > top:
			best, top, definite, some = i, q, d, d
		case q == top:
			some = some || d
		}
	}
	l := &recorder{list: newRep(spec{mt: "l/l", q: 1, body: "list"})}
	kv = append(append(p.headers(), "Negotiate", "1.0"), kv...)
	o := negotiate(transparent.New(transparent.ListRepresentation(l.construct)), newRequest(kv...), as(reps...)...)
	o.observe()
	ndAssert(o.err == nil, "no error")
	got := o.served(reps...)
	if got >= 0 {
		ndReach("choice")
		q, d := p.overall(vs[got], features)
		ndAssert(q == top, "the variant selected is of the highest overall quality")
		ndAssert(q > 0 && d, "the variant selected is definite and acceptable")
		ndAssert(!definite || got == best, "ties go to the first variant")
	} else {
		ndReach("list")
		ndAssert(o.w.status() == 300, "there is a list when no variant is selected")
		ndAssert(top == 0 || !definite, "a definite best variant is selected")
	}
}

// C16_Factors: two (thorough: three) variants, the first (thorough: each) with
// any of a type, language, charset and feature, or without one of these, where two of the headers (or one of
// them and the source qualities) have any weights of one decimal for one range
// (thorough: each of two), the others are absent or have fixed ones, and ranges that match exactly, by wildcards or
// not at all.
func C16_Factors() {
	ndMerge(false)
	var p pref
	pair := ndCase("pair", 6)
	present := ndCase("present", 8)
	symbolic := [][2]int{{media, lang}, {media, charset}, {lang, charset}, {media, headers}, {lang, headers}, {charset, headers}}[pair]
	is := func(h int) bool { return symbolic[0] == h || symbolic[1] == h }
	weigh := func(h int, name, fixed string, e element) element {
		if is(h) && (name[2] == '1' || ndBound(0, 1) == 1) {
			return tenth(name, e)
		}
		e.q, e.v = fixed, int(fixed[2]-'0')*100
		return e
	}
	if present&1 != 0 {
		p.with(media, weigh(media, "mq1", "0.9", element{text: "a/c", t: 'a', s: 'c'}), weigh(media, "mq2", "0.5", element{text: "b/*", t: 'b', s: '*'}))
	}
	if present&2 != 0 {
		p.with(lang, weigh(lang, "lq1", "0.4", element{text: "*", name: "*"}), weigh(lang, "lq2", "0.8", element{text: "de", name: "de"}))
	}
	if present&4 != 0 {
		p.with(charset, weigh(charset, "sq1", "0.7", element{text: "x-a", name: "x-a"}), weigh(charset, "sq2", "0.6", element{text: "x-b", name: "x-b"}))
	}
	var kv []string
	features := pair == 1 || pair == 2 || ndPick("features", 2) == 1
	if features {
		kv = []string{"Accept-Features", "tables, color=5"}
	}
	var vs []negotiable
	n := ndBound(2, 3)
	for i := 0; i < n; i++ {
		k := string(rune('1' + i))
		var v negotiable
		v.level, v.sq = absent, 1000-100*i
		shape := 0
		if i == 0 {
			shape = ndPick("shape"+k, 4)
		} else {
			shape = []int{0, 0, 2}[i]
		}
		fixed := i > 0 && ndBound(0, 1) == 0
		if shape != 1 {
			v.mt = mediaType{text: "b/c", t: 'b', s: 'c'}
			if !fixed {
				v.mt = newMediaType("type"+k, false)
			}
		}
		if shape != 2 {
			v.lang = "de"
			if !fixed {
				v.lang = string([]byte{'d', ndByte("tag"+k, "ea")})
			}
		}
		if shape != 3 {
			v.charset = "x-a"
			if !fixed {
				v.charset = string([]byte{'x', '-', ndByte("set"+k, "abc")})
			}
		}
		if symbolic[1] == headers && !fixed {
			q := ndInt("source"+k, 0, 10)
			v.sq = q * 100
		}
		switch (shape + i) % 3 {
		case 0:
			v.feature, v.factor = "tables;+1.2-0.5", 12
		case 1:
			v.feature, v.factor = "color=[6-9];+1-0.7", 7
		}
		vs = append(vs, v)
	}
	selected(p, kv, features, vs)
}

// C16_Specific: a variant whose media type (with or without a parameter),
// language or charset is matched by several ranges of differing specificity in
// any order, with any weights of one decimal, along with a variant of a fixed
// lower overall quality.
func C16_Specific() {
	var p pref
	v := negotiable{variant: variant{level: absent, sq: 1000}}
	w := negotiable{variant: variant{level: absent, sq: 300}}
	h := ndCase("header", 3)
	var es []element
	switch h {
	case media:
		es = []element{{text: "a/c", t: 'a', s: 'c'}, {text: "a/*", t: 'a', s: '*'}, {text: "*/*", t: '*', s: '*'}}
		v.mt = newMediaType("type", false)
	case lang:
		es = []element{{text: "de", name: "de"}, {text: "da", name: "da"}, {text: "*", name: "*"}}
		v.lang = string([]byte{'d', ndByte("tag", "eav")})
	case charset:
		es = []element{{text: "x-a", name: "x-a"}, {text: "x-b", name: "x-b"}, {text: "*", name: "*"}}
		v.charset = "x-" + ndStr("set", 1, "abz")
	}
	for i := range es {
		es[i] = tenth("q"+strconv.Itoa(i), es[i])
	}
	o := append(permutations, []int{0, 1, 2})[ndPick("order", 6)]
	if ndPick("ranges", 2) == 1 {
		p.with(h, es[o[0]], es[o[1]])
	} else {
		p.with(h, es[o[0]], es[o[1]], es[o[2]])
	}
	vs := []negotiable{v, w}
	if ndPick("swapped", 2) == 1 {
		vs = []negotiable{w, v}
	}
	selected(p, nil, false, vs)
}

// C16_Decimals: two variants with weights of three decimals, of which the last
// one is any, and source qualities of two decimals, of which the last one of the
// first variant is any, such that their overall qualities differ by as little
// as a hundred thousandth.
func C16_Decimals() {
	d1, d2, d3 := ndByte("d1", digits), ndByte("d2", digits), ndByte("d3", digits)
	p := pref{media: []element{
		{text: "a/c", q: "0.95" + string([]byte{d1}), t: 'a', s: 'c'},
		{text: "a/d", q: "0.96" + string([]byte{d3}), t: 'a', s: 'd'},
	}}
	vs := []*rep{
		newRep(spec{mt: "a/c", q: float32(90+int(d2-'0')) / 100, body: "1", loc: at("1")}),
		newRep(spec{mt: "a/d", q: 0.94, body: "2", loc: at("2")}),
	}
	x := (950 + int(d1-'0')) * (90 + int(d2-'0'))
	y := (960 + int(d3-'0')) * 94
	o := negotiate(transparent.New(), newRequest(append(p.headers(), "Negotiate", "*")...), as(vs...)...)
	o.observe()
	if x >= y {
		ndReach("first")
		ndAssert(o.served(vs...) == 0, "the variant selected is of the highest overall quality")
	} else {
		ndReach("second")
		ndAssert(o.served(vs...) == 1, "the variant selected is of the highest overall quality")
	}
}

// C16_Wildcards: a variant whose type has one of two parameters, or none, and a
// range that is its type, a wildcard, or a wildcard of its own, with or without a
// parameter, with any weight of one decimal, along with a variant of a fixed
// overall quality, the first or second one.
func C16_Wildcards() {
	v := spec{mt: []string{"a/c", "a/c;level=1", "a/c; level=2", "a/c;p=x;level=1"}[ndCase("type", 4)], q: 1, body: "1", loc: at("1")}
	k := ndPick("range", 4)
	e := tenth("q", element{text: []string{"a/c", "a/*", "*/*", "b/*"}[k]})
	matched := k < 3
	if ndPick("parameter", 2) == 1 {
		e.text += ";level=1"
		matched = matched && (v.mt == "a/c;level=1" || v.mt == "a/c;p=x;level=1")
	}
	accept := e.String() + ", z/z;q=0.3"
	reps := []*rep{newRep(v), newRep(spec{mt: "z/z", q: 1, body: "2", loc: at("2")})}
	got := 0
	if ndPick("swapped", 2) == 1 {
		reps[0], reps[1], got = reps[1], reps[0], 1
	}
	o := negotiate(transparent.New(), newRequest("Accept", accept, "Negotiate", "1.0"), as(reps...)...)
	o.observe()
	ndAssert(o.err == nil, "no error")
	switch served := o.served(reps...); {
	case !matched || e.v < 300:
		ndReach("other")
		ndAssert(served == 1-got, "the variant selected is of the highest overall quality")
	case e.v > 300 && k > 0:
		ndReach("list")
		ndAssert(served < 0 && o.w.status() == 300, "the variant selected is definite")
	case e.v > 300:
		ndReach("choice")
		ndAssert(served == got, "the variant selected is of the highest overall quality")
	}
}
