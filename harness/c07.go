package main

import (
	"strconv"

	"github.com/freerware/negotiator"
	"github.com/freerware/negotiator/proactive"
	"github.com/freerware/negotiator/reactive"
	"github.com/freerware/negotiator/transparent"
)

// tied is an attribute set on which representations are tied, and the header
// that regards it.
func tied(kind int, q string) (spec, []string) {
	switch kind {
	case 1:
		return spec{mt: "text/html;level=2"}, []string{"Accept", "text/html;q=" + q}
	case 2:
		return spec{lang: "en"}, []string{"Accept-Language", "fr, en;q=" + q}
	case 3:
		return spec{cs: "utf-8"}, []string{"Accept-Charset", "utf-8;q=" + q}
	case 4:
		return spec{enc: []string{"gzip"}}, []string{"Accept-Encoding", "gzip;q=" + q}
	case 5:
		return spec{cs: "ISO-8859-1"}, []string{"Accept-Charset", "*;q=" + q}
	}
	return spec{mt: "text/plain"}, []string{"Accept", "text/*;q=" + q + ", text/plain;q=" + q}
}

// C07_Ties: 2 to 16 (thorough: to 28) representations, of which any number of
// the first ones has half of the source quality of the others, which are
// equally good; with each of six sets of attributes and any weight above 0 of
// one decimal.
func C07_Ties() {
	d := ndByte("q", "123456789")
	kind := ndCase("attribute", 6)
	s, h := tied(kind, "0."+string([]byte{d}))
	n := []int{2, 3, 4, 8, 12, 13, 14, 16, 20, 28}[ndPick("count", ndBound(8, 10))]
	worse := ndPick("worse"+strconv.Itoa(n), n)
	if worse > 3 && worse < n-3 && worse != n/2 {
		ndAssume(false)
	}
	var reps []*rep
	for i := 0; i < n; i++ {
		s.q = 1
		if i < worse {
			s.q = 0.5
		}
		s.body = string([]byte{byte('a' + i)})
		s.loc = at(s.body)
		reps = append(reps, newRep(s))
	}
	var o outcome
	if kind < 4 && kind != 0 && ndPick("transparent", 2) == 1 {
		o = negotiate(transparent.New(transparent.MaximumVariantListSize(30)), newRequest(append(h, "Negotiate", "*")...), as(reps...)...)
	} else {
		o = negotiate(proactive.New(), newRequest(h...), as(reps...)...)
	}
	o.observe()
	if kind == 3 || kind == 4 || kind == 5 {
		// the weight of 0 doesn't exclude here.
		ndReach("tied")
	}
	ndAssert(o.served(reps...) == worse, "the first of the best is served")
}

// preferences are any of several sets of headers with any weights of one
// decimal.
func preferences(name string) []string {
	q := func(i string) string { return ";q=0." + string([]byte{ndByte(name+".q"+i, digits)}) }
	switch ndPick(name+".preferences", 6) {
	case 1:
		return []string{"Accept", "a/b" + q("1") + ", a/*" + q("2"), "Accept-Language", "en" + q("3") + ", *;q=0.1"}
	case 2:
		return []string{"Accept-Language", "fr" + q("1") + ", en" + q("2"), "Accept-Encoding", "gzip" + q("3") + ", identity;q=0"}
	case 3:
		return []string{"Accept-Charset", "x-a" + q("1") + ", *" + q("2"), "Accept-Encoding", "*" + q("3")}
	case 4:
		return []string{"Accept-Features", "tables, !frames, color=" + string([]byte{ndByte(name+".color", digits)}), "Accept", "a/b, a/c" + q("1"), "Accept-Language", "en, fr", "Accept-Charset", "x-a, x-b"}
	case 5:
		return []string{"Accept", "a", "Accept-Charset", ";;"}
	}
	return nil
}

// C07_Repeatable: three (thorough: three with any of the preferences in
// between) negotiations with one negotiator of each kind over the same three
// representations: those in the beginning and in the end have the same request
// with any of six sets of headers and any weights of one decimal, the one in
// between has other ones.
func C07_Repeatable() {
	var n, fresh negotiator.Negotiator
	switch ndCase("negotiator", 3) {
	case 0:
		n, fresh = proactive.New(proactive.DisableStrictAccept()), proactive.New(proactive.DisableStrictAccept())
	case 1:
		n, fresh = transparent.New(), transparent.New()
	case 2:
		n, fresh = reactive.New(), reactive.New()
	}
	reps := func() []*rep {
		return []*rep{
			newRep(spec{mt: "a/b", lang: "en", cs: "x-a", feats: []string{"tables;+1.2-0.5", "!frames"}, q: 1, body: "1", loc: at("1")}),
			newRep(spec{mt: "a/c", lang: "fr", cs: "x-b", enc: []string{"gzip"}, q: 0.9, body: "2", loc: at("2")}),
			newRep(spec{mt: "a/b", lang: "fr", cs: "x-b", feats: []string{"[color=[3-7] blaex]"}, q: 0.8, body: "3", loc: at("3")}),
		}
	}
	first := preferences("first")
	first = append(first, "Negotiate", "*")
	second := []string{"Accept", "a/c, */*;q=0.1", "Accept-Language", "fr;q=0.3, en;q=0.5", "Accept-Charset", "x-b", "Accept-Encoding", "gzip;q=0.5", "Accept-Features", "!tables, frames, color=5"}
	if ndBound(0, 1) == 1 {
		second = preferences("second")
	}
	second = append(second, "Negotiate", "guess-small, 1.0")
	rs := reps()
	r := newRequest(first...)
	a := negotiate(n, r, as(rs...)...)
	negotiate(n, newRequest(second...), as(rs...)...)
	b := negotiate(n, r, as(rs...)...)
	c := negotiate(fresh, newRequest(first...), as(reps()...)...)
	a.observe()
	ndAssert(same(a, b), "the same request gets the same response")
	ndAssert(same(a, c), "what was negotiated before has no effect")
}

// C07_History: two (thorough: three) representations that are tied for a
// request but not for an earlier one, which any of them is served for, with
// any weights of one decimal, by the same negotiator.
func C07_History() {
	n := ndBound(2, 3)
	kind := ndCase("attribute", 5)
	attribute := [][]string{{"a/b", "a/c", "a/d"}, {"de", "en", "fr"}, {"x-a", "x-b", "x-c"}, {"gzip", "deflate", "compress"}, {"a/b", "a/b", "a/b"}}[kind]
	var reps []*rep
	var earlier []string
	for i := 0; i < n; i++ {
		s := spec{q: 1, body: string([]byte{byte('1' + i)}), loc: at(string([]byte{byte('1' + i)}))}
		q := ";q=0." + string([]byte{ndByte("q"+s.body, digits)})
		switch kind {
		case media:
			s.mt = attribute[i]
		case lang:
			s.lang = attribute[i]
		case charset:
			s.cs = attribute[i]
		case coding:
			s.enc = attribute[i : i+1]
		default:
			// the other ones are given with a lower source quality.
			s.mt = attribute[i]
		}
		if kind < headers {
			earlier = append(earlier, headerNames[kind], attribute[i]+q)
		}
		reps = append(reps, newRep(s))
	}
	given := reps
	if kind == headers {
		given = nil
		best := ndPick("best", n)
		for i, r := range reps {
			c := newRep(spec{mt: r.ContentType(), q: 0.5, body: string(r.body), loc: r.ContentLocation()})
			if i == best {
				c.SetSourceQuality(0.75)
			}
			given = append(given, c)
		}
	}
	names := []string{"Accept", "*/*", "Accept-Language", "*", "Accept-Charset", "*"}
	var neg negotiator.Negotiator = proactive.New()
	if kind != coding && kind != lang && ndPick("transparent", 2) == 1 {
		neg = transparent.New()
		// with what is explicit the tied ones are chosen from.
		names = nil
		if kind == headers {
			names = []string{"Accept", "a/b"}
		} else {
			for _, a := range attribute[:n] {
				names = append(names, headerNames[kind], a)
			}
		}
		names = append(names, "Negotiate", "*")
		earlier = append(earlier, "Negotiate", "*")
	} else if kind == coding {
		names = append(names, "Accept-Encoding", "*")
	}
	o := negotiate(neg, newRequest(earlier...), as(given...)...)
	o.observe()
	if o.served(given...) == n-1 {
		ndReach("the last one was served before")
	}
	o = negotiate(neg, newRequest(names...), as(reps...)...)
	ndAssert(o.served(reps...) == 0, "the first of the best is served")
}

// C07_MapTies: two and three representations that are equally good with each
// of six sets of attributes, where the first four iterations over maps are in
// any orders.
func C07_MapTies() {
	s, h := tied(ndCase("attribute", 6), "0.5")
	var reps []*rep
	n := 2 + ndPick("more", 2)
	for i := 0; i < n; i++ {
		s.q, s.body = 1, string([]byte{byte('a' + i)})
		reps = append(reps, newRep(s))
	}
	ndMapOrders(true)
	o := negotiate(proactive.New(), newRequest(h...), as(reps...)...)
	ndMapOrders(false)
	o.observe()
	ndAssert(o.served(reps...) == 0, "the first of the best is served")
}

// C07_Maps: one and two negotiations of each kind over three representations
// whose media types and ranges have parameters, and that have features, where
// the first four iterations over maps are in any orders, and the other ones in
// any order that is the same for maps of the same size.
func C07_Maps() {
	var n negotiator.Negotiator
	switch ndCase("negotiator", 2) {
	case 0:
		n = proactive.New()
	case 1:
		n = transparent.New()
	}
	reps := []*rep{
		newRep(spec{mt: "a/b;p=1;r=2", feats: []string{"tables;+1.2-0.5", "color=[2-5]"}, q: 1, body: "1", loc: at("1")}),
		newRep(spec{mt: "a/b;r=2", feats: []string{"[color=9 !tables]"}, q: 0.9, body: "2", loc: at("2")}),
	}
	d := "0." + string([]byte{ndByte("q", digits)})
	r := newRequest("Accept", "a/b;p=1;q="+d+", a/b;r=2;q=0.5", "Accept-Features", "tables, color="+string([]byte{ndByte("color", "38")})+", color=7", "Negotiate", "*")
	a := negotiate(n, r, as(reps...)...)
	ndMapOrders(true)
	b := negotiate(n, r, as(reps...)...)
	ndMapOrders(false)
	a.observe()
	ndAssert(same(a, b), "the order of maps has no effect")
}
