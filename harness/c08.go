package main

import "github.com/freerware/negotiator/proactive"

// best is the variant that is to be served, -1 for none.
func (p pref) best(vs []variant) int {
	got := -1
	var top rank
	for i, v := range vs {
		r := p.rank(v)
		if r.ok && (got < 0 || r.beats(top)) {
			got, top = i, r
		}
	}
	return got
}

// without are the preferences without those of a header.
func (p pref) without(header int) pref {
	switch header {
	case media:
		p.media = nil
	case lang:
		p.lang = nil
	case charset:
		p.charset = nil
	case coding:
		p.coding = nil
	}
	return p
}

// unmet determines if none of the variants satisfies the header.
func (p pref) unmet(header int, vs []variant) bool {
	var one pref
	switch header {
	case media:
		one.media = p.media
	case lang:
		one.lang = p.lang
	case charset:
		one.charset = p.charset
	}
	for _, v := range vs {
		if one.rank(v).ok {
			return false
		}
	}
	return true
}

// C08_Disabled: two (thorough: three) representations, the first with each of
// the attributes or none of them, that differ in type, language, charset,
// coding and source quality; each subset of Accept, Accept-Language and
// Accept-Charset has a range with any of three values, of which one matches
// none, and any weight of one decimal, and another range of weight 0 or 0.5,
// with or without Accept-Encoding; strict mode is disabled for any subset of
// the headers.
func C08_Disabled() {
	var opts []proactive.Option
	var strict [3]bool
	switch ndCase("strict", 9) {
	case 0:
		strict = [3]bool{true, true, true}
	case 1:
		opts, strict = []proactive.Option{proactive.DisableStrictAccept()}, [3]bool{false, true, true}
	case 2:
		opts, strict = []proactive.Option{proactive.DisableStrictAcceptLanguage()}, [3]bool{true, false, true}
	case 3:
		opts, strict = []proactive.Option{proactive.DisableStrictAcceptCharset()}, [3]bool{true, true, false}
	case 4:
		opts, strict = []proactive.Option{proactive.DisableStrictAccept(), proactive.DisableStrictAcceptLanguage()}, [3]bool{false, false, true}
	case 5:
		opts, strict = []proactive.Option{proactive.DisableStrictAcceptCharset(), proactive.DisableStrictAccept()}, [3]bool{false, true, false}
	case 6:
		opts, strict = []proactive.Option{proactive.DisableStrictAcceptLanguage(), proactive.DisableStrictAcceptCharset()}, [3]bool{true, false, false}
	case 7:
		opts, strict = []proactive.Option{proactive.DisableStrictAccept(), proactive.DisableStrictAcceptLanguage(), proactive.DisableStrictAcceptCharset()}, [3]bool{}
	case 8:
		opts = []proactive.Option{proactive.DisableStrictMode()}
	}
	opts = append(opts, proactive.DisableNotAcceptableRepresentation())
	var p pref
	present := ndCase("headers", 8)
	second := func(e element) element {
		if ndBound(0, 1) == 1 && ndPick("second", 2) == 1 {
			e.q, e.v = "0.5", 500
		} else {
			e.q, e.v = "0", 0
		}
		return e
	}
	if present&1 != 0 {
		t := ndByte("type", "abz")
		p.with(media, tenth("mq", element{text: string([]byte{t, '/', 'c'}), t: t, s: 'c'}), second(element{text: "b/*", t: 'b', s: '*'}))
	}
	if present&2 != 0 {
		s := string([]byte{'d', ndByte("tag", "eav")}) // dv is a language of its own
		p.with(lang, tenth("lq", element{text: s, name: s}), second(element{text: "nl", name: "nl"}))
	}
	if present&4 != 0 {
		s := string([]byte{'x', '-', ndByte("set", "abz")})
		p.with(charset, tenth("sq", element{text: s, name: s}), second(element{text: "x-c", name: "x-c"}))
	}
	if ndPick("encoding", 2) == 1 {
		p.with(coding, tenth("cq", element{text: "gzip", name: "gzip"}), element{text: "*", q: "0.5", name: "*", v: 500})
	}
	vs := []variant{
		{mt: mediaType{text: "a/c", t: 'a', s: 'c'}, lang: "de", charset: "x-a", sq: 800, level: absent, size: 1},
		{mt: mediaType{text: "b/c", t: 'b', s: 'c'}, lang: "da", charset: "x-b", codings: []string{"gzip"}, sq: 1000, level: absent, size: 1},
		{mt: mediaType{text: "b/c", t: 'b', s: 'c'}, lang: "de", charset: "x-b", sq: 900, level: absent, size: 1},
	}[:ndBound(2, 3)]
	if ndPick("bare", 2) == 1 {
		vs[0].mt, vs[0].lang, vs[0].charset = mediaType{}, "", ""
	}
	var reps []*rep
	for i := range vs {
		v := &vs[i]
		v.r = newRep(spec{mt: v.mt.text, lang: v.lang, cs: v.charset, enc: v.codings, q: float32(v.sq) / 1000, body: string(rune('1' + i))})
		reps = append(reps, v.r)
	}
	r := newRequest(p.headers()...)
	o := negotiate(proactive.New(opts...), r, as(reps...)...)
	o.observe()
	refused := false
	rest := p
	for h, s := range strict {
		if p.unmet(h, vs) {
			if s {
				refused = true
			} else {
				ndReach("disregarded")
			}
			rest = rest.without(h)
		}
	}
	ndAssert(o.err == nil, "no error")
	if refused {
		ndReach("refused")
		ndAssert(o.w.status() == 406, "a header that is not met is refused in strict mode")
		return
	}
	if b := rest.best(vs); b >= 0 {
		ndAssert(o.served(reps...) == b, "headers that are not met are disregarded")
	} else {
		ndAssert(o.w.status() == 406, "the other headers have their effect")
	}
}
