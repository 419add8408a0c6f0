package main

import (
	"net/url"
	"strconv"
	"strings"

	"github.com/freerware/negotiator"
	"github.com/freerware/negotiator/proactive"
	"github.com/freerware/negotiator/reactive"
	"github.com/freerware/negotiator/representation"
	"github.com/freerware/negotiator/transparent"
)

// described is a representation with any metadata: each attribute is empty or
// of any bytes (of any letters of valid ones, as it may be), with up to three
// codings, and a body of 0 to 100 (thorough: to 1000)
// bytes.
func described(name string, valid bool) *rep {
	s := spec{q: 1}
	if ndPick(name+".type", 2) == 1 {
		s.mt = ndStr(name+".type", 2, "")
		if valid {
			s.mt = "a/" + ndStr(name+".subtype", 2, "bcXY") + "; p=1"
		}
	}
	if ndPick(name+".language", 2) == 1 {
		s.lang = ndStr(name+".language", 2, "")
		if valid {
			s.lang = "d" + ndStr(name+".tag", 1, "ae")
		}
	}
	if ndPick(name+".charset", 2) == 1 {
		s.cs = ndStr(name+".charset", 2, "")
	}
	for i := ndPick(name+".codings", 4); i > 0; i-- {
		s.enc = append(s.enc, ndStr(name+".coding"+strconv.Itoa(i), 1, ""))
	}
	switch ndPick(name+".location", 3) {
	case 1:
		s.loc = at(ndStr(name+".path", 2, "ab-"))
	case 2:
		s.loc = at("x")
		s.loc.RawQuery = ndStr(name+".query", 1, "ab=") + "=1"
		s.loc.Fragment = "f"
	}
	k := []int{0, 1, 3, 100, 10, 99, 1000}[ndPick(name+".size", ndBound(4, 7))]
	s.body = ndStr(name+".body"+strconv.Itoa(k), k, "")
	return newRep(s)
}

// urlText is the text of the location.
func urlText(u url.URL) string {
	s := ""
	if u.Host != "" {
		s = u.Scheme + "://" + u.Host + u.Path
	}
	if u.RawQuery != "" {
		s += "?" + u.RawQuery
	}
	if u.Fragment != "" {
		s += "#" + u.Fragment
	}
	return s
}

// describes states that the response describes the representation that it
// carries.
func (o outcome) describes(status int, r representation.Representation, location bool) {
	b, _ := r.Bytes()
	w := o.w
	ndAssert(o.err == nil, "no error")
	ndAssert(w.status() == status, "the status is written once and is that of the outcome")
	ndAssert(!w.early && w.writes == 1, "the body is written once and after the status")
	ndAssert(string(w.body) == string(b), "the body is the serialized representation")
	ndAssert(w.get("Content-Length") == strconv.Itoa(len(b)), "Content-Length is the number of bytes written")
	ndAssert(w.get("Content-Type") == r.ContentType(), "Content-Type is that of the representation")
	ndAssert(w.get("Content-Encoding") == strings.Join(r.ContentEncoding(), ","), "Content-Encoding is that of the representation")
	ndAssert(w.get("Content-Language") == r.ContentLanguage(), "Content-Language is that of the representation")
	ndAssert(w.get("Content-Charset") == r.ContentCharset(), "Content-Charset is that of the representation")
	if location {
		ndAssert(w.get("Content-Location") == urlText(r.ContentLocation()), "Content-Location is that of the representation")
	} else {
		ndAssert(len(w.h["Content-Location"]) == 0, "a list has no location of its own")
	}
	ndAssert(len(w.sent) == len(w.h), "the headers are written before the status")
}

// only is a list constructor for the representation.
func only(r representation.Representation) representation.ListConstructor {
	return func(...representation.Representation) representation.Representation { return r }
}

// C02_Described: the representation that is served, or the list, has any
// metadata (each attribute is absent or of any bytes, for the proactive choice
// a valid type and language, with up to three codings) and a body of 0, 1, 3 or 100 bytes (thorough: also 10, 99 and 1000), for each outcome
// of each negotiator, with or without the context being a creation, among
// other representations before or after it.
func C02_Described() {
	kind := ndCase("outcome", 5)
	var o outcome
	r := described("rep", kind == 0)
	other := newRep(spec{mt: "x/y", lang: "en", cs: "utf-8", enc: []string{"gzip"}, q: 0.5, body: "other", loc: at("other")})
	reps := as(r)
	switch ndPick("others", 3) {
	case 1:
		reps = as(other, r)
	case 2:
		reps = as(r, other)
	}
	creation := ndBool("creation")
	c := &chooser{choice: r}
	run := func(n negotiator.Negotiator, rs []representation.Representation, kv ...string) {
		w := newWriter()
		err := n.Negotiate(negotiator.NegotiationContext{Request: newRequest(kv...), ResponseWriter: w, IsCreation: creation}, rs...)
		o = outcome{w, err}
	}
	switch kind {
	case 0:
		run(proactive.New(proactive.Algorithm(c)), reps)
		if creation {
			o.describes(201, r, true)
		} else {
			o.describes(200, r, true)
		}
	case 1:
		run(proactive.New(proactive.Algorithm(&chooser{}), proactive.DefaultRepresentation(only(r))), as(other))
		o.describes(406, r, false)
	case 2:
		run(reactive.New(reactive.Representation(only(r))), as(other, other))
		o.describes(300, r, false)
	case 3:
		run(transparent.New(transparent.ListRepresentation(only(r))), as(other, other))
		o.describes(300, r, false)
	case 4:
		u := at(ndStr("rep.path", 2, "ab-"))
		if l := r.ContentLocation(); l.RawQuery != "" {
			u.RawQuery, u.Fragment = l.RawQuery, l.Fragment
		}
		r.SetContentLocation(u)
		run(transparent.New(transparent.RVSA(c)), reps, "Negotiate", "*")
		o.describes(200, r, true)
	}
	o.observe()
}

// listOf is the list that is served by default.
func listOf(mt string, reps ...representation.Representation) representation.Representation {
	l := &representation.List{}
	l.SetContentType(mt)
	l.SetContentCharset("ascii")
	l.SetContentEncoding([]string{"identity"})
	l.SetContentLanguage("en-US")
	l.SetRepresentations(reps...)
	return l
}

// C02_Lists: the lists that are served by default by each negotiator, in each
// of the formats with the proactive one, of two representations with up to
// three letters of metadata each.
func C02_Lists() {
	reps := as(
		newRep(spec{mt: "a/" + ndStr("subtype", 1, "bcd"), lang: "de", cs: "x-" + ndStr("set", 1, "abc"), enc: []string{"gzip", "deflate"}, q: 0.5, body: ndStr("body", 2, "ab"), loc: at(ndStr("path", 2, "ab"))}),
		newRep(spec{q: 1, body: "other"}),
	)
	var o outcome
	switch ndCase("negotiator", 3) {
	case 0:
		accept := []string{"z/z", "application/json", "application/xml", "application/yaml"}[ndPick("format", 4)]
		mt := accept
		if mt == "z/z" {
			mt = "application/json"
		}
		o = negotiate(proactive.New(), newRequest("Accept", accept), reps[0])
		o.describes(406, listOf(mt, reps[0]), false)
	case 1:
		o = negotiate(reactive.New(), newRequest(), reps...)
		o.describes(300, listOf("application/json", reps...), false)
	case 2:
		o = negotiate(transparent.New(), newRequest(), reps...)
		o.describes(300, listOf("application/json", reps...), false)
	}
	o.observe()
}

// C02_Large: bodies of several sizes up to 70000 bytes (thorough: a million), of
// which the last one is any, of each outcome of each negotiator.
func C02_Large() {
	b := make([]byte, []int{9, 10, 512, 1023, 4097, 32768, 70000, 1000000}[ndCase("size", ndBound(7, 8))])
	for i := range b {
		b[i] = 'x'
	}
	b[len(b)-1] = ndByte("last", "")
	r := newRep(spec{mt: "a/b", lang: "en", cs: "x-a", q: 1, loc: at("r")})
	r.body = b
	other := typed("x/y", "other")
	switch ndPick("outcome", 5) {
	case 0:
		negotiate(proactive.New(), newRequest(), r).describes(200, r, true)
	case 1:
		negotiate(proactive.New(proactive.Algorithm(&chooser{}), proactive.DefaultRepresentation(only(r))), newRequest(), other).describes(406, r, false)
	case 2:
		negotiate(reactive.New(reactive.Representation(only(r))), newRequest(), other).describes(300, r, false)
	case 3:
		negotiate(transparent.New(transparent.ListRepresentation(only(r))), newRequest(), other).describes(300, r, false)
	case 4:
		negotiate(transparent.New(transparent.RVSA(&chooser{choice: r})), newRequest("Negotiate", "*"), r, other).describes(200, r, true)
	}
	ndReach("responded")
}
