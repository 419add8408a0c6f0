package main

import (
	"github.com/freerware/negotiator"
	"github.com/freerware/negotiator/proactive"
	"github.com/freerware/negotiator/reactive"
	"github.com/freerware/negotiator/transparent"
)

// hostile are the beginnings and ends of header values around any bytes.
var hostile = [][][2]string{
	media:      {{"", ""}, {"a/b;", ""}, {"a/b;q=", ", c/d"}, {"*/*;p=\"", "\""}, {"text/html;level=", ";q=0.5"}, {"a", "/b"}},
	lang:       {{"", ""}, {"en-", ";q=0.5"}, {"en;q=", ""}, {"*;", ", fr"}, {"de-", "-1996"}},
	charset:    {{"", ""}, {"utf-8;", ""}, {"utf-8;q=", ", *"}, {"*", ";q=0.3"}},
	coding:     {{"", ""}, {"gzip;", ""}, {"gzip;q=", ", *"}, {"*", ";q=0.3"}},
	features:   {{"", ""}, {"color=", ""}, {"color={", "}"}, {"tables, !", ""}, {"\"", "\""}, {"color!=", ", color"}},
	directives: {{"", ""}, {"1.", ""}, {"*,", ""}, {"guess", "small"}},
}

// C01_Bytes: for each of the six headers, a value of any two bytes (thorough:
// three) on their own and within each of several contexts, such as weights,
// parameters, quoted strings and subtags, with the proactive (in strict mode
// and not), reactive and transparent negotiators.
func C01_Bytes() {
	ndMerge(false)
	h := ndCase("header", allHeaders)
	c := ndCase("context", 6)
	if c >= len(hostile[h]) {
		return
	}
	names := append(append([]string{}, headerNames...), "Accept-Features", "Negotiate")
	text := hostile[h][c][0] + ndStr("bytes", ndBound(2, 3), "") + hostile[h][c][1]
	kv := []string{names[h], text}
	if h != directives {
		kv = append(kv, "Negotiate", "*")
	}
	var n negotiator.Negotiator
	switch ndCase("negotiator", 3) {
	case 0:
		n = proactive.New()
		if h >= headers {
			return
		}
	case 1:
		n = transparent.New()
		if h == coding {
			return
		}
	case 2:
		n = reactive.New()
	}
	reps := []*rep{
		newRep(spec{mt: "text/html;level=1", lang: "en", cs: "utf-8", enc: []string{"gzip"}, feats: []string{"tables;+1.2-0.5", "[!frames color=[1-9]]"}, q: 1, body: "1", loc: at("1")}),
		newRep(spec{mt: "a/b;p=x", lang: "de-1996", cs: "x-c", feats: []string{"color=red", "color!=7"}, q: 0.9, body: "2", loc: at("2")}),
		newRep(spec{q: 0.8, body: "3", loc: at("3")}),
	}
	o := negotiate(n, newRequest(kv...), as(reps...)...)
	o.observe()
	ndAssert(o.err != nil || o.w.status() > 0, "there is a response or an error")
}
