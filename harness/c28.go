package main

import (
	"github.com/freerware/negotiator"
	"github.com/freerware/negotiator/proactive"
	"github.com/freerware/negotiator/transparent"
)

const (
	features = headers + iota
	directives
	allHeaders
)

// elements are three elements of the header, with any weights of one decimal.
func elements(h int) (name string, es []string) {
	q := func(n string) string { return ";q=0." + string([]byte{ndByte(n, digits)}) }
	switch h {
	case media:
		return "Accept", []string{"a/b" + q("q1"), "a/c;p=1" + q("q2"), "b/*;q=0.5"}
	case lang:
		return "Accept-Language", []string{"en" + q("q1"), "fr" + q("q2"), "de"}
	case charset:
		return "Accept-Charset", []string{"x-a" + q("q1"), "utf-8" + q("q2"), "x-c"}
	case coding:
		return "Accept-Encoding", []string{"gzip" + q("q1"), "deflate" + q("q2"), "identity;q=0.5"}
	case features:
		return "Accept-Features", []string{"tables", "!frames", "color=" + string([]byte{ndByte("color", digits)})}
	}
	return "Negotiate", []string{"trans", "guess-small", "vlist"}
}

// listed are three variants that the elements regard.
func listed() []*rep {
	return []*rep{
		newRep(spec{mt: "a/b", lang: "en", cs: "x-a", enc: []string{"gzip"}, feats: []string{"tables;+1.2-0.5", "!frames"}, q: 1, body: "1", loc: at("1")}),
		newRep(spec{mt: "a/c;p=1", lang: "fr", cs: "UTF-8", enc: []string{"deflate"}, feats: []string{"frames;+0.5-1", "color=[3-6];+1-0.6"}, q: 0.9, body: "2", loc: at("2")}),
		newRep(spec{mt: "b/c", lang: "de", cs: "x-c", q: 0.8, body: "3", loc: at("3")}),
	}
}

// rest are the other headers, such that transparent negotiation depends on the
// header in question.
func rest(h int) []string {
	kv := []string{}
	if h < headers && ndCase("transparent", 2) == 0 {
		return kv
	}
	if h != directives {
		kv = append(kv, "Negotiate", "*")
	}
	for i, v := range []string{"a/b, a/c, b/c", "en, fr, de", "x-a, utf-8, x-c"} {
		if i != h {
			kv = append(kv, headerNames[i], v)
		}
	}
	if h != features {
		kv = append(kv, "Accept-Features", "tables, color=4")
	}
	return kv
}

// regarding is a negotiator that regards the header.
func regarding(h int) negotiator.Negotiator {
	if h < headers && ndCase("transparent", 2) == 0 {
		return proactive.New()
	}
	return transparent.New()
}

// C28_Split: three elements of any of the six headers with any weights of one
// decimal, each in a header of its own, compared with the same elements where
// any of them are in one header, separated by commas without whitespace, with
// any whitespace before and after (also at the start and end), or with an
// empty element in between; with the proactive and the transparent negotiator.
func C28_Split() {
	h := ndCase("header", allHeaders)
	n := regarding(h)
	name, es := elements(h)
	reps := listed()
	one := rest(h)
	for _, e := range es {
		one = append(one, name, e)
	}
	several := rest(h)
	blank := func(name string) string { return string([]byte{ndByte(name, " \t")}) }
	text, end := es[0], ""
	for i, e := range es[1:] {
		k := "separator" + string(rune('1'+i))
		switch ndPick(k+".kind", 4) {
		case 0:
			several = append(several, name, text)
			text = e
		case 1:
			text += "," + e
		case 2:
			text += blank(k+".before") + "," + blank(k+".after") + e
			if i == 0 {
				text, end = blank("start")+text, blank("end")
			}
		case 3:
			text += "," + blank(k+".between") + "," + e
		}
	}
	several = append(several, name, text+end)
	a := negotiate(n, newRequest(one...), as(reps...)...)
	b := negotiate(n, newRequest(several...), as(reps...)...)
	a.observe()
	ndAssert(a.err == nil, "no error")
	ndAssert(same(a, b), "elements of one header are the same as several headers")
}

// C28_Wildcards: two or three elements of any of the six headers, one or all of
// which are the wildcard, with any weights of one decimal, each in a header of its
// own, compared with the same elements in one or two headers.
func C28_Wildcards() {
	h := ndCase("header", allHeaders)
	n := regarding(h)
	name, es := elements(h)
	reps := listed()
	wild := "*"
	if h == media {
		wild = "*/*"
	}
	q := ""
	if h < headers && ndPick("weight", 2) == 1 {
		q = ";q=0." + string([]byte{ndByte("q", digits)})
	}
	es = es[ndPick("from", 2):]
	place := ndPick("place"+string(rune('0'+len(es))), len(es)+1)
	for i := range es {
		if i == place || place == len(es) {
			es[i] = wild + q
		}
	}
	one := rest(h)
	for _, e := range es {
		one = append(one, name, e)
	}
	joined := rest(h)
	text := es[0]
	split := ndPick("split"+string(rune('0'+len(es))), len(es))
	for i, e := range es[1:] {
		if i+1 == split {
			joined = append(joined, name, text)
			text = e
		} else {
			text += ", " + e
		}
	}
	joined = append(joined, name, text)
	a := negotiate(n, newRequest(one...), as(reps...)...)
	b := negotiate(n, newRequest(joined...), as(reps...)...)
	a.observe()
	ndReach("negotiated")
	ndAssert(same(a, b), "elements of one header are the same as several headers")
}

// anyCases is the text with each of its letters (up to a number) in either case.
func anyCases(name, s string, n int) string {
	b := []byte(s)
	for i, c := range b {
		if n == 0 {
			break
		}
		if c >= 'a' && c <= 'z' {
			n--
			b[i] = ndByte(name+"."+string(rune('a'+i)), string([]byte{c, c - 'a' + 'A'}))
		}
	}
	return string(b)
}

// C28_Case: an element of any of the six headers, of which each of the first
// four letters (thorough: all) is in either case, among others.
func C28_Case() {
	h := ndCase("header", allHeaders)
	n := regarding(h)
	name, es := elements(h)
	reps := listed()
	i := ndCase("element", 3)
	if h == media {
		es = [][]string{{"a/b;q=0.3", "a/c;p=1;q=0.7", "b/*;q=0.5"}, {"a/b;q=0.7", "a/c;p=1;q=0.3", "b/*;q=0.5"}}[ndPick("weights", 2)]
	}
	one := append(rest(h), name, es[0]+","+es[1]+","+es[2])
	es[i] = anyCases("case", es[i], ndBound(4, 20))
	other := append(rest(h), name, es[0]+","+es[1]+","+es[2])
	a := negotiate(n, newRequest(one...), as(reps...)...)
	b := negotiate(n, newRequest(other...), as(reps...)...)
	a.observe()
	ndAssert(same(a, b), "the letter case of names has no effect")
}

// C28_Quoted: a media range with a quoted parameter of any three characters of
// a comma, a semicolon, a space, a letter, and escaped quotes, and one of two
// media types with such a parameter; any weights of one decimal.
func C28_Quoted() {
	text := "\""
	value := ""
	for i := 0; i < ndBound(2, 3); i++ {
		k := "char" + string(rune('1'+i))
		switch ndPick(k+".escaped", 3) {
		case 0:
			c := ndByte(k, ",; x=")
			text += string([]byte{c})
			value += string([]byte{c})
		case 1:
			text += "\\\""
			value += "\\\""
		case 2:
			text += "\\\\"
			value += "\\\\"
		}
	}
	text += "\""
	q := "0." + string([]byte{ndByte("q", digits)})
	reps := []*rep{
		newRep(spec{mt: "a/b; p=\"" + value + "\"", q: 1, body: "1"}),
		newRep(spec{mt: "a/c", q: 1, body: "2"}),
	}
	o := negotiate(proactive.New(), newRequest("Accept", "a/c;q=0.5, a/b;p="+text+";q="+q), as(reps...)...)
	o.observe()
	want := 1
	if q > "0.5" {
		want = 0
	}
	if q != "0.5" {
		ndAssert(o.served(reps...) == want, "commas within quoted strings do not separate")
	}
}
