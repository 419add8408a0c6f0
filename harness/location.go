package main

import (
	"net/url"

	"github.com/freerware/negotiator/proactive"
	"github.com/freerware/negotiator/reactive"
	"github.com/freerware/negotiator/transparent"
)

// anyLocation is any location along with its text: absolute or not, with or
// without a port, a path, a query and a fragment, of which a path that has
// letters, dots, tildes, spaces or percent signs.
func anyLocation(name string) (u url.URL, text string) {
	origin := ndPick(name+".origin", 6)
	switch origin {
	case 1:
		u.Scheme, u.Host = "https", "h"+string([]byte{ndByte(name+".host", "aB")})+".org:8080"
		text = "https://" + u.Host
	case 2:
		u.Host = "example.org"
		text = "//example.org"
	case 3:
		u = url.URL{Scheme: "http", Host: "example.org", User: url.User("me")}
		text = "http://me@example.org"
	case 4:
		p := ndStr(name+".password", 2, "ax1")
		u = url.URL{Scheme: "http", Host: "example.org", User: url.UserPassword("me", p)}
		text = "http://me:" + p + "@example.org"
	case 5:
		p := ndStr(name+".opaque", 1, "ab")
		u = url.URL{Scheme: "urn", Opaque: "x:" + p}
		text = "urn:x:" + p
	}
	path := func(c byte) {
		switch c {
		case ' ':
			text += "%20"
		case '%':
			text += "%25"
		default:
			text += string([]byte{c})
		}
	}
	k := ndPick(name+".path", 4)
	if k == 3 && text != "" {
		k = 2
	}
	if origin == 5 {
		k = 0
	}
	switch k {
	case 1:
		u.Path = "/"
		text += "/"
	case 2:
		c := "aZ~-. %"[ndPick(name+".character", 7)]
		d := ndStr(name+".directory", 1, "ab")
		u.Path = "/" + d + "/" + string([]byte{c})
		text += "/" + d + "/"
		path(c)
	case 3:
		d := ndStr(name+".relative", 2, "ab")
		u.Path = d + "/x"
		text += d + "/x"
	}
	switch ndPick(name+".query", 3) {
	case 1:
		u.RawQuery = "v=" + ndStr(name+".query", 1, "a1")
		text += "?" + u.RawQuery
	case 2:
		u.RawQuery = "v=%2F/" + ndStr(name+".query", 1, "a1") + ";x"
		text += "?" + u.RawQuery
	}
	switch ndPick(name+".fragment", 3) {
	case 1:
		u.Fragment = "f" + ndStr(name+".fragment", 1, "a1")
		text += "#" + u.Fragment
	case 2:
		u.Fragment = "/" + ndStr(name+".fragment", 1, "a1") + "?"
		text += "#" + u.Fragment
	}
	return
}

// C02_Locations: a representation with any location that is absolute, has a
// host only, a user with or without a password, is opaque, or neither of them, with or without a path of any of
// seven characters (a space and a percent sign being among them), a query and a
// fragment, that the proactive or the transparent algorithm chooses.
func C02_Locations() {
	u, text := anyLocation("location")
	r := newRep(spec{mt: "a/b", q: 1, body: "1", loc: u})
	var o outcome
	if ndCase("negotiator", 2) == 0 {
		o = negotiate(proactive.New(), newRequest("Accept", "a/b"), typed("c/d", "2"), r)
	} else {
		req := newRequest("Accept", "a/b", "Negotiate", "1.0")
		of := u
		req.URL = &of
		o = negotiate(transparent.New(), req, typed("c/d", "2"), r)
	}
	o.observe()
	ndAssert(o.err == nil && o.w.status() == 200 && string(o.w.body) == "1", "the representation is served")
	ndAssert(o.w.get("Content-Location") == text, "Content-Location is that of the representation")
}

// C09_Locations: the default lists of each negotiator, of two representations
// of which one has any location as C02_Locations states.
func C09_Locations() {
	u, text := anyLocation("location")
	entry := "{\"contentType\":\"a/b\",\"contentLocation\":\"" + text + "\",\"sourceQuality\":1}"
	if text == "" {
		entry = "{\"contentType\":\"a/b\",\"sourceQuality\":1}"
	}
	r := newRep(spec{mt: "a/b", q: 1, body: "1", loc: u})
	o := lists(ndCase("negotiator", 3), typed("c/d", "2"), r)
	ndAssert(string(o.w.body) == "{\"representations\":[{\"contentType\":\"c/d\",\"sourceQuality\":1},"+entry+"]}", "the list has the location of each representation")
}

// lists is the response with the default list of the negotiator.
func lists(kind int, reps ...*rep) outcome {
	var o outcome
	switch kind {
	case 0:
		o = negotiate(proactive.New(proactive.Algorithm(&chooser{})), newRequest(), as(reps...)...)
		ndAssert(o.w.status() == 406, "refused")
	case 1:
		o = negotiate(reactive.New(), newRequest(), as(reps...)...)
		ndAssert(o.w.status() == 300, "listed")
	case 2:
		o = negotiate(transparent.New(), newRequest(), as(reps...)...)
		ndAssert(o.w.status() == 300, "listed")
	}
	o.observe()
	ndAssert(o.err == nil, "no error")
	return o
}

// C17_Locations: Alternates of two variants of which the first or the second
// one has any location as C02_Locations states.
func C17_Locations() {
	u, text := anyLocation("location")
	r := newRep(spec{mt: "a/b", q: 1, body: "1", loc: u})
	other := newRep(spec{mt: "c/d", q: 1, body: "22", loc: at("other")})
	first := ndCase("first", 2) == 0
	reps := as(other, r)
	if first {
		reps = as(r, other)
	}
	o := negotiate(transparent.New(), newRequest(), reps...)
	o.observe()
	ndAssert(o.err == nil && o.w.status() == 300, "listed")
	describe := func(uri, length, mt string) string {
		return "{ \"" + uri + "\" 1.000 { charset  } { features  } { language  } { length " + length + " } { type " + mt + " } }"
	}
	a, b := describe(text, "1", "a/b"), describe("http://example.org/other", "2", "c/d")
	fallback := "http://example.org/other"
	if first {
		fallback = text
	} else {
		a, b = b, a
	}
	ndAssert(o.w.get("Alternates") == a+","+b+",{ \""+fallback+"\" }", "Alternates has the location of each variant")
}
