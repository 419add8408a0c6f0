package main

import (
	"github.com/freerware/negotiator/proactive"
	"github.com/freerware/negotiator/transparent"
)

// C18_Weights: two representations that differ in what one header ranges over,
// in either order, with a range for each whose weights are any from 0.000 to
// 1.000 in thousandths; each of the four headers.
func C18_Weights() {
	a, va := weight("a")
	b, vb := weight("b")
	var name, first, second string
	x, y := spec{q: 1, body: "x"}, spec{q: 1, body: "y"}
	switch ndCase("header", 4) {
	case 0:
		name, first, second = "Accept", "text/html", "image/png"
		x.mt, y.mt = "text/html", "image/png"
	case 1:
		name, first, second = "Accept-Language", "en", "fr"
		x.lang, y.lang = "en", "fr"
	case 2:
		name, first, second = "Accept-Charset", "utf-8", "koi8-r"
		x.cs, y.cs = "utf-8", "koi8-r"
	case 3:
		name, first, second = "Accept-Encoding", "gzip", "deflate"
		x.enc, y.enc = []string{"gzip"}, []string{"deflate"}
	}
	r := newRequest(name, first+";q="+a+", "+second+";q="+b)
	rx, ry := newRep(x), newRep(y)
	o := negotiate(proactive.New(proactive.DisableNotAcceptableRepresentation()), r, rx, ry)
	got := o.served(rx, ry)
	o.observe()
	ndAssert(o.err == nil, "valid weights are accepted")
	ndAssert(!(va > vb) || got == 0, "the higher weight wins")
	ndAssert(!(vb > va) || got == 1, "the higher weight wins")
	ndAssert(va != 0 || vb != 0 || o.w.status() == 406, "a weight of 0 excludes")
}

const letters = "aefinNIAFxX.-+_"

// invalid is any weight that is negative, above 1 or not a number.
func invalid(name string) string {
	d := func(i string) byte { return ndByte(name+"."+i, digits) }
	a, b, c := d("a"), d("b"), d("c")
	switch ndPick(name+".form", 8) {
	case 0:
		ndAssume(a != '0' || b != '0' || c != '0')
		return "-0." + string([]byte{a, b, c})
	case 1:
		ndAssume(a != '0')
		return "-" + string([]byte{a})
	case 2:
		ndAssume(a != '0' || b != '0' || c != '0')
		return "1." + string([]byte{a, b, c})
	case 3:
		ndAssume(a > '1')
		return string([]byte{a, '.', b, c})
	case 4:
		ndAssume(a != '0')
		return string([]byte{a, b})
	case 5:
		ndAssume(a != '0' || b != '0')
		return "1.000" + string([]byte{a, b})
	case 6:
		ndAssume(a != '0' || b != '0')
		return "-0.000" + string([]byte{a, b})
	}
	return ndStr(name+".text", 3, letters)
}

// C18_Invalid: any weight from -9 to 99 with up to three decimals, or of which
// the fourth and fifth decimals are any, that is negative or above 1, or any three characters of "aefinNIAFxX.-+_" (such as
// "NaN", "inf" and "---"), on the first or second of two ranges of each of the
// four headers, with the proactive negotiator, and with the transparent one
// for the headers that it regards.
func C18_Invalid() {
	h := ndCase("header", headers)
	w := invalid("weight")
	x, y := "", ";q=0.5"
	if ndPick("second", 2) == 0 {
		x = ";q=" + w
	} else {
		y = ";q=" + w
	}
	names := []string{"Accept", "Accept-Language", "Accept-Charset", "Accept-Encoding"}
	first := []string{"text/html", "en", "utf-8", "gzip"}
	second := []string{"image/png", "fr", "koi8-r", "deflate"}
	rep := newRep(spec{mt: "text/html", lang: "en", cs: "utf-8", enc: []string{"gzip"}, q: 1, body: "x", loc: at("x")})
	r := newRequest(names[h], first[h]+x+", "+second[h]+y, "Negotiate", "*")
	var o outcome
	if h != coding && ndPick("transparent", 2) == 1 {
		o = negotiate(transparent.New(), r, rep)
	} else {
		o = negotiate(proactive.New(), r, rep)
	}
	o.observe()
	ndAssert(o.err != nil, "an invalid weight is an error")
	ndAssert(o.w.untouched(), "nothing is written")
}
