package main

import (
	"strconv"
	"strings"

	"github.com/freerware/negotiator"
	"github.com/freerware/negotiator/proactive"
	"github.com/freerware/negotiator/reactive"
	"github.com/freerware/negotiator/representation"
	"github.com/freerware/negotiator/transparent"
)

// C02_Codings: one to three (thorough: four) codings of identity, gzip and other names
// in either case of the first letter and with repetitions, along with any of three types, charsets and languages of any
// last letter, some of which have spaces, of each outcome of each negotiator.
func C02_Codings() {
	outcomes := ndCase("outcome", 6)
	n := 1 + ndCase("codings", ndBound(3, 4))
	var codings []string
	for i := 0; i < n; i++ {
		k := strconv.Itoa(i)
		switch ndPick("coding"+k, 4) {
		case 0:
			codings = append(codings, string([]byte{ndByte("identity"+k, "iI")})+"dentity")
		case 1:
			codings = append(codings, string([]byte{ndByte("gzip"+k, "gG")})+"zip")
		case 2:
			codings = append(codings, "x-"+string([]byte{ndByte("other"+k, "ab *")}))
		case 3:
			codings = append(codings, "*")
		}
	}
	k := ndPick("attributes", 3)
	cs := []string{"utf-8", "ISO-8859-1", " x "}[k] + string([]byte{ndByte("charset", "aB *")})
	lang := []string{"en-", "zh-Hant-T", "de, "}[k] + string([]byte{ndByte("language", "wW*")})
	mt := []string{"Text/HTML; Charset=\"UTF-8\"; Level=", "*/", "application/vnd.x+"}[k] + string([]byte{ndByte("type", "aB1*")})
	r := newRep(spec{mt: mt, lang: lang, cs: cs, enc: codings, q: 1, body: "12", loc: at("r")})
	given := append([]string{}, codings...)
	other := typed("x/y", "other")
	status, location := 200, true
	var o outcome
	switch outcomes {
	case 0, 1:
		w := newWriter()
		status += outcomes
		err := proactive.New(proactive.Algorithm(&chooser{choice: r}), proactive.DisableStrictMode()).Negotiate(
			negotiator.NegotiationContext{Request: newRequest(), ResponseWriter: w, IsCreation: outcomes == 1}, as(other, r)...)
		o = outcome{w, err}
	case 2:
		status, location = 406, false
		o = negotiate(proactive.New(proactive.Algorithm(&chooser{}), proactive.DefaultRepresentation(only(r))), newRequest(), other)
	case 3:
		status, location = 300, false
		o = negotiate(reactive.New(reactive.Representation(only(r))), newRequest(), other)
	case 4:
		status, location = 300, false
		o = negotiate(transparent.New(transparent.ListRepresentation(only(r))), newRequest(), other)
	case 5:
		o = negotiate(transparent.New(transparent.RVSA(&chooser{choice: r})), newRequest("Negotiate", "*"), r, other)
	}
	o.observe()
	o.describes(status, r, location)
	ndAssert(o.w.get("Content-Encoding") == strings.Join(given, ",") && o.w.get("Content-Charset") == cs && o.w.get("Content-Language") == lang && o.w.get("Content-Type") == mt, "the metadata are those that were given")
}

// C17_Features: a variant with up to three (thorough: four) features of any of five,
// which may be equal to each other, the first or the second of two variants, in a list or a
// choice response.
func C17_Features() {
	all := []string{"x;+0.5", "y", "[ a  b ]", "!z", "x=[1-5];-0"}
	n := ndCase("features", ndBound(4, 5))
	var feats []string
	for i := 0; i < n; i++ {
		feats = append(feats, all[ndPick("feature"+strconv.Itoa(i), 5)])
	}
	r := newRep(spec{mt: "a/b", q: 1, body: "1", loc: at("r"), feats: append([]string{}, feats...)})
	other := newRep(spec{mt: "a/b", q: 1, body: "1", loc: at("r"), feats: []string{"x;+0.5"}})
	describe := func(feats []string) string {
		return "{ \"http://example.org/r\" 1.000 { charset  } { features " + strings.Join(feats, " ") + " } { language  } { length 1 } { type a/b } }"
	}
	want := describe(feats) + "," + describe([]string{"x;+0.5"})
	reps := as(r, other)
	if ndPick("swapped", 2) == 1 {
		reps = as(other, r)
		want = describe([]string{"x;+0.5"}) + "," + describe(feats)
	}
	if ndPick("response", 2) == 1 {
		o := negotiate(transparent.New(transparent.RVSA(&chooser{choice: r})), newRequest("Negotiate", "1.0"), reps...)
		ndAssert(o.err == nil && o.w.status() == 200, "chosen")
		ndAssert(o.w.get("Alternates") == want, "a choice response describes every variant without a fallback")
		return
	}
	l := &recorder{list: newRep(spec{mt: "l/l", q: 1, body: "list"})}
	o := negotiate(transparent.New(transparent.ListRepresentation(l.construct)), newRequest("Negotiate", "trans"), reps...)
	ndAssert(o.err == nil && o.w.status() == 300, "listed")
	ndAssert(o.w.get("Alternates") == want+",{ \"http://example.org/r\" }", "a list response describes every variant and ends with the fallback")
}

// C16_Least: a variant whose overall quality is the product of two numbers of any last
// digit, which are a source quality or weight of three decimals, and of up to three fixed ones, such that it is as
// small as a hundred thousandth, or rounds to none of it, alone or along with a variant of no quality.
func C16_Least() {
	a, b := ndByte("a", digits), ndByte("b", digits)
	x, y := int(a-'0'), int(b-'0')
	// the product of x, y and k is the overall quality in millionths.
	k := 1
	q := "0.00" + string([]byte{a})
	sq, lang, cs := float32(1), "1", "1"
	s := spec{mt: "a/c", lang: "de", cs: "x-a", body: "1", loc: at("1")}
	switch ndCase("factors", 5) {
	case 0:
		sq = float32(y) / 1000
	case 1:
		lang = "0.00" + string([]byte{b})
	case 2:
		cs = "0.0" + string([]byte{b})
		k = 10
	case 3:
		sq, lang, cs = float32(y)/10, "0.3", "0.2"
		k = 6
	case 4:
		q = "0.0" + string([]byte{a})
		sq, lang = float32(y)/10, "0.02"
		k = 20
	}
	s.q = sq
	p := x * y * k
	ndAssume(p%10 != 5)
	reps := []*rep{newRep(s)}
	got := 0
	switch ndPick("others", 3) {
	case 1:
		reps = append(reps, newRep(spec{mt: "a/d", q: 1, body: "2", loc: at("2")}))
	case 2:
		reps = []*rep{newRep(spec{mt: "a/c", lang: "de", cs: "x-a", body: "2", loc: at("2")}), reps[0]}
		got = 1
	}
	o := negotiate(transparent.New(), newRequest("Accept", "a/c;q="+q, "Accept-Language", "de;q="+lang, "Accept-Charset", "x-a;q="+cs, "Negotiate", "1.0"), as(reps...)...)
	o.observe()
	ndAssert(o.err == nil, "no error")
	if p > 5 {
		ndReach("choice")
		ndAssert(o.served(reps...) == got, "a definite variant of any quality is selected")
	} else {
		ndReach("list")
		ndAssert(o.served(reps...) < 0 && o.w.status() == 300, "a variant of no quality isn't selected")
	}
}

// C23_Factors: a true factor, a false one or both of up to four digits and of up to
// four (thorough: six) decimals, of any digits.
func C23_Factors() {
	factor := func(name, sign string) (string, bool) {
		n := ndPick(name+".integer", 5)
		s := sign + ndStr(name+".integer"+strconv.Itoa(n), n, "059")
		ok := n > 0 && n < 4
		if m := ndPick(name+".decimals", ndBound(6, 8)) - 1; m >= 0 {
			s += "." + ndStr(name+".decimals"+strconv.Itoa(m), m, "059")
			ok = ok && m < 4
		}
		return s, ok
	}
	s, ok := "", true
	kind := ndCase("factors", 3)
	if kind != 1 {
		s, ok = factor("true", "+")
	}
	if kind != 0 {
		f, right := factor("false", "-")
		s, ok = s+f, ok && right
	}
	s = []string{"a", "[a b]", "!a=b"}[ndCase("element", 2)] + ";" + s
	if ok {
		ndReach("right")
		ndAssert(accepted(s), "an element of the grammar is accepted")
	} else {
		ndReach("wrong")
		ndAssert(!accepted(s), "an element that isn't of the grammar is an error")
	}
}

// C30_Headers: an algorithm which chooses any of two to four (thorough: six) representations, of which any
// are not accepted by one of the headers with any weight of one decimal (though not all), in strict mode or with a disabled
// one, or by the variant selection of the transparent negotiator.
func C30_Headers() {
	h := ndCase("header", 4)
	n := 2 + ndPick("representations", ndBound(3, 5))
	var reps []*rep
	excluded := 0
	for i := 0; i < n; i++ {
		s := spec{mt: "a/b", lang: "en", cs: "x-a", enc: []string{"gzip"}, q: 1, body: strconv.Itoa(i), loc: at(strconv.Itoa(i))}
		if ndPick("excluded"+strconv.Itoa(i), 2) == 1 {
			excluded++
			switch h {
			case 0:
				s.mt = "z/z"
			case 1:
				s.lang = "nl"
			case 2:
				s.cs = "x-z"
			case 3:
				s.enc = []string{"br"}
			}
		}
		reps = append(reps, newRep(s))
	}
	if excluded == n {
		return
	}
	d := "0." + string([]byte{ndByte("weight", "123456789")})
	texts := [][]string{
		{"a/b", "a/*;q=" + d, "z/z;q=0, */*;q=" + d},
		{"en", "en;q=" + d + ", fr", "nl;q=0, *;q=" + d},
		{"x-a", "x-a;q=" + d + ", utf-8", "x-z;q=0, *;q=" + d},
		{"gzip", "gzip;q=" + d + ", identity;q=0", "br;q=0, *;q=" + d},
	}[h]
	kv := []string{headerNames[h], texts[ndPick("header", 3)]}
	choice := ndPick("choice"+strconv.Itoa(n), n+1)
	c := &script{list: "l/l", choice: choice, preferred: absent}
	if choice == n {
		c.choice = absent
	}
	l := &recorder{list: newRep(spec{mt: "l/l", q: 1, body: "list"})}
	var o outcome
	status := 406
	switch ndPick("negotiator", 4) {
	case 0:
		o = negotiate(proactive.New(proactive.Algorithm(c), proactive.Representations(), proactive.DefaultRepresentation(l.construct)), newRequest(kv...), as(reps...)...)
	case 1:
		o = negotiate(proactive.New(proactive.Algorithm(c), proactive.Representations(), proactive.DefaultRepresentation(l.construct), proactive.DisableStrictMode()), newRequest(kv...), as(reps...)...)
	case 2:
		status = 300
		o = negotiate(transparent.New(transparent.RVSA(c), transparent.ListRepresentation(l.construct)), newRequest(append(kv, "Negotiate", "*")...), as(reps...)...)
	case 3:
		status = 300
		o = negotiate(transparent.New(transparent.RVSA(c), transparent.ListRepresentation(l.construct), transparent.GuessSmallThreshold(0)), newRequest(append(kv, "Negotiate", "guess-small")...), as(reps...)...)
	}
	o.observe()
	ndAssert(o.err == nil, "no error")
	ndAssert(given(c.given, reps), "the algorithm is given all of the representations in order")
	if choice < n {
		ndAssert(o.w.status() == 200 && string(o.w.body) == strconv.Itoa(choice), "the representation that the algorithm returns is served")
	} else {
		ndAssert(o.w.status() == status && string(o.w.body) == "list" && given(l.got, reps), "the default list is served when the algorithm returns none")
	}
}

// C06_Thousandths: two representations whose types, languages, charsets or
// codings have weights of three decimals, of which the last one of either is any, and of
// which the first or second is worse regarding the criteria that follow.
func C06_Thousandths() {
	h := ndCase("header", 4)
	lead := []string{"0.50", "0.00", "0.99"}[ndPick("lead", 3)]
	a, b := ndByte("first", digits), ndByte("second", digits)
	ndAssume(lead != "0.00" || a != '0' && b != '0')
	q, r := lead+string([]byte{a}), lead+string([]byte{b})
	text := []string{"a/b;q=" + q + ", a/c;q=" + r, "en;q=" + q + ", fr;q=" + r, "x-a;q=" + q + ", x-b;q=" + r, "gzip;q=" + q + ", deflate;q=" + r}[h]
	if ndPick("reversed", 2) == 1 {
		text = []string{"a/c;q=" + r + ", a/b;q=" + q, "fr;q=" + r + ", en;q=" + q, "x-b;q=" + r + ", x-a;q=" + q, "deflate;q=" + r + ", gzip;q=" + q}[h]
	}
	x, y := spec{mt: "a/b", lang: "en", cs: "x-a", enc: []string{"gzip"}, q: 1, body: "11"}, spec{mt: "a/c", lang: "fr", cs: "x-b", enc: []string{"deflate"}, q: 1, body: "2"}
	reps := []*rep{newRep(x), newRep(y)}
	got := 0
	if ndPick("swapped", 2) == 1 {
		reps, got = []*rep{reps[1], reps[0]}, 1
	}
	o := negotiate(proactive.New(), newRequest(headerNames[h], text), as(reps...)...)
	o.observe()
	served := o.served(reps...)
	switch {
	case a > b:
		ndAssert(served == got, "the representation served is not beaten")
	case a < b:
		ndAssert(served == 1-got, "the representation served is not beaten")
	case h == 1:
		ndAssert(served >= 0, "a representation is served")
	default:
		ndAssert(served == 1-got, "the smaller representation is served when all else is equal")
	}
}

// changing is a representation that is one byte longer every time that it is
// serialized.
type changing struct {
	rep
	calls int
}

func (c *changing) Bytes() ([]byte, error) {
	c.calls++
	return []byte(filled(c.calls)), nil
}

// C02_Changing: a representation, or a list, that is one byte longer every time that it is serialized, of any
// type and language, for each outcome of each negotiator: the length is that of the body.
func C02_Changing() {
	r := &changing{}
	r.SetContentType("a/" + ndStr("type", 2, "abc"))
	r.SetContentLanguage("d" + ndStr("language", 1, "ea"))
	r.SetSourceQuality(1)
	r.SetContentLocation(at("r"))
	other := typed("x/y", "other")
	list := func(...representation.Representation) representation.Representation { return r }
	chosen := []representation.Representation{other, r}
	var o outcome
	status := 300
	switch ndCase("outcome", 6) {
	case 0:
		status = 200
		o = negotiate(proactive.New(), newRequest("Accept", "a/*, */*;q=0.5"), chosen...)
	case 1:
		status = 406
		o = negotiate(proactive.New(proactive.Representations(list)), newRequest("Accept", "a/*"), other)
	case 2:
		o = negotiate(reactive.New(reactive.Representation(list)), newRequest(), chosen...)
	case 3:
		o = negotiate(transparent.New(transparent.ListRepresentation(list)), newRequest(), chosen...)
	case 4:
		status = 200
		o = negotiate(transparent.New(transparent.RVSA(&chooser{choice: r})), newRequest("Negotiate", "1.0"), chosen...)
	case 5:
		status = 200
		o = negotiate(transparent.New(transparent.RVSA(&chooser{choice: r}), transparent.GuessSmallThreshold(100)), newRequest("Negotiate", "guess-small"), chosen...)
	}
	o.observe()
	ndAssert(o.err == nil && o.w.status() == status && o.w.writes == 1, "responded")
	ndAssert(len(o.w.body) > 0 && o.w.get("Content-Length") == strconv.Itoa(len(o.w.body)), "Content-Length is the number of bytes written")
	ndAssert(o.w.get("Content-Type") == r.ContentType() && o.w.get("Content-Language") == r.ContentLanguage(), "the metadata are those of the representation")
}

// C10_Kinds: two (thorough: three) representations, each with any of six lists of codings, or any
// of several media types, languages and charsets, such as ones that have parameters, regions or capital
// letters; with one of the four headers absent, or a wildcard, along with
// another header that has any weight of one decimal, or not. With
// Accept-Language, each has a language.
func C10_Kinds() {
	h := ndCase("header", headers)
	varied := ndCase("varied", headers)
	codings := [][]string{nil, {"gzip"}, {"gzip", "gzip"}, {"Identity"}, {"deflate", "identity"}, {"compress", "gzip", "deflate"}}
	types := []string{"", "text/html", "text/html;level=2", "TEXT/HTML; level=3", "a/b;p=1;r=\"2\"", "a/b+c"}
	langs := []string{"", "de", "en-GB", "EN", "zh-Hans-CN", "sr-Latn"}
	if h == lang {
		langs[0] = "fr"
	}
	charsets := []string{"", "iso-8859-1", "ISO-8859-1", "utf-8", "UTF-8", "x-a"}
	var reps []*rep
	for i := 0; i < ndBound(2, 3); i++ {
		k := ndPick("kind"+strconv.Itoa(i), 6)
		s := spec{q: 1, body: strings.Repeat("b", 4-i), mt: "a/b", loc: at(strconv.Itoa(i))}
		switch varied {
		case media:
			s.mt = types[k]
		case lang:
			s.lang = langs[k]
		case charset:
			s.cs = charsets[k]
		case coding:
			s.enc = codings[k]
		}
		reps = append(reps, newRep(s))
	}
	wildcard := "*"
	if h == media {
		wildcard = "*/*"
	}
	var kv []string
	if h != varied {
		q := ";q=0." + string([]byte{ndByte("weight", digits)})
		kv = [][]string{{"Accept", "text/html" + q + ", */*;q=0.5"}, {"Accept-Language", "en" + q + ", *;q=0.5"}, {"Accept-Charset", "utf-8" + q + ", *;q=0.5"}, {"Accept-Encoding", "gzip" + q + ", *;q=0.5"}}[varied]
	}
	a := negotiate(proactive.New(), newRequest(kv...), as(reps...)...)
	b := negotiate(proactive.New(), newRequest(append([]string{headerNames[h], wildcard}, kv...)...), as(reps...)...)
	a.observe()
	ndAssert(same(a, b), "an absent header is the same as a wildcard")
}

// C17_Choices: two and three variants of which any is the choice, or none, with any
// source qualities of three decimals, 0 and 1 included, for one of them and any of four for the
// others.
func C17_Choices() {
	n := 2 + ndCase("variants", 2)
	choice := ndPick("choice", n+1)
	place := ndPick("place", n)
	q, text := threeDecimals("source")
	if ndPick("one", 2) == 1 {
		q, text = 1, "1.000"
	}
	var reps []*rep
	want := ""
	for i := 0; i < n; i++ {
		k := strconv.Itoa(i)
		s := spec{mt: "a/" + k, q: q, body: strings.Repeat("b", i), loc: at(k)}
		t := text
		if i != place {
			j := ndPick("quality"+k, 4)
			s.q, t = []float32{0, 0.5, 1, 0.001}[j], []string{"0.000", "0.500", "1.000", "0.001"}[j]
		}
		reps = append(reps, newRep(s))
		if i > 0 {
			want += ","
		}
		want += "{ \"http://example.org" + s.loc.Path + "\" " + t + " { charset  } { features  } { language  } { length " + k + " } { type " + s.mt + " } }"
	}
	c := &chooser{}
	if choice < n {
		c.choice = reps[choice]
	}
	l := &recorder{list: newRep(spec{mt: "l/l", q: 1, body: "list"})}
	o := negotiate(transparent.New(transparent.RVSA(c), transparent.ListRepresentation(l.construct)), newRequest("Negotiate", "*"), as(reps...)...)
	o.observe()
	if choice < n {
		ndAssert(o.err == nil && o.w.status() == 200 && o.w.get("Tcn") == "choice", "chosen")
		ndAssert(o.w.get("Alternates") == want, "a choice response describes every variant without a fallback")
		return
	}
	ndAssert(o.err == nil && o.w.status() == 300 && o.w.get("Tcn") == "list", "listed")
	ndAssert(o.w.get("Alternates") == want+",{ \"http://example.org"+urlPath(reps[0])+"\" }", "a list response describes every variant and ends with the fallback")
}

func urlPath(r *rep) string {
	u := r.ContentLocation()
	return u.Path
}

// C26_Serialized: representations that are serialized by the library, with
// any of several content types and any of several lists of codings, in any case of some of their letters,
// with each of the negotiators.
func C26_Serialized() {
	x := string([]byte{ndByte("x", "xX")})
	codings := [][]string{nil, {x + "-a"}, {x + "-B", "identity", x + "-a"}, {"IDENTITY"}, {"unknown"}}
	var reps []representation.Representation
	for i := 0; i < 2; i++ {
		k := strconv.Itoa(i)
		b := &backed{Base: *coded("", codings[ndPick("codings"+k, 5)]), t: text{"body" + k}}
		b.SetContentType([]string{"text/x-x", "Text/X-y ; p=1", "text/z"}[ndPick("type"+k, 3)])
		b.SetContentLocation(at(k))
		b.SetSourceQuality(1 - float32(i)/4)
		reps = append(reps, b)
	}
	var n negotiator.Negotiator
	var kv []string
	switch ndCase("negotiator", 5) {
	case 0:
		n = proactive.New()
	case 1:
		n, kv = proactive.New(), []string{"Accept", "z/z"}
	case 2:
		n, kv = transparent.New(), []string{"Negotiate", "1.0, guess-small"}
	case 3:
		n, kv = transparent.New(), []string{"Negotiate", "1.0"}
	case 4:
		n = reactive.New()
	}
	together(n, newRequest(kv...), reps)
}
