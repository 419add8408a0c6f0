package main

import (
	"strconv"

	"github.com/freerware/negotiator/proactive"
	"github.com/freerware/negotiator/reactive"
	"github.com/freerware/negotiator/representation"
	"github.com/freerware/negotiator/transparent"
)

// sourceQuality is any source quality of up to three decimals below 1, or 1,
// along with its shortest decimal notation.
func sourceQuality(name string) (float32, string) {
	if ndPick(name+".whole", 2) == 1 {
		return 1, "1"
	}
	d := ndStr(name, 3, digits)
	q := float32(int(d[0]-'0')*100+int(d[1]-'0')*10+int(d[2]-'0')) / 1000
	n := 3
	for n > 0 && d[n-1] == '0' {
		n--
	}
	if n == 0 {
		return q, "0"
	}
	return q, "0." + d[:n]
}

// listable is a representation with any of its attributes, having any letters
// and a source quality of any thousandths, along with the entry of a list
// which describes it.
func listable(name string, q float32, quality string) (*rep, string) {
	s := spec{q: q, body: name}
	j := "{"
	add := func(key, text string) {
		if j != "{" {
			j += ","
		}
		j += "\"" + key + "\":" + text
	}
	quoted := func(s string) string { return "\"" + s + "\"" }
	list := func(ss []string) string {
		t := "["
		for i, s := range ss {
			if i > 0 {
				t += ","
			}
			t += quoted(s)
		}
		return t + "]"
	}
	shape := ndPick(name+".shape", 4)
	if shape&1 == 0 {
		s.mt = "a/" + ndStr(name+".type", 1, "bcD")
		add("contentType", quoted(s.mt))
	}
	if shape&2 == 0 {
		s.lang = "d" + ndStr(name+".language", 1, "aE")
		add("contentLanguage", quoted(s.lang))
	}
	for i := ndPick(name+".codings", 3); i > 0; i-- {
		s.enc = append(s.enc, []string{"gzip", "identity"}[i-1])
	}
	if len(s.enc) > 0 {
		add("contentEncoding", list(s.enc))
	}
	if shape < 2 {
		s.loc = at(ndStr(name+".path", 2, "ab-"))
		add("contentLocation", quoted("http://example.org"+s.loc.Path))
	}
	if shape == 0 || shape == 3 {
		s.cs = "x-" + ndStr(name+".set", 1, "abC")
		add("contentCharset", quoted(s.cs))
	}
	for i := ndPick(name+".features", 3); i > 0; i-- {
		f := "t" + ndStr(name+".feature"+strconv.Itoa(i), 1, "ab")
		if i == 2 {
			f = "[ " + f + "  !c ] ;+1.50-0.5"
		} else {
			f += "=x"
		}
		s.feats = append(s.feats, f)
	}
	if len(s.feats) > 0 {
		add("contentFeatures", list(s.feats))
	}
	add("sourceQuality", quality)
	return newRep(s), j + "}"
}

// C09_Default: the list that each negotiator serves by default, over one
// representation with any of the attributes having up to two letters and up to
// two codings and features, and a source quality of any thousandths, before or
// after others (thorough: another one of that kind).
func C09_Default() {
	q, quality := sourceQuality("source")
	r, entry := listable("rep", q, quality)
	reps := as(r)
	text := entry
	switch ndCase("others", ndBound(3, 4)) {
	case 1:
		o := newRep(spec{mt: "a/o", q: 0.5, body: "o"})
		reps = as(o, r, o)
		e := "{\"contentType\":\"a/o\",\"sourceQuality\":0.5}"
		text = e + "," + entry + "," + e
	case 2:
		o := newRep(spec{q: 0, enc: []string{"gzip", "gzip"}, body: "o", loc: at("o")})
		reps = as(r, o)
		text += ",{\"contentEncoding\":[\"gzip\",\"gzip\"],\"contentLocation\":\"http://example.org/o\",\"sourceQuality\":0}"
	case 3:
		o, e := listable("other", 0.25, "0.25")
		reps = as(r, o, r)
		text += "," + e + "," + entry
	}
	text = "{\"representations\":[" + text + "]}"
	var o outcome
	switch ndCase("negotiator", 3) {
	case 0:
		o = negotiate(proactive.New(proactive.Algorithm(&chooser{})), newRequest(), reps...)
		ndAssert(o.w.status() == 406, "refused")
	case 1:
		o = negotiate(reactive.New(), newRequest(), reps...)
		ndAssert(o.w.status() == 300, "listed")
	case 2:
		o = negotiate(transparent.New(), newRequest(), reps...)
		ndAssert(o.w.status() == 300, "listed")
	}
	o.observe()
	ndAssert(o.err == nil, "no error")
	ndAssert(string(o.w.body) == text, "the list describes every representation in order")
}

// C09_Given: lists of up to eight representations, some of which are equal,
// that are given to the configured constructors of each negotiator.
func C09_Given() {
	reps := several(1 + ndPick("representations", 8))
	l := &recorder{list: newRep(spec{mt: "l/l", q: 1, body: "list"})}
	var o outcome
	switch ndCase("negotiator", 4) {
	case 0:
		o = negotiate(proactive.New(proactive.DefaultRepresentation(l.construct)), newRequest("Accept", "z/z"), as(reps...)...)
	case 1:
		o = negotiate(proactive.New(proactive.Representations(l.construct)), newRequest("Accept", "z/z;q=0.5, l/l;q=0.1"), as(reps...)...)
	case 2:
		o = negotiate(reactive.New(reactive.Representation(l.construct)), newRequest(), as(reps...)...)
	case 3:
		o = negotiate(transparent.New(transparent.ListRepresentation(l.construct)), newRequest(), as(reps...)...)
	}
	o.observe()
	ndAssert(o.err == nil, "no error")
	ndAssert(string(o.w.body) == "list" && given(l.got, reps), "the list is constructed of every representation in order")
}

// C09_Preferred: a refusal with three configured lists of which the request
// prefers one: ranges with any weights of one decimal for these and for what
// the representation isn't, or for none of them; the last one may be of the
// same type as the first one.
func C09_Preferred() {
	var ls []*recorder
	var ctors []representation.ListConstructor
	n := ndPick("lists", 4)
	types := []string{"l/a", "l/b", "l/c"}
	if ndPick("same", 2) == 1 {
		types[2] = "l/a"
	}
	var p pref
	for i, c := range []byte("ab") {
		p.with(media, tenth("q"+string(rune('1'+i)), element{text: "l/" + string([]byte{c}), t: 'l', s: c}))
	}
	p.with(media, tenth("q3", element{text: "z/*", t: 'z', s: '*'}))
	if ndPick("wildcard", 2) == 1 {
		p.with(media, tenth("q4", element{text: "l/*", t: 'l', s: '*'}))
	}
	best, weight := -1, 0
	for i := 0; i < n; i++ {
		l := &recorder{list: newRep(spec{mt: types[i], q: 1, body: "list" + string(rune('1'+i))})}
		ls = append(ls, l)
		ctors = append(ctors, l.construct)
		if w := mediaWeight(p.media, mediaType{text: types[i], t: 'l', s: types[i][2]}); w > weight {
			best, weight = i, w
		}
	}
	def := &recorder{list: newRep(spec{mt: "l/d", q: 1, body: "default"})}
	body := ndPick("disabled", 2) == 0
	opts := []proactive.Option{proactive.Representations(ctors...), proactive.DefaultRepresentation(def.construct)}
	if !body {
		opts = append(opts, proactive.DisableNotAcceptableRepresentation())
	}
	r := newRep(spec{mt: "x/y", q: 1, body: "body"})
	o := negotiate(proactive.New(opts...), newRequest(p.headers()...), r)
	o.observe()
	ndAssert(o.err == nil && o.w.status() == 406, "refused")
	switch {
	case !body:
		ndReach("disabled")
		ndAssert(o.w.writes == 0, "there is no body when it is disabled")
	case best < 0:
		ndReach("default")
		ndAssert(string(o.w.body) == "default" && given(def.got, []*rep{r}), "the default list is served when none is acceptable")
	default:
		ndReach("preferred")
		ndAssert(string(o.w.body) == "list"+string(rune('1'+best)) && given(ls[best].got, []*rep{r}), "the preferred list is served")
	}
}
