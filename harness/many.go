package main

import (
	"net/url"
	"strconv"
	"strings"

	"github.com/freerware/negotiator"
	"github.com/freerware/negotiator/proactive"
	"github.com/freerware/negotiator/reactive"
	"github.com/freerware/negotiator/representation"
	"github.com/freerware/negotiator/transparent"
)

// The harnesses of this file are about numbers and lengths that are large: the
// sizes are few, while weights, places and kinds are symbolic.

// manyLanguages are distinct primary languages.
var manyLanguages = strings.Fields("fr de it es pt nl sv da fi pl cs hu ro bg el tr ru uk ar he hi th vi ko ja zh is ga et lv lt sl hr sk mt sq")

// manyCodings are distinct content codings.
var manyCodings = []string{"gzip", "x-gzip", "deflate", "compress", "x-compress", "br", "zstd", "exi", "aes128gcm", "dcb", "dcz", "pack200-gzip", "identity"}

// crowd are names that the header weighs, of which all are different.
func crowd(h, n int) []string {
	var names []string
	for i := 0; i < n; i++ {
		k := strconv.Itoa(i)
		switch h {
		case media:
			names = append(names, "text/x"+k)
		case lang:
			if i < len(manyLanguages) {
				names = append(names, manyLanguages[i])
			}
		case charset:
			names = append(names, "x-"+k)
		case coding:
			if i < len(manyCodings) {
				names = append(names, manyCodings[i])
			}
		}
	}
	return names
}

// of is a representation that is of the name, in terms of the header.
func of(h int, name, body string, q float32) *rep {
	s := spec{q: q, body: body, loc: at(body)}
	switch h {
	case media:
		s.mt = name
	case lang:
		s.lang = name
	case charset:
		s.cs = name
	case coding:
		s.enc = []string{name}
	}
	return newRep(s)
}

// crowded is a header of n elements, where those at the places i and j have a
// weight of one decimal, which is any one for the first (thorough: for both), and
// any other one the weight 1, 0.2, or those of a descending or an ascending order.
// There is one representation for each of the two, at the places a and b among
// m others whose source quality is too low to be served instead.
type crowded struct {
	es     []string
	v, w   int // of the weights, in thousandths
	i, j   int // places of the elements
	reps   []*rep
	a, b   int // places of the representations
	header int
	split  bool // each element is in a header of its own
}

func newCrowded(h int) crowded {
	n := []int{40, 120}[ndCase("elements", ndBound(1, 2))]
	m := 24 * ndCase("representations", 2)
	if h == lang {
		n = map[int]int{40: 13, 120: 22}[n]
		m /= 2
	}
	names := crowd(h, n)
	n = len(names)
	c := crowded{header: h}
	// the places of elements, the order of the others, and the places of
	// representations.
	shape := [][5]int{
		{n - 2, 0, 3, 0, m + 1},
		{n - 1, n - 2, 1, m, 0},
		{0, 4, 2, 0, 1},
		{n - 1, n / 2, 0, m, m + 1},
		{4, n - 1, 3, m + 1, m},
		{n / 2, 0, 1, 0, m},
	}[ndPick("shape", 6)]
	c.i, c.j, c.a, c.b = shape[0], shape[1], shape[3], shape[4]
	if c.a == c.b {
		c.a, c.b = 0, 1
	}
	order := shape[2]
	c.split = order == 1 || order == 3
	first, second := tenth("first", element{text: names[c.i]}), element{text: names[c.j], q: "0.5", v: 500}
	if ndBound(0, 1) == 1 {
		second = tenth("second", second)
	}
	c.v, c.w = first.v, second.v
	for k, name := range names {
		switch {
		case k == c.i:
			name = first.String()
		case k == c.j:
			name = second.String()
		case order == 1:
			name += ";q=0." + strconv.Itoa(899-k)
		case order == 2:
			name += ";q=0." + strconv.Itoa(10+k)
		case order == 3:
			name += ";q=0.2"
		}
		c.es = append(c.es, name)
	}
	filler := 0
	for filler == c.i || filler == c.j {
		filler++
	}
	for k := 0; k < m+2; k++ {
		switch k {
		case c.a:
			c.reps = append(c.reps, of(h, names[c.i], "1", 1))
		case c.b:
			c.reps = append(c.reps, of(h, names[c.j], "2", 1))
		default:
			c.reps = append(c.reps, of(h, names[filler], "filler"+strconv.Itoa(k), 0.001))
		}
	}
	return c
}

// kv is the header, as one or as many.
func (c crowded) kv() (kv []string) {
	if !c.split {
		return []string{headerNames[c.header], strings.Join(c.es, ", ")}
	}
	for _, e := range c.es {
		kv = append(kv, headerNames[c.header], e)
	}
	return
}

// proactively negotiates the header.
func (c crowded) proactively() outcome {
	o := negotiate(proactive.New(proactive.DisableNotAcceptableRepresentation()), newRequest(c.kv()...), as(c.reps...)...)
	o.observe()
	return o
}

// C04_Many: headers of 40 (languages and codings: 13; thorough: 120, languages: 22) elements (of media ranges, languages, charsets
// and codings) in one or as many occurrences, of which two elements at the
// start, the end or in between have weights of one decimal, any one for the
// first (thorough: for both); a representation for each of these, among none
// and 24 (languages: 12) other representations.
func C04_Many() {
	h := ndCase("header", headers)
	c := newCrowded(h)
	o := c.proactively()
	got := o.served(c.reps...)
	ndReach("served")
	ndAssert((got != c.a || c.v > 0) && (got != c.b || c.w > 0), "what is served is acceptable")
	if len(c.reps) == 2 {
		ndAssert(c.v > 0 || c.w > 0 || o.w.status() == 406, "nothing is served when nothing is acceptable")
	}
}

// C05_Many: as C04_Many.
func C05_Many() {
	h := ndCase("header", headers)
	c := newCrowded(h)
	o := c.proactively()
	got := o.served(c.reps...)
	if c.v > 0 || c.w > 0 || len(c.reps) > 2 {
		ndReach("acceptable")
		ndAssert(got >= 0 && o.w.status() == 200, "an acceptable representation is served")
	}
}

// C06_Many: as C04_Many, where the order of the languages decides among those
// of the same weight.
func C06_Many() {
	h := ndCase("header", headers)
	c := newCrowded(h)
	o := c.proactively()
	switch got := o.served(c.reps...); {
	case c.v == 0 && c.w == 0:
	case c.v > c.w:
		ndReach("first")
		ndAssert(got == c.a, "the representation served is not beaten")
	case c.w > c.v:
		ndReach("second")
		ndAssert(got == c.b, "the representation served is not beaten")
	case h == lang && c.j < c.i:
		ndReach("order")
		ndAssert(got == c.b, "the representation served is not beaten")
	case h == lang:
		ndAssert(got == c.a, "the representation served is not beaten")
	default:
		ndReach("tie")
		ndAssert(got == min(c.a, c.b), "ties go to the first")
	}
}

// C06_Sizes: three representations that differ in nothing but their sizes, which
// are any of 0, 1, 255 to 257 and 65535 to 65792 bytes.
func C06_Sizes() {
	sizes := []int{0, 1, 255, 256, 257, 300, 65535, 65536, 65541, 65792}
	big := filled(sizes[len(sizes)-1])
	n := ndBound(2, 3)
	var reps []*rep
	var is []int
	for i := 0; i < n; i++ {
		s := ndPick("size"+strconv.Itoa(i), len(sizes))
		for _, k := range is {
			ndAssume(k != s)
		}
		is = append(is, s)
		reps = append(reps, newRep(spec{mt: "a/b", q: 1, body: big[:sizes[s]]}))
	}
	o := negotiate(proactive.New(), newRequest("Accept", "a/*;q=0."+string([]byte{ndByte("weight", "123456789")})), as(reps...)...)
	ndObserveInt("length", len(o.w.body))
	low := is[0]
	for _, k := range is {
		if k < low {
			low = k
		}
	}
	ndReach("smallest")
	ndAssert(o.err == nil && o.w.status() == 200 && len(o.w.body) == sizes[low], "the smallest one is served")
}

// C06_Levels: two representations of text/html of any levels from 0 to 99, with
// or without a zero in front of it (thorough: and of five more digits).
func C06_Levels() {
	digit := func(k string, from string) byte { return ndByte(k, from) }
	level := func(k string) (string, int) {
		n := ndPick(k+".digits", 3)
		if n != 1 {
			d := digit(k, digits)
			return []string{"", "", "0"}[n] + string([]byte{d}), int(d - '0')
		}
		d, e := digit(k+".tens", "123456789"), digit(k+".ones", digits)
		n = int(d-'0')*10 + int(e-'0')
		switch ndPick(k+".long", ndBound(2, 3)) {
		case 1:
			return "0" + string([]byte{d, e}), n
		case 2:
			return string([]byte{d, e}) + "00000", n * 100000
		}
		return string([]byte{d, e}), n
	}
	t, x := level("level")
	u, y := level("other")
	reps := []*rep{typed("text/html;level="+t, "1"), typed("text/html; level="+u, "2")}
	o := negotiate(proactive.New(), newRequest(), as(reps...)...)
	o.observe()
	if y > x {
		ndReach("other")
		ndAssert(o.served(reps...) == 1, "the highest level is served")
	} else {
		ndReach("first")
		ndAssert(o.served(reps...) == 0, "the highest level is served")
	}
}

// C01_Many: headers of up to 70 elements or occurrences of any of the six
// headers (negotiated by each of the negotiators), one of which, at the start,
// the end, or in between, is any byte (thorough: two).
func C01_Many() {
	h := ndCase("header", allHeaders)
	any := ndStr("bytes", ndBound(1, 2), "")
	n := []int{17, 70, 33}[ndPick("elements", ndBound(2, 3))]
	place := []int{n - 1, 16, 0, n / 2}[ndPick("place", ndBound(2, 4))]
	name := "Accept-Features"
	element := "tag"
	switch {
	case h < headers:
		name = headerNames[h]
		element = []string{"a/b;q=0.5", "en;q=0.5", "utf-8;q=0.5", "gzip;q=0.5"}[h]
	case h == directives:
		name, element = "Negotiate", "trans"
	}
	var es []string
	for i := 0; i < n; i++ {
		es = append(es, element)
	}
	es[place] = any
	if ndPick("occurrences", 2) == 0 {
		es = []string{strings.Join(es, ",")}
	}
	r := newRequest()
	if h != directives {
		r.Header["Negotiate"] = []string{"*"}
	}
	r.Header[name] = es
	reps := listed()
	for _, t := range []negotiator.Negotiator{proactive.New(), transparent.New(), reactive.New()} {
		o := negotiate(t, r, as(reps...)...)
		ndReach("outcome")
		ndAssert((o.err != nil) != (o.w.status() > 0 && o.w.writes > 0), "there is a response or an error")
		if o.err != nil {
			ndAssert(o.w.untouched(), "nothing is written when there is an error")
		}
	}
}

// C02_Many: representations of up to 12 codings and 40 features, with location
// and names of up to 300 bytes of which any two are symbolic.
func C02_Many() {
	n := []int{4, 5, 12}[ndPick("codings", 3)]
	long := strings.Repeat("vnd.example.", []int{1, 6, 25}[ndPick("length", 3)]) + ndStr("name", 2, "abc-")
	s := spec{mt: "application/" + long + ";p=\"" + long + "\"", cs: "x-" + long, lang: "en-" + strings.Repeat("abcdefgh-", len(long)/9) + ndStr("tag", 2, "abc"), q: 1, body: "body", loc: at(long)}
	for i := 0; i < n; i++ {
		s.enc = append(s.enc, []string{"gzip", "x-b", "identity"}[i%3])
	}
	s.enc[n-1] = "x-" + ndStr("coding", 1, "abc")
	for i := 0; i < 40; i++ {
		s.feats = append(s.feats, "f"+strconv.Itoa(i))
	}
	r := newRep(s)
	other := typed("x/y", "other")
	switch ndCase("outcome", 4) {
	case 0:
		negotiate(proactive.New(proactive.Algorithm(&chooser{choice: r})), newRequest(), other, r).describes(200, r, true)
	case 1:
		o := negotiate(proactive.New(proactive.Algorithm(&chooser{}), proactive.DefaultRepresentation(only(r))), newRequest(), other)
		o.describes(406, r, false)
	case 2:
		negotiate(reactive.New(reactive.Representation(only(r))), newRequest(), other, other).describes(300, r, false)
	case 3:
		o := negotiate(transparent.New(transparent.RVSA(&chooser{choice: r})), newRequest("Negotiate", "*"), other, r)
		o.describes(200, r, true)
	}
}

// C03_Many: faults of a list of 10 variants whose Alternates is thousands of
// bytes long: the list that can't be serialized, the variant at any place that
// can't be, a malformed Negotiate header of 40 directives, and more variants
// than allowed.
func C03_Many() {
	long := strings.Repeat("x", 600)
	var reps []*rep
	n := 10
	for i := 0; i < n; i++ {
		reps = append(reps, newRep(spec{mt: "a/b", q: 1, body: long, loc: at(long + strconv.Itoa(i))}))
	}
	list := newRep(spec{mt: "l/l", q: 1, body: long})
	bad := newRep(spec{mt: "l/l", q: 1, body: ""})
	bad.err = errBytes
	kv := []string{"Negotiate", strings.Repeat("trans,", 40) + ndStr("last", 1, "abc")}
	var o outcome
	switch ndPick("fault", 4) {
	case 0:
		o = negotiate(transparent.New(transparent.ListRepresentation(only(bad))), newRequest(kv...), as(reps...)...)
	case 1:
		reps[ndPick("place", n)].err = errBytes
		o = negotiate(transparent.New(transparent.ListRepresentation(only(list))), newRequest(kv...), as(reps...)...)
	case 2:
		reps[0].err = errBytes
		o = negotiate(transparent.New(transparent.ListRepresentation(only(list)), transparent.RVSA(&chooser{choice: reps[0]})), newRequest("Negotiate", "*"), as(reps...)...)
	case 3:
		o = negotiate(reactive.New(reactive.Representation(only(bad))), newRequest(kv...), as(reps...)...)
	}
	o.observe()
	ndReach("failed")
	ndAssert(o.err == errBytes, "the error is reported")
	ndAssert(o.w.untouched(), "nothing is written when there is an error")
}

// C09_Many: the default list of 11, 33, 64 and 150 representations, of which any
// one, at the start, the end, or in between, has any two letters as its type.
func C09_Many() {
	n := []int{11, 33, 64, 150}[ndPick("representations", 4)]
	place := []int{0, n - 1, n / 2, 10}[ndPick("place", 4)]
	mt := "a/" + ndStr("type", 2, "abC")
	var reps []*rep
	var entries []string
	for i := 0; i < n; i++ {
		k := strconv.Itoa(i)
		t := "b/x" + k
		if i == place {
			t = mt
		}
		reps = append(reps, newRep(spec{mt: t, q: 0.5, body: k, loc: at(k)}))
		entries = append(entries, "{\"contentType\":\""+t+"\",\"contentLocation\":\"http://example.org/"+k+"\",\"sourceQuality\":0.5}")
	}
	var o outcome
	switch ndCase("negotiator", 3) {
	case 0:
		o = negotiate(proactive.New(proactive.Algorithm(&chooser{})), newRequest(), as(reps...)...)
	case 1:
		o = negotiate(transparent.New(transparent.MaximumVariantListSize(n)), newRequest(), as(reps...)...)
	case 2:
		o = negotiate(reactive.New(), newRequest(), as(reps...)...)
	}
	ndObserveInt("length", len(o.w.body))
	ndAssert(o.err == nil, "no error")
	ndReach("list")
	ndAssert(string(o.w.body) == "{\"representations\":["+strings.Join(entries, ",")+"]}", "the list describes every representation once, in order")
}

// C11_Many: reactive negotiation of 13, 33, 101 and 260 representations, with
// any of the six headers being any two bytes, among other headers.
func C11_Many() {
	reps := several([]int{13, 33, 101, 260}[ndPick("representations", 4)])
	c := &recorder{list: newRep(spec{mt: "l/l", q: 1, body: ndStr("list", 2, "")})}
	o := negotiate(reactive.New(reactive.Representation(c.construct)), newRequest(anyHeaders()...), as(reps...)...)
	o.observe()
	ndReach("list")
	ndAssert(o.err == nil && o.w.status() == 300, "every choice is offered whatever the headers")
	ndAssert(c.calls == 1 && given(c.got, reps), "the list is constructed of exactly the representations provided")
	ndAssert(string(o.w.body) == string(c.list.body), "the body is the list")
}

// C12_Many: headers of 2 to 5 and 20 directives in any number of occurrences,
// being any of other versions, extensions, values of any two letters or digits and those
// that allow a choice.
func C12_Many() {
	n := []int{2, 3, 4, 20}[ndPick("directives", 4)]
	others := []string{"2.0", "trans", "vlist", "x-1.0", "0.9", "1.0a", "guess-small2"}
	asks := []string{"1.0", "*", "guess-small", "Guess-Small"}
	allowed := false
	var es []string
	for i := 0; i < n; i++ {
		k := strconv.Itoa(i)
		switch {
		case i < 2 && i < n-1:
			es = append(es, others[ndPick("directive"+k, len(others))])
		case i == n-1:
			if ndPick("asks", 2) == 1 {
				allowed = true
				es = append(es, asks[ndPick("ask", len(asks))])
			} else {
				es = append(es, "e"+ndStr("letters", 2, "mnoprst01."))
			}
		default:
			es = append(es, others[i%len(others)])
		}
	}
	kv := []string{"Negotiate", strings.Join(es, ", ")}
	if ndPick("occurrences", 2) == 1 {
		kv = nil
		for _, e := range es {
			kv = append(kv, "Negotiate", e)
		}
	}
	transparentChoice(kv, allowed)
}

// C14_Large: lists and variants of up to 131072 bytes that differ by any of
// several numbers of bytes, with any threshold from 0 to 99, or a thousand
// times that.
func C14_Large() {
	threshold := ndInt("threshold", 0, 99)
	factor := []int{1, 1000}[ndPick("factor", 2)]
	size := []int{0, 4, 250, 32767, 65536}[ndCase("list", 5)]
	delta := []int{-70000, -32768, -256, -1, 0, 1, 128, 256, 300, 32767, 32768, 40000, 65535, 65536, 65546}[ndPick("delta", 15)]
	if size+delta < 0 {
		return
	}
	list := newRep(spec{mt: "l/l", q: 1, body: filled(size)})
	rep := newRep(spec{mt: "a/b", q: 1, body: filled(size + delta), loc: at("1")})
	o := negotiate(transparent.New(transparent.GuessSmallThreshold(threshold*factor), transparent.RVSA(&chooser{choice: rep}), transparent.ListRepresentation(only(list))), newRequest("Negotiate", "guess-small"), rep)
	ndObserveInt("length", len(o.w.body))
	ndAssert(o.err == nil, "no error")
	if delta < 0 || delta <= threshold*factor {
		ndReach("choice")
		ndAssert(o.w.status() == 200 && len(o.w.body) == size+delta, "a small choice is served")
	} else {
		ndReach("list")
		ndAssert(o.w.status() == 300 && len(o.w.body) == size, "a choice that is too large is not served")
	}
}

// C15_Many: any maximum from 100 to 300 (thorough: and 70000), with 100 to 301
// variants.
func C15_Many() {
	limit := ndInt("maximum", 100, 300)
	k := []int{1, 44, 100, 127, 128, 129, 255, 256, 257, 299, 300, 301}[ndPick("variants", 12)]
	huge := ndPick("huge", 3)
	switch huge {
	case 1:
		limit += 65536
	case 2:
		limit += 4294967296
	}
	var reps []*rep
	for i := 0; i < k; i++ {
		reps = append(reps, newRep(spec{mt: "text/plain", loc: at("v"), q: 1, body: "b"}))
	}
	l := newRep(spec{mt: "l/l", q: 1, body: "list"})
	o := negotiate(transparent.New(transparent.MaximumVariantListSize(limit), transparent.ListRepresentation(only(l))), newRequest(), as(reps...)...)
	ndObserve("error", errString(o.err))
	if k > limit {
		ndReach("refused")
		ndAssert(o.err == transparent.ErrVariantListSizeExceeded, "more variants than the maximum are refused")
		ndAssert(o.w.untouched(), "nothing is written when there are too many variants")
	} else {
		ndReach("negotiated")
		ndAssert(o.err == nil && o.w.status() == 300, "variants up to the maximum are negotiated")
	}
}

// C16_Many: as of C04_Many, for media ranges, languages and charsets, with the
// transparent negotiator and 2 and 26 variants: which one of the two is chosen
// is up to their weights.
func C16_Many() {
	h := ndCase("header", coding)
	c := newCrowded(h)
	kv := append(c.kv(), "Negotiate", "1.0")
	list := newRep(spec{mt: "l/l", q: 1, body: "list"})
	o := negotiate(transparent.New(transparent.MaximumVariantListSize(30), transparent.ListRepresentation(only(list))), newRequest(kv...), as(c.reps...)...)
	o.observe()
	got := o.served(c.reps...)
	switch {
	case c.v == 0 && c.w == 0:
		ndAssert(len(c.reps) > 2 || got == -1, "the list is served when no variant has a quality")
	case c.w > c.v:
		ndReach("second")
		ndAssert(got == c.b, "the best variant is served")
	case c.v > c.w:
		ndReach("first")
		ndAssert(got == c.a, "the best variant is served")
	default:
		ndAssert(got == c.a || got == c.b, "one of the best variants is served")
	}
}

// C07_Many: 13, 30 and 60 variants of which two, at any of several places, are
// equally good and better than the others, which are of any of several
// qualities, with each negotiator: ties go to the first.
func C07_Many() {
	n := []int{13, 30, 60}[ndPick("representations", 3)]
	i := []int{0, 5, n / 2}[ndPick("first", 3)]
	j := []int{n - 1, n - 3, n/2 + 1}[ndPick("second", 3)]
	d := ndByte("quality", digits)
	q := float32(d-'0') / 10
	var reps []*rep
	for k := 0; k < n; k++ {
		if k == i || k == j {
			reps = append(reps, newRep(spec{mt: "a/b", q: 0.95, body: "best" + string(rune('a'+k%26)), loc: at(strconv.Itoa(k))}))
		} else {
			reps = append(reps, newRep(spec{mt: "a/b", q: []float32{0.1, 0.9, q, 0.5}[k*7%4], body: "o", loc: at(strconv.Itoa(k))}))
		}
	}
	var o outcome
	if ndCase("negotiator", 2) == 0 {
		o = negotiate(proactive.New(), newRequest("Accept", "a/*"), as(reps...)...)
	} else {
		o = negotiate(transparent.New(transparent.MaximumVariantListSize(n)), newRequest("Accept", "a/b", "Negotiate", "*"), as(reps...)...)
	}
	o.observe()
	ndReach("tie")
	ndAssert(o.err == nil && o.w.status() == 200 && string(o.w.body) == string(reps[i].body), "ties go to the first")
}

// C10_Many: 13 and 40 representations without the attributes that headers are
// about, at any of several places another one that is better; with headers of
// any weights of one decimal.
func C10_Many() {
	n := []int{13, 40}[ndPick("representations", 2)]
	place := []int{0, n - 1, n / 2}[ndPick("place", 3)]
	q := ";q=0." + string([]byte{ndByte("weight", digits)})
	kv := [][]string{nil, {"Accept", "z/z" + q}, {"Accept-Language", "nl" + q}, {"Accept-Charset", "x-z" + q}, {"Accept-Encoding", "gzip" + q}}[ndPick("header", 5)]
	var reps []*rep
	for i := 0; i < n; i++ {
		s := spec{q: 0.5, body: "b" + strconv.Itoa(i)}
		if i == place {
			s.q = 0.6
		}
		reps = append(reps, newRep(s))
	}
	o := negotiate(proactive.New(), newRequest(kv...), as(reps...)...)
	o.observe()
	ndReach("served")
	ndAssert(o.served(reps...) == place, "a header doesn't concern a representation without the attribute")
}

// C17_Many: list responses of 11, 33 and 101 variants with a larger maximum,
// of which any one has any two letters as its type and is of 9999 to 131072
// (one variant: 1000000) bytes, and has no source quality or one, where locations are absolute, relative, or have what URLs may.
func C17_Many() {
	n := []int{1, 11, 33, 101}[ndCase("variants", 4)]
	place := []int{0, n - 1, n / 2}[ndPick("place", ndBound(2, 3))]
	mt := "a/" + ndStr("type", 2, "abC")
	sizes := []int{0, 9999, 10000, 65536, 131072}
	if n == 1 {
		sizes = append(sizes, 1000000)
	}
	zero := ndPick("zero", 2)
	size := sizes[ndPick("size", len(sizes))]
	locs := []string{"http://example.org/dir/a?b=c", "/a", "a", "?x", "//h/a", "http://h:8080/a%20b", "http://u:p@h/", "http://h", "urn:isbn:1", "/a%2Fb#f", "http://h/~a/b;c=1,2?d=%22e%22", ""}
	loc := locs[ndPick("location", len(locs))]
	var reps []*rep
	text := ""
	for i := 0; i < n; i++ {
		s := spec{mt: "b/c", q: 0.5, body: "12"}
		where := "x" + strconv.Itoa(i)
		length, quality := 2, "0.500"
		if i == place {
			s.mt, where, length = mt, loc, size
			s.q, quality = []float32{0.5, 0}[zero], []string{"0.500", "0.000"}[zero]
			s.body = filled(size)
		}
		u, _ := url.Parse(where)
		s.loc = *u
		reps = append(reps, newRep(s))
		text += "{ \"" + where + "\" " + quality + " { charset  } { features  } { language  } { length " + strconv.Itoa(length) + " } { type " + s.mt + " } },"
	}
	first := "x0"
	if place == 0 {
		first = loc
	}
	list := newRep(spec{mt: "l/l", q: 1, body: "list"})
	o := negotiate(transparent.New(transparent.MaximumVariantListSize(n), transparent.ListRepresentation(only(list))), newRequest(), as(reps...)...)
	o.observe()
	ndReach("list")
	ndAssert(o.err == nil && o.w.status() == 300 && o.w.get("Tcn") == "list", "the TCN of a list response is 'list'")
	ndAssert(o.w.get("Alternates") == text+"{ \""+first+"\" }", "a list response describes every variant and ends with the fallback")
}

// C19_Many: elements of lengths up to 300, of which any two letters are
// symbolic, with up to eight parameters and up to 70 elements, in each header:
// none is an error.
func C19_Many() {
	h := ndCase("header", headers+2)
	n := []int{1, 20, 64, 255}[ndPick("length", 4)]
	long := strings.Repeat("x", n) + ndStr("letters", 2, "abcXYZ019")
	count := []int{1, 20, 70}[ndPick("elements", 3)]
	var kv []string
	var element string
	switch h {
	case media:
		element = []string{"application/" + long, long + "/b", "a/b;" + long + "=" + long, "a/b;p=\"" + long + "\";q=0.5", "a/b;a=1;b=2;c=3;d=4;e=5;f=6;g=7;" + long[n:] + "=8"}[ndPick("kind", 5)]
	case lang:
		element = []string{"en-x-" + strings.Repeat("abcdefgh-", n/9) + "ab;q=0.5", "zh-hant-hk", "de-1996"}[ndPick("kind", 3)]
	case charset:
		element = long + ";q=0.5"
	case coding:
		element = []string{"gzip;q=0.5", "identity", "br ; q=1.000"}[ndPick("kind", 3)]
	case headers:
		element = []string{long, "!" + long, long + "=" + long, long + "!=\"" + long + "\"", long + "={" + long + "}"}[ndPick("kind", 5)]
	default:
		element = long
	}
	text := strings.Repeat(element+", ", count-1) + element
	name := "Accept-Features"
	if h < headers {
		name = headerNames[h]
	} else if h > headers {
		name = "Negotiate"
	}
	kv = []string{name, text}
	if h != headers+1 {
		kv = append(kv, "Negotiate", "*")
	}
	reps := listed()
	reps[0].SetContentFeatures([]string{"tag"})
	ndReach("negotiated")
	o := negotiate(proactive.New(), newRequest(kv...), as(reps...)...)
	ndAssert(o.err == nil, "the proactive negotiator accepts what is valid")
	o = negotiate(transparent.New(), newRequest(kv...), as(reps...)...)
	ndAssert(o.err == nil, "the transparent negotiator accepts what is valid")
}

// C20_Params: a media range of three or four parameters of any digits and a
// representation of three to five, in any of two orders.
func C20_Params() {
	digit := func(k string) string { return string([]byte{ndByte(k, "12")}) }
	n := 2 + ndPick("range", 3)
	m := 2 + ndPick("type", 4)
	a, b := "a/b", "a/b"
	matches := n <= m
	for i := 0; i < 5; i++ {
		k := strconv.Itoa(i)
		p := ";p" + k + "="
		x, y := digit("range"+k), digit("type"+k)
		if i < n {
			a += p + x
			matches = matches && x == y
		}
		if i < m {
			if ndPick("quoted", 2) == 1 {
				y = "\"" + y + "\""
			}
			b += p + y
		}
	}
	r := typed(b, "1")
	o := negotiate(proactive.New(proactive.DisableNotAcceptableRepresentation()), newRequest("Accept", a), r)
	o.observe()
	ndAssert(o.err == nil, "no error")
	if matches {
		ndReach("matches")
		ndAssert(o.w.status() == 200, "a range matches a type with all of its parameters")
	} else {
		ndReach("mismatch")
		ndAssert(o.w.status() == 406, "a range doesn't match a type without one of its parameters")
	}
}

// C21_Long: tags and values that begin with 1 to 40 equal letters and end with
// any letter, announced among up to 20 other tags, or values.
func C21_Long() {
	n := []int{1, 8, 16, 40}[ndPick("length", 4)]
	prefix := strings.Repeat("org.", n/4) + "t"
	letter := func(k string) string { return string([]byte{ndByte(k, "abc")}) }
	x, y := letter("announced"), letter("required")
	count := []int{0, 4, 20}[ndPick("others", 3)]
	place := []int{0, count, count / 2}[ndPick("place", 3)]
	kind := ndPick("kind", 3)
	var es []string
	for i := 0; i <= count; i++ {
		k := strconv.Itoa(i)
		switch {
		case i == place && kind == 0:
			es = append(es, prefix+x)
		case i == place:
			es = append(es, "tag="+prefix+x)
		case kind == 0:
			es = append(es, "other"+k)
		default:
			es = append(es, "tag=other"+k)
		}
	}
	predicate := []string{prefix + y, "tag=" + prefix + y, "tag!=" + prefix + y}[kind]
	holds := x == y
	if kind == 2 {
		holds = !holds
	}
	ndReach("announced")
	ndAssert(chosen(strings.Join(es, ", "), predicate) == holds, "a predicate holds of what is announced")
}

// C22_Many: lists of up to 20 elements, and bags of up to 12 predicates, of
// which the one at the start, the end or in between is true or not and has
// factors of any digits, where the others have none and are true, or false in
// bags.
func C22_Many() {
	n := []int{5, 9, 20}[ndPick("elements", 3)]
	place := []int{0, n - 1, n / 2}[ndPick("place", 3)]
	truth := ndPick("truth", 2) == 1
	var feats []string
	product := 0
	if ndPick("bag", 2) == 0 {
		predicate := []string{"no", "yes"}[ndPick("truth", 2)]
		text, yes, no := factored("factors", predicate)
		for i := 0; i < n; i++ {
			if i == place {
				feats = append(feats, text)
			} else {
				feats = append(feats, []string{"yes", "color=4", "[ no yes ]"}[i%3])
			}
		}
		if product = no; truth {
			product = yes
		}
	} else {
		bag := "["
		for i := 0; i < n; i++ {
			bag += " "
			if i == place && truth {
				bag += "yes"
			} else {
				bag += []string{"no", "color=5", "no=[1-2]"}[i%3]
			}
		}
		text, yes, no := factored("factors", bag+" ]")
		feats = []string{text}
		if product = no; truth {
			product = yes
		}
	}
	q := ndInt("other", 1, 99)
	ndAssume(product*10 != q)
	ndReach("compared")
	ndAssert(above(1000, feats, q*10, "yes, color=4") == (product*10 > q), "every element of the list counts")
}

// C24_Many: chains of 5, 8 and 20 codings that don't commute, of which the first, the last
// and one in between are any of three, with bodies of any two bytes.
func C24_Many() {
	n := []int{5, 8, 20}[ndPick("codings", 3)]
	var names []string
	body := "z" + ndStr("body", 2, "")
	want := []byte("x:" + body)
	for i := 0; i < n; i++ {
		c := byte('a' + i%3)
		if i == 0 || i == n-1 || i == 4 {
			c = ndByte("coding"+strconv.Itoa(i), "abc")
		}
		names = append(names, "x-"+string([]byte{c}))
		want = encoded(c, want)
	}
	b := coded("text/x-x", names)
	got, err := b.Bytes(&text{body})
	ndAssert(err == nil, "serialization succeeds")
	ndAssert(string(got) == string(want), "codings are applied in the order listed")
	var back text
	err = b.FromBytes(got, &back)
	ndReach("back")
	ndAssert(err == nil && back.s == body, "decoding gives back what was encoded")
}

// C26_Many: negotiations of 13 and 40 representations, of any source qualities
// of one decimal at two places, with each of the negotiators, leave what they
// are given as it was.
func C26_Many() {
	h := ndCase("header", headers)
	n := 13
	if ndBound(0, 1) == 1 || h != lang {
		n = []int{13, 40}[ndPick("representations", 2)]
	}
	names := crowd(h, n)
	var reps []*rep
	for i := 0; i < n; i++ {
		reps = append(reps, of(h, names[i%len(names)], "b"+strconv.Itoa(i), float32(n-i)/float32(n+1)))
	}
	reps[3].SetSourceQuality(float32(ndInt("source", 0, 10)) / 10)
	given := as(reps...)
	var es []string
	for i, name := range names {
		es = append(es, name+";q=0."+strconv.Itoa(10+i))
	}
	value := strings.Join(es, ",")
	r := newRequest("Negotiate", "1.0", headerNames[h], value, headerNames[h], es[0])
	for _, t := range []negotiator.Negotiator{proactive.New(), transparent.New(transparent.MaximumVariantListSize(n)), reactive.New()} {
		first := negotiate(t, r, given...)
		second := negotiate(t, r, given...)
		ndAssert(same(first, second), "the outcome is the same once more")
		kept := len(r.Header) == 2 && len(r.Header[headerNames[h]]) == 2 && r.Header[headerNames[h]][0] == value && r.Header[headerNames[h]][1] == es[0]
		for i, g := range given {
			kept = kept && g == representation.Representation(reps[i])
		}
		ndReach("kept")
		ndAssert(kept, "the request and the representations are left as they were")
	}
}

// C28_Many: 5, 13 and 40 elements of any of the six headers, each in a header
// of its own, compared with the same elements in one, or in two headers that
// are separated at any of several places; two elements have any weights of one
// decimal.
func C28_Many() {
	h := ndCase("header", allHeaders)
	sizes := []int{5, 13, 40}
	if ndBound(0, 1) == 0 && h == lang {
		sizes = sizes[:2]
	}
	n := sizes[ndPick("elements", len(sizes))]
	t := regarding(h)
	name, known := elements(h)
	var es []string
	for i := 0; i < n-len(known); i++ {
		k := strconv.Itoa(i)
		switch {
		case h == coding:
			es = append(es, manyCodings[i%5+1]+";q=0.5")
		case h < headers:
			names := crowd(h, n)
			es = append(es, names[i%len(names)]+";q=0.5")
		case h == directives:
			es = append(es, "x"+k)
		default:
			es = append(es, "other"+k)
		}
	}
	switch ndPick("place", 2) {
	case 0:
		es = append(es, known...)
	case 1:
		es = append(append([]string{known[0]}, es...), known[1:]...)
	}
	reps := listed()
	one := rest(h)
	for _, e := range es {
		one = append(one, name, e)
	}
	split := []int{0, 1, n / 2, n - 1}[ndPick("split", 4)]
	several := rest(h)
	if split > 0 {
		several = append(several, name, strings.Join(es[:split], ","))
	}
	several = append(several, name, strings.Join(es[split:], ", "))
	a := negotiate(t, newRequest(one...), as(reps...)...)
	b := negotiate(t, newRequest(several...), as(reps...)...)
	a.observe()
	ndReach("compared")
	ndAssert(a.err == nil, "no error")
	ndAssert(same(a, b), "elements of one header are the same as several headers")
}

// C29_Many: headers as of C04_Many (but for languages,
// whose order matters), reversed and rotated: the outcome is the same.
func C29_Many() {
	h := []int{media, charset, coding}[ndCase("header", 3)]
	c := newCrowded(h)
	wildcard := []string{"*/*", "*", "*", "*"}[h] + ";q=0.3"
	es := append(append([]string{}, c.es...), wildcard)
	var other []string
	if ndPick("rotated", 2) == 0 {
		for i := len(es) - 1; i >= 0; i-- {
			other = append(other, es[i])
		}
	} else {
		other = append(append(other, es[len(es)/2:]...), es[:len(es)/2]...)
	}
	t := proactive.New(proactive.DisableNotAcceptableRepresentation())
	a := negotiate(t, newRequest(headerNames[h], strings.Join(es, ",")), as(c.reps...)...)
	b := negotiate(t, newRequest(headerNames[h], strings.Join(other, ",")), as(c.reps...)...)
	a.observe()
	ndReach("compared")
	ndAssert(same(a, b), "the order of preferences has no effect")
}

// C30_Foreign: algorithms that choose a representation which isn't one of those
// provided, of any body of two bytes, among none to 30 others.
func C30_Foreign() {
	n := []int{1, 2, 30}[ndPick("representations", 3)]
	reps := several(n)
	made := newRep(spec{mt: "made/up", lang: "en", q: float32(ndInt("source", 0, 10)) / 10, body: ndStr("body", 2, ""), loc: at("made")})
	made.body = append([]byte("made"), made.body...)
	c := &chooser{choice: made}
	var o outcome
	kv := [][]string{nil, {"Accept", "z/z, a/*;q=0.5"}, {"Accept-Encoding", "gzip, identity;q=0.5"}}[ndPick("header", 3)]
	switch ndCase("negotiator", 2) {
	case 0:
		o = negotiate(proactive.New(proactive.Algorithm(c)), newRequest(kv...), as(reps...)...)
	case 1:
		o = negotiate(transparent.New(transparent.RVSA(c), transparent.MaximumVariantListSize(n)), newRequest(append(kv, "Negotiate", "*")...), as(reps...)...)
	}
	o.observe()
	ndReach("served")
	ndAssert(given(c.got, reps), "the algorithm is given all of the representations in order")
	ndAssert(o.err == nil && o.w.status() == 200 && string(o.w.body) == string(made.body), "the representation that the algorithm returns is served")
	ndAssert(o.w.get("Content-Type") == "made/up" && o.w.get("Content-Language") == "en", "the representation that the algorithm returns is described")
}
