package main

import (
	"errors"
	"io"
	"net/url"
	"strconv"

	"github.com/freerware/negotiator"
	"github.com/freerware/negotiator/proactive"
	"github.com/freerware/negotiator/reactive"
	"github.com/freerware/negotiator/representation"
	"github.com/freerware/negotiator/transparent"
)

// C03_Empty: representations and lists with a body of none, one or two bytes,
// any of which fails to be serialized, for each negotiator, with and without a
// choice, and when writing fails.
func C03_Empty() {
	sized := func(name string) *rep {
		r := newRep(spec{mt: "a/b", lang: "en", q: 1, loc: at(name)})
		switch k := ndPick(name, 5); k {
		case 0:
			r.body = nil
		case 4:
			r.body, r.err = []byte("x"), errBytes
		default:
			r.body = []byte("xx")[:k-1]
		}
		return r
	}
	v, l := sized("1"), sized("2")
	var n negotiator.Negotiator
	kind := ndCase("negotiator", 3)
	chosen := ndPick("chosen", 2) == 1
	c := &chooser{}
	if chosen {
		c.choice = v
	}
	s, want := l, 300
	switch kind {
	case 0:
		n, want = proactive.New(proactive.Algorithm(c), proactive.DefaultRepresentation(only(l))), 406
	case 1:
		n = transparent.New(transparent.RVSA(c), transparent.ListRepresentation(only(l)))
	case 2:
		n = reactive.New(reactive.Representation(only(l)))
	}
	if chosen && kind < 2 {
		s, want = v, 200
	}
	w := newWriter()
	if ndPick("fails", 2) == 1 {
		w.fail = errWrite
	}
	err := n.Negotiate(negotiator.NegotiationContext{Request: newRequest("Negotiate", "1.0"), ResponseWriter: w}, v)
	o := outcome{w, err}
	o.observe()
	o.failed()
	if s.err != nil || kind == 1 && v.err != nil {
		ndReach("failed")
		ndAssert(err != nil, "a failure is reported")
		return
	}
	if w.refused {
		ndReach("refused")
		ndAssert(err == errWrite, "the error of writing the body is returned")
		return
	}
	ndReach("written")
	ndAssert(err == nil && w.status() == want && !w.early, "exactly one status is written")
	ndAssert(string(w.body) == string(s.body) && w.get("Content-Length") == strconv.Itoa(len(s.body)), "the body is that of the representation")
}

// C07_Spelling: a request after (one or two) others, each of which has one of
// six headers with one letter in either case, in a place in which the letter
// case matters or not, or has one more byte: its response is that of the same
// request with whitespace that has no meaning.
func C07_Spelling() {
	h := ndCase("header", 7)
	value := func(name string) string {
		c := string([]byte{ndByte(name, "xX")})
		more := []string{"", " ", ";q=0.5", "0"}[ndPick(name+".more", 4)]
		return [][]string{{"a/b;p="}, {"a/b;p=\"1", "\""}, {"", "-a"}, {"", "-a"}, {"f="}, {"", "f"}, {"a/", "y"}}[h][0] + c + append([][]string{{"a/b;p="}, {"a/b;p=\"1", "\""}, {"", "-a"}, {"", "-a"}, {"f="}, {"", "f"}, {"a/", "y"}}[h], "")[1] + more
	}
	name := []string{"Accept", "Accept", "Accept-Charset", "Accept-Language", "Accept-Features", "Accept-Features", "Accept"}[h]
	reps := func() []*rep {
		return []*rep{
			newRep(spec{mt: "a/b;p=X", cs: "x-a", feats: []string{"f=X"}, q: 1, body: "1", loc: at("1")}),
			newRep(spec{mt: "a/b;p=x", lang: "en", feats: []string{"f=x"}, q: 1, body: "2", loc: at("2")}),
			newRep(spec{mt: "a/b;p=1X", cs: "x-b", feats: []string{"f"}, q: 0.9, body: "3", loc: at("3")}),
			newRep(spec{mt: "a/xy", q: 0.8, body: "4", loc: at("4")}),
		}
	}
	fresh := func() negotiator.Negotiator { return proactive.New() }
	kv := []string{}
	if name != "Accept" {
		kv = append(kv, "Accept", "a/b")
	}
	if name == "Accept-Features" || name != "Accept-Language" && ndPick("transparent", 2) == 1 {
		kv = append(kv, "Negotiate", "1.0")
		fresh = func() negotiator.Negotiator { return transparent.New() }
	}
	given := reps()
	used := fresh()
	before := value("before")
	ndObserve("before", before)
	negotiate(used, newRequest(append(kv, name, before)...), as(given...)...)
	v := value("value")
	a := negotiate(used, newRequest(append(kv, name, v)...), as(given...)...)
	b := negotiate(fresh(), newRequest(append(kv, name, "\t "+v+" \t")...), as(reps()...)...)
	a.observe()
	ndReach("compared")
	ndAssert(same(a, b), "what was negotiated before has no effect")
}

// C14_Text: a variant of up to 130 characters more or less than the list, each
// of which is one of six, of up to four bytes, and a list of any of these.
func C14_Text() {
	characters := []string{"x", "\u00e4", "\u20ac", "\U0001f600", "\xff", "\n"}
	long := func(name string, size int) string {
		c := characters[ndPick(name, len(characters))]
		s := ""
		for len(s) < size {
			s += c
		}
		return s
	}
	threshold := 50
	opts := []transparent.Option{}
	if ndPick("default", 2) == 0 {
		threshold = ndInt("threshold", 0, 130)
		opts = append(opts, transparent.GuessSmallThreshold(threshold))
	}
	list := newRep(spec{mt: "l/l", q: 1, body: long("list", 60)})
	rep := newRep(spec{mt: "a/b", q: 1, body: long("variant", 60+[]int{-40, -1, 0, 40, 49, 50, 51, 70, 100, 130}[ndPick("delta", 10)]), loc: at("1")})
	opts = append(opts, transparent.RVSA(&chooser{choice: rep}), transparent.ListRepresentation(only(list)))
	o := negotiate(transparent.New(opts...), newRequest("Negotiate", "guess-small"), rep)
	o.observe()
	ndAssert(o.err == nil, "no error")
	if delta := len(rep.body) - len(list.body); delta < 0 || delta <= threshold {
		ndReach("choice")
		ndAssert(o.w.status() == 200 && o.w.get("Tcn") == "choice" && len(o.w.body) == len(rep.body), "a small choice is served")
	} else {
		ndReach("list")
		ndAssert(o.w.status() == 300 && o.w.get("Tcn") == "list" && len(o.w.body) == len(list.body), "a choice that is too large is not served")
	}
}

// C16_Sources: two variants with source qualities of four (thorough: also five)
// decimals, of which the last one is any, and no weights.
func C16_Sources() {
	scale := []int{10000, 100000}[ndPick("decimals", ndBound(1, 2))]
	base := []int{5000, 9990, 10, 0}[ndPick("base", 4)]
	x, y := base+ndInt("first", 1, 9), base+ndInt("second", 1, 9)
	vs := []*rep{
		newRep(spec{mt: "a/c", q: float32(x) / float32(scale), body: "1", loc: at("1")}),
		newRep(spec{mt: "a/d", q: float32(y) / float32(scale), body: "2", loc: at("2")}),
	}
	o := negotiate(transparent.New(), newRequest("Accept", "a/c, a/d", "Negotiate", "*"), as(vs...)...)
	o.observe()
	if x >= y {
		ndReach("first")
		ndAssert(o.served(vs...) == 0, "the variant selected is of the highest overall quality")
	} else {
		ndReach("second")
		ndAssert(o.served(vs...) == 1, "the variant selected is of the highest overall quality")
	}
}

// shortWriter is an encoder that fails after some of the data is written.
type shortWriter struct {
	w    io.WriteCloser
	n    int
	fail error
}

func (w *shortWriter) Write(b []byte) (int, error) {
	n := w.n
	if n > len(b) {
		n = len(b)
	}
	if _, err := w.w.Write(b[:n]); err != nil {
		return 0, err
	}
	return n, w.fail
}

func (w *shortWriter) Close() error { return w.w.Close() }

// C25_Partly: an encoder at any position of one to three codings that writes
// any number of bytes of the data, or all of it, and fails with any of four
// errors.
func C25_Partly() {
	n := 1 + ndPick("codings", 3)
	at := ndPick("at"+strconv.Itoa(n), n)
	names := []string{"x-a", "x-b", "x-c"}[:n]
	names = append([]string{}, names...)
	names[at] = "x-f"
	b := coded("text/x-x", names)
	fail := []error{errFault, io.EOF, io.ErrShortWrite, io.ErrUnexpectedEOF}[ndPick("error", 4)]
	k := []int{0, 1, 2, 1000}[ndPick("written", 4)]
	b.SetEncodingWriters(map[string]representation.EncodingWriterConstructor{
		"x-a": writerOf('a'), "x-b": writerOf('b'), "x-c": writerOf('c'),
		"x-f": func(w io.WriteCloser) (io.WriteCloser, error) {
			return &shortWriter{w, k, fail}, nil
		},
	})
	got, err := b.Bytes(&text{"z" + ndStr("body", ndPick("length", 3), "")})
	ndReach("written")
	ndAssert(errors.Is(err, fail), "the failure of an encoder is returned")
	ndAssert(len(got) == 0, "and no data is")
}

// C26_Resources: each negotiator, with one of several URLs of the request, of
// which any letter of the host and path is in either case, with a port, user
// information, query and fragment, and of variants next to it or not.
func C26_Resources() {
	n := sharedNegotiator()
	c := func(name string, l byte) string {
		return string([]byte{ndByte(name, string([]byte{l, l - 'a' + 'A'}))})
	}
	u := url.URL{Scheme: "http", Host: "example.or" + c("host", 'g'), Path: "/di" + c("path", 'r') + "/thing"}
	switch ndPick("form", 6) {
	case 1:
		u.Host += ":80"
	case 2:
		u.User, u.RawQuery, u.Fragment = url.UserPassword("u", "p"), "a=%20b", "f"
	case 3:
		u.Path, u.RawPath = "/a b/c", "/a%20b/c"
	case 4:
		u.Scheme, u.Host, u.Path = "", "", "thing"
	case 5:
		u.Path, u.ForceQuery = "", true
	}
	r := newRequest("Accept", "a/b", "Negotiate", []string{"1.0", "*", "guess-small", "trans"}[ndPick("negotiate", 4)])
	r.URL, r.Host, r.RequestURI = &u, u.Host, u.String()
	r.Method = []string{"GET", "HEAD", "post"}[ndPick("method", 3)]
	reps := as(newRep(spec{mt: "a/b", q: 1, body: "1", loc: url.URL{Scheme: "http", Host: "example.org", Path: "/dir/1"}}), newRep(spec{mt: "A/c", q: 1, body: "2", loc: u}))
	if ndPick("second", 2) == 1 {
		reps[0], reps[1] = reps[1], reps[0]
	}
	before, method, host, uri := u, r.Method, r.Host, r.RequestURI
	together(n, r, reps)
	ndAssert(u == before && r.URL == &u && r.Method == method && r.Host == host && r.RequestURI == uri, "the request is left alone")
}

// C29_Absent: three representations that have any (or none) of three values of
// one of the attributes, and any of two sizes, in any order, with and without a
// header with weights of one decimal.
func C29_Absent() {
	h := ndCase("attribute", headers)
	values := [][]string{{"", "a/b", "text/html;level=2"}, {"", "en", "de"}, {"", "iso-8859-1", "x-a"}, {"", "gzip", "identity"}}[h]
	var reps []*rep
	for i := 0; i < 3; i++ {
		k := strconv.Itoa(i)
		s := spec{q: 1, body: k}
		if h != lang || ndBound(0, 1) == 1 {
			s.body += []string{"", "x"}[ndPick("size"+k, 2)]
		}
		v := values[ndPick("value"+k, 3)]
		switch h {
		case media:
			s.mt = v
		case lang:
			s.lang = v
		case charset:
			s.cs = v
		case coding:
			if v != "" {
				s.enc = []string{v}
			}
		}
		reps = append(reps, newRep(s))
	}
	var kv []string
	if ndPick("header", 2) == 1 {
		kv = append(kv, headerNames[h], [][]string{{"a/b", "text/*"}, {"en", "*"}, {"x-a", "*"}, {"gzip", "*"}}[h][0]+";q=0."+string([]byte{ndByte("q1", digits)})+", "+[]string{"text/*", "*", "*", "*"}[h]+";q=0.5")
	}
	p := permutations[ndPick("permutation", len(permutations))]
	n := proactive.New(proactive.DisableNotAcceptableRepresentation())
	r := newRequest(kv...)
	a := negotiate(n, r, as(reps...)...)
	b := negotiate(n, r, as(reps[p[0]], reps[p[1]], reps[p[2]])...)
	i, j := a.served(reps...), b.served(reps...)
	ndObserveInt("served", i)
	if i == j || i < 0 || j < 0 {
		ndReach("same")
		ndAssert(i == j, "the order of representations has no effect on whether one is served")
		return
	}
	c := negotiate(n, r, as(reps[i], reps[j])...)
	d := negotiate(n, r, as(reps[j], reps[i])...)
	ndReach("tied")
	ndAssert(c.served(reps...) == i && d.served(reps...) == j, "the order of representations has no effect unless they are equally good")
}

// C30_Compared: guess-small with a configured list of 0, 100 or 1000 bytes, an
// algorithm that selects a variant of 1, 149, 151 or 1040 bytes or none, and the
// default or another threshold: what is served is the choice or the list.
func C30_Compared() {
	size := []int{0, 100, 1000}[ndCase("list", 3)]
	length := []int{1, 149, 151, 1040}[ndPick("variant", 4)]
	l := &recorder{list: newRep(spec{mt: "l/l", q: 1, body: filled(size)})}
	reps := []*rep{newRep(spec{mt: "a/b", q: 1, body: "first", loc: at("1")}), newRep(spec{mt: "a/c", q: 0.5, body: filled(length), loc: at("2")})}
	c := &chooser{}
	chosen := ndPick("chosen", 2) == 1
	if chosen {
		c.choice = reps[1]
	}
	threshold := 50
	opts := []transparent.Option{transparent.ListRepresentation(l.construct), transparent.RVSA(c)}
	if ndPick("default", 2) == 0 {
		threshold = []int{0, 48, 49, 51, 1000, 1040}[ndPick("threshold", 6)]
		opts = append(opts, transparent.GuessSmallThreshold(threshold))
	}
	o := negotiate(transparent.New(opts...), newRequest("Negotiate", "guess-small"), as(reps...)...)
	o.observe()
	ndAssert(o.err == nil && given(l.got, reps) && given(c.got, reps), "the list and the algorithm are given all of the representations")
	if chosen && length-size <= threshold {
		ndReach("choice")
		ndAssert(o.w.status() == 200 && len(o.w.body) == length, "the representation that the algorithm returns is served")
	} else {
		ndReach("list")
		ndAssert(o.w.status() == 300 && len(o.w.body) == size, "the list is that of the configured constructor")
	}
}

// C05_Sources: one to three representations, of which one is acceptable for a
// header of any weight of one decimal, with source qualities that are negative,
// zero, tiny or above one (thorough: also one and far above).
func C05_Sources() {
	qualities := []float32{1.001, -1, 0, 0.5, 0.0001, 1, 2, 1000}[:ndBound(5, 8)]
	n := 1 + ndPick("more", 3)
	acceptable := ndPick("acceptable"+strconv.Itoa(n), n)
	h := ndCase("header", headers)
	var reps []*rep
	for i := 0; i < n; i++ {
		k := strconv.Itoa(i)
		s := spec{q: qualities[ndPick("quality"+k, len(qualities))], body: k}
		value := []string{"a/b", "en", "x-a", "gzip"}[h]
		if i != acceptable {
			value = []string{"a/c", "fr", "x-b", "deflate"}[h]
		}
		switch h {
		case media:
			s.mt = value
		case lang:
			s.lang = value
		case charset:
			s.cs = value
		case coding:
			s.enc = []string{value}
		}
		reps = append(reps, newRep(s))
	}
	q := ndByte("q", "123456789")
	kv := []string{headerNames[h], []string{"a/b", "en", "x-a", "gzip"}[h] + ";q=0." + string([]byte{q})}
	o := negotiate(proactive.New(), newRequest(kv...), as(reps...)...)
	o.observe()
	ndReach("served")
	ndAssert(o.err == nil && o.served(reps...) == acceptable, "the acceptable representation is served")
}

// C07_Often: seven (thorough: twenty) negotiations of each kind of up to three
// requests by one negotiator, over representations of which the first two are
// tied: each response is that of another negotiator to the first one.
func C07_Often() {
	fresh := func() negotiator.Negotiator { return proactive.New() }
	kv := [][]string{{"Accept", "a/*;q=0." + string([]byte{ndByte("q", "123456789")})}, {"Accept", "z/z"}, {"Accept", "a/b;q=x"}}
	switch ndCase("negotiator", 3) {
	case 1:
		fresh = func() negotiator.Negotiator { return transparent.New() }
		kv = [][]string{{"Accept", "a/b;q=0." + string([]byte{ndByte("q", "123456789")}), "Negotiate", "1.0"}, {"Accept", "z/z", "Negotiate", "*"}, {"Negotiate", "trans"}}
	case 2:
		fresh = func() negotiator.Negotiator { return reactive.New() }
	}
	reps := []*rep{typed("a/b", "1"), typed("a/b", "2"), typed("a/b", "333")}
	for i, r := range reps {
		r.SetContentLocation(at(strconv.Itoa(i)))
	}
	n := fresh()
	k := 1 + ndPick("requests", 3)
	var first []outcome
	for i := 0; i < k; i++ {
		first = append(first, negotiate(fresh(), newRequest(kv[i]...), as(reps...)...))
	}
	first[0].observe()
	for i := 0; i < ndBound(7, 20); i++ {
		o := negotiate(n, newRequest(kv[i%k]...), as(reps...)...)
		ndAssert(same(o, first[i%k]), "the same request gets the same response")
	}
	ndReach("compared")
}

// C09_Sources: the default lists of each negotiator, of one or two
// representations whose source qualities have up to nine decimals, or are
// negative or large.
func C09_Sources() {
	qualities := []float32{0, 1, 0.5, 0.1234, 0.99999, 0.0004, 0.00001, 0.123456789, 1.5, -0.25, 1000000, 0.000001}
	texts := []string{"0", "1", "0.5", "0.1234", "0.99999", "0.0004", "0.00001", "0.12345679", "1.5", "-0.25", "1000000", "0.000001"}
	want := ""
	var reps []*rep
	for i := 0; i < 1+ndPick("second", 2); i++ {
		k := ndPick("quality"+strconv.Itoa(i), len(qualities))
		reps = append(reps, newRep(spec{q: qualities[k], body: strconv.Itoa(i)}))
		if i > 0 {
			want += ","
		}
		want += "{\"sourceQuality\":" + texts[k] + "}"
	}
	var n negotiator.Negotiator
	status := 300
	switch ndCase("negotiator", 3) {
	case 0:
		n, status = proactive.New(proactive.Algorithm(&chooser{})), 406
	case 1:
		n = transparent.New(transparent.RVSA(&chooser{}))
	case 2:
		n = reactive.New()
	}
	o := negotiate(n, newRequest(), as(reps...)...)
	o.observe()
	ndReach("listed")
	ndAssert(o.err == nil && o.w.status() == status, "the representations are listed")
	ndAssert(string(o.w.body) == "{\"representations\":["+want+"]}", "the list describes every representation")
}

// C12_Variants: one to four variants, each of which the algorithm selects or
// not, with one or two of ten directives, and lists that are larger or smaller.
func C12_Variants() {
	directives := []string{"trans", "vlist", "guess-small", "*", "1.0", "1.1", "2.0", "0.0", "x-y=z", ""}
	first, second := ndPick("first", len(directives)), ndPick("second", len(directives))
	if directives[first] == "" && directives[second] == "" {
		// which isn't a valid header.
		return
	}
	allowed := first > 1 && first < 5 || second > 1 && second < 5
	n := 1 + ndCase("variants", 4)
	var reps []*rep
	for i := 0; i < n; i++ {
		reps = append(reps, newRep(spec{mt: "a/b", q: 1, body: strconv.Itoa(i), loc: at(strconv.Itoa(i))}))
	}
	c := &chooser{}
	if k := ndPick("choice"+strconv.Itoa(n), n+1); k < n {
		c.choice = reps[k]
	}
	size := []int{0, 200}[ndPick("list", 2)]
	o := negotiate(transparent.New(transparent.RVSA(c), transparent.ListRepresentation(only(newRep(spec{mt: "l/l", q: 1, body: filled(size)})))), newRequest("Negotiate", directives[first]+","+directives[second]), as(reps...)...)
	o.observe()
	ndAssert(o.err == nil, "no error")
	if allowed && c.choice != nil {
		ndReach("choice")
		ndAssert(o.w.status() == 200 && o.w.get("Tcn") == "choice", "a choice is served when it is allowed")
	} else {
		ndReach("list")
		ndAssert(o.w.status() == 300 && o.w.get("Tcn") == "list", "a list is served otherwise")
	}
}

// C20_Tags: a representation in a language of any of twelve forms, and the
// wildcard with any weight of one decimal, along with the language itself with
// any other one or not, competing with one of a fixed weight.
func C20_Tags() {
	tag := []string{"x-klingon", "i-navajo", "zh-Hant-TW", "sr-Latn-RS", "de-CH-1996", "sgn", "EN", "en-us", "es-419", "art-lojban", "de-x-y", "en-GB"}[ndCase("tag", 12)]
	a := tenth("wildcard", element{text: "*"})
	text, v := a.String(), a.v
	switch ndPick("same", 3) {
	case 1:
		e := tenth("first", element{text: tag})
		text, v = e.String()+", "+text, e.v
	case 2:
		e := tenth("second", element{text: tag})
		text, v = text+","+e.String(), e.v
	}
	reps := []*rep{newRep(spec{lang: tag, q: 1, body: "1"}), newRep(spec{lang: "ja", q: 1, body: "2"})}
	o := negotiate(proactive.New(), newRequest("Accept-Language", "ja;q=0.45, "+text), as(reps...)...)
	o.observe()
	ndAssert(o.err == nil, "no error")
	if v > 450 {
		ndReach("matched")
		ndAssert(o.served(reps...) == 0, "the language itself, or the wildcard, applies")
	} else {
		ndReach("other")
		ndAssert(o.served(reps...) == 1, "the language itself, or the wildcard, applies")
	}
}

// C30_Lists: one to six configured lists, any one of which is of the type that
// the request asks for, or none, for the default algorithm, and an algorithm
// that selects any of them.
func C30_Lists() {
	n := 1 + ndCase("lists", 6)
	wanted := ndPick("wanted"+strconv.Itoa(n), n+1)
	var ls []*recorder
	var ctors []representation.ListConstructor
	for i := 0; i < n; i++ {
		s := spec{mt: "l/x", q: 1, body: "list" + strconv.Itoa(i)}
		if i == wanted {
			s.mt = "l/l"
		}
		l := &recorder{list: newRep(s)}
		ls, ctors = append(ls, l), append(ctors, l.construct)
	}
	def := &recorder{list: newRep(spec{mt: "l/d", q: 1, body: "default"})}
	options := []proactive.Option{proactive.Representations(ctors...), proactive.DefaultRepresentation(def.construct)}
	reps := []*rep{typed("a/b", "1"), typed("a/c", "2")}
	q := ndByte("q", "123456789")
	o := negotiate(proactive.New(options...), newRequest("Accept", "l/l;q=0."+string([]byte{q})), as(reps...)...)
	o.observe()
	ndAssert(o.err == nil && o.w.status() == 406, "the request is refused")
	if wanted < n {
		ndReach("list")
		ndAssert(string(o.w.body) == string(ls[wanted].list.body) && given(ls[wanted].got, reps), "the list is constructed by any of those configured")
	} else {
		ndReach("default")
		ndAssert(string(o.w.body) == "default" && given(def.got, reps), "the default list is served when none is acceptable")
	}
}
