package main

import (
	"context"
	"crypto/tls"
	"net/http"
	"net/url"
	"time"

	"github.com/freerware/negotiator"
	"github.com/freerware/negotiator/proactive"
	"github.com/freerware/negotiator/reactive"
	"github.com/freerware/negotiator/representation"
	"github.com/freerware/negotiator/transparent"
)

// irrelevant are headers that negotiation does not regard.
var irrelevant = [][2]string{
	{"Referer", "http://example.org/thing"},
	{"User-Agent", "Mozilla/4.0 (compatible; MSIE 6.0; Windows NT 5.1)"},
	{"User-Agent", "curl/8"},
	{"If-None-Match", "\"1\", *"},
	{"If-Modified-Since", "Thu, 19 Nov 2026 00:00:00 GMT"},
	{"Range", "bytes=0-0"},
	{"Cookie", "lang=fr; theme=dark"},
	{"Cache-Control", "no-cache, no-transform, only-if-cached"},
	{"Pragma", "no-cache"},
	{"Connection", "close"},
	{"X-Requested-With", "XMLHttpRequest"},
	{"Origin", "http://example.com"},
	{"Authorization", "Basic YTpi"},
	{"Dnt", "1"},
	{"Save-Data", "on"},
	{"Te", "trailers, deflate;q=0"},
	{"Expect", "100-continue"},
	{"X-Forwarded-Proto", "https"},
	{"X-Forwarded-Host", "example.com"},
	{"Forwarded", "host=example.com;proto=https"},
	{"Content-Type", "a/c"},
	{"Content-Language", "fr"},
	{"Content-Encoding", "gzip"},
	{"Content-Length", "0"},
	{"Content-Location", "http://example.org/2"},
	{"Via", "1.0 proxy"},
	{"Accept-Ranges", "none"},
	{"Accept-Datetime", "Thu, 19 Nov 2026 00:00:00 GMT"},
	{"Accept-Patch", "a/c"},
	{"Accept-Post", "a/c"},
	{"Accept-Ch", "Dpr"},
	{"Prefer", "return=minimal"},
	{"Tcn", "choice"},
	{"Alternates", "{\"2\" 1.0}"},
	{"Vary", "*"},
	{"X-Http-Method-Override", "HEAD"},
	{"X-Accept", "a/c"},
	{"Upgrade-Insecure-Requests", "1"},
	{"Sec-Fetch-Dest", "image"},
	{"", ""},
}

var methods = []string{"GET", "HEAD", "POST", "PUT", "PATCH", "DELETE", "OPTIONS", ""}

// irrelevantly is a request that has, besides the headers, what negotiation
// does not regard: one of the irrelevant headers, any of the methods with any
// of three protocols, a host and an address, a query, a context that is
// done, or forms and trailers.
func irrelevantly(kv ...string) *http.Request {
	r := newRequest(kv...)
	k := ndPick("irrelevant", len(irrelevant)+len(methods)+6)
	switch {
	case k < len(irrelevant):
		if n := irrelevant[k][0]; n != "" {
			r.Header[n] = []string{irrelevant[k][1]}
		}
	case k < len(irrelevant)+len(methods):
		r.Method = methods[k-len(irrelevant)]
		switch ndPick("protocol", 3) {
		case 0:
			r.Proto, r.ProtoMajor, r.ProtoMinor = "HTTP/1.1", 1, 1
		case 1:
			r.Proto, r.ProtoMajor, r.ProtoMinor = "HTTP/1.0", 1, 0
		case 2:
			r.Proto, r.ProtoMajor, r.ProtoMinor = "HTTP/2.0", 2, 0
		}
	case k == len(irrelevant)+len(methods):
		r.Host = "example.com"
	case k == len(irrelevant)+len(methods)+1:
		r.RemoteAddr = "127.0.0.1:80"
		r.RequestURI = "/2"
	case k == len(irrelevant)+len(methods)+2:
		r.URL.Path, r.URL.RawQuery = "/thing.fr.html", "lang=fr&format=json&q=0&accept=a/c&Accept=a%2Fc"
		r.URL.Fragment = "2"
	case k == len(irrelevant)+len(methods)+3:
		r = r.WithContext(cancelled{})
	case k == len(irrelevant)+len(methods)+4:
		r.Form = url.Values{"accept": {"a/c"}, "Accept": {"a/c"}}
		r.PostForm = r.Form
		r.Trailer = http.Header{"Accept": {"a/c"}, "Accept-Language": {"fr"}}
		r.TLS = &tls.ConnectionState{}
		r.Pattern = "/2"
	default:
		r.ContentLength, r.Close = 1, true
		r.TransferEncoding = []string{"gzip", "chunked"}
	}
	return r
}

// cancelled is a context that is done.
type cancelled struct{}

func (cancelled) Deadline() (time.Time, bool) { return time.Time{}, true }
func (cancelled) Done() <-chan struct{} {
	c := make(chan struct{})
	close(c)
	return c
}
func (cancelled) Err() error    { return context.Canceled }
func (cancelled) Value(any) any { return nil }

// respond negotiates the request.
func respond(n negotiator.Negotiator, r *http.Request, creation bool, reps ...representation.Representation) outcome {
	w := newWriter()
	err := n.Negotiate(negotiator.NegotiationContext{Request: r, ResponseWriter: w, IsCreation: creation}, reps...)
	o := outcome{w, err}
	o.observe()
	return o
}

// attributed are two representations that differ in what the header regards,
// along with what of it.
func attributed(h int) (string, string, []*rep) {
	x, y := spec{q: 1, body: "1", loc: at("1")}, spec{q: 1, body: "2", loc: at("2")}
	var a, b string
	switch h {
	case media:
		a, b = "a/b", "a/c"
		x.mt, y.mt = a, b
	case lang:
		a, b = "en", "fr"
		x.lang, y.lang = a, b
	case charset:
		a, b = "x-a", "utf-8"
		x.cs, y.cs = a, b
	case coding:
		a, b = "gzip", "deflate"
		x.enc, y.enc = []string{a}, []string{b}
	}
	return a, b, []*rep{newRep(x), newRep(y)}
}

// C02_Requests: each outcome of each negotiator, with requests of any method
// and protocol, with any of many headers that negotiation does not regard, of
// which the context is a creation or not.
func C02_Requests() {
	r := irrelevantly()
	rep := newRep(spec{mt: "a/b", lang: "en", cs: "x-a", enc: []string{"gzip", "x-b"}, q: 1, body: ndStr("body", 3, ""), loc: at("r")})
	other := typed("x/y", "other")
	creation := ndBool("creation")
	switch ndCase("outcome", 5) {
	case 0:
		o := respond(proactive.New(), r, creation, rep)
		if creation {
			o.describes(201, rep, true)
		} else {
			o.describes(200, rep, true)
		}
	case 1:
		o := respond(proactive.New(proactive.Algorithm(&chooser{}), proactive.DefaultRepresentation(only(rep))), r, creation, other)
		o.describes(406, rep, false)
	case 2:
		o := respond(reactive.New(reactive.Representation(only(rep))), r, creation, other, other)
		o.describes(300, rep, false)
	case 3:
		o := respond(transparent.New(transparent.ListRepresentation(only(rep))), r, creation, other, other)
		o.describes(300, rep, false)
	case 4:
		r.Header["Negotiate"] = []string{"*"}
		o := respond(transparent.New(transparent.RVSA(&chooser{choice: rep})), r, creation, other, rep)
		o.describes(200, rep, true)
	}
}

// weighed negotiates two representations that differ in what one of the headers
// regards, with any weights of one decimal, with irrelevant requests.
func weighed() (o outcome, reps []*rep, v, w int) {
	h := ndCase("header", headers)
	a, b, reps := attributed(h)
	x, y := tenth("first", element{text: a}), tenth("second", element{text: b})
	r := irrelevantly(headerNames[h], x.String()+", "+y.String())
	o = respond(proactive.New(proactive.DisableNotAcceptableRepresentation()), r, false, as(reps...)...)
	return o, reps, x.v, y.v
}

// C04_Requests: representations that differ in what one header regards, with
// any weights of one decimal, with requests that differ in what negotiation
// does not regard.
func C04_Requests() {
	o, reps, v, w := weighed()
	got := o.served(reps...)
	ndReach("served")
	ndAssert((got != 0 || v > 0) && (got != 1 || w > 0), "what is served is acceptable")
	ndAssert(v > 0 || w > 0 || o.w.status() == 406, "nothing is served when nothing is acceptable")
}

// C05_Requests: see C04_Requests.
func C05_Requests() {
	o, _, v, w := weighed()
	if v > 0 || w > 0 {
		ndReach("acceptable")
		ndAssert(o.err == nil && o.w.status() == 200, "an acceptable representation is served")
	}
}

// C06_Requests: see C04_Requests.
func C06_Requests() {
	o, reps, v, w := weighed()
	switch got := o.served(reps...); {
	case v > w:
		ndAssert(got == 0, "the representation served is not beaten")
	case w > v:
		ndAssert(got == 1, "the representation served is not beaten")
	case v > 0:
		ndReach("tie")
		ndAssert(got == 0, "ties go to the first")
	}
}

// C08_Requests: a header that none of the representations satisfies, with and
// without strict mode, with requests that differ in what negotiation does not
// regard.
func C08_Requests() {
	h := ndCase("header", 3)
	_, _, reps := attributed(h)
	other := tenth("other", element{text: []string{"z/z", "nl", "x-z"}[h]})
	var opts []proactive.Option
	strict := ndPick("strict", 2) == 1
	if !strict {
		opts = append(opts, []proactive.Option{proactive.DisableStrictAccept(), proactive.DisableStrictAcceptLanguage(), proactive.DisableStrictAcceptCharset()}[h])
	}
	o := respond(proactive.New(opts...), irrelevantly(headerNames[h], other.String()), false, as(reps...)...)
	if strict {
		ndReach("strict")
		ndAssert(o.err == nil && o.w.status() == 406, "an unmet header is refused in strict mode")
	} else {
		ndAssert(o.served(reps...) == 0, "an unmet header is disregarded")
	}
}

// C09_Requests: the lists of each negotiator, given to a configured constructor,
// with requests that differ in what negotiation does not regard.
func C09_Requests() {
	reps := several(3)
	l := &recorder{list: newRep(spec{mt: "l/l", q: 1, body: "list"})}
	r := irrelevantly("Accept", "z/z;q=0."+ndStr("q", 1, digits))
	var o outcome
	switch ndCase("negotiator", 3) {
	case 0:
		o = respond(proactive.New(proactive.DefaultRepresentation(l.construct)), r, ndBool("creation"), as(reps...)...)
		ndAssert(o.err == nil && o.w.status() == 406, "refused")
	case 1:
		o = respond(reactive.New(reactive.Representation(l.construct)), r, ndBool("creation"), as(reps...)...)
		ndAssert(o.err == nil && o.w.status() == 300, "listed")
	case 2:
		o = respond(transparent.New(transparent.ListRepresentation(l.construct)), r, ndBool("creation"), as(reps...)...)
		ndAssert(o.err == nil && o.w.status() == 300, "listed")
	}
	ndReach("listed")
	ndAssert(string(o.w.body) == "list" && given(l.got, reps), "the list is constructed of every representation in order")
}

// C11_Requests: reactive negotiation of 0 to 4 representations, with requests
// of any method and protocol, with any of many headers that negotiation does
// not regard, of which the context is a creation or not.
func C11_Requests() {
	n := ndCase("representations", 5)
	reps := several(n)
	l := &recorder{list: newRep(spec{mt: "l/l", q: 1, body: "list"})}
	o := respond(reactive.New(reactive.Representation(l.construct)), irrelevantly(), ndBool("creation"), as(reps...)...)
	ndReach("responded")
	if n == 0 {
		ndAssert(o.err == nil && o.w.status() == 204 && o.w.writes == 0, "no representations have the status 204")
		return
	}
	ndAssert(o.err == nil && o.w.status() == 300, "every choice is offered whatever the headers")
	ndAssert(l.calls == 1 && given(l.got, reps) && string(o.w.body) == "list", "the list is constructed of exactly the representations provided")
}

// transparently negotiates two variants, of which one is a neighbor.
func transparently(value string, choice int) (outcome, []*rep) {
	reps := []*rep{newRep(spec{mt: "a/b", q: 1, body: "1", loc: at("1")}), newRep(spec{mt: "a/c", q: 1, body: "2", loc: at("2")})}
	u := at("2")
	u.Host = "example.com"
	reps[1].SetContentLocation(u)
	kv := []string{}
	if value != "" {
		kv = append(kv, "Negotiate", value)
	}
	c := &chooser{}
	if choice > 0 {
		c.choice = reps[choice-1]
	}
	l := &recorder{list: newRep(spec{mt: "l/l", q: 1, body: "list"})}
	n := transparent.New(transparent.RVSA(c), transparent.ListRepresentation(l.construct))
	return respond(n, irrelevantly(kv...), ndBool("creation"), as(reps...)...), reps
}

// C12_Requests: each Negotiate header, with requests that differ in what
// negotiation does not regard, where the algorithm selects a neighbor, another
// variant, or none.
func C12_Requests() {
	k := ndCase("value", 7)
	choice := ndPick("choice", 3)
	o, _ := transparently([]string{"", "trans", "vlist, 2.0", "trans, x-ext", "*", "trans, 1.0", "guess-small"}[k], choice)
	ndAssert(o.err == nil, "no error")
	if k >= 4 && choice == 1 {
		ndReach("choice")
		ndAssert(o.w.status() == 200 && o.w.get("Tcn") == "choice" && string(o.w.body) == "1", "a selected neighbor is served when the user agent allows it")
	} else {
		ndReach("list")
		ndAssert(o.w.status() == 300 && o.w.get("Tcn") == "list" && string(o.w.body) == "list", "the list is served in all other cases")
	}
}

// C13_Requests: a neighbor and a variant of another host, with requests that
// differ in what negotiation does not regard.
func C13_Requests() {
	if choice := 1 + ndCase("choice", 2); choice == 1 {
		o, reps := transparently("*", choice)
		ndReach("neighbor")
		ndAssert(o.served(reps...) == 0 && o.w.get("Tcn") == "choice", "a neighbor is served as the choice")
	} else {
		o, _ := transparently("*", choice)
		ndReach("stranger")
		ndAssert(o.err == nil && o.w.status() == 300 && o.w.get("Tcn") == "list", "only neighbors are served as choices")
	}
}

// C16_Requests: two variants that differ in what one header regards, with any
// weights of one decimal, with requests that differ in what negotiation does
// not regard.
func C16_Requests() {
	h := ndCase("header", 3)
	a, b, reps := attributed(h)
	x, y := tenth("first", element{text: a}), tenth("second", element{text: b})
	o := respond(transparent.New(), irrelevantly(headerNames[h], x.String()+", "+y.String(), "Negotiate", "1.0"), false, as(reps...)...)
	got := o.served(reps...)
	switch {
	case x.v == 0 && y.v == 0:
		ndReach("none")
		ndAssert(o.err == nil && got < 0 && o.w.status() == 300, "there is a list when no variant is selected")
	case x.v >= y.v:
		ndAssert(got == 0, "the variant selected is of the highest overall quality")
	default:
		ndAssert(got == 1, "the variant selected is of the highest overall quality")
	}
}

// C17_Requests: list and choice responses, with requests that differ in what
// negotiation does not regard.
func C17_Requests() {
	choice := ndCase("choice", 2)
	o, _ := transparently("*", choice)
	all := "{ \"http://example.org/1\" 1.000 { charset  } { features  } { language  } { length 1 } { type a/b } },{ \"http://example.com/2\" 1.000 { charset  } { features  } { language  } { length 1 } { type a/c } }"
	ndAssert(o.err == nil, "no error")
	if choice == 1 {
		ndReach("choice")
		ndAssert(o.w.get("Tcn") == "choice" && o.w.get("Alternates") == all, "a choice response describes every variant without a fallback")
	} else {
		ndReach("list")
		ndAssert(o.w.get("Tcn") == "list" && o.w.get("Alternates") == all+",{ \"http://example.org/1\" }", "a list response describes every variant and ends with the fallback")
	}
}

// C27_Requests: each outcome of each negotiator, with requests that differ in
// what negotiation does not regard, of which the context is a creation or not.
func C27_Requests() {
	s := newScope()
	var n negotiator.Negotiator
	kind := ndCase("negotiator", 3)
	switch kind {
	case 0:
		n = proactive.New(proactive.Scope(s))
	case 1:
		n = transparent.New(transparent.Scope(s))
	case 2:
		n = reactive.New(reactive.Scope(s))
	}
	var reps []representation.Representation
	if ndPick("representations", 2) == 1 {
		reps = as(typed("a/b", "body"))
	}
	accept := []string{"a/b;q=0." + ndStr("q", 1, digits), ";"}[ndPick("accept", 2)]
	o := respond(n, irrelevantly("Accept", accept, "Negotiate", "1.0"), ndBool("creation"), reps...)
	name := []string{"proactive", "transparent", "reactive"}[kind]
	want := ""
	switch {
	case o.err != nil:
		want = "error"
	case kind == 1:
	default:
		want = map[int]string{200: "acceptable", 201: "acceptable", 406: "not_acceptable", 204: "no_content", 300: "multiple_choices"}[o.w.status()]
	}
	ndReach("negotiated")
	for _, c := range []string{"error", "acceptable", "not_acceptable", "multiple_choices", "no_content"} {
		count := int64(0)
		if c == want {
			count = 1
		}
		ndAssert(s.counts[name+":negotiate."+c] == count, "the outcome that the client saw is counted once")
	}
}

// C30_Requests: any choice of a configured algorithm, with requests that differ
// in what negotiation does not regard, of which the context is a creation or not.
func C30_Requests() {
	reps := several(3)
	for i, r := range reps {
		r.body = []byte(string(rune('1' + i)))
	}
	c := &chooser{}
	k := ndPick("choice", 5)
	switch {
	case k < 3:
		c.choice = reps[k]
	case k == 3:
		c.err = errChoose
	}
	l := &recorder{list: newRep(spec{mt: "l/l", q: 1, body: "list"})}
	creation := ndPick("creation", 2) == 1
	r := irrelevantly("Negotiate", "*", "Accept", "a/*;q=0."+ndStr("q", 1, digits[1:]))
	var o outcome
	status, refused := 200, 406
	if ndCase("negotiator", 2) == 0 {
		o = respond(proactive.New(proactive.Algorithm(c), proactive.Representations(), proactive.DefaultRepresentation(l.construct)), r, creation, as(reps...)...)
		if creation {
			status = 201
		}
	} else {
		refused = 300
		o = respond(transparent.New(transparent.RVSA(c), transparent.ListRepresentation(l.construct)), r, creation, as(reps...)...)
	}
	ndReach("responded")
	ndAssert(c.err != nil || o.err == nil, "no error")
	switch {
	case k < 3:
		ndAssert(o.w.status() == status && string(o.w.body) == string(reps[k].body), "the representation that the algorithm returns is served")
	case k == 3:
		ndAssert(o.err == errChoose && o.w.untouched(), "the error of the algorithm is reported")
	default:
		ndAssert(o.w.status() == refused && string(o.w.body) == "list" && given(l.got, reps), "the list is that of the configured constructor")
	}
}
