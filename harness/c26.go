package main

import (
	"net/http"
	"net/url"
	"sync"

	"github.com/freerware/negotiator"
	"github.com/freerware/negotiator/proactive"
	"github.com/freerware/negotiator/reactive"
	"github.com/freerware/negotiator/representation"
	"github.com/freerware/negotiator/transparent"
	"github.com/uber-go/tally"
)

// together states that the negotiation writes nothing that it shares with
// others, which is all of the memory that exists before it, and that the
// request and the representations are left alone. A counterexample is replayed
// as concurrent negotiations, with the race detector.
func together(n negotiator.Negotiator, r *http.Request, reps []representation.Representation) {
	order := append([]representation.Representation{}, reps...)
	header := r.Header.Clone()
	uri := r.URL.String()
	if primSymbolic() {
		ndShare()
		negotiate(n, r, reps...)
		ndUnshare()
	} else {
		var wg sync.WaitGroup
		for i := 0; i < 4; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				negotiate(n, r, reps...)
			}()
		}
		wg.Wait()
	}
	ndReach("negotiated")
	ndObserve("watched", ndWatched())
	ndAssert(ndWatched() == "", "shared memory is not written")
	for i := range order {
		ndAssert(reps[i] == order[i], "the representations are left alone")
	}
	ndAssert(len(header) == len(r.Header) && uri == r.URL.String(), "the request is left alone")
	for k, v := range header {
		ndAssert(len(v) == len(r.Header[k]), "the request is left alone")
		for i := range v {
			ndAssert(v[i] == r.Header[k][i], "the request is left alone")
		}
	}
}

// unlike are n representations with differing metadata and source qualities,
// some of which have features.
func unlike(n int) []representation.Representation {
	var reps []representation.Representation
	for i := 0; i < n; i++ {
		k := string(rune('a' + i))
		s := spec{mt: "A/" + k + ";p=1", q: []float32{0.75, 0.5, 1, 0.25}[i], body: k, loc: at(k)}
		if i%2 == 1 {
			s.lang, s.cs, s.enc = "de", "x-"+k, []string{"gzip", "identity"}
			s.feats = []string{"tables;+1.2-0.5", "[ color=5 !x ]"}
		}
		reps = append(reps, newRep(s))
	}
	// a slice that others may be appended to.
	return append(make([]representation.Representation, 0, 2*n), reps...)
}

// sharedNegotiator is a negotiator with or without options.
func sharedNegotiator() negotiator.Negotiator {
	options := ndPick("options", 3)
	l := newRep(spec{mt: "l/l", q: 1, body: "list"})
	switch ndCase("negotiator", 3) {
	case 0:
		switch options {
		case 1:
			return proactive.New(proactive.DisableStrictMode(), proactive.DisableNotAcceptableRepresentation())
		case 2:
			return proactive.New(proactive.DisableStrictAccept(), proactive.DefaultRepresentation(only(l)), proactive.Representations(only(l)))
		}
		return proactive.New()
	case 1:
		switch options {
		case 1:
			return transparent.New(transparent.MaximumVariantListSize(2), transparent.GuessSmallThreshold(1000))
		case 2:
			return transparent.New(transparent.ListRepresentation(only(l)))
		}
		return transparent.New()
	}
	if options == 1 {
		return reactive.New(reactive.Representation(only(l)))
	}
	return reactive.New()
}

// C26_Shared: each negotiator, with and without options, one and three
// representations, any of the six headers with one byte (thorough: two) of
// any value in several contexts, among other headers, where a negotiation (of another request) came first or
// not.
func C26_Shared() {
	n := sharedNegotiator()
	reps := unlike(1 + 2*ndPick("representations", 2))
	if ndPick("first", 2) == 1 {
		negotiate(n, newRequest("Accept", "a/b", "Negotiate", "*"), reps...)
	}
	h := ndCase("header", allHeaders)
	names := append(append([]string{}, headerNames...), "Accept-Features", "Negotiate")
	b := ndStr("bytes", ndBound(1, 2), "")
	kv := []string{names[h], []string{"", "a", "de;q=", "*;q=0."}[ndPick("before", 4)] + b}
	switch ndPick("other", 3) {
	case 1:
		kv = append(kv, "Accept", "z/z;q=0")
	case 2:
		kv = append(kv, "Negotiate", "*")
	}
	together(n, newRequest(kv...), reps)
}

// C26_Outcomes: each negotiator, with and without options, up to four
// representations, and each subset of valid headers with any weights of one
// decimal for the first (thorough: each) range, such that there are choices, lists, refusals and errors.
func C26_Outcomes() {
	n := sharedNegotiator()
	reps := unlike(ndPick("representations", ndBound(4, 5)))
	var kv []string
	present := ndCase("headers", 16)
	q := func(name string) string {
		if name[1] == '2' && ndBound(0, 1) == 0 {
			return ";q=0.5"
		}
		return ";q=0." + string([]byte{ndByte(name, digits)})
	}
	if present&1 != 0 {
		kv = append(kv, "Accept", "a/b"+q("m1")+", A/*"+q("m2"))
	}
	if present&2 != 0 {
		kv = append(kv, "Accept-Language", "de"+q("l1")+", *"+q("l2"))
	}
	if present&4 != 0 {
		kv = append(kv, "Accept-Charset", "X-b"+q("c1"), "Accept-Encoding", "gzip"+q("e1")+", identity"+q("e2"))
	}
	if present&8 != 0 {
		kv = append(kv, "Accept-Features", "tables, color=5, !x")
	}
	if d := ndPick("directives", 4); d > 0 {
		kv = append(kv, "Negotiate", []string{"1.0", "guess-small", "trans, vlist"}[d-1])
	}
	together(n, newRequest(kv...), reps)
}

// interruption is what happens at one of the points at which a negotiation
// calls back.
type interruption struct {
	kind, nth int
	f         func()
}

const (
	onHeader = iota
	onStatus
	onWrite
	onSerialize
	onSerialized
	onType
	onQuality
	onLocation
	onCount
	interruptions
)

func (i *interruption) at(kind int) {
	if i == nil || i.f == nil || kind != i.kind {
		return
	}
	if i.nth--; i.nth < 0 {
		f := i.f
		i.f = nil
		f()
	}
}

// interruptedWriter is a response writer that is interrupted.
type interruptedWriter struct {
	*writer
	i *interruption
}

func (w interruptedWriter) Header() http.Header {
	w.i.at(onHeader)
	return w.writer.Header()
}

func (w interruptedWriter) WriteHeader(status int) {
	w.i.at(onStatus)
	w.writer.WriteHeader(status)
}

func (w interruptedWriter) Write(b []byte) (int, error) {
	w.i.at(onWrite)
	return w.writer.Write(b)
}

// backed is a representation with the serialization of the library, that is
// interrupted.
type backed struct {
	representation.Base
	t text
	i *interruption
}

func (b *backed) Bytes() ([]byte, error) {
	b.i.at(onSerialize)
	out, err := b.Base.Bytes(&b.t)
	b.i.at(onSerialized)
	return out, err
}

func (b *backed) FromBytes(in []byte) error { return b.Base.FromBytes(in, &b.t) }

func (b *backed) ContentType() string {
	b.i.at(onType)
	return b.Base.ContentType()
}

func (b *backed) SourceQuality() float32 {
	b.i.at(onQuality)
	return b.Base.SourceQuality()
}

func (b *backed) ContentLocation() url.URL {
	b.i.at(onLocation)
	return b.Base.ContentLocation()
}

// interruptedScope is a scope of metrics that is interrupted.
type interruptedScope struct {
	*scope
	i *interruption
}

type interruptedCounter struct{ i *interruption }

func (c interruptedCounter) Inc(int64) { c.i.at(onCount) }

func (s interruptedScope) Counter(string) tally.Counter         { return interruptedCounter{s.i} }
func (s interruptedScope) Tagged(map[string]string) tally.Scope { return s }

// backedReps are representations of which two have codings.
func backedReps(i *interruption) []representation.Representation {
	var reps []representation.Representation
	for k, name := range []string{"one", "second", "third one"} {
		b := &backed{Base: *coded("text/x-"+[]string{"x", "y", "x;level=2"}[k], [][]string{nil, {"x-a"}, {"x-b", "x-a"}}[k]), t: text{name}, i: i}
		b.SetContentLanguage([]string{"de", "en", "fr"}[k])
		b.SetContentLocation(at(name[:3]))
		b.SetSourceQuality([]float32{1, 0.9, 0.8}[k])
		if k == 1 {
			b.SetContentFeatures([]string{"tables;+1.2-0.5"})
		}
		reps = append(reps, b)
	}
	return reps
}

// C26_Nested: a negotiation of each kind during which, at the first two
// (thorough: three) occurrences of each point where it calls back, another
// negotiation with the
// same negotiator and the same representations, all of them in the same or the
// reverse order or two of them, takes place, with any weight of
// one decimal in it (thorough: in both).
func C26_Nested() {
	kind := ndCase("negotiator", 3)
	build := func(i *interruption) negotiator.Negotiator {
		s := interruptedScope{newScope(), i}
		switch kind {
		case 0:
			return proactive.New(proactive.Scope(s))
		case 1:
			return transparent.New(transparent.Scope(s))
		}
		return reactive.New(reactive.Scope(s))
	}
	request := func(name string, shape int) *http.Request {
		q := "5"
		if name == "outer" || ndBound(0, 1) == 1 {
			q = string([]byte{ndByte(name, digits)})
		}
		kv := []string{"Accept-Language", "de;q=0." + q + ", en;q=0.4"}
		switch shape {
		case 1:
			kv = []string{"Accept", "text/x-y;q=0." + q + ", text/x-x;level=2;q=0.3", "Negotiate", "trans"}
		case 2:
			kv = []string{"Accept-Features", "!tables, color=5", "Accept-Language", "en", "Accept", "text/*", "Negotiate", "1.0"}
		case 3:
			kv = []string{"Accept", "z/z"}
		}
		return newRequest(kv...)
	}
	outer := request("outer", ndCase("outer", 4))
	shape := ndCase("inner", 4)
	inner := request("inner", shape)
	given := func(reps []representation.Representation) []representation.Representation {
		switch shape {
		case 0, 3:
			return []representation.Representation{reps[2], reps[1], reps[0]}
		case 1:
			return reps[1:]
		}
		return reps
	}
	only := negotiate(build(nil), outer, backedReps(nil)...)
	alone := negotiate(build(nil), inner, given(backedReps(nil))...)
	i := &interruption{kind: ndPick("point", interruptions), nth: ndPick("nth", ndBound(2, 3))}
	n, reps := build(i), backedReps(i)
	nested, happened := outcome{}, false
	i.f = func() {
		nested, happened = negotiate(n, inner, given(reps)...), true
	}
	w := newWriter()
	err := n.Negotiate(negotiator.NegotiationContext{Request: outer, ResponseWriter: interruptedWriter{w, i}}, reps...)
	o := outcome{w, err}
	o.observe()
	ndAssert(same(o, only), "the response is that of the negotiation alone")
	if happened {
		ndReach("interrupted")
		ndAssert(same(nested, alone), "the response of the other negotiation is that of it alone")
	}
}
