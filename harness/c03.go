package main

import (
	"github.com/freerware/negotiator"
	"github.com/freerware/negotiator/proactive"
	"github.com/freerware/negotiator/reactive"
	"github.com/freerware/negotiator/transparent"
	"github.com/uber-go/tally"
)

// faulty is a representation whose serialization fails, or not.
func faulty(name, body string, loc string) *rep {
	r := newRep(spec{mt: "a/" + body, lang: "de", cs: "x-" + body, q: 1, body: body, loc: at(loc)})
	if ndPick(name+".fails", 2) == 1 {
		r.err = errBytes
	}
	return r
}

// failed states that what has been written agrees with the error.
func (o outcome) failed() {
	w := o.w
	switch {
	case o.err == nil:
		ndReach("succeeded")
		ndAssert(!w.refused, "an error of writing the body is returned")
		ndAssert(w.status() > 0, "one status is written when there is no error")
		ndAssert(w.writes <= 1, "the body is written once")
	case w.refused:
		ndReach("failed to write")
		ndAssert(o.err == errWrite, "the error of writing the body is returned")
		ndAssert(w.status() > 0 && !w.early, "the status is written once, before the body")
	default:
		ndReach("failed")
		ndAssert(w.untouched(), "nothing is written when negotiation fails")
	}
}

// malformed is a header of any of the six kinds with a malformed value, or
// with a valid one.
func malformed(h int) (kv []string, bad bool) {
	names := append(append([]string{}, headerNames...), "Accept-Features", "Negotiate")
	bad = ndPick("malformed", 2) == 1
	values := []string{"*/*", "*", "*", "*", "tables", "*"}
	if bad {
		b := ndStr("byte"+names[h], 1, []string{"2389xX,;", "2389xX", "2389xX", "2389xX", "abcdef", "*"}[h])
		values = []string{"a/b;q=" + b, "en;q=" + b, "x-a;q=" + b, "gzip;q=" + b, "tables&" + b, "*"}
	}
	return []string{names[h], values[h]}, bad
}

// C03_Faults: each negotiator with up to two representations and a configured list;
// any of these fail to be serialized, the algorithm makes any choice, none, or
// fails, each of the headers is malformed or not, writing the body fails or
// not, and the request asks for a choice, for guess-small or for none.
func C03_Faults() {
	f := faults(ndCase("negotiator", 3), ndCase("header", allHeaders), nil)
	o, w := f.o, f.o.w
	o.observe()
	o.failed()
	clean := f.c.err == nil && !f.bad && w.fail == nil
	for _, r := range f.serialized {
		clean = clean && r.err == nil
		if o.err == nil && w.writes > 0 && string(r.body) == string(w.body) {
			ndAssert(r.err == nil, "what fails to be serialized is not served")
		}
	}
	if f.bad && f.kind == 0 && f.header <= charset && f.reps > 0 {
		ndAssert(o.err != nil, "a malformed header is an error")
	}
	if clean && o.err != nil {
		ndAssert(o.err == transparent.ErrVariantListSizeExceeded && f.reps > 1, "there is an error only when something fails")
	}
}

// fault is a negotiation in which steps fail.
type fault struct {
	kind, header, reps int
	bad                bool // the header is malformed
	c                  *chooser
	serialized         []*rep
	o                  outcome
}

// faults negotiates, as C03_Faults states.
func faults(kind, h int, s *scope) fault {
	a, b, l := faulty("one", "b", "1"), faulty("two", "c", "2"), faulty("list", "d", "3")
	if ndPick("spoofed", 2) == 1 {
		u := at("3")
		u.Host = "example.com"
		a.SetContentLocation(u)
	}
	reps := as(a, b)
	c := &chooser{}
	ch := ndPick("choice", 4)
	switch ch {
	case 1:
		c.choice = a
	case 2:
		c.choice = b
	case 3:
		c.err = errChoose
	}
	algorithm := ndPick("algorithm", 2) == 1
	kv, bad := malformed(h)
	if h != directives {
		switch ndPick("negotiate", 3) {
		case 1:
			kv = append(kv, "Negotiate", "1.0")
		case 2:
			kv = append(kv, "Negotiate", "guess-small")
		}
	}
	var n negotiator.Negotiator
	sc := tally.NoopScope
	if s != nil {
		sc = s
	}
	switch kind {
	case 0:
		opts := []proactive.Option{proactive.Representations(only(l)), proactive.DefaultRepresentation(only(l)), proactive.Scope(sc)}
		if algorithm {
			opts = append(opts, proactive.Algorithm(c))
		}
		if ndPick("not acceptable", 2) == 1 {
			opts = append(opts, proactive.DisableNotAcceptableRepresentation())
		}
		n = proactive.New(opts...)
	case 1:
		opts := []transparent.Option{transparent.ListRepresentation(only(l)), transparent.Scope(sc)}
		if algorithm {
			opts = append(opts, transparent.RVSA(c))
		}
		if ndPick("exceeded", 2) == 1 {
			opts = append(opts, transparent.MaximumVariantListSize(1))
		}
		n = transparent.New(opts...)
	case 2:
		n = reactive.New(reactive.Representation(only(l)), reactive.Scope(sc))
	}
	reps = reps[:2-ndPick("fewer", 3)]
	w := newWriter()
	if k := ndPick("write", 4); k > 0 {
		// nothing, a byte, or all of the body is written before.
		w.fail, w.partial = errWrite, []int{0, 1, 1000}[k-1]
	}
	err := n.Negotiate(negotiator.NegotiationContext{Request: newRequest(kv...), ResponseWriter: w}, reps...)
	return fault{kind, h, len(reps), bad, c, []*rep{a, b, l}, outcome{w, err}}
}
