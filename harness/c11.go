package main

import (
	"github.com/freerware/negotiator"
	"github.com/freerware/negotiator/proactive"
	"github.com/freerware/negotiator/reactive"
	"github.com/freerware/negotiator/representation"
	"github.com/freerware/negotiator/transparent"
)

// recorder is a list constructor that records what it is given.
type recorder struct {
	got   []representation.Representation
	calls int
	list  *rep
}

func (c *recorder) construct(reps ...representation.Representation) representation.Representation {
	c.calls++
	c.got = append([]representation.Representation{}, reps...)
	return c.list
}

// given determines if the representations are exactly those.
func given(got []representation.Representation, reps []*rep) bool {
	if len(got) != len(reps) {
		return false
	}
	for i, r := range reps {
		if got[i] != representation.Representation(r) {
			return false
		}
	}
	return true
}

// several are n representations with differing metadata, some of which are
// equal.
func several(n int) []*rep {
	var reps []*rep
	for i := 0; i < n; i++ {
		k := string(rune('a' + i%3))
		s := spec{mt: "a/" + k, q: 1, body: k, loc: at(k)}
		if i%2 == 1 {
			s.lang, s.cs, s.enc = "de", "x-"+k, []string{"gzip"}
		}
		reps = append(reps, newRep(s))
	}
	return reps
}

// anyHeaders are any of the six headers with a value of any two bytes, along
// with another header.
func anyHeaders() []string {
	names := append(append([]string{}, headerNames...), "Accept-Features", "Negotiate")
	h := ndCase("header", allHeaders)
	kv := []string{names[h], ndStr("bytes", ndBound(2, 4), "")}
	switch ndPick("other", 4) {
	case 1:
		kv = append(kv, "Accept", "z/z;q=0")
	case 2:
		kv = append(kv, "Negotiate", "*")
	case 3:
		kv = nil
	}
	return kv
}

// C11_Choices: reactive negotiation of 1 to 12 representations with any of the
// six headers being any two bytes (thorough: four), among other headers.
func C11_Choices() {
	reps := several(1 + ndPick("representations", 12))
	c := &recorder{list: newRep(spec{mt: "l/l", q: 1, body: ndStr("list", 2, "")})}
	o := negotiate(reactive.New(reactive.Representation(c.construct)), newRequest(anyHeaders()...), as(reps...)...)
	o.observe()
	ndAssert(o.err == nil && o.w.status() == 300, "every choice is offered whatever the headers")
	ndAssert(c.calls == 1 && given(c.got, reps), "the list is constructed of exactly the representations provided")
	ndAssert(string(o.w.body) == string(c.list.body), "the body is the list")
}

// C11_None: each negotiator without representations, with any of the six
// headers being any two bytes (thorough: four), among other headers, with and
// without options.
func C11_None() {
	var n negotiator.Negotiator
	c := &recorder{list: newRep(spec{mt: "l/l", q: 1, body: "list"})}
	ch := &chooser{err: errChoose}
	options := ndPick("options", 2) == 1
	switch ndCase("negotiator", 3) {
	case 0:
		n = proactive.New()
		if options {
			n = proactive.New(proactive.Algorithm(ch), proactive.DisableStrictMode(), proactive.DefaultRepresentation(c.construct), proactive.Representations(c.construct))
		}
	case 1:
		n = transparent.New()
		if options {
			n = transparent.New(transparent.RVSA(ch), transparent.ListRepresentation(c.construct), transparent.MaximumVariantListSize(0))
		}
	case 2:
		n = reactive.New()
		if options {
			n = reactive.New(reactive.Representation(c.construct))
		}
	}
	w := newWriter()
	err := n.Negotiate(negotiator.NegotiationContext{Request: newRequest(anyHeaders()...), ResponseWriter: w, IsCreation: ndBool("creation")})
	o := outcome{w, err}
	o.observe()
	ndAssert(err == nil, "no error")
	ndAssert(w.status() == 204, "no representations have the status 204")
	ndAssert(w.writes == 0 && len(w.h) == 0, "no representations have no body")
	ndAssert(c.calls == 0 && ch.calls == 0, "there is nothing to choose or to list")
}
