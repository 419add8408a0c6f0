package main

import (
	"errors"
	"net/http"
	"strconv"

	"github.com/freerware/negotiator"
	"github.com/freerware/negotiator/proactive"
	"github.com/freerware/negotiator/reactive"
	"github.com/freerware/negotiator/representation"
	"github.com/freerware/negotiator/transparent"
)

// C09_Codings: a representation with up to four codings, each any of four of
// which one is identity, equal to each other or not, and up to two features,
// in a default list of each negotiator, as the first or the second one.
func C09_Codings() {
	kind := ndCase("negotiator", 3)
	n := ndCase("codings", 5)
	var codings []string
	text := "{"
	for i := 0; i < n; i++ {
		c := []string{"gzip", "identity", "Identity", "br"}[ndPick("coding"+strconv.Itoa(i), 4)]
		codings = append(codings, c)
		if i == 0 {
			text += "\"contentEncoding\":[\"" + c + "\""
		} else {
			text += ",\"" + c + "\""
		}
		if i == n-1 {
			text += "],"
		}
	}
	text += "\"sourceQuality\":0.5}"
	r := newRep(spec{q: 0.5, body: "r", enc: append([]string{}, codings...)})
	other := newRep(spec{q: 1, body: "o"})
	reps, want := as(r, other), text+",{\"sourceQuality\":1}"
	if ndPick("swapped", 2) == 1 {
		reps, want = as(other, r), "{\"sourceQuality\":1},"+text
	}
	var t negotiator.Negotiator
	status := 300
	switch kind {
	case 0:
		t, status = proactive.New(proactive.Algorithm(&chooser{})), 406
	case 1:
		t = transparent.New(transparent.RVSA(&chooser{}))
	case 2:
		t = reactive.New()
	}
	o := negotiate(t, newRequest(), reps...)
	o.observe()
	ndReach("listed")
	ndAssert(o.err == nil && o.w.status() == status, "the representations are listed")
	ndAssert(string(o.w.body) == "{\"representations\":["+want+"]}", "the list describes every representation")
}

// answer is what an algorithm returns when it is asked.
type answer struct {
	choice representation.Representation
	err    error
}

// answers is an algorithm that gives one answer after another.
type answers struct {
	all   []answer
	calls int
}

func (a *answers) Choose(*http.Request, ...representation.Representation) (representation.Representation, error) {
	a.calls++
	if a.calls > len(a.all) {
		return nil, nil
	}
	return a.all[a.calls-1].choice, a.all[a.calls-1].err
}

// answering is a proactive or transparent negotiation whose algorithm gives any
// answer (a representation, none, an error, or an error along with a
// representation) each of up to three times that it is asked, with and without
// strict mode, where none, any or all of three headers aren't met.
func answering(s *scope) (kind int, a *answers, o outcome) {
	kind = ndCase("negotiator", 2)
	first, second := newRep(spec{mt: "a/b", lang: "en", cs: "x-a", q: 1, body: "1", loc: at("1")}), newRep(spec{mt: "a/b", lang: "en", cs: "x-a", q: 1, body: "22", loc: at("2")})
	if kind == 0 {
		first.SetContentLanguage("de")
	}
	a = &answers{}
	for i := 0; i < 3; i++ {
		given := answer{}
		p := ndPick("answer"+strconv.Itoa(i), 4)
		if p&1 != 0 {
			given.choice = second
		}
		if p&2 != 0 {
			given.err = errors.New("failed " + strconv.Itoa(i))
		}
		a.all = append(a.all, given)
	}
	list := newRep(spec{mt: "l/l", q: 1, body: "list"})
	kv := [][]string{{"Negotiate", "*"}, {"Negotiate", "1.0", "Accept", "z/z"}, {"Negotiate", "guess-small", "Accept", "z/z", "Accept-Language", "fr", "Accept-Charset", "x-z"}}[ndPick("headers", 3)]
	var n negotiator.Negotiator
	switch kind {
	case 0:
		options := []proactive.Option{proactive.Scope(s), proactive.Algorithm(a), proactive.Representations(only(list)), proactive.DefaultRepresentation(only(list))}
		switch ndPick("strict", 3) {
		case 1:
			options = append(options, proactive.DisableStrictMode())
		case 2:
			options = append(options, proactive.DisableStrictMode(), proactive.DisableNotAcceptableRepresentation())
		}
		n = proactive.New(options...)
	case 1:
		n = transparent.New(transparent.Scope(s), transparent.RVSA(a), transparent.ListRepresentation(only(list)))
	}
	o = negotiate(n, newRequest(kv...), as(first, second)...)
	o.observe()
	return
}

// C03_Answers: the negotiations of answering: when an error is returned,
// nothing has been written, and otherwise exactly one status.
func C03_Answers() {
	_, a, o := answering(newScope())
	failed := false
	for i := 0; i < a.calls && i < len(a.all); i++ {
		failed = failed || a.all[i].err != nil
	}
	ndAssert(failed == (o.err != nil), "the failure of an algorithm is returned")
	if o.err != nil {
		ndReach("failed")
		ndAssert(len(o.w.statuses) == 0 && o.w.writes == 0 && len(o.w.h) == 0, "nothing is written")
		return
	}
	ndReach("answered")
	ndAssert(len(o.w.statuses) == 1, "exactly one status")
}

// C27_Answers: the negotiations of answering: each is counted exactly once, as
// what the client saw.
func C27_Answers() {
	s := newScope()
	kind, _, o := answering(s)
	prefix := []string{"proactive", "transparent"}[kind] + ":negotiate."
	name := ""
	switch {
	case o.err != nil:
		name = "error"
	case kind == 1:
	case o.w.status() == 200:
		name = "acceptable"
	case o.w.status() == 406:
		name = "not_acceptable"
	}
	total := int64(0)
	for _, c := range []string{"error", "acceptable", "not_acceptable", "multiple_choices", "no_content"} {
		total += s.counts[prefix+c]
	}
	ndReach("negotiated")
	if name == "" {
		ndAssert(total == 0, "a response of the transparent negotiator isn't counted")
		return
	}
	ndAssert(total == 1 && s.counts[prefix+name] == 1, "the outcome that the client saw is counted once")
}

// C30_Answers: the negotiations of answering: the error that the algorithm
// returned is reported, also along with a representation; otherwise, the
// representation that it returned is served, and there is a list or a refusal
// when it returned none.
func C30_Answers() {
	kind, a, o := answering(newScope())
	ndReach("asked")
	for i := 0; i < a.calls && i < len(a.all); i++ {
		if err := a.all[i].err; err != nil {
			ndAssert(i == a.calls-1 && o.err == err, "the error that the algorithm returns is reported")
			return
		}
	}
	ndAssert(o.err == nil, "no error")
	if o.w.status() == 200 {
		ndReach("served")
		ndAssert(a.calls > 0 && a.all[a.calls-1].choice != nil && string(o.w.body) == "22", "the representation that the algorithm returns is served")
		return
	}
	ndReach("refused")
	if kind == 1 {
		ndAssert(o.w.status() == 300 && a.calls == 1 && a.all[0].choice == nil, "there is a list when the algorithm returns none")
		return
	}
	ndAssert(o.w.status() == 406, "the request is refused")
	// of a representation only when choosing a list.
	for i := 0; i < a.calls-1; i++ {
		ndAssert(i >= len(a.all) || a.all[i].choice == nil, "there is a refusal when the algorithm returns none")
	}
}

// C29_Features: three different announcements of eight, in any order, and a
// variant with any one (thorough: two) of nine elements of a feature list: the
// response is the same.
func C29_Features() {
	all := []string{"x=1", "x=2", "X!=3", "x!=4", "y", "!z", "x={6}", "*"}
	elements := []string{"x=1", "x=2;+0.5-1", "x!=3", "x!=1;-0.5", "x", "y;+1.5", "!z", "x=[2-5];-0.25", "[ x=6 !z ];+0.5-1"}
	i := ndCase("first", 6)
	j := i + 1 + ndPick("second", 6-i)
	k := j + 1
	if j < 6 {
		k += ndPick("third"+strconv.Itoa(j), 7-j)
	}
	es := []string{all[i], all[j], all[k]}
	v := newRep(spec{mt: "a/b", q: 1, body: "1", loc: at("1")})
	var feats []string
	for f := 0; f < ndBound(1, 2); f++ {
		feats = append(feats, elements[ndPick("element"+strconv.Itoa(f), len(elements))])
	}
	v.SetContentFeatures(feats)
	u := newRep(spec{mt: "a/b", q: 0.75, body: "2", loc: at("2")})
	p := permutations[ndPick("permutation", len(permutations))]
	n := transparent.New(transparent.ListRepresentation(only(newRep(spec{mt: "l/l", q: 1, body: "list"}))))
	a := negotiate(n, newRequest("Negotiate", "1.0", "Accept", "a/b", "Accept-Features", es[0]+","+es[1]+","+es[2]), as(v, u)...)
	b := negotiate(n, newRequest("Negotiate", "1.0", "Accept", "a/b", "Accept-Features", es[p[0]]+","+es[p[1]]+","+es[p[2]]), as(v, u)...)
	a.observe()
	ndReach("compared")
	ndAssert(a.err == nil && same(a, b), "the order of preferences has no effect")
}
