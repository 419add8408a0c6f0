package main

import (
	"errors"
	"net/http"
	"strconv"

	"github.com/freerware/negotiator/proactive"
	"github.com/freerware/negotiator/reactive"
	"github.com/freerware/negotiator/representation"
	"github.com/freerware/negotiator/transparent"
)

// script is an algorithm that makes one choice among the representations, and
// another one among lists.
type script struct {
	list         string // the type of lists
	choice       int    // absent for none
	err          error
	preferred    int
	listErr      error
	given, lists []representation.Representation
	calls        int
	request      *http.Request
}

func (s *script) Choose(r *http.Request, reps ...representation.Representation) (representation.Representation, error) {
	s.calls++
	if len(reps) > 0 && reps[0].ContentType() == s.list {
		s.lists = reps
		if s.preferred < 0 || s.listErr != nil {
			return nil, s.listErr
		}
		return reps[s.preferred], nil
	}
	if len(reps) == 0 {
		return nil, nil
	}
	s.given = append([]representation.Representation{}, reps...)
	s.request = r
	if s.choice < 0 || s.err != nil {
		return nil, s.err
	}
	return reps[s.choice], nil
}

var errList = errors.New("choice of lists failed")

// C30_Configured: one to five representations with a configured algorithm,
// which selects any of them, none or fails, for the proactive negotiator in
// any strict mode, with up to three configured lists of which the algorithm
// selects any, none or fails, and a default list or not, for the transparent
// one with a configured list; any header among several with any weight.
func C30_Configured() {
	n := 1 + ndPick("representations", ndBound(4, 6))
	reps := several(n)
	for i, r := range reps {
		r.body = []byte(string(rune('1' + i)))
		r.SetSourceQuality([]float32{0, 0.5, 1, 0.75, 0, 0.001}[i])
	}
	s := &script{list: "l/l", choice: ndPick("choice"+strconv.Itoa(n), n+2) - 2, preferred: absent}
	if s.choice == -2 {
		s.err = errChoose
	}
	var ls []*recorder
	var ctors []representation.ListConstructor
	list := func(body string) *recorder {
		return &recorder{list: newRep(spec{mt: "l/l", lang: "l", cs: "l", q: 1, body: body})}
	}
	d := string([]byte{ndByte("q", digits)})
	kv := [][]string{nil, {"Accept", "a/*;q=0." + d + ", a/b;q=0.1"}, {"Accept-Language", "*;q=0." + d + ", en"}, {"Accept-Charset", "x-a, *;q=0.1" + d}, {"Accept-Encoding", "*;q=0." + d}}[ndPick("header", 5)]
	def := list("default")
	switch ndCase("negotiator", 3) {
	case 0:
		opts := []proactive.Option{proactive.Algorithm(s), proactive.DisableStrictMode()}
		k := ndPick("lists", 4)
		for i := 0; i < k; i++ {
			l := list("list" + string(rune('1'+i)))
			ls, ctors = append(ls, l), append(ctors, l.construct)
		}
		p := 0
		if k > 0 {
			p = ndPick("preferred"+strconv.Itoa(k), k+2)
			s.preferred = p - 2
			if p == 0 {
				s.listErr = errList
			}
		}
		opts = append(opts, proactive.Representations(ctors...), proactive.DefaultRepresentation(def.construct))
		if ndPick("order", 2) == 1 {
			opts[0], opts[3] = opts[3], opts[0]
		}
		o := negotiate(proactive.New(opts...), newRequest(kv...), as(reps...)...)
		o.observe()
		ndAssert(given(s.given, reps), "the algorithm is given all of the representations in order")
		switch {
		case s.err != nil:
			ndAssert(o.err == errChoose && o.w.untouched(), "the error of the algorithm is reported")
		case s.choice >= 0:
			ndAssert(o.err == nil && o.w.status() == 200 && string(o.w.body) == string(reps[s.choice].body), "the representation that the algorithm returns is served")
		case s.listErr != nil:
			ndAssert(o.err == errList && o.w.untouched(), "the error of the algorithm is reported")
		case s.preferred >= 0:
			ndAssert(o.err == nil && o.w.status() == 406 && string(o.w.body) == string(ls[s.preferred].list.body), "the list that the algorithm returns is served")
			ndAssert(len(s.lists) == k && given(ls[s.preferred].got, reps), "the lists are constructed of the representations")
		default:
			ndAssert(o.err == nil && o.w.status() == 406 && string(o.w.body) == "default" && given(def.got, reps), "the default list is served when the algorithm returns none")
		}
	case 1:
		kv = append(kv, "Negotiate", []string{"*", "1.0", "guess-small"}[ndPick("negotiate", 3)])
		o := negotiate(transparent.New(transparent.ListRepresentation(def.construct), transparent.RVSA(s)), newRequest(kv...), as(reps...)...)
		o.observe()
		ndAssert(given(s.given, reps) && s.calls == 1, "the algorithm is given all of the representations in order")
		switch {
		case s.err != nil:
			ndAssert(o.err == errChoose && o.w.untouched(), "the error of the algorithm is reported")
		case s.choice >= 0:
			ndAssert(o.err == nil && o.w.status() == 200 && string(o.w.body) == string(reps[s.choice].body), "the representation that the algorithm returns is served")
		default:
			ndAssert(o.err == nil && o.w.status() == 300 && string(o.w.body) == "default" && given(def.got, reps), "the list is served when the algorithm returns none")
		}
	case 2:
		o := negotiate(reactive.New(reactive.Representation(def.construct)), newRequest(kv...), as(reps...)...)
		o.observe()
		ndAssert(o.err == nil && o.w.status() == 300 && string(o.w.body) == "default" && given(def.got, reps), "the list is that of the configured constructor")
	}
}

// C30_Refused: in strict mode, representations of which none satisfies one of
// the headers, whatever its weight, with up to three configured lists, of which
// the algorithm selects any, none or fails, and a configured default list.
func C30_Refused() {
	reps := []*rep{
		newRep(spec{mt: "a/b", lang: "en", cs: "x-a", q: 1, body: "1"}),
		newRep(spec{mt: "a/c", lang: "fr", cs: "x-b", q: 1, body: "2"}),
	}[:1+ndPick("representations", 2)]
	s := &script{list: "l/l", choice: ndPick("choice", 2) - 1, preferred: absent}
	var ls []*recorder
	var ctors []representation.ListConstructor
	k := ndPick("lists", 4)
	for i := 0; i < k; i++ {
		l := &recorder{list: newRep(spec{mt: "l/l", lang: []string{"l", ""}[i&1], q: 1, body: "list" + string(rune('1'+i))})}
		ls, ctors = append(ls, l), append(ctors, l.construct)
	}
	if k > 0 {
		p := ndPick("preferred"+strconv.Itoa(k), k+2)
		s.preferred = p - 2
		if p == 0 {
			s.listErr = errList
		}
	}
	def := &recorder{list: newRep(spec{mt: "l/d", q: 1, body: "default"})}
	h := ndCase("header", 3)
	other := tenth("other", element{text: []string{"z/z", "nl", "x-z"}[h]})
	opts := []proactive.Option{proactive.Algorithm(s), proactive.Representations(ctors...), proactive.DefaultRepresentation(def.construct)}
	if ndPick("order", 2) == 1 {
		opts[0], opts[2] = opts[2], opts[0]
	}
	body := ndPick("disabled", 2) == 0
	if !body {
		opts = append(opts, proactive.DisableNotAcceptableRepresentation())
	}
	o := negotiate(proactive.New(opts...), newRequest(headerNames[h], other.String()), as(reps...)...)
	o.observe()
	switch {
	case !body:
		ndReach("disabled")
		ndAssert(o.err == nil && o.w.status() == 406 && o.w.writes == 0, "there is no body when it is disabled")
	case s.listErr != nil:
		ndReach("error")
		ndAssert(o.err == errList && o.w.untouched(), "the error of the algorithm is reported")
	case s.preferred >= 0:
		ndReach("list")
		ndAssert(o.err == nil && o.w.status() == 406 && string(o.w.body) == string(ls[s.preferred].list.body), "the list that the algorithm returns is served")
		ndAssert(len(s.lists) == k && given(ls[s.preferred].got, reps), "the lists are constructed of the representations")
	default:
		ndReach("default")
		ndAssert(o.err == nil && o.w.status() == 406 && string(o.w.body) == "default" && given(def.got, reps), "the default list is served when the algorithm returns none")
	}
}
