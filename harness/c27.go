package main

import (
	"github.com/freerware/negotiator"
	"github.com/freerware/negotiator/proactive"
	"github.com/freerware/negotiator/reactive"
	"github.com/freerware/negotiator/representation"
	"github.com/freerware/negotiator/transparent"
)

// C27_Outcomes: each negotiator with a scope for its metrics, in every scenario
// of C03_Faults: failing serializations, algorithms, headers and writes, every
// choice, and every number of representations from zero to two.
func C27_Outcomes() {
	s := newScope()
	f := faults(ndCase("negotiator", 3), ndCase("header", allHeaders), s)
	o := f.o
	o.observe()
	kind := []string{"proactive", "transparent", "reactive"}[f.kind]
	name := ""
	switch {
	case o.err != nil:
		name = "error"
	case f.kind == 1:
	case o.w.status() == 200:
		name = "acceptable"
	case o.w.status() == 406:
		name = "not_acceptable"
	case o.w.status() == 204:
		name = "no_content"
	case o.w.status() == 300:
		name = "multiple_choices"
	}
	total := int64(0)
	for _, c := range []string{"error", "acceptable", "not_acceptable", "multiple_choices", "no_content"} {
		total += s.counts[kind+":negotiate."+c]
	}
	if name == "" {
		ndReach("not counted")
		ndAssert(total == 0, "a response of the transparent negotiator isn't counted")
		return
	}
	ndReach(name)
	ndAssert(total == 1, "an outcome is counted once")
	ndAssert(s.counts[kind+":negotiate."+name] == 1, "the outcome that the client saw is counted")
}

// C27_History: three (thorough: five) negotiations in a row with the same
// negotiator, each with no, one, two or four representations, and of a request
// that is satisfied, that isn't, or that is malformed.
func C27_History() {
	s := newScope()
	kind := ndCase("negotiator", 3)
	var n negotiator.Negotiator
	switch kind {
	case 0:
		n = proactive.New(proactive.Scope(s))
	case 1:
		n = transparent.New(transparent.Scope(s))
	case 2:
		n = reactive.New(reactive.Scope(s))
	}
	name := []string{"proactive", "transparent", "reactive"}[kind]
	want := map[string]int64{}
	for i := 0; i < ndBound(3, 5); i++ {
		k := string([]byte{'0' + byte(i)})
		var reps []representation.Representation
		for c := []int{1, 0, 2, 4}[ndPick("representations"+k, 4)]; c > 0; c-- {
			reps = append(reps, typed("a/b", "body"))
		}
		kv := [][]string{{"Accept", "a/b", "Negotiate", "1.0"}, {"Accept", "c/d"}, {"Accept", ";", "Negotiate", "*"}}[ndPick("request"+k, 3)]
		o := negotiate(n, newRequest(kv...), reps...)
		o.observe()
		switch {
		case o.err != nil:
			want[name+":negotiate.error"]++
		case kind == 1:
		case o.w.status() == 200:
			want[name+":negotiate.acceptable"]++
		case o.w.status() == 406:
			want[name+":negotiate.not_acceptable"]++
		case o.w.status() == 300:
			want[name+":negotiate.multiple_choices"]++
		case o.w.status() == 204:
			want[name+":negotiate.no_content"]++
		}
		ndReach("negotiated")
		for _, c := range []string{"error", "acceptable", "not_acceptable", "multiple_choices", "no_content"} {
			c = name + ":negotiate." + c
			ndAssert(s.counts[c] == want[c], "every outcome is counted once")
		}
	}
}
