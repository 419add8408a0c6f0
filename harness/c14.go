package main

import (
	"strconv"

	"github.com/freerware/negotiator/transparent"
)

func filled(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = 'x'
	}
	return string(b)
}

// C14_Threshold: any threshold from -3 to 130 (or the default of 50), lists of
// 0, 1, 20 and 200 bytes (thorough: more), and variants that are smaller than,
// as large as and larger than the list by up to 130 bytes (thorough: every
// number of them), with guess-small in any of three places of the header.
func C14_Threshold() {
	threshold := 50
	opts := []transparent.Option{}
	if ndPick("default", 2) == 0 {
		threshold = ndInt("threshold", -3, 130)
		opts = append(opts, transparent.GuessSmallThreshold(threshold))
	}
	size := []int{0, 1, 20, 200, 49, 50, 51, 1000}[ndCase("list", ndBound(4, 8))]
	var delta int
	if ndBound(0, 1) == 1 {
		delta = ndPick("delta", 261) - 130
	} else {
		delta = []int{-130, -51, -50, -49, -20, -2, -1, 0, 1, 2, 3, 20, 48, 49, 50, 51, 52, 99, 100, 101, 129, 130}[ndPick("delta", 22)]
	}
	if size+delta < 0 {
		return
	}
	l := &recorder{list: newRep(spec{mt: "l/l", q: 1, body: filled(size)})}
	rep := newRep(spec{mt: "a/b", q: 1, body: filled(size + delta), loc: at("1")})
	opts = append(opts, transparent.RVSA(&chooser{choice: rep}), transparent.ListRepresentation(l.construct))
	value := []string{"guess-small", "1.0, Guess-Small", "guess-small, *"}[ndPick("value", 3)]
	o := negotiate(transparent.New(opts...), newRequest("Negotiate", value), rep)
	o.observe()
	ndAssert(o.err == nil, "no error")
	if delta < 0 || delta <= threshold {
		ndReach("choice")
		ndAssert(o.w.status() == 200 && o.w.get("Tcn") == "choice" && len(o.w.body) == size+delta, "a small choice is served")
	} else {
		ndReach("list")
		ndAssert(o.w.status() == 300 && o.w.get("Tcn") == "list" && len(o.w.body) == size, "a choice that is too large is not served")
	}
	ndAssert(o.w.get("Content-Length") == strconv.Itoa(len(o.w.body)), "the length is that of the body")
}

// C14_Attributes: a variant with or without each of its attributes, including
// up to three codings and features and any source quality of one decimal, whose
// size is about as much larger than that of the list as the threshold, which is
// the default, or any from 0 to 99.
func C14_Attributes() {
	threshold := 50
	opts := []transparent.Option{}
	if ndPick("default", 2) == 0 {
		threshold = ndInt("threshold", 0, 99)
		opts = append(opts, transparent.GuessSmallThreshold(threshold))
	}
	delta := []int{-1, 0, 1, 49, 50, 51, 100, 1000}[ndPick("delta", 8)]
	l := &recorder{list: newRep(spec{mt: "l/l", q: 1, body: filled(30)})}
	s := spec{q: float32(ndInt("source", 0, 10)) / 10, body: filled(30 + delta), loc: at("1")}
	k := ndCase("attributes", 8)
	if k&1 == 0 {
		s.mt = []string{"text/html", "image/png", "text/html;level=1"}[ndPick("type", 3)]
	}
	if k&2 == 0 {
		s.lang, s.cs = "en", "utf-8"
	}
	if k&4 == 0 {
		s.feats = []string{"tables", "!frames;+1.5", "[a b]"}[:1+ndPick("features", 3)]
	}
	s.enc = []string{"gzip", "identity", "deflate"}[:ndPick("codings", 4)]
	r := newRep(s)
	reps := []*rep{r, typed("a/o", filled(5))}[:1+ndPick("others", 2)]
	opts = append(opts, transparent.RVSA(&chooser{choice: r}), transparent.ListRepresentation(l.construct))
	o := negotiate(transparent.New(opts...), newRequest("Negotiate", "guess-small"), as(reps...)...)
	o.observe()
	ndAssert(o.err == nil, "no error")
	if delta < 0 || delta <= threshold {
		ndReach("choice")
		ndAssert(o.w.status() == 200 && o.w.get("Tcn") == "choice" && len(o.w.body) == 30+delta, "a small choice is served")
	} else {
		ndReach("list")
		ndAssert(o.w.status() == 300 && o.w.get("Tcn") == "list" && len(o.w.body) == 30, "a choice that is too large is not served")
	}
}
