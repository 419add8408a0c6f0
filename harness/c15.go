package main

import (
	"strconv"

	"github.com/freerware/negotiator/transparent"
)

// C15_Limit: any configured maximum from -2 to 6 (and the default of 10), any
// number of variants from 0 to 8 (to 12 with the default maximum), with or
// without a Negotiate header that asks for a choice.
func C15_Limit() {
	var n transparent.Negotiator
	limit := 10
	var k int
	if ndPick("default", 2) == 1 {
		n = transparent.New()
		k = ndPick("variants.default", 13)
	} else {
		limit = ndInt("maximum", -2, 6)
		n = transparent.New(transparent.MaximumVariantListSize(limit))
		k = ndPick("variants", 9)
		if limit < 1 {
			limit = 1
		}
	}
	var reps []*rep
	for i := 0; i < k; i++ {
		reps = append(reps, newRep(spec{mt: "text/plain", loc: at("v" + strconv.Itoa(i)), q: 1, body: strconv.Itoa(i)}))
	}
	r := newRequest()
	if ndPick("choose", 2) == 1 {
		r = newRequest("Negotiate", "*", "Accept", "text/plain")
	}
	o := negotiate(n, r, as(reps...)...)
	o.observe()
	if k > limit {
		ndReach("refused")
		ndAssert(o.err == transparent.ErrVariantListSizeExceeded, "more variants than the maximum are refused")
		ndAssert(o.w.untouched(), "nothing is written when there are too many variants")
	} else {
		ndReach("negotiated")
		ndAssert(o.err == nil, "variants up to the maximum are negotiated")
	}
}
