package main

// C04_Single: one representation with any value of an attribute, or none, and
// the header that regards it with any two (thorough: three) distinct ranges in
// any order, each without a weight or with any weight of one decimal.
func C04_Single() {
	r, o := single()
	ndAssert(r.ok || o.w.status() != 200, "an excluded representation is not served")
	if o.err == nil && o.w.status() == 406 {
		ndReach("refused")
	}
}

// C04_Mixed: two (thorough: three) representations with any of two languages,
// charsets, source qualities of one decimal, and types and codings that
// differ; up to two headers (thorough: all four) have two ranges, such as a
// wildcard, with any weights of one decimal.
func C04_Mixed() {
	ranks, got, _ := mixed()
	for i, r := range ranks {
		ndAssert(got != i || r.ok, "an excluded representation is not served")
	}
}
