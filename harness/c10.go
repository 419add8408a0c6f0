package main

import "github.com/freerware/negotiator/proactive"

// some are two (thorough: three) representations with any of two types,
// languages and charsets, or no type or charset, and codings that differ; and
// source qualities that are equal (or differ, with at most one of the other
// headers; thorough: any).
func some(n int, equal bool) []*rep {
	var reps []*rep
	for i := 0; i < n; i++ {
		k := string(rune('1' + i))
		s := spec{q: 1, body: "xxxxxxxx"[:i%2] + k, loc: at(k)}
		if i > 0 || ndPick("bare", 2) == 0 {
			s.mt = string([]byte{ndByte("type"+k, "ab"), '/', 'c'})
			s.cs = string([]byte{'x', '-', ndByte("set"+k, "ab")})
		}
		s.lang = string([]byte{'d', ndByte("tag"+k, "ea")})
		if i == 0 {
			s.enc = []string{"gzip"}
		}
		if !equal {
			s.q = float32(10-i) / 10
		}
		reps = append(reps, newRep(s))
	}
	return reps
}

// ranges are two ranges for each header but one, with any weights of one
// decimal for two of the headers.
func ranges(but int) pref {
	var p pref
	mask, n, bit := ndCase("others", 8), 0, 1
	q := func(h int, a, b element) {
		if h == but {
			return
		}
		if bit <<= 1; mask&(bit>>1) == 0 {
			return
		}
		if n++; n <= ndBound(1, 2) {
			p.with(h, tenth("q"+string(rune('0'+h)), a), tenth("r"+string(rune('0'+h)), b))
		} else {
			b.q = "0.5"
			p.with(h, a, b)
		}
	}
	q(media, element{text: "a/*"}, element{text: "b/c"})
	q(lang, element{text: "de"}, element{text: "da"})
	q(charset, element{text: "*"}, element{text: "x-b"})
	q(coding, element{text: "gzip"}, element{text: "*"})
	return p
}

var headerNames = []string{"Accept", "Accept-Language", "Accept-Charset", "Accept-Encoding"}

// C10_Absent: two (thorough: three) representations with any of two types,
// charsets and languages, where the first may have neither type nor charset;
// one of the four headers is absent in one request, and is a wildcard, with or
// without a weight of 1, in the other one; each of the others is absent or has
// two ranges with any weights of one decimal (for one of them, thorough: two;
// other ones with fixed weights). With and without strict mode and the body of
// 406 responses.
func C10_Absent() {
	h := ndCase("header", headers)
	p := ranges(h)
	kv := p.headers()
	equal := len(kv) > ndBound(2, 8) || ndPick("equal", 2) == 1
	reps := some(ndBound(2, 3), equal)
	wildcard := "*"
	if h == media {
		wildcard = "*/*"
	}
	lenient := ndPick("lenient", 2)
	if lenient == 1 && ndBound(0, 1) == 0 || ndBound(0, 1) == 1 && ndPick("weight", 2) == 1 {
		wildcard += ";q=1.0"
	}
	n := proactive.New()
	if lenient == 1 {
		n = proactive.New(proactive.DisableStrictMode(), proactive.DisableNotAcceptableRepresentation())
	}
	a := negotiate(n, newRequest(kv...), as(reps...)...)
	b := negotiate(n, newRequest(append([]string{headerNames[h], wildcard}, kv...)...), as(reps...)...)
	a.observe()
	ndAssert(same(a, b), "an absent header is the same as a wildcard")
}
