package main

import "github.com/freerware/negotiator/proactive"

// realType is a media type or range in lower case, with its parameters.
type realType struct {
	text, t, s string
	params     []string // name=value
}

var (
	typeNone    = realType{}
	typeHTML    = realType{"text/html", "text", "html", nil}
	typeHTML2   = realType{"TEXT/HTML; charset=utf-8; level=2", "text", "html", []string{"charset=utf-8", "level=2"}}
	typeHTML10  = realType{"text/html;level=10", "text", "html", []string{"level=10"}}
	typeHTML9   = realType{"text/html;Level=\"9\"", "text", "html", []string{"level=9"}}
	typeFlowed  = realType{"text/plain; format=flowed; level=3", "text", "plain", []string{"format=flowed", "level=3"}}
	typeVersion = realType{"application/vnd.a+json;version=2", "application", "vnd.a+json", []string{"version=2"}}
)

// realVariants are representations as they are commonly found, with the
// attributes in lower case.
var realVariants = []struct {
	mt      realType
	level   int
	lang    string
	charset string
	text    string // of the charset
	codings []string
}{
	{typeHTML, absent, "en", "utf-8", "utf-8", nil},
	{typeHTML2, 2, "fr", "iso-8859-1", "ISO-8859-1", []string{"gzip"}},
	{typeHTML10, 10, "en", "iso-8859-1", "iso-8859-1", []string{"identity"}},
	{typeFlowed, absent, "de", "us-ascii", "US-ASCII", []string{"deflate", "gzip"}},
	{typeVersion, absent, "", "utf-8", "UTF-8", []string{"x-gzip"}},
	{typeNone, absent, "", "", "", nil},
	{typeHTML, absent, "en", "iso-8859-1", "Iso-8859-1", nil},
	{typeHTML9, 9, "en", "", "", []string{"compress", "identity"}},
}

// realHeaders are ranges of the four headers as they are commonly found.
var realHeaders = []struct {
	accept                 []realType
	lang, charset, codings []string
}{
	{},
	{accept: []realType{{"text/html;level=2", "text", "html", []string{"level=2"}}, {"text/*", "text", "*", nil}, {"*/*", "*", "*", nil}}},
	{accept: []realType{{"Text/Html;Level=10", "text", "html", []string{"level=10"}}, {"text/plain;format=\"flowed\"", "text", "plain", []string{"format=flowed"}}, {"application/*", "application", "*", nil}}},
	{accept: []realType{{"text/html;charset=utf-8;level=2", "text", "html", []string{"charset=utf-8", "level=2"}}, {"text/html;charset=utf-8", "text", "html", []string{"charset=utf-8"}}, {"text/plain", "text", "plain", nil}}},
	{lang: []string{"en", "fr"}},
	{lang: []string{"*", "de", "EN"}},
	{charset: []string{"utf-8", "us-ascii"}},
	{charset: []string{"*", "Iso-8859-1"}},
	{codings: []string{"gzip", "identity"}},
	{codings: []string{"Identity", "*"}},
	{codings: []string{"compress", "X-Gzip", "deflate"}},
	{accept: []realType{{"text/html", "text", "html", nil}}, charset: []string{"utf-8"}},
	{accept: []realType{{"text/*", "text", "*", nil}}, codings: []string{"gzip", "*"}},
	{lang: []string{"fr", "en"}, charset: []string{"*", "utf-8"}},
	{lang: []string{"*"}, codings: []string{"x-gzip", "compress"}},
	{accept: []realType{{"*/*", "*", "*", nil}}, lang: []string{"en"}, charset: []string{"ISO-8859-1"}, codings: []string{"*"}},
}

// matches is how specific the range is for the media type, 0 if it doesn't
// match.
func (r realType) matches(m realType) int {
	switch {
	case r.t == "*":
		return 1
	case r.t != m.t:
		return 0
	case r.s == "*":
		return 2
	case r.s != m.s:
		return 0
	}
	for _, p := range r.params {
		found := false
		for _, q := range m.params {
			found = found || p == q
		}
		if !found {
			return 0
		}
	}
	return 3 + len(r.params)
}

// real negotiates two (thorough: three) distinct representations among those
// that are commonly found, in any order, with any source quality of one
// decimal, and headers that are commonly found, with any weights of one
// decimal.
func real() (ranks []rank, served int, o outcome) {
	h := realHeaders[ndCase("headers", len(realHeaders))]
	var p pref
	var kv []string
	var accept []element
	for i, r := range h.accept {
		accept = append(accept, tenth("accept"+string(rune('1'+i)), element{text: r.text}))
	}
	named := func(header string, names []string) (es []element) {
		for i, n := range names {
			b := []byte(n)
			for j := range b {
				b[j] = lower(b[j])
			}
			es = append(es, tenth(header+string(rune('1'+i)), element{text: n, name: string(b)}))
		}
		return
	}
	p.lang, p.charset, p.coding = named("language", h.lang), named("charset", h.charset), named("coding", h.codings)
	if len(accept) > 0 {
		kv = append(kv, "Accept", joinElements(accept))
	}
	kv = append(kv, p.headers()...)
	n := ndBound(2, 3)
	var vs []variant
	var ms []realType
	var reps []*rep
	used := map[int]bool{}
	for i := 0; i < n; i++ {
		k := string(rune('1' + i))
		at := ndPick("variant"+k, len(realVariants))
		ndAssume(!used[at])
		used[at] = true
		r := realVariants[at]
		sq := 5 + i
		if i == 0 {
			sq = ndInt("source", 1, 10)
		}
		v := variant{level: r.level, lang: r.lang, charset: r.charset, codings: r.codings, sq: sq * 100, size: 1 + (n-i)%2}
		v.r = newRep(spec{mt: r.mt.text, lang: r.lang, cs: r.text, enc: r.codings, q: float32(sq) / 10, body: "xxxx"[:v.size-1] + k})
		vs, ms, reps = append(vs, v), append(ms, r.mt), append(reps, v.r)
	}
	o = negotiate(proactive.New(proactive.DisableNotAcceptableRepresentation()), newRequest(kv...), as(reps...)...)
	o.observe()
	for i, v := range vs {
		r := p.rank(v)
		if len(accept) > 0 && ms[i].text != "" {
			best, q := 0, absent
			for j, a := range h.accept {
				if k := a.matches(ms[i]); k > best {
					best, q = k, accept[j].v
				}
			}
			r.ok = r.ok && q > 0
			r.criteria[0] = v.sq * q
		}
		ranks = append(ranks, r)
	}
	return ranks, o.served(reps...), o
}

// C04_Real: two (thorough: three) distinct representations out of eight that
// are as commonly found, the first one with any source quality of one decimal,
// in any order, and one of 16 combinations of headers as commonly found, with
// any weights of one decimal.
func C04_Real() {
	ranks, got, _ := real()
	for i, r := range ranks {
		ndAssert(got != i || r.ok, "an excluded representation is not served")
	}
}

// C05_Real: as C04_Real.
func C05_Real() {
	ranks, got, o := real()
	ndAssert(o.err == nil, "no error")
	ok := false
	for _, r := range ranks {
		ok = ok || r.ok
	}
	ndAssert(!ok || got >= 0, "one of the acceptable representations is served")
}

// C06_Real: as C04_Real.
func C06_Real() {
	ranks, got, _ := real()
	if got < 0 {
		return
	}
	for i, r := range ranks {
		if i != got {
			ndAssert(!r.ok || !r.beats(ranks[got]), "the representation served is not beaten")
		}
	}
}

// C05_Weights: a representation and any weights of three decimals of the one
// range, or the wildcard, of each of the four headers, of which any may be
// absent.
func C05_Weights() {
	ok := true
	var kv []string
	for h, of := range [][2]string{{"a/b", "*/*"}, {"de", "*"}, {"x-a", "*"}, {"gzip", "*"}} {
		k := string(rune('1' + h))
		if c := ndPick("range"+k, 3); c < 2 {
			q, v := fraction("weight" + k)
			ok = ok && v > 0
			kv = append(kv, headerNames[h], of[c]+";q="+q)
		}
	}
	r := newRep(spec{mt: "a/b", lang: "de", cs: "x-a", enc: []string{"gzip"}, q: 1, body: "1"})
	o := negotiate(proactive.New(proactive.DisableNotAcceptableRepresentation()), newRequest(kv...), r)
	o.observe()
	ndAssert(o.err == nil, "no error")
	if ok {
		ndAssert(o.served(r) == 0, "an acceptable representation is served")
	} else {
		ndAssert(o.w.status() == 406, "an excluded representation is not served")
	}
}
