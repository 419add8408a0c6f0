package main

import "github.com/freerware/negotiator/proactive"

// The four headers that proactive negotiation regards.
const (
	media = iota
	lang
	charset
	coding
	headers
)

var codingNames = []string{"gzip", "deflate", "identity"}

// anyCase is the name with its first letter in either case.
func anyCase(name, s string) string {
	return string([]byte{ndByte(name+"."+s, string([]byte{s[0], s[0] - 'a' + 'A'}))}) + s[1:]
}

// anyRange is any range of the header, with no weight or one of a decimal.
func anyRange(header int, name string) element {
	var e element
	switch header {
	case media:
		e = mediaRange(name, ndPick(name+".kind", mediaKinds))
	case lang:
		if ndPick(name+".wildcard", 2) == 1 {
			e = element{text: "*", name: "*"}
		} else {
			s := string([]byte{'d', ndByte(name+".tag", "ea")})
			e = element{text: s, name: s}
		}
	case charset:
		if ndPick(name+".wildcard", 2) == 1 {
			e = element{text: "*", name: "*"}
		} else {
			c := ndByte(name+".set", "abAB")
			e = element{text: string([]byte{'x', '-', c}), name: string([]byte{'x', '-', lower(c)})}
		}
	case coding:
		k := ndPick(name+".coding", len(codingNames)+1)
		if k == len(codingNames) {
			e = element{text: "*", name: "*"}
		} else {
			e = element{text: anyCase(name+".case", codingNames[k]), name: codingNames[k]}
		}
	}
	e.v = 1000
	if ndPick(name+".weight", 2) == 1 {
		d := ndByte(name+".q", digits)
		e.q, e.v = "0."+string([]byte{d}), int(d-'0')*100
	}
	return e
}

// distinct assumes that no two elements denote the same range.
func distinct(es []element) {
	for i := range es {
		for j := 0; j < i; j++ {
			a, b := es[i], es[j]
			ndAssume(a.t != b.t || a.s != b.s || a.param != b.param || a.name != b.name)
		}
	}
}

// with adds ranges of the header to the preferences.
func (p *pref) with(header int, es ...element) {
	switch header {
	case media:
		p.media = append(p.media, es...)
	case lang:
		p.lang = append(p.lang, es...)
	case charset:
		p.charset = append(p.charset, es...)
	case coding:
		p.coding = append(p.coding, es...)
	}
}

// anyVariant is a representation with any value of the attribute that the
// header regards, or none.
func anyVariant(header int, name string, sq float32, body string) variant {
	v := variant{level: absent, sq: int(sq*1000 + 0.5), size: len(body)}
	s := spec{q: sq, body: body}
	switch header {
	case media:
		switch ndPick(name+".type", 3) {
		case 1:
			v.mt = newMediaType(name, false)
		case 2:
			v.mt = newMediaType(name, true)
		}
		s.mt = v.mt.text
	case lang:
		if ndPick(name+".language", 2) == 1 {
			v.lang = string([]byte{'d', ndByte(name+".tag", "ea")})
		}
		s.lang = v.lang
	case charset:
		if ndPick(name+".charset", 2) == 1 {
			c := ndByte(name+".set", "abA")
			v.charset = string([]byte{'x', '-', lower(c)})
			s.cs = string([]byte{'x', '-', c})
		}
	case coding:
		switch ndPick(name+".codings", 6) {
		case 1:
			v.codings = []string{"gzip"}
		case 2:
			v.codings = []string{"deflate"}
		case 3:
			v.codings = []string{"identity"}
		case 4:
			v.codings = []string{"gzip", "deflate"}
		case 5:
			v.codings = []string{"identity", "gzip"}
		}
		s.enc = append(s.enc, v.codings...)
		if len(s.enc) > 0 {
			s.enc[0] = anyCase(name+".case", s.enc[0])
		}
	}
	v.r = newRep(s)
	return v
}

// single negotiates one representation with one header.
func single() (rank, outcome) {
	h := ndCase("header", headers)
	n := ndBound(2, 3)
	var p pref
	var es []element
	for i := 0; i < n; i++ {
		es = append(es, anyRange(h, "range"+string(rune('1'+i))))
	}
	distinct(es)
	p.with(h, es...)
	v := anyVariant(h, "rep", 1, "body")
	o := negotiate(proactive.New(), newRequest(p.headers()...), v.r)
	o.observe()
	return p.rank(v), o
}

// tenth is an element with any weight of one decimal below 1.
func tenth(name string, e element) element {
	d := ndByte(name, digits)
	e.q, e.v = "0."+string([]byte{d}), int(d-'0')*100
	return e
}

// mixed negotiates two (thorough: three) representations with any combination
// of attributes, where each header is absent or has two ranges with weights.
func mixed() (ranks []rank, served int, o outcome) {
	var p pref
	var present [headers]bool
	count := 0
	for h, name := range []string{"accept", "language", "charset", "coding"} {
		if count < ndBound(2, 4) {
			present[h] = ndCase(name, 2) == 1
		}
		if present[h] {
			count++
		}
	}
	if present[media] {
		p.with(media, tenth("mq1", element{text: "a/c", t: 'a', s: 'c'}), tenth("mq2", element{text: "b/*", t: 'b', s: '*'}))
	}
	if present[lang] {
		p.with(lang, tenth("lq1", element{text: "*", name: "*"}), tenth("lq2", element{text: "de", name: "de"}))
	}
	if present[charset] {
		p.with(charset, tenth("sq1", element{text: "x-a", name: "x-a"}), tenth("sq2", element{text: "*", name: "*"}))
	}
	if present[coding] {
		p.with(coding, tenth("cq1", element{text: "gzip", name: "gzip"}), tenth("cq2", element{text: "*", name: "*"}))
	}
	n := ndBound(2, 3)
	var vs []variant
	var reps []*rep
	for i := 0; i < n; i++ {
		k := string(rune('1' + i))
		v := variant{level: absent, size: 1 + i%2}
		var s spec
		if i == 0 {
			v.mt = newMediaType("type"+k, false)
		} else {
			v.mt = mediaType{text: "b/c", t: 'b', s: 'c'}
		}
		s.mt = v.mt.text
		v.lang = string([]byte{'d', ndByte("tag"+k, "ea")})
		c := ndByte("set"+k, "ab")
		v.charset = string([]byte{'x', '-', c})
		if i == 0 {
			v.codings = []string{"gzip"}
		}
		s.lang, s.cs, s.enc = v.lang, v.charset, v.codings
		q := ndInt("source"+k, 1, 10)
		v.sq, s.q = q*100, float32(q)/10
		s.body = "xxxxxxxx"[:v.size-1] + k
		v.r = newRep(s)
		vs = append(vs, v)
		reps = append(reps, v.r)
	}
	o = negotiate(proactive.New(proactive.DisableNotAcceptableRepresentation()), newRequest(p.headers()...), as(reps...)...)
	o.observe()
	for _, v := range vs {
		ranks = append(ranks, p.rank(v))
	}
	return ranks, o.served(reps...), o
}
