package main

import "github.com/freerware/negotiator/proactive"

// ranged is a media range or type of the types a and b and subtypes c and d,
// with any of the parameters p and r.
type ranged struct {
	text string
	t, s byte // in lower case, '*' for wildcards
	p, r byte // 0 for none
	v    int  // of a range, the weight in thousandths
}

// anyParams adds any of the parameters: none, p, r, both, and both the other
// way around.
func (m *ranged) anyParams(name string, of ...int) {
	k := 0
	if name == "type" {
		k = of[ndCase(name+".params", len(of))]
	} else {
		k = of[ndPick(name+".params", len(of))]
	}
	if k == 1 || k >= 3 {
		m.p = ndByte(name+".p", "xX")
	}
	if k == 2 || k >= 3 {
		m.r = ndByte(name+".r", "12")
	}
	p := func() {
		if m.p != 0 {
			n := ndByte(name+".P", "pP")
			m.text += ";" + string([]byte{n, '=', m.p})
		}
	}
	if k != 4 {
		p()
	}
	if m.r != 0 {
		m.text += "; r=\"" + string([]byte{m.r}) + "\""
	}
	if k == 4 {
		p()
	}
}

func anyMediaRange(name string) ranged {
	m := ranged{t: '*', s: '*', v: 1000}
	switch ndCase(name+".kind", 3) {
	case 0:
		m.text = "*/*"
	case 1:
		t := ndByte(name+".t", "aB")
		m.t, m.text = lower(t), string([]byte{t, '/', '*'})
	case 2:
		t, s := byte("aA"[int(name[5]-'0')&1]), ndByte(name+".s", "Cd")
		if ndBound(0, 1) == 1 {
			t = ndByte(name+".t", "aB")
		}
		m.t, m.s, m.text = lower(t), lower(s), string([]byte{t, '/', s})
		switch {
		case ndBound(0, 1) == 1:
			m.anyParams(name, 0, 1, 2, 3, 4)
		case name == "range1":
			m.anyParams(name, 0, 1, 3)
		default:
			m.anyParams(name, 0, 2, 4)
		}
	}
	m.weigh(name)
	return m
}

func (m *ranged) weigh(name string) {
	d := ndByte(name+".q", digits)
	m.v = int(d-'0') * 100
	m.text += ";" + string([]byte{ndByte(name+".Q", "qQ")}) + "=0." + string([]byte{d})
}

// matches is how specific the range is for the media type, 0 if it doesn't
// match.
func (m ranged) matches(o ranged) int {
	switch {
	case m.t == '*':
		return 1
	case m.t != o.t:
		return 0
	case m.s == '*':
		return 2
	case m.s != o.s || m.p != 0 && m.p != o.p || m.r != 0 && m.r != o.r:
		return 0
	}
	n := 3
	if m.p != 0 {
		n++
	}
	if m.r != 0 {
		n++
	}
	return n
}

// C20_Media: two (thorough: three) media ranges that are any of */*, type/*,
// type/subtype (quick: with the type a) with any of two parameters of two values each (quick: one of them
// in the first range, the other one in the second, or both),
// with any weights of one decimal and either letter case, and a media type
// with any of the parameters, competing with another representation of which
// the weight is any with two decimals, the second one being 5.
func C20_Media() {
	var es []ranged
	text := ""
	for i := 0; i < ndBound(2, 3); i++ {
		e := anyMediaRange("range" + string(rune('1'+i)))
		es = append(es, e)
		text += e.text + ", "
	}
	t, s := ndByte("t", "Ab"), ndByte("s", "cD")
	m := ranged{t: lower(t), s: lower(s), text: string([]byte{t, '/', s})}
	m.anyParams("type", 0, 1, 2, 3, 4)
	c := ndByte("competitor", digits)
	best, v := 0, absent
	for _, e := range es {
		k := e.matches(m)
		ndAssume(k == 0 || k != best)
		if k > best {
			best, v = k, e.v
		}
	}
	reps := []*rep{
		newRep(spec{mt: m.text, q: 1, body: "1"}),
		newRep(spec{mt: "z/z", q: 1, body: "2"}),
	}
	o := negotiate(proactive.New(proactive.DisableNotAcceptableRepresentation()), newRequest("Accept", text+"z/z;q=0."+string([]byte{c, '5'})), as(reps...)...)
	o.observe()
	got := o.served(reps...)
	if v > int(c-'0')*100+50 {
		ndReach("matched")
		ndAssert(got == 0, "the most specific range applies")
	} else {
		ndAssert(got == 1, "less specific ranges, and those that do not match, do not apply")
	}
}

// C20_Names: two (thorough: three) ranges that are any of two names, in either
// letter case, or the wildcard, of Accept-Language, Accept-Charset and
// Accept-Encoding, each with any weight of one decimal, and a representation
// of any of the names, competing with another one of which the weight is any
// with two decimals, the second one being 5.
func C20_Names() {
	h := 1 + ndCase("header", 3)
	names := [][]string{nil, {"de", "da"}, {"x-a", "x-b"}, {"gzip", "x-gzip"}}[h]
	other := []string{"", "nl", "x-z", "deflate"}[h]
	var es []element
	text := ""
	for i := 0; i < ndBound(2, 3); i++ {
		k := "range" + string(rune('1'+i))
		e := element{text: "*", name: "*"}
		if j := ndPick(k+".name", 3); j < 2 {
			e = element{text: anyCases(k+"."+names[j], names[j], 2), name: names[j]}
		}
		e = tenth(k+".q", e)
		es = append(es, e)
		text += e.String() + ", "
	}
	distinct(es)
	j := ndPick("name", 2)
	c := ndByte("competitor", digits)
	s, o := spec{q: 1, body: "1"}, spec{q: 1, body: "2"}
	n := anyCases("rep."+names[j], names[j], 2)
	switch h {
	case lang:
		s.lang, o.lang = n, other
	case charset:
		s.cs, o.cs = n, other
	case coding:
		s.enc, o.enc = []string{n}, []string{other}
	}
	reps := []*rep{newRep(s), newRep(o)}
	out := negotiate(proactive.New(proactive.DisableNotAcceptableRepresentation()), newRequest(headerNames[h], text+other+";q=0."+string([]byte{c, '5'})), as(reps...)...)
	out.observe()
	got := out.served(reps...)
	if v, _ := nameWeight(es, names[j]); v > int(c-'0')*100+50 {
		ndReach("matched")
		ndAssert(got == 0, "a listed name applies before the wildcard")
	} else {
		ndAssert(got == 1, "other names do not apply")
	}
}

// C20_Languages: a representation in any of ten languages, some of which begin
// like another one or have a region or script; two (thorough: three) ranges that
// are any of these (quick: that begin with the same letter, and another one;
// thorough: in either case of the first letter) or the wildcard, with any weights of one
// decimal, competing with another
// one of which the weight is any with two decimals, the second one being 5.
func C20_Languages() {
	names := []string{"en", "en-US", "fi", "fil", "ar", "arn", "pt-BR", "pt", "zh-Hant", "zh"}
	primary := func(s string) string {
		for i := range s {
			if s[i] == '-' {
				return s[:i]
			}
		}
		return s
	}
	j := ndCase("name", len(names))
	c := ndByte("competitor", digits)
	var of []string
	for i, n := range names {
		if ndBound(0, 1) == 1 || n[0] == names[j][0] || i == (j/2*2+2)%len(names) {
			of = append(of, n)
		}
	}
	best, weight := 0, absent
	text := ""
	for i := 0; i < ndBound(2, 3); i++ {
		k := "range" + string(rune('1'+i))
		e, specific := element{text: "*"}, 1
		if l := ndPick(k+".name", len(of)+1); l < len(of) {
			e.text = anyCases(k+"."+of[l], of[l], ndBound(0, 1))
			switch {
			case of[l] == names[j]:
				specific = 3
			case primary(of[l]) == primary(names[j]):
				specific = 2
			default:
				specific = 0
			}
		}
		e = tenth(k+".q", e)
		text += e.String() + ", "
		ndAssume(specific == 0 || specific != best)
		if specific > best {
			best, weight = specific, e.v
		}
	}
	reps := []*rep{
		newRep(spec{lang: anyCases("rep."+names[j], names[j], ndBound(0, 1)), q: 1, body: "1"}),
		newRep(spec{lang: "ja", q: 1, body: "2"}),
	}
	out := negotiate(proactive.New(proactive.DisableNotAcceptableRepresentation()), newRequest("Accept-Language", text+"ja;q=0."+string([]byte{c, '5'})), as(reps...)...)
	out.observe()
	got := out.served(reps...)
	if weight > int(c-'0')*100+50 {
		ndReach("matched")
		ndAssert(got == 0, "the same language applies before others, and those before the wildcard")
	} else {
		ndAssert(got == 1, "other languages do not apply")
	}
}

// C20_Real: a representation of each of many real names, and a range of any of
// these, in either case of two letters, or another one in front of it, with any
// weight of one decimal, of Accept, Accept-Charset and Accept-Encoding.
func C20_Real() {
	names := [][]string{
		{"text/html", "text/xhtml", "application/xhtml+xml", "application/xml", "text/xml", "application/json", "text/json", "application/problem+json", "application/vnd.a+json", "image/jpeg", "image/jpg", "image/svg", "image/svg+xml", "application/javascript", "text/javascript", "text/plain", "text/plain-text", "application/x-yaml", "application/yaml"},
		{"utf-8", "utf8", "utf-16", "utf-16le", "iso-8859-1", "iso8859-1", "iso_8859-1", "iso-8859-15", "latin1", "l1", "us-ascii", "ascii", "windows-1252", "cp1252", "koi8-r", "koi8-u", "shift_jis", "shift-jis", "euc-jp", "gb2312", "gbk", "x-utf-8"},
		{"gzip", "x-gzip", "compress", "x-compress", "deflate", "br", "zstd", "pack200-gzip", "exi", "dcb", "dcz", "aes128gcm"},
	}
	h := ndCase("header", 3)
	of := names[h]
	n := ndCase("name", 22)
	if n >= len(of) {
		return
	}
	r := ndPick("range", len(of))
	e := tenth("q", element{text: anyCases("range."+of[r], of[r], 2)})
	text := e.String()
	if ndPick("others", 2) == 1 {
		text = []string{"z/*;q=0.9, ", "x-z, ", "identity;q=0.1,"}[h] + text
	}
	s := spec{q: 1, body: "1"}
	switch h {
	case 0:
		s.mt = of[n]
	case 1:
		s.cs = of[n]
	case 2:
		s.enc = []string{of[n]}
	}
	o := negotiate(proactive.New(proactive.DisableNotAcceptableRepresentation()), newRequest([]string{"Accept", "Accept-Charset", "Accept-Encoding"}[h], text), as(newRep(s))...)
	o.observe()
	if n == r && e.v > 0 {
		ndReach("matched")
		ndAssert(o.err == nil && o.w.status() == 200, "ranges match what they denote")
	} else {
		ndAssert(o.err == nil && o.w.status() == 406, "other names do not apply")
	}
}
