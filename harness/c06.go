package main

import "github.com/freerware/negotiator/proactive"

// digit is a weight of one decimal, not 0.
func digit(name string) (string, int) {
	d := ndByte(name, "123456789")
	return "0." + string([]byte{d}), int(d-'0') * 100
}

// C06_Criteria: two (thorough: three) representations that differ in everything that the
// criteria regard, for any weight of one decimal for each attribute of each of
// them, any source quality of one decimal, and any size from 1 to 3 bytes.
func C06_Criteria() {
	n := ndBound(2, 3)
	types := []mediaType{{text: "text/html;level=1", t: 'h'}, {text: "text/html;level=2", t: 'h'}, {text: "text/plain", t: 'p'}}
	levels := []int{1, 2, absent}
	switch ndCase("types", 3) {
	case 1:
		types = []mediaType{{text: "text/html;level=1", t: 'h'}, {text: "text/plain;level=2", t: 'p'}, {text: "text/html", t: 'h'}}
		levels = []int{1, absent, absent}
	case 2:
		types = []mediaType{{text: "text/html", t: 'h'}, {text: "text/html;level=0", t: 'h'}, {text: "text/plain;level=1", t: 'p'}}
		levels = []int{absent, 0, absent}
	}
	langs := []string{"en", "fr", "de"}
	sets := []string{"utf-8", "iso-8859-1", "koi8-r"}
	codings := []string{"gzip", "deflate", "compress"}
	var p pref
	var vs []variant
	var reps []*rep
	for i := 0; i < n; i++ {
		k := string(rune('1' + i))
		var v variant
		el := func(name, text string) element {
			q, w := digit(name + k)
			return element{text: text, q: q, v: w, name: text}
		}
		p.lang = append(p.lang, el("lang", langs[i]))
		p.charset = append(p.charset, el("charset", sets[i]))
		p.coding = append(p.coding, el("coding", codings[i]))
		v.lang, v.charset, v.codings = langs[i], sets[i], codings[i:i+1]
		v.mt, v.level = types[i], levels[i]
		sq := ndInt("sq"+k, 1, 10)
		v.sq = sq * 100
		v.size = 1 + ndPick("size"+k, 3)
		body := ""
		for j := 0; j < v.size; j++ {
			body += k
		}
		v.r = newRep(spec{mt: v.mt.text, lang: v.lang, cs: v.charset, enc: v.codings, q: float32(sq) / 10, body: body})
		vs = append(vs, v)
		reps = append(reps, v.r)
	}
	hq, hv := digit("html")
	pq, pv := digit("plain")
	p.media = []element{{text: "text/html", q: hq, v: hv, t: 'h', s: '*'}, {text: "text/plain", q: pq, v: pv, t: 'p', s: '*'}}
	o := negotiate(proactive.New(), newRequest(p.headers()...), as(reps...)...)
	got := o.served(reps...)
	o.observe()
	ndAssert(got >= 0, "an acceptable representation is served")
	if got < 0 {
		return
	}
	chosen := p.rank(vs[got])
	for i, v := range vs {
		r := p.rank(v)
		if i != got {
			ndAssert(!r.beats(chosen), "the representation served is not beaten")
			ndAssert(i > got || chosen.beats(r), "ties go to the first")
		}
	}
}

// C06_Products: two representations of which the smaller one is the first or
// the second one, with any source qualities of one decimal and any weights of
// their media types of two decimals.
func C06_Products() {
	small := ndCase("small", 2)
	var accept []string
	var products []int
	var reps []*rep
	for i, mt := range []string{"a/b", "a/c"} {
		k := string(rune('1' + i))
		a, b := ndByte("a"+k, digits), ndByte("b"+k, digits)
		sq := ndInt("source"+k, 1, 10)
		w := int(a-'0')*10 + int(b-'0')
		ndAssume(w > 0)
		accept = append(accept, mt+";q=0."+string([]byte{a, b}))
		products = append(products, sq*w)
		body := "1"
		if i != small {
			body = "22"
		}
		reps = append(reps, newRep(spec{mt: mt, q: float32(sq) / 10, body: body}))
	}
	o := negotiate(proactive.New(), newRequest("Accept", accept[0]+","+accept[1]), as(reps...)...)
	o.observe()
	want := small
	if products[0] > products[1] {
		want = 0
	} else if products[0] < products[1] {
		want = 1
	}
	ndAssert(o.served(reps...) == want, "the representation served is not beaten")
}

// C06_Mixed: two (thorough: three) representations with any of two languages,
// charsets, source qualities of one decimal, and types and codings that
// differ; up to two headers (thorough: all four) have two ranges, such as a
// wildcard, with any weights of one decimal.
func C06_Mixed() {
	ranks, got, _ := mixed()
	if got < 0 {
		return
	}
	for i, r := range ranks {
		if i != got {
			ndAssert(!r.ok || !r.beats(ranks[got]), "the representation served is not beaten")
		}
	}
}

// C06_Several: three (thorough: four) representations that differ in
// everything that the criteria regard, for either of two weights for each
// attribute of each of them, and either of two source qualities and sizes (quick:
// if there is no Accept-Language).
func C06_Several() {
	n := ndBound(3, 4)
	either := func(name string) (string, int) {
		d := ndByte(name, "12")
		return "0." + string([]byte{d}), int(d-'0') * 100
	}
	levels := [][]int{{1, 2, absent, 2}, {absent, 1, 0, 1}, {3, 3, 2, 3}}[ndCase("levels", 3)]
	langs := []string{"en", "fr", "de", "it"}
	sets := []string{"utf-8", "iso-8859-1", "koi8-r", "us-ascii"}
	codings := []string{"gzip", "deflate", "compress", "x-gzip"}
	var p pref
	var vs []variant
	var reps []*rep
	regards := ndCase("headers", 4)
	for i := 0; i < n; i++ {
		k := string(rune('1' + i))
		v := variant{sq: 1000, level: levels[i], lang: langs[i], charset: sets[i], codings: codings[i : i+1]}
		v.mt = mediaType{text: "text/html", t: 'h'}
		if levels[i] != absent {
			v.mt.text += ";level=" + string(rune('0'+levels[i]))
		}
		el := func(name, text string) element {
			q, w := either(name + k)
			return element{text: text, q: q, v: w, name: text}
		}
		if regards&1 == 0 {
			p.lang = append(p.lang, el("lang", langs[i]))
		}
		if regards&2 == 0 {
			p.charset = append(p.charset, el("charset", sets[i]))
		}
		if regards != 0 {
			p.coding = append(p.coding, el("coding", codings[i]))
		}
		sq := ndInt("sq"+k, 9, 10)
		v.sq = sq * 100
		v.size = []int{2, 1, 2, 1}[i]
		if regards&1 == 1 || ndBound(0, 1) == 1 {
			v.size = 1 + ndPick("size"+k, 2)
		}
		v.r = newRep(spec{mt: v.mt.text, lang: v.lang, cs: v.charset, enc: v.codings, q: float32(sq) / 10, body: (k + k)[:v.size]})
		vs = append(vs, v)
		reps = append(reps, v.r)
	}
	o := negotiate(proactive.New(), newRequest(p.headers()...), as(reps...)...)
	got := o.served(reps...)
	o.observe()
	ndAssert(got >= 0, "an acceptable representation is served")
	if got < 0 {
		return
	}
	chosen := p.rank(vs[got])
	for i, v := range vs {
		r := p.rank(v)
		if i != got {
			ndAssert(!r.beats(chosen), "the representation served is not beaten")
			ndAssert(i > got || chosen.beats(r), "ties go to the first")
		}
	}
}

// C06_Alike: three representations (thorough: four, but for levels) that are equal but
// for one criterion, in any order: the charset, which is any of iso-8859- and up to two
// digits, x, or any letter in front of so-8859-1, in either case of a letter, or
// another one, or none; the level, which is any of up to two digits, of html or
// another type; or the size, which is up to 1000 bytes.
func C06_Alike() {
	by := ndCase("criterion", 3)
	n := 3
	if by != 1 {
		n = ndBound(3, 4)
	}
	var p pref
	var ranks []rank
	var reps []*rep
	for i := 0; i < n; i++ {
		k := string(rune('1' + i))
		v := variant{sq: 1000, level: absent, size: 1}
		v.mt = mediaType{text: "text/html", t: 'h'}
		text := ""
		switch by {
		case 0:
			switch ndPick("charset"+k, 6) {
			case 1:
				text = "utf-8"
			case 2:
				text = string([]byte{ndByte("i"+k, "iI"), 's', ndByte("o"+k, "oO")}) + "-8859-" + string([]byte{ndByte("digit"+k, digits)})
			case 3:
				text = "iso-8859-" + string([]byte{ndByte("ten"+k, "123456789x"), ndByte("one"+k, digits)})
			case 4:
				text = string([]byte{ndByte("letter"+k, "abIix")}) + "so-8859-1"
			case 5:
				text = "iso-8859-" + []string{"1-x", "", "1x"}[ndPick("suffix"+k, 3)]
			}
			b := []byte(text)
			for j := range b {
				b[j] = lower(b[j])
			}
			v.charset = string(b)
		case 1:
			level := ""
			switch ndPick("digits"+k, 4) {
			case 1:
				d := ndByte("ones"+k, digits)
				level, v.level = string([]byte{d}), int(d-'0')
			case 2:
				t, d := ndByte("tens"+k, "123456789"), ndByte("ones"+k, digits)
				level, v.level = string([]byte{t, d}), int(t-'0')*10+int(d-'0')
			case 3:
				d := ndByte("hundreds"+k, "123456789")
				level, v.level = string([]byte{d, '0', '0'}), int(d-'0')*100
			}
			switch ndPick("type"+k, 3) {
			case 1:
				v.mt.text = "TEXT/html"
			case 2:
				v.mt.text = []string{"text/xhtml", "application/html", "text/html+xml", "text/htm"}[i]
				v.level = absent
			}
			if level != "" {
				v.mt.text += []string{";level=", "; Level="}[i&1] + level
			}
		case 2:
			v.size = []int{1, 0, 2, 9, 10, 11, 99, 100, 1000}[ndPick("size"+k, 9)]
		}
		v.r = newRep(spec{mt: v.mt.text, cs: text, q: 1, body: filled(v.size), loc: at(k)})
		reps = append(reps, v.r)
		r := p.rank(v)
		r.criteria[0] = 1000
		ranks = append(ranks, r)
	}
	o := negotiate(proactive.New(), newRequest(), as(reps...)...)
	o.observe()
	got := -1
	for i, r := range reps {
		if o.w.status() == 200 && o.w.get("Content-Location") == urlText(r.ContentLocation()) {
			got = i
		}
	}
	ndAssert(o.err == nil && got >= 0, "a representation is served")
	if got < 0 {
		return
	}
	for i, r := range ranks {
		if i != got {
			ndAssert(!r.beats(ranks[got]), "the representation served is not beaten")
			ndAssert(i > got || ranks[got].beats(r), "ties go to the first")
		}
	}
}

// C06_Sources: two representations of any source qualities of three decimals,
// of which the first or second is the smaller one, without headers, or with
// headers that have the same weight for both.
func C06_Sources() {
	a, b := thousandths("first"), thousandths("second")
	small := ndCase("small", 2)
	x, y := spec{mt: "a/b", lang: "en", q: float32(a) / 1000, body: "1"}, spec{mt: "a/c", lang: "en", q: float32(b) / 1000, body: "2"}
	if small == 0 {
		y.body = "22"
	} else {
		x.body = "11"
	}
	kv := [][]string{nil, {"Accept", "a/*"}, {"Accept-Language", "en;q=0.5"}, {"Accept", "a/b, a/c", "Accept-Charset", "x-a;q=0.1"}}[ndCase("headers", 4)]
	reps := []*rep{newRep(x), newRep(y)}
	o := negotiate(proactive.New(), newRequest(kv...), as(reps...)...)
	o.observe()
	want := small
	if a > b {
		want = 0
	} else if b > a {
		want = 1
	}
	ndAssert(o.served(reps...) == want, "the representation served is not beaten")
}

// thousandths is any number from 0 to 999.
func thousandths(name string) int {
	d := ndStr(name, 3, digits)
	return int(d[0]-'0')*100 + int(d[1]-'0')*10 + int(d[2]-'0')
}
