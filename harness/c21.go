package main

import (
	"strconv"

	"github.com/freerware/negotiator/transparent"
)

// expression is an element of Accept-Features.
type expression struct {
	text  string
	kind  int
	tag   byte // in lower case
	value string
}

const (
	has = iota
	lacks
	equal
	exclusive
	unequal
	expressions
)

// expressionOf is an expression of the kind, with or without whitespace, about
// a tag in any case.
func expressionOf(name string, kind int, tags string, value func() string, blanks bool) expression {
	t := ndByte(name+".tag", tags)
	e := expression{kind: kind, tag: lower(t)}
	tag := "t" + string([]byte{t})
	blank := ""
	if blanks {
		blank = string([]byte{ndByte(name+".blank", " \t")})
	}
	if kind >= equal {
		e.value = value()
	}
	switch kind {
	case has:
		e.text = tag
	case lacks:
		e.text = "!" + blank + tag
	case equal:
		e.text = tag + blank + "=" + blank + e.value
	case exclusive:
		e.text = tag + blank + "=" + blank + "{" + blank + e.value + blank + "}"
	case unequal:
		e.text = tag + blank + "!=" + blank + e.value
	}
	return e
}

// announced is what Accept-Features announces.
type announced []expression

// present determines if the tag is announced as present, and missing if it is
// announced as absent.
func (a announced) present(t byte) bool {
	for _, e := range a {
		if e.tag == t && e.kind != lacks {
			return true
		}
	}
	return false
}

func (a announced) missing(t byte) bool {
	for _, e := range a {
		if e.tag == t && e.kind == lacks {
			return true
		}
	}
	return false
}

func (a announced) valued(t byte, v string) bool {
	for _, e := range a {
		if e.tag == t && (e.kind == equal || e.kind == exclusive) && e.value == v {
			return true
		}
	}
	return false
}

// number is the value of decimal digits.
func number(s string) (int, bool) {
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return 0, false
		}
		n = n*10 + int(s[i]-'0')
	}
	return n, len(s) > 0
}

// consistent determines if the expressions don't contradict one another.
func (a announced) consistent() bool {
	for i, e := range a {
		for j, f := range a {
			if i == j || e.tag != f.tag {
				continue
			}
			if e.kind == lacks && f.kind != lacks {
				return false
			}
			if e.kind == unequal && (f.kind == equal || f.kind == exclusive) && e.value == f.value {
				return false
			}
			if e.kind == exclusive && (f.kind == equal || f.kind == exclusive) && e.value != f.value {
				return false
			}
		}
	}
	return true
}

func (a announced) String() string {
	s := ""
	for i, e := range a {
		if i > 0 {
			s += ", "
		}
		s += e.text
	}
	return s
}

// holds determines if the predicate is true of what is announced.
func (a announced) holds(kind int, t byte, v string) bool {
	switch kind {
	case has:
		return a.present(t)
	case lacks:
		return a.missing(t)
	case equal:
		return a.valued(t, v)
	}
	return a.present(t) && !a.valued(t, v)
}

// between determines if the highest number announced for the tag is of the
// range, negative for unbounded.
func (a announced) between(t byte, low, high int) bool {
	top, some := 0, false
	for _, e := range a {
		if e.tag != t || e.kind != equal && e.kind != exclusive {
			continue
		}
		if n, ok := number(e.value); ok {
			some = true
			if n > top {
				top = n
			}
		}
	}
	return some && (low < 0 || top >= low) && (high < 0 || top <= high)
}

// chosen determines if a variant that has the feature is chosen, rather than
// there being a list.
func chosen(features, predicate string) bool {
	r := newRep(spec{q: 1, body: "1", loc: at("1"), feats: []string{predicate}})
	kv := []string{"Negotiate", "*"}
	if features != "" {
		kv = append(kv, "Accept-Features", features)
	}
	o := negotiate(transparent.New(), newRequest(kv...), as(r)...)
	o.observe()
	ndAssert(o.err == nil, "no error")
	return o.served(r) == 0
}

// C21_Predicates: the predicates 'tag', '!tag', 'tag=v' and 'tag!=v' against
// two (thorough: three) expressions of each kind, with and without
// whitespace, about tags in any case and values of any byte of "xX5".
func C21_Predicates() {
	n := ndBound(2, 3)
	var a announced
	c := ndCase("kinds", expressions*expressions)
	for i := 0; i < n; i++ {
		k := strconv.Itoa(i)
		kind := 0
		switch i {
		case 0:
			kind = c % expressions
		case 1:
			kind = c / expressions
		default:
			kind = ndPick("kind"+k, expressions)
		}
		a = append(a, expressionOf("e"+k, kind, "abA", func() string { return ndStr("value"+k, 1, "xX5") }, i == 1))
	}
	ndAssume(a.consistent())
	t, v := ndByte("tag", "aBb"), ndStr("value", 1, "xX5")
	kind := ndPick("predicate", 4)
	tag := "T" + string([]byte{t})
	p := ""
	switch kind {
	case has:
		p = tag
	case lacks:
		p = "!" + tag
	case equal:
		p = tag + "=" + v
	default:
		p = tag + "!=" + v
	}
	if a.holds(kind, lower(t), v) {
		ndReach("true")
		ndAssert(chosen(a.String(), p), "the predicate is true")
	} else {
		ndReach("false")
		ndAssert(!chosen(a.String(), p), "the predicate is false")
	}
}

// tagChars are the characters of feature tags and values that feature lists
// support.
const tagChars = "-._" + digits + "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"

// C21_Tags: each predicate with tags and values of two characters, of which
// the second (thorough: either) is any, against an expression of each kind with such a tag and
// value, quoted or not, alone or next to other expressions.
func C21_Tags() {
	kind := ndCase("kind", expressions)
	any := func(name string) string {
		if ndBound(0, 1) == 1 && ndPick("either", 2) == 1 {
			return ndStr(name, 1, tagChars) + "t"
		}
		return "t" + ndStr(name, 1, tagChars)
	}
	tag, v := any("e.tag"), ""
	if kind >= equal {
		v = any("e.value")
	}
	quote := func(s string) string { return s }
	if ndPick("quoted", 2) == 1 {
		quote = func(s string) string { return "\"" + s + "\"" }
	}
	text := []string{quote(tag), "!" + quote(tag), quote(tag) + "=" + quote(v), quote(tag) + "={" + quote(v) + "}", quote(tag) + "!=" + quote(v)}[kind]
	switch ndPick("others", 4) {
	case 1:
		text = "other=1, " + text
	case 2:
		text += ";x=\"a,b;c\", *"
	case 3:
		text = "*, " + text + " ; y"
	}
	ptag, pv := any("tag"), ""
	k := ndCase("predicate", 4)
	p := ptag
	switch k {
	case lacks:
		p = "!" + ptag
	case equal:
		pv = any("value")
		p += "=" + pv
	case unequal, exclusive:
		pv = any("value")
		p += "!=" + pv
	}
	about := lower(tag[0]) == lower(ptag[0]) && lower(tag[1]) == lower(ptag[1])
	want := about
	switch k {
	case has:
		want = about && kind != lacks
	case lacks:
		want = about && kind == lacks
	case equal:
		want = about && (kind == equal || kind == exclusive) && v == pv
	default:
		want = about && kind != lacks && !((kind == equal || kind == exclusive) && v == pv)
	}
	if want {
		ndReach("true")
		ndAssert(chosen(text, p), "the predicate is true")
	} else {
		ndReach("false")
		ndAssert(!chosen(text, p), "the predicate is false")
	}
}

// C21_Ranges: ranges from any number of two (thorough: three) digits to any of
// two (three), either of them missing, against up to two (thorough: three)
// announced values of one to three digits, one of which may be no number at all.
func C21_Ranges() {
	var a announced
	bound := func(name string) (string, int) {
		n := ndPick(name, ndBound(3, 4))
		s := ndStr(name+strconv.Itoa(n), n, digits)
		v, ok := number(s)
		if !ok {
			v = -1
		}
		return s, v
	}
	n := ndCase("values", ndBound(3, 4))
	for i := 0; i < n; i++ {
		k := "value" + strconv.Itoa(i)
		kind := equal
		v := ""
		switch ndPick(k, 5) {
		case 0:
			v = ndStr(k, 1, digits)
		case 1:
			v = ndStr(k, 2, digits)
		case 2:
			v = ndStr(k, 3, digits)
		case 3:
			v = ndStr(k+".text", 2, "0aX-.") + "5"
		case 4:
			kind = unequal
			v = ndStr(k, 1, digits)
		}
		tag := byte('a')
		if i == 1 {
			tag = ndByte(k+".tag", "ab")
		}
		e := expression{kind: kind, tag: tag, value: v, text: "t" + string([]byte{tag}) + "=" + v}
		if kind == unequal {
			e.text = "t" + string([]byte{tag}) + "!=" + v
		}
		a = append(a, e)
	}
	ndAssume(a.consistent())
	low, l := bound("low")
	high, h := bound("high")
	p := "tA=[" + low + "-" + high + "]"
	if a.between('a', l, h) {
		ndReach("true")
		ndAssert(chosen(a.String(), p), "the predicate is true")
	} else {
		ndReach("false")
		ndAssert(!chosen(a.String(), p), "the predicate is false")
	}
}

// C21_Large: ranges and values of up to eighteen digits, of which the last
// one is any and the others are nines.
func C21_Large() {
	nines := "999999999999999999999999999999"
	digit := func(name string, n int) string { return nines[:n-1] + string([]byte{ndByte(name, digits)}) }
	lengths := []int{1, 2, 5, 9, 10, 11, 18}
	n := lengths[ndPick("digits", 7)]
	v := digit("value", n)
	m := lengths[ndPick("lows", 7)]
	low := digit("low", m)
	h := lengths[ndPick("highs", 7)]
	high := digit("high", h)
	ge := n > m || n == m && v[n-1] >= low[m-1]
	le := n < h || n == h && v[n-1] <= high[h-1]
	p := "t=[" + low + "-" + high + "]"
	if ge && le {
		ndReach("true")
		ndAssert(chosen("t="+v, p), "the predicate is true")
	} else {
		ndReach("false")
		ndAssert(!chosen("t="+v, p), "the predicate is false")
	}
}

// C21_Numbers: the predicates 'tag=v' and 'tag!=v' with values of one to three
// characters of "0", "5" and ".", against up to two values of that kind.
func C21_Numbers() {
	any := func(name string) string {
		n := 1 + ndPick(name+".length", 3)
		return ndStr(name+strconv.Itoa(n), n, "05.")
	}
	var a announced
	for i := 0; i < 1+ndPick("values", ndBound(2, 3)); i++ {
		v := any("value" + strconv.Itoa(i))
		e := expression{kind: equal, tag: 'a', value: v, text: "ta=" + v}
		switch i {
		case 1:
			e = expression{kind: unequal, tag: 'a', value: v, text: "ta!=" + v}
		}
		a = append(a, e)
	}
	ndAssume(a.consistent())
	v := any("value")
	kind, p := equal, "ta="+v
	if ndCase("predicate", 2) == 1 {
		kind, p = unequal, "ta!="+v
	}
	if a.holds(kind, 'a', v) {
		ndReach("true")
		ndAssert(chosen(a.String(), p), "the predicate is true")
	} else {
		ndReach("false")
		ndAssert(!chosen(a.String(), p), "the predicate is false")
	}
}
