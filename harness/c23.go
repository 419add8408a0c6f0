package main

import (
	"strconv"

	"github.com/freerware/negotiator/internal/header"
	"github.com/freerware/negotiator/transparent"
)

func isTagChar(c byte) bool {
	return c == '-' || c == '.' || c == '_' || c >= '0' && c <= '9' || c >= 'A' && c <= 'Z' || c >= 'a' && c <= 'z'
}

// isOdd determines if the byte is whitespace (or begins whitespace of Unicode),
// a quote, or one of the other characters of tokens, of which it isn't stated
// whether they are accepted.
func isOdd(c byte) bool {
	switch c {
	case ' ', '\t', '\n', '\r', '\f', '\v', 0xc2, 0xe1, 0xe2, 0xe3, '"', '\\', '#', '$', '%', '&', '\'', '*', '+', '^', '`', '|', '~':
		return true
	}
	return false
}

func isTag(s string) bool {
	for i := 0; i < len(s); i++ {
		if !isTagChar(s[i]) {
			return false
		}
	}
	return len(s) > 0
}

func isNumber(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return false
		}
	}
	return true
}

// cut is the text before and after the first occurrence of the byte.
func cut(s string, c byte) (string, string, bool) {
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			return s[:i], s[i+1:], true
		}
	}
	return s, "", false
}

func isPredicate(s string) bool {
	if len(s) > 0 && s[0] == '!' {
		return isTag(s[1:])
	}
	tag, value, some := cut(s, '=')
	if !some {
		return isTag(s)
	}
	if n := len(tag); n > 0 && tag[n-1] == '!' {
		return isTag(tag[:n-1]) && isTag(value)
	}
	if n := len(value); n > 1 && value[0] == '[' && value[n-1] == ']' {
		low, high, some := cut(value[1:n-1], '-')
		return isTag(tag) && some && isNumber(low) && isNumber(high)
	}
	return isTag(tag) && isTag(value)
}

func isBag(s string) bool {
	n := len(s)
	if n < 3 || s[0] != '[' || s[n-1] != ']' {
		return false
	}
	some := false
	start := 1
	for i := 1; i < n; i++ {
		if i < n-1 && s[i] != ' ' && s[i] != '\t' {
			continue
		}
		if i > start {
			if !isPredicate(s[start:i]) {
				return false
			}
			some = true
		}
		start = i + 1
	}
	return some
}

// factorOf is the text after the factor with the sign, if there is one.
func factorOf(s string, sign byte) (string, bool) {
	if len(s) == 0 || s[0] != sign {
		return s, true
	}
	i := 1
	for i < len(s) && s[i] >= '0' && s[i] <= '9' {
		i++
	}
	if i == 1 || i > 4 {
		return s, false
	}
	if i < len(s) && s[i] == '.' {
		i++
		j := i
		for i < len(s) && s[i] >= '0' && s[i] <= '9' {
			i++
		}
		if i-j > 3 {
			return s, false
		}
	}
	return s[i:], true
}

func isFactors(s string) bool {
	s, ok := factorOf(s, '+')
	if !ok {
		return false
	}
	s, ok = factorOf(s, '-')
	return ok && s == ""
}

// isElement determines if the text is an element of a feature list.
func isElement(s string) bool {
	s, factors, some := cut(s, ';')
	if some && !isFactors(factors) {
		return false
	}
	if len(s) > 0 && s[0] == '[' {
		return isBag(s)
	}
	return isPredicate(s)
}

// accepted determines if the element is accepted. When it is, what it is
// printed as has to be accepted as well, and to evaluate the same.
func accepted(s string) bool {
	l, err := header.NewFeatureList([]string{s})
	if err != nil {
		return false
	}
	ndAssert(len(l) == 1, "an element that is accepted is not dropped")
	p := l.String()
	m, err := header.NewFeatureList([]string{p})
	ndAssert(err == nil, "what is printed is accepted")
	if err == nil && len(l) == 1 {
		for _, announced := range []string{"a=5, b", "!a, b=b", "a=a, !b", "ab=10"} {
			af, err := header.NewAcceptFeatures([]string{announced})
			ndAssert(err == nil, "features are accepted")
			x, y := af.AsFeatureSets()
			ndAssert(l.QualityDegradation(x, y) == m.QualityDegradation(x, y), "what is printed evaluates the same")
		}
	}
	return true
}

// C23_Bytes: two (thorough: three) bytes of any value in any of the contexts of
// predicates, bags and factors.
func C23_Bytes() {
	contexts := [][2]string{
		{"", ""}, {"a", ""}, {"a", "b"}, {"!", ""}, {"a=", ""}, {"a!=", "b"}, {"a=[", "]"}, {"a=[5", "-]"}, {"a=", "5-9]"}, {"a=[5-", ""},
		{"[", "]"}, {"[ a", "b ]"}, {"[", "a]"}, {"[ b ", " ]"}, {"[a", ""}, {"[a=[1-5]", "]"},
		{"a;", ""}, {"a;+1", ""}, {"a;-0", ""}, {"a;+1", "-1"}, {"[a];", "1"}, {"[ a ", ";+1"}, {"a;+1.50", ""}, {"a;+12", ".5"},
	}
	n := ndCase("context", len(contexts))
	c := contexts[n]
	b := ndStr("bytes", ndBound(2, 3), "")
	for i := 0; i < len(b); i++ {
		ndAssume(!isOdd(b[i]) || (b[i] == ' ' || b[i] == '\t') && n >= 11 && n <= 13)
	}
	s := c[0] + b + c[1]
	if isElement(s) {
		ndReach("right")
		ndAssert(accepted(s), "an element of the grammar is accepted")
	} else {
		ndReach("wrong")
		ndAssert(!accepted(s), "an element that isn't of the grammar is an error")
	}
}

// C23_Shapes: any element of five (thorough: six) characters that occur in the
// grammar.
func C23_Shapes() {
	first := ndCase("first", 8)
	s := string([]byte{"a5!=[];-"[first]}) + ndStr("rest", ndBound(4, 5), "a5!=[]-;+.")
	if isElement(s) {
		ndReach("right")
		ndAssert(accepted(s), "an element of the grammar is accepted")
	} else {
		ndReach("wrong")
		ndAssert(!accepted(s), "an element that isn't of the grammar is an error")
	}
}

// C23_Negotiation: a feature of two (thorough: three) characters that occur in
// the grammar at any position among others of one of up to three variants, with
// and without other headers.
func C23_Negotiation() {
	n := 1 + ndCase("variants", 3)
	odd := ndPick("odd", n)
	s := ndStr("feature", ndBound(2, 3), "a5!=[]-;+.")
	var vs []*rep
	for i := 0; i < n; i++ {
		x := spec{q: 1, body: strconv.Itoa(i), loc: at(strconv.Itoa(i))}
		if i == odd {
			x.feats = [][]string{{s}, {s, "b"}, {"b", s}, {"b;+1", s, "[ c ]"}}[ndPick("position", 4)]
		} else if ndPick("others", 2) == 1 {
			x.feats = []string{"b", "[ a=5 !c ];-0.5"}
		}
		vs = append(vs, newRep(x))
	}
	kv := []string{"Negotiate", "*", "Accept-Features", "a=5, !b"}
	l := &recorder{list: newRep(spec{mt: "l/l", q: 1, body: "list"})}
	o := negotiate(transparent.New(transparent.ListRepresentation(l.construct)), newRequest(kv...), as(vs...)...)
	o.observe()
	if isElement(s) {
		ndReach("right")
		ndAssert(o.err == nil, "features of the grammar are accepted")
	} else {
		ndReach("wrong")
		ndAssert(o.err != nil, "features that aren't of the grammar are an error")
		ndAssert(o.w.untouched(), "and there is no response")
	}
}
