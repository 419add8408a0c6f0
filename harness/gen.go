package main

// The generators of headers and representations keep what they generate in a
// structured form, of which the oracle computes what applies to what.

// absent is the weight of what no range matches.
const absent = -1

// element is a range of a header, along with its weight in thousandths.
type element struct {
	text string // without the weight
	q    string // the weight, "" for none
	v    int

	// of a media range, in lower case.
	t, s  byte // '*' for a wildcard
	param byte // the value of the parameter p, 0 for none
	// of the other headers, in lower case: "*" for the wildcard.
	name string
}

func (e element) String() string {
	if e.q == "" {
		return e.text
	}
	return e.text + ";q=" + e.q
}

// joinElements is the value of a header with the elements.
func joinElements(es []element) string {
	s := ""
	for i, e := range es {
		if i > 0 {
			s += ", "
		}
		s += e.String()
	}
	return s
}

func lower(b byte) byte {
	if b >= 'A' && b <= 'Z' {
		return b + 'a' - 'A'
	}
	return b
}

// kinds of media ranges.
const (
	anyType = iota
	anySubtype
	fullType
	paramType
	mediaKinds
)

// mediaRange is a range of the kind, of types a and b, subtypes c and d, and
// the parameter p with the values 1 and 2.
func mediaRange(name string, kind int) element {
	switch kind {
	case anyType:
		return element{text: "*/*", t: '*', s: '*', v: 1000}
	case anySubtype:
		t := ndByte(name+".t", "abAB")
		return element{text: string([]byte{t, '/', '*'}), t: lower(t), s: '*', v: 1000}
	}
	t, s := ndByte(name+".t", "abAB"), ndByte(name+".s", "cdCD")
	e := element{text: string([]byte{t, '/', s}), t: lower(t), s: lower(s), v: 1000}
	if kind == paramType {
		e.param = ndByte(name+".p", "12")
		e.text += ";p=" + string([]byte{e.param})
	}
	return e
}

// mediaType is the type of a representation, of the same types, subtypes and
// parameters; it is empty when t is 0.
type mediaType struct {
	text  string
	t, s  byte
	param byte
}

func newMediaType(name string, param bool) mediaType {
	t, s := ndByte(name+".t", "abA"), ndByte(name+".s", "cdC")
	m := mediaType{text: string([]byte{t, '/', s}), t: lower(t), s: lower(s)}
	if param {
		m.param = ndByte(name+".p", "12")
		m.text += ";p=" + string([]byte{m.param})
	}
	return m
}

// mediaWeight is the weight of the most specific range that matches.
func mediaWeight(es []element, m mediaType) int {
	if m.t == 0 || len(es) == 0 {
		return 1000
	}
	best, v := 0, absent
	for _, e := range es {
		spec := 0
		switch {
		case e.t == '*':
			spec = 1
		case e.t != m.t:
		case e.s == '*':
			spec = 2
		case e.s != m.s:
		case e.param == 0:
			spec = 3
		case e.param == m.param:
			spec = 4
		}
		if spec > best {
			best, v = spec, e.v
		}
	}
	return v
}

// nameWeight is the weight of the name, or of the wildcard when the name isn't
// listed, along with the position of the range.
func nameWeight(es []element, name string) (v, pos int) {
	v, pos = absent, len(es)
	for i, e := range es {
		if e.name == name {
			return e.v, i
		}
		if e.name == "*" {
			v, pos = e.v, i
		}
	}
	return v, pos
}

// codingWeight is the lowest weight of the codings.
func codingWeight(es []element, codings []string) int {
	if len(es) == 0 {
		return 1000
	}
	if len(codings) == 0 {
		codings = []string{"identity"}
	}
	low := 1000
	for _, c := range codings {
		v, _ := nameWeight(es, c)
		if v == absent && c == "identity" {
			v = 1000
		}
		if v < low {
			low = v
		}
	}
	return low
}

// pref are the preferences of a request. A header without elements is absent.
type pref struct {
	media, lang, charset, coding []element
}

func (p pref) headers() []string {
	var kv []string
	add := func(name string, es []element) {
		if len(es) > 0 {
			kv = append(kv, name, joinElements(es))
		}
	}
	add("Accept", p.media)
	add("Accept-Language", p.lang)
	add("Accept-Charset", p.charset)
	add("Accept-Encoding", p.coding)
	return kv
}

// variant is a representation, with its attributes in lower case.
type variant struct {
	r       *rep
	mt      mediaType
	level   int // of text/html, absent for none
	lang    string
	charset string
	codings []string
	sq      int // thousandths
	size    int
}

// rank is how a variant meets the preferences: higher is better, for each
// criterion in order.
type rank struct {
	ok       bool
	criteria [8]int
}

func (p pref) rank(v variant) rank {
	q := mediaWeight(p.media, v.mt)
	l, pos := 1000, len(p.lang)
	if v.lang != "" && len(p.lang) > 0 {
		l, pos = nameWeight(p.lang, v.lang)
	}
	c := 1000
	if v.charset != "" && len(p.charset) > 0 {
		c, _ = nameWeight(p.charset, v.charset)
	}
	e := codingWeight(p.coding, v.codings)
	var r rank
	r.ok = q > 0 && l > 0 && c > 0 && e > 0
	iso := 1
	if v.charset == "iso-8859-1" {
		iso = 0
	}
	r.criteria = [8]int{v.sq * q, l, -pos, v.level, c, iso, e, -v.size}
	return r
}

// beats determines if a rank is better than another on the first criterion on
// which they differ. The products of source quality and weight are compared to
// three decimals: halves are not to be compared.
func (a rank) beats(b rank) bool {
	for i := range a.criteria {
		x, y := a.criteria[i], b.criteria[i]
		if i == 0 {
			x, y = (x+500)/1000, (y+500)/1000
		}
		if x != y {
			return x > y
		}
	}
	return false
}

// half determines if the product is halfway between two roundings.
func (a rank) half() bool { return a.criteria[0]%1000 == 500 }
