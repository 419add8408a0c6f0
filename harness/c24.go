package main

import (
	"errors"
	"io"
	"strconv"
	"strings"

	"github.com/freerware/negotiator/representation"
)

var errCoded = errors.New("not of the coding")

// The codings of the model: x-a puts an 'a' first, x-b an increment of every
// byte, and x-c repeats the first byte at the end.
func encoded(coding byte, b []byte) []byte {
	var out []byte
	switch coding {
	case 'a':
		out = append([]byte{'a'}, b...)
	case 'b':
		for _, c := range b {
			out = append(out, c+1)
		}
	case 'c':
		out = append(out, b...)
		if len(b) > 0 {
			out = append(out, b[0])
		} else {
			out = append(out, 'c')
		}
	}
	return out
}

func decoded(coding byte, b []byte) ([]byte, error) {
	switch coding {
	case 'a':
		if len(b) < 1 || b[0] != 'a' {
			return nil, errCoded
		}
		return b[1:], nil
	case 'b':
		var out []byte
		for _, c := range b {
			out = append(out, c-1)
		}
		return out, nil
	}
	n := len(b)
	if n < 1 || n > 1 && b[n-1] != b[0] || n == 1 && b[0] != 'c' {
		return nil, errCoded
	}
	return b[:n-1], nil
}

// encodingWriter encodes when it is closed.
type encodingWriter struct {
	coding byte
	w      io.WriteCloser
	b      []byte
	write  error
	close  error
}

func (w *encodingWriter) Write(b []byte) (int, error) {
	if w.write != nil {
		return 0, w.write
	}
	w.b = append(w.b, b...)
	return len(b), nil
}

func (w *encodingWriter) Close() error {
	if w.close != nil {
		return w.close
	}
	if _, err := w.w.Write(encoded(w.coding, w.b)); err != nil {
		return err
	}
	return w.w.Close()
}

// decodingReader decodes everything on the first read, and provides a few bytes
// at a time.
type decodingReader struct {
	coding byte
	r      io.Reader
	b      []byte
	ready  bool
	chunk  int
	read   error
	after  int // bytes before the error
	close  error
}

func (r *decodingReader) Read(b []byte) (int, error) {
	if !r.ready {
		all, err := io.ReadAll(r.r)
		if err != nil {
			return 0, err
		}
		if r.b, err = decoded(r.coding, all); err != nil {
			return 0, err
		}
		r.ready = true
	}
	if r.read != nil && r.after == 0 {
		return 0, r.read
	}
	if len(r.b) == 0 {
		return 0, io.EOF
	}
	n := r.chunk
	if r.read != nil && n > r.after {
		n = r.after
	}
	n = copy(b, r.b[:min(n, len(r.b))])
	r.b = r.b[n:]
	if r.read != nil {
		r.after -= n
	}
	return n, nil
}

func (r *decodingReader) Close() error { return r.close }

func writerOf(coding byte) representation.EncodingWriterConstructor {
	return func(w io.WriteCloser) (io.WriteCloser, error) { return &encodingWriter{coding: coding, w: w}, nil }
}

func readerOf(coding byte) representation.EncodingReaderConstructor {
	return func(r io.Reader) (io.ReadCloser, error) {
		return &decodingReader{coding: coding, r: r, chunk: 2}, nil
	}
}

// text is what is serialized.
type text struct{ s string }

var errText = errors.New("not text")

func textOf(prefix string) (representation.Marshaller, representation.Unmarshaller) {
	return func(v interface{}) ([]byte, error) {
			t, ok := v.(*text)
			if !ok {
				return nil, errText
			}
			return []byte(prefix + t.s), nil
		}, func(b []byte, v interface{}) error {
			t, ok := v.(*text)
			if !ok || len(b) < len(prefix) || string(b[:len(prefix)]) != prefix {
				return errText
			}
			t.s = string(b[len(prefix):])
			return nil
		}
}

// coded is a representation of the content type, with the serializers of text
// and the codings of the model.
func coded(ct string, codings []string) *representation.Base {
	var b representation.Base
	b.SetContentType(ct)
	b.SetContentEncoding(codings)
	m, u := textOf("x:")
	n, v := textOf("y:")
	b.SetMarshallers(map[string]representation.Marshaller{"text/x-x": m, "text/x-y": n})
	b.SetUnmarshallers(map[string]representation.Unmarshaller{"text/x-x": u, "text/x-y": v})
	b.SetEncodingWriters(map[string]representation.EncodingWriterConstructor{"x-a": writerOf('a'), "x-b": writerOf('b'), "x-c": writerOf('c')})
	b.SetEncodingReaders(map[string]representation.EncodingReaderConstructor{"x-a": readerOf('a'), "x-b": readerOf('b'), "x-c": readerOf('c')})
	return &b
}

// anyCoding is a content coding in any case: one of those of the model, or
// identity (with the coding 0).
func anyCoding(name string) (string, byte) {
	if ndPick(name+".identity", 2) == 1 {
		return string([]byte{ndByte(name+".i", "iI"), 'd'}) + "entit" + string([]byte{ndByte(name+".y", "yY")}), 0
	}
	c := ndByte(name+".coding", "abcABC")
	return string([]byte{ndByte(name+".x", "xX"), '-', c}), lower(c)
}

// C24_Codings: bodies of up to three bytes of any value with any list of up to
// four (thorough: five) content codings, of three codings that don't commute and identity, in
// any case of their letters.
func C24_Codings() {
	n := ndCase("codings", ndBound(5, 6))
	var names []string
	body := "z" + ndStr("body", ndPick("length", 4), "")
	want := []byte("x:" + body)
	for i := 0; i < n; i++ {
		name, c := anyCoding("c" + strconv.Itoa(i))
		names = append(names, name)
		if c != 0 {
			want = encoded(c, want)
		}
	}
	b := coded("text/x-x", names)
	got, err := b.Bytes(&text{body})
	ndAssert(err == nil, "serialization succeeds")
	ndAssert(string(got) == string(want), "codings are applied in the order listed")
	var back text
	err = b.FromBytes(got, &back)
	ndReach("back")
	ndAssert(err == nil, "deserialization succeeds")
	ndAssert(back.s == body, "decoding gives back what was encoded")
}

// C24_Types: content types in any case of six letters with any parameter of two
// characters, with and without whitespace, of two serializers, with up to two
// codings.
func C24_Types() {
	t, x := ndByte("type", "tT"), ndByte("subtype", "xyXY")
	ct := string([]byte{t, ndByte("e", "eE"), 'x', ndByte("t", "tT"), '/', ndByte("x", "xX"), '-', x})
	switch ndPick("parameters", 4) {
	case 1:
		ct += ";" + ndStr("parameter", 2, "")
	case 2:
		ct += string([]byte{ndByte("before", " \t")}) + "; " + ndStr("name", 1, "ab=;") + "=1"
	case 3:
		ct = " " + ct + " "
	}
	var names []string
	for i := ndPick("codings", 3); i > 0; i-- {
		name, _ := anyCoding("c" + strconv.Itoa(i))
		names = append(names, name)
	}
	body := "z" + ndStr("body", 1, "")
	b := coded(ct, names)
	got, err := b.Bytes(&text{body})
	ndAssert(err == nil, "serialization succeeds")
	if len(names) == 0 {
		ndAssert(string(got) == string([]byte{lower(x)})+":"+body, "the serializer of the content type is used")
	}
	var back text
	err = b.FromBytes(got, &back)
	ndReach("back")
	ndAssert(err == nil, "deserialization succeeds")
	ndAssert(back.s == body, "decoding gives back what was encoded")
}

// record is what the default serializers are given.
type record struct {
	A string
	B []string
}

// C24_Defaults: records with any two letters and digits, with each of the
// default content types in any case of two letters, with and without parameters
// and identity codings.
func C24_Defaults() {
	n := ndCase("type", 5)
	s := []string{"pplication/jso", "pplication/xm", "pplication/yam", "ext/yam", "ext/htm"}[n]
	first, last := "aA", "nN"
	if n > 0 {
		last = "lL"
	}
	if n > 2 {
		first = "tT"
	}
	ct := string([]byte{ndByte("first", first)}) + s + string([]byte{ndByte("last", last)})
	switch ndPick("parameters", 2) {
	case 1:
		ct += "; charset=utf-8"
	}
	var b representation.Base
	b.SetContentType(ct)
	b.SetContentEncoding([][]string{nil, {"identity"}, {"Identity", "identity"}}[ndPick("codings", 3)])
	const plain = "abcxyzABCXYZ" + digits
	in := record{A: "mq" + ndStr("a", 1, plain), B: []string{"pk" + ndStr("b", 1, plain), "p"}}
	got, err := b.Bytes(&in)
	ndAssert(err == nil, "serialization succeeds")
	var back record
	err = b.FromBytes(got, &back)
	ndReach("back")
	ndAssert(err == nil, "deserialization succeeds")
	ndAssert(back.A == in.A && len(back.B) == 2 && back.B[0] == in.B[0] && back.B[1] == in.B[1], "decoding gives back what was encoded")
	first = "{"
	switch n {
	case 1, 4:
		first = "<"
	case 2, 3:
		first = "a"
	}
	ndAssert(len(got) > 0 && string(got[:1]) == first, "the body is of the content type")
}

// C24_Lists: list representations of up to three representations with any two
// letters or digits as their attributes, and a source quality of any two
// decimals, in each content type of the default serializers.
func C24_Lists() {
	const plain = "abcxyzABCXYZ" + digits
	ct := []string{"application/json", "application/xml", "application/yaml", "text/yaml", "text/html"}[ndCase("type", 5)]
	n := ndCase("representations", 4)
	var l representation.List
	l.SetContentType(ct)
	var reps []*rep
	for i := 0; i < n; i++ {
		k := strconv.Itoa(i)
		s := spec{mt: "m/" + ndStr("type"+k, 1, plain), cs: "mk" + ndStr("set"+k, 1, plain), q: float32(i) / 4}
		if i != 1 {
			s.lang, s.enc, s.feats = "gk"+ndStr("language"+k, 1, plain), []string{"gzip", "q" + ndStr("coding"+k, 1, plain)}, []string{"tag" + ndStr("feature"+k, 1, plain)}
			s.loc = at("p" + ndStr("path"+k, 1, plain))
		}
		reps = append(reps, newRep(s))
	}
	l.SetRepresentations(as(reps...)...)
	got, err := l.Bytes()
	ndAssert(err == nil, "serialization succeeds")
	var back representation.List
	back.SetContentType(ct)
	err = back.FromBytes(got)
	ndReach("back")
	ndAssert(err == nil, "deserialization succeeds")
	ndAssert(len(back.Representations) == n, "a list has every representation")
	for i := 0; i < n && i < len(back.Representations); i++ {
		x, y := l.Representations[i], back.Representations[i]
		ndAssert(x.ContentType == y.ContentType && x.ContentCharset == y.ContentCharset && x.ContentLanguage == y.ContentLanguage &&
			x.ContentLocation == y.ContentLocation && x.SourceQuality == y.SourceQuality, "a list has the attributes of every representation")
		ndAssert(strings.Join(x.ContentEncoding, ",") == strings.Join(y.ContentEncoding, ",") && strings.Join(x.ContentFeatures, ",") == strings.Join(y.ContentFeatures, ","), "a list has the attributes of every representation")
	}
}

// C24_Compression: bodies of no and one byte of any value after a prefix
// (thorough: and two of sixteen letters), with each of the default codings, in
// any case of a letter.
func C24_Compression() {
	names := []string{"gzip", "x-gzip", "compress", "x-compress", "deflate"}
	n := ndCase("coding", len(names))
	name := []byte(names[n])
	name[0] = ndByte("letter", string([]byte{name[0], name[0] - 32}))
	body := ""
	switch ndCase("length", ndBound(2, 3)) {
	case 1:
		body = ndStr("body", 1, "")
	case 2:
		body = ndStr("letters", 2, "abcdefgh12345678")
	}
	compressed([]string{string(name)}, body)
}

// C24_Compressions: bodies of any of six letters (thorough: any byte) with any two of the
// default codings.
func C24_Compressions() {
	names := []string{"gzip", "compress", "deflate"}
	n := ndCase("codings", len(names)*len(names))
	alphabet := "abcxyz"
	if ndBound(0, 1) == 1 {
		alphabet = ""
	}
	compressed([]string{names[n%3], names[n/3]}, ndStr("body", 1, alphabet))
}

// C24_Large: bodies of three sizes up to 70000 (thorough: 300000) bytes, of which
// the first or last one is any of three letters, that can be compressed or not, with each of the default
// codings, or two of the model.
func C24_Large() {
	codings := [][]string{{"gzip"}, {"compress"}, {"deflate"}, {"x-b", "x-a"}}[ndCase("codings", 4)]
	size := []int{70000, 4097, 32768, 300000}[ndCase("size", ndBound(3, 4))]
	b := make([]byte, size)
	repeated := ndPick("repeated", 2) == 1
	x := uint32(1)
	for i := range b {
		if repeated {
			b[i] = byte('a' + i%7)
		} else {
			x = x*1664525 + 1013904223
			b[i] = byte(x >> 24)
		}
	}
	b[[]int{0, size - 1}[ndPick("last", 2)]] = "az9"[ndPick("letter", 3)]
	body := string(b)
	r := coded("text/x-x", codings)
	if codings[0] != "x-b" {
		compressed(codings, body)
		return
	}
	got, err := r.Bytes(&text{body})
	ndAssert(err == nil, "serialization succeeds")
	back := text{"none"}
	err = r.FromBytes(got, &back)
	ndReach("back")
	ndAssert(err == nil, "deserialization succeeds")
	ndAssert(back.s == body, "decoding gives back what was encoded")
}

// compressed states that the body is what it was after the codings are applied
// and removed.
func compressed(codings []string, body string) {
	var b representation.Base
	b.SetContentType("text/x-x")
	b.SetContentEncoding(codings)
	m, u := textOf("x:")
	b.SetMarshallers(map[string]representation.Marshaller{"text/x-x": m})
	b.SetUnmarshallers(map[string]representation.Unmarshaller{"text/x-x": u})
	got, err := b.Bytes(&text{body})
	ndAssert(err == nil, "serialization succeeds")
	ndAssert(string(got) != "x:"+body, "the body is encoded")
	back := text{"none"}
	err = b.FromBytes(got, &back)
	ndReach("back")
	ndAssert(err == nil, "deserialization succeeds")
	ndAssert(back.s == body, "decoding gives back what was encoded")
}

// C24_Kept: two bodies of any byte, with up to two codings each, where what
// was serialized first is regarded after the second one was serialized or
// deserialized, by the same representation or another one, or with a list.
func C24_Kept() {
	chain := func(name string) []string {
		var names []string
		for i := ndPick(name, 3); i > 0; i-- {
			c, _ := anyCoding(name + strconv.Itoa(i))
			names = append(names, c)
		}
		return names
	}
	b := coded("text/x-x", chain("first"))
	c := b
	if ndCase("other", 2) == 1 {
		c = coded("text/x-y", chain("second"))
	}
	first, second := "z"+ndStr("one", 1, ""), ndStr("two", 2, "")
	got, err := b.Bytes(&text{first})
	ndAssert(err == nil, "serialization succeeds")
	want := string(got)
	other, err := c.Bytes(&text{second})
	ndAssert(err == nil, "serialization succeeds")
	ndAssert(string(got) == want, "what was serialized stays as it is")
	var x, y text
	switch ndCase("then", 3) {
	case 0:
		ndAssert(b.FromBytes(got, &x) == nil && c.FromBytes(other, &y) == nil, "deserialization succeeds")
	case 1:
		ndAssert(c.FromBytes(other, &y) == nil && b.FromBytes(got, &x) == nil, "deserialization succeeds")
	case 2:
		var l, m representation.List
		l.SetContentType("application/json")
		m.SetContentType("application/json")
		l.SetRepresentations(typed("a/b", ""))
		m.SetRepresentations(typed("c/d", ""), typed("e/f", ""))
		p, err := l.Bytes()
		ndAssert(err == nil, "serialization succeeds")
		keep := string(p)
		_, err = m.Bytes()
		ndAssert(err == nil, "serialization succeeds")
		ndAssert(string(p) == keep, "what was serialized stays as it is")
		ndAssert(c.FromBytes(other, &y) == nil && b.FromBytes(got, &x) == nil, "deserialization succeeds")
	}
	ndReach("back")
	ndAssert(string(got) == want, "what was serialized stays as it is")
	ndAssert(x.s == first && y.s == second, "decoding gives back what was encoded")
}
