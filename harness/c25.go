package main

import (
	"errors"
	"io"
	"strconv"

	"github.com/freerware/negotiator/representation"
)

var errFault = errors.New("coding failed")

// chain is a list of one to three (thorough: five) codings of the model, with
// x-f at a position, and identity at any others.
func chain() []string {
	n := 1 + ndPick("others", ndBound(3, 5))
	at := ndPick("position"+strconv.Itoa(n), n)
	var names []string
	for i := 0; i < n; i++ {
		k := strconv.Itoa(i)
		switch {
		case i == at:
			names = append(names, string([]byte{ndByte("x", "xX")})+"-f")
		case ndPick("identity"+k, 2) == 1:
			names = append(names, "identity")
		default:
			names = append(names, "x-"+string([]byte{ndByte("coding"+k, "abc")}))
		}
	}
	return names
}

// C25_Writing: a coding at any position of a list of one to three (thorough:
// five) fails, on construction, on writing, on closing, or because of what is
// below it.
func C25_Writing() {
	b := coded("text/x-x", chain())
	fault := ndCase("fault", 3)
	writers := map[string]representation.EncodingWriterConstructor{
		"x-a": writerOf('a'), "x-b": writerOf('b'), "x-c": writerOf('c'),
		"x-f": func(w io.WriteCloser) (io.WriteCloser, error) {
			x := &encodingWriter{coding: 'a', w: w}
			switch fault {
			case 0:
				return nil, errFault
			case 1:
				x.write = errFault
			case 2:
				x.close = errFault
			}
			return x, nil
		},
	}
	b.SetEncodingWriters(writers)
	got, err := b.Bytes(&text{"z" + ndStr("body", ndPick("length", 2), "")})
	ndReach("written")
	ndAssert(errors.Is(err, errFault), "the failure of an encoder is returned")
	ndAssert(len(got) == 0, "and no data is")
}

// C25_Reading: a coding at any position of a list of one to three (thorough:
// five) fails, on construction, on reading after any number of bytes up to
// three, with any of several errors, or on closing.
func C25_Reading() {
	b := coded("text/x-x", chain())
	fault := ndCase("fault", 3)
	failure := []error{errFault, io.ErrUnexpectedEOF, io.ErrNoProgress, io.ErrShortBuffer, io.ErrClosedPipe}[ndPick("error", 5)]
	after := 0
	if fault == 1 {
		after = ndPick("after", 4)
	}
	writers := map[string]representation.EncodingWriterConstructor{
		"x-a": writerOf('a'), "x-b": writerOf('b'), "x-c": writerOf('c'), "x-f": writerOf('a'),
	}
	readers := map[string]representation.EncodingReaderConstructor{
		"x-a": readerOf('a'), "x-b": readerOf('b'), "x-c": readerOf('c'),
		"x-f": func(r io.Reader) (io.ReadCloser, error) {
			x := &decodingReader{coding: 'a', r: r, chunk: 2}
			switch fault {
			case 0:
				return nil, failure
			case 1:
				x.read, x.after = failure, after
			case 2:
				x.close = failure
			}
			return x, nil
		},
	}
	b.SetEncodingWriters(writers)
	b.SetEncodingReaders(readers)
	got, err := b.Bytes(&text{"z" + ndStr("body", ndPick("length", 2), "")})
	ndAssert(err == nil, "serialization succeeds")
	back := text{"none"}
	err = b.FromBytes(got, &back)
	ndReach("read")
	ndAssert(errors.Is(err, failure), "the failure of a decoder is returned")
	ndAssert(back.s == "none", "and nothing is deserialized")
}

// C25_Serializers: a marshaller or unmarshaller fails, with up to two codings
// and any byte in the body.
func C25_Serializers() {
	var names []string
	for i := ndPick("codings", 3); i > 0; i-- {
		name, _ := anyCoding("c" + strconv.Itoa(i))
		names = append(names, name)
	}
	ct := "text/x-f" + []string{"", ";p=1", " ; p=1"}[ndPick("parameters", 3)]
	b := coded(ct, names)
	partial := []byte(ndStr("partial", ndPick("length", 3), ""))
	calls := 0
	b.SetMarshallers(map[string]representation.Marshaller{"text/x-f": func(v interface{}) ([]byte, error) {
		calls++
		return partial, errFault
	}})
	b.SetUnmarshallers(map[string]representation.Unmarshaller{"text/x-f": func(b []byte, v interface{}) error {
		calls++
		return errFault
	}})
	_, err := b.Bytes(&text{"a"})
	ndAssert(errors.Is(err, errFault) && calls == 1, "the failure of a marshaller is returned")
	// a body with the codings.
	c := coded("text/x-x", names)
	got, err := c.Bytes(&text{"a" + string(partial)})
	ndAssert(err == nil, "serialization succeeds")
	var back text
	err = b.FromBytes(got, &back)
	ndReach("read")
	ndAssert(errors.Is(err, errFault) && calls == 2, "the failure of an unmarshaller is returned")
}

// C25_Types: content types of one byte of any value or up to three (thorough:
// four) characters in several contexts, with and without parameters, with the
// default serializers and others.
func C25_Types() {
	ct := unknown(ndCase("length", ndBound(5, 6)))
	for i := 0; i < len(ct); i++ {
		// what follows are parameters.
		ndAssume(ct[i] != ';')
	}
	ct = []string{ct, ct + "; p=1", "text/" + ct, "application/" + ct, ct + "/json", "application/j" + ct + "n", "text/htm" + ct, "application/json" + ct, ct + "text/x-x"}[ndPick("context", 9)]
	b := coded(ct, [][]string{nil, {"x-a"}}[ndPick("codings", 2)])
	if ndPick("default", 2) == 1 {
		b.SetMarshallers(nil)
		b.SetUnmarshallers(nil)
		for _, d := range []string{"application/json", "application/xml", "application/yaml", "text/yaml", "text/html"} {
			ndAssume(!ofType(ct, d))
		}
	}
	ndAssume(!ofType(ct, "text/x-x") && !ofType(ct, "text/x-y"))
	got, err := b.Bytes(&text{"a"})
	ndAssert(errors.Is(err, representation.ErrUnsupportedContentType), "an unsupported content type is an error of serialization")
	ndAssert(len(got) == 0, "and no data is returned")
	back := text{"none"}
	err = b.FromBytes([]byte("x:ab"), &back)
	ndReach("read")
	ndAssert(errors.Is(err, representation.ErrUnsupportedContentType), "an unsupported content type is an error of deserialization")
	ndAssert(back.s == "none", "and nothing is deserialized")
}

// unknown is one byte of any value, or a text of fewer characters than the
// number.
func unknown(n int) string {
	if n == 0 {
		return ndStr("byte", 1, "")
	}
	return ndStr("text"+strconv.Itoa(n), n-1, "abcxyzAXZ19-_./+*= \t\n")
}

func folded(a, b string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := 0; i < len(a); i++ {
		if lower(a[i]) != b[i] {
			return false
		}
	}
	return true
}

// ofType determines if the content type is the type, with or without parameters
// and whitespace.
func ofType(ct, t string) bool {
	ct, _, _ = cut(ct, ';')
	i, j := 0, len(ct)
	blank := func(c byte) bool { return c == ' ' || c >= '\t' && c <= '\r' }
	for i < j && blank(ct[i]) {
		i++
	}
	for i < j && blank(ct[j-1]) {
		j--
	}
	return folded(ct[i:j], t)
}

// C25_Codings: content codings of one byte of any value or up to three (thorough:
// four) characters in several contexts, alone or at any position among up to two others, with the default
// codings and others.
func C25_Codings() {
	c := unknown(ndCase("length", ndBound(5, 6)))
	c = []string{c, "x" + c, "g" + c + "ip", "gzip" + c, c + "deflate", "compres" + c}[ndPick("context", 6)]
	ndAssume(!folded(c, "identity"))
	fallback := ndPick("default", 2) == 1
	if fallback {
		for _, d := range []string{"gzip", "x-gzip", "compress", "x-compress", "deflate"} {
			ndAssume(!folded(c, d))
		}
	} else {
		for _, d := range []string{"x-a", "x-b", "x-c"} {
			ndAssume(!folded(c, d))
		}
	}
	other := "x-a"
	if fallback {
		other = "identity"
	}
	names := [][]string{{c}, {other, c}, {c, other}, {other, c, other}, {"identity", c}, {c, "identity"}}[ndPick("position", 6)]
	b := coded("text/x-x", names)
	if fallback {
		b.SetEncodingReaders(nil)
		b.SetEncodingWriters(nil)
	}
	got, err := b.Bytes(&text{"a"})
	ndAssert(errors.Is(err, representation.ErrUnsupportedContentEncoding), "an unsupported coding is an error of serialization")
	ndAssert(len(got) == 0, "and no data is returned")
	back := text{"none"}
	data := []byte("x:ab")
	if n := len(names); n > 1 && names[n-1] == "x-a" {
		data = []byte("ax:ab")
	}
	err = b.FromBytes(data, &back)
	ndReach("read")
	ndAssert(errors.Is(err, representation.ErrUnsupportedContentEncoding), "an unsupported coding is an error of deserialization")
	ndAssert(back.s == "none", "and nothing is deserialized")
}

// C25_Invalid: bodies in each of the default codings, before or after identity
// or not, that were never encoded (any two bytes followed
// by text), or of which a byte of the checksums has any other value.
func C25_Invalid() {
	names := []string{"gzip", "x-gzip", "compress", "x-compress", "deflate"}
	n := ndCase("coding", len(names))
	list := []string{names[n]}
	switch ndPick("others", 3) {
	case 1:
		list = []string{"identity", names[n]}
	case 2:
		list = []string{names[n], "identity"}
	}
	b := coded("text/x-x", list)
	b.SetEncodingReaders(nil)
	b.SetEncodingWriters(nil)
	var data []byte
	if ndPick("plain", 2) == 1 {
		x, y := ndByte("first", ""), ndByte("second", "")
		if names[n] == "deflate" {
			// blocks of this type don't exist.
			ndAssume(x&6 == 6)
		}
		data = append([]byte{x, y}, "go, which was never encoded"...)
	} else {
		at := []int{8, 8, 4, 4, 0}[n]
		ndAssume(at > 0)
		got, err := b.Bytes(&text{"z"})
		ndAssert(err == nil, "serialization succeeds")
		data = append([]byte{}, got...)
		at = len(data) - 1 - ndPick("at", 8)%at
		x := ndByte("byte", "")
		ndAssume(x != data[at])
		data[at] = x
	}
	back := text{"none"}
	err := b.FromBytes(data, &back)
	ndReach("read")
	ndAssert(err != nil, "an invalid body is an error")
	ndAssert(back.s == "none", "and nothing is deserialized")
}

// C25_Truncated: bodies with any byte in one of the default codings, of which
// any number of the last bytes is missing.
func C25_Truncated() {
	names := []string{"gzip", "compress", "deflate"}
	n := ndCase("coding", 3)
	list := []string{names[n]}
	var b representation.Base
	b.SetContentType("text/x-x")
	b.SetContentEncoding(list)
	m, u := textOf("x:")
	b.SetMarshallers(map[string]representation.Marshaller{"text/x-x": m})
	b.SetUnmarshallers(map[string]representation.Unmarshaller{"text/x-x": u})
	got, err := b.Bytes(&text{"z" + ndStr("body", 1, "")})
	ndAssert(err == nil, "serialization succeeds")
	cut := ndPick("cut", len(got))
	back := text{"none"}
	err = b.FromBytes(got[:cut], &back)
	ndReach("read")
	ndAssert(err != nil, "a truncated body is an error")
	ndAssert(back.s == "none", "and nothing is deserialized")
}
