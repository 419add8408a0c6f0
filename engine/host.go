package main

import (
	"bytes"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"go/types"
	"reflect"
	"strconv"
	"strings"
	"unicode/utf8"

	"gopkg.in/yaml.v2"
)

func typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// lookupType is a named type of a package.
func (w *W) lookupType(pkg, name string) types.Type {
	p := w.prog.prog.ImportedPackage(pkg)
	if p == nil {
		unsupported("package %s", pkg)
	}
	return p.Pkg.Scope().Lookup(name).Type()
}

// hostEnv translates values to those of the host, where symbolic bytes are
// represented by runes of the private use area.
type hostEnv struct {
	w     *W
	bytes []*Term
	index map[*Term]int
	tag   string
	// the symbolic floats, which are represented by numbers from floatBase.
	floats []V
	widths []int
	used   map[rune]bool // of the symbolic bytes
}

const floatBase = 1 << 23

// float represents a symbolic float whose text is in decimal notation.
func (h *hostEnv) float(x V, bits int) float64 {
	if h.tag != "json" {
		unsupported("serialization of a symbolic float")
	}
	for _, v := range tabOf(x).vals {
		if v != 0 && (v < 1e-6 || v >= 1e6) {
			unsupported("serialization of a symbolic float")
		}
	}
	h.floats, h.widths = append(h.floats, x), append(h.widths, bits)
	return float64(floatBase + len(h.floats) - 1)
}

// rune represents a symbolic byte.
func (h *hostEnv) rune(t *Term) rune {
	k, ok := h.index[t]
	if !ok {
		k = len(h.bytes)
		if k >= 6000 {
			unsupported("too many symbolic bytes")
		}
		h.bytes = append(h.bytes, t)
		h.index[t] = k
	}
	return rune(puaBase + k)
}

// numbers replaces the numbers that represent floats by their text.
func (h *hostEnv) numbers(b []byte) []byte {
	for k, x := range h.floats {
		text, sy := strParts(h.w.formatFloat(x, 'f', -1, h.widths[k]))
		var sb strings.Builder
		for i := range text {
			if sy == nil || sy[i] == nil {
				sb.WriteByte(text[i])
			} else {
				sb.WriteRune(h.rune(sy[i]))
			}
		}
		b = bytes.ReplaceAll(b, []byte(strconv.Itoa(floatBase+k)), []byte(sb.String()))
	}
	return b
}

const puaBase = 0xE000

// plain are the bytes that the serializers leave alone.
var plain, alphabetic Set

func init() {
	for c := uint64(0); c < 128; c++ {
		b := byte(c)
		if b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' {
			alphabetic.add(c)
		}
		if b >= '0' && b <= '9' || b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' || strings.IndexByte("/-_.;=", b) >= 0 {
			plain.add(c)
		}
	}
}

func (h *hostEnv) str(v V) string {
	if strConcrete(v) {
		return goStr(v)
	}
	b, sy := strParts(v)
	var sb strings.Builder
	for i := range b {
		if sy[i] == nil {
			sb.WriteByte(b[i])
			continue
		}
		if !h.w.decide(h.w.termIn(sy[i], plain)) {
			unsupported("serialization of symbolic special bytes")
		}
		sb.WriteRune(h.rune(sy[i]))
	}
	if h.tag == "yaml" {
		h.yamlText(sb.String())
	}
	return sb.String()
}

// yamlText ensures that symbolic bytes only occur in scalars that are text
// whatever the bytes are.
func (h *hostEnv) yamlText(s string) {
	for _, line := range strings.Split(s, "\n") {
		if i := strings.LastIndex(line, ": "); i >= 0 {
			line = line[i+2:]
		}
		line = strings.TrimPrefix(strings.TrimSpace(line), "- ")
		symbolic := strings.ContainsFunc(line, func(r rune) bool { return r >= puaBase && r < puaBase+6000 })
		if !symbolic || strings.Contains(line, "/") {
			continue
		}
		// words of more than five letters, or with these, aren't anything but text.
		if first, n := utf8.DecodeRuneInString(line); n > 1 && (len(line)-n >= 5 || strings.ContainsAny(line, "ghjkmpqvwz")) && int(first)-puaBase < len(h.bytes) {
			letters := true
			for _, r := range line[n:] {
				letters = letters && (r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z')
			}
			if letters && h.w.decide(h.w.termIn(h.bytes[first-puaBase], alphabetic)) {
				continue
			}
		}
		// other scalars (booleans, null, numbers) don't begin with other letters,
		// or don't contain these.
		c := line[0] | 0x20
		if c < 'a' || c > 'z' || strings.IndexByte("ynotf", c) >= 0 && !strings.ContainsAny(line, "ghjkmpqvw") {
			unsupported("serialization of symbolic text as YAML")
		}
	}
}

func (h *hostEnv) back(b []byte) V {
	var out []byte
	var sy []*Term
	for len(b) > 0 {
		r, n := utf8.DecodeRune(b)
		if r >= puaBase && r < puaBase+6000 && int(r)-puaBase < len(h.bytes) {
			out = append(out, 0)
			for len(sy) < len(out)-1 {
				sy = append(sy, nil)
			}
			sy = append(sy, h.bytes[r-puaBase])
			if h.used == nil {
				h.used = map[rune]bool{}
			}
			h.used[r] = true
		} else {
			out = append(out, b[:n]...)
		}
		b = b[n:]
	}
	if sy != nil {
		for len(sy) < len(out) {
			sy = append(sy, nil)
		}
	}
	return mkBytes(out, sy)
}

func (h *hostEnv) marshals(t types.Type) {
	for _, t := range []types.Type{t, types.NewPointer(t)} {
		ms := types.NewMethodSet(t)
		for i := 0; i < ms.Len(); i++ {
			switch ms.At(i).Obj().Name() {
			case "MarshalJSON", "MarshalText", "MarshalXML", "MarshalYAML", "MarshalXMLAttr":
				unsupported("marshalling method of %s", t)
			}
		}
	}
}

// typ is the corresponding type of the host.
func (h *hostEnv) typ(t *TInfo) reflect.Type {
	if n, ok := types.Unalias(t.t).(*types.Named); ok {
		h.marshals(n)
	}
	switch t.kind {
	case KBool:
		return reflect.TypeOf(false)
	case KString:
		return reflect.TypeOf("")
	case KFloat:
		if t.w == 32 {
			return reflect.TypeOf(float32(0))
		}
		return reflect.TypeOf(float64(0))
	case KInt:
		m := map[bool]map[uint8]reflect.Type{
			true:  {8: reflect.TypeOf(int8(0)), 16: reflect.TypeOf(int16(0)), 32: reflect.TypeOf(int32(0)), 64: reflect.TypeOf(int64(0))},
			false: {8: reflect.TypeOf(uint8(0)), 16: reflect.TypeOf(uint16(0)), 32: reflect.TypeOf(uint32(0)), 64: reflect.TypeOf(uint64(0))},
		}
		return m[t.signed][t.w]
	case KPtr:
		return reflect.PointerTo(h.typ(t.elem))
	case KSlice:
		return reflect.SliceOf(h.typ(t.elem))
	case KMap:
		return reflect.MapOf(h.typ(t.key), h.typ(t.elem))
	case KIface:
		return reflect.TypeOf((*any)(nil)).Elem()
	case KFunc:
		return reflect.TypeOf((func())(nil))
	case KChan:
		return reflect.TypeOf((chan int)(nil))
	case KArray:
		return reflect.ArrayOf(t.length, h.typ(t.elem))
	case KStruct:
		var fs []reflect.StructField
		for _, f := range h.fields(t) {
			fs = append(fs, reflect.StructField{Name: f.name, Type: h.typ(f.t), Tag: reflect.StructTag(f.tag)})
		}
		return reflect.StructOf(fs)
	}
	unsupported("host type of %s", t.t)
	return nil
}

type hostField struct {
	name, tag string
	t         *TInfo
	off       int
}

func (h *hostEnv) fields(t *TInfo) []hostField {
	var out []hostField
	for i := 0; i < t.st.NumFields(); i++ {
		f := t.st.Field(i)
		if f.Embedded() && h.tag != "yaml" && t.st.Tag(i) == "" && t.fields[i].kind == KStruct {
			for _, g := range h.fields(t.fields[i]) {
				g.off += t.offs[i]
				out = append(out, g)
			}
			continue
		}
		if !f.Exported() {
			continue
		}
		out = append(out, hostField{f.Name(), t.st.Tag(i), t.fields[i], t.offs[i]})
	}
	return out
}

func (h *hostEnv) set(dst reflect.Value, t *TInfo, v V) {
	w := h.w
	switch t.kind {
	case KBool:
		dst.SetBool(w.concInt(v) != 0)
	case KString:
		dst.SetString(h.str(v))
	case KFloat:
		if v.p != nil {
			dst.SetFloat(h.float(v, int(t.w)))
			return
		}
		if x := v.float(); x >= floatBase {
			unsupported("serialization of a large float")
		}
		dst.SetFloat(v.float())
	case KInt:
		n := uint64(w.concInt(v))
		if t.signed {
			dst.SetInt(sext(n, t.w))
		} else {
			dst.SetUint(n)
		}
	case KPtr:
		if v.p == nil {
			return
		}
		p := reflect.New(dst.Type().Elem())
		h.set(p.Elem(), t.elem, w.loadT(v, t.elem))
		dst.Set(p)
	case KSlice:
		if v.p == nil {
			return
		}
		n := sliceLen(v)
		s := reflect.MakeSlice(dst.Type(), n, n)
		for i := 0; i < n; i++ {
			h.set(s.Index(i), t.elem, w.loadT(V{uint64(sliceOff(v) + i*t.elem.n), v.p}, t.elem))
		}
		dst.Set(s)
	case KArray:
		for i := 0; i < t.length; i++ {
			h.set(dst.Index(i), t.elem, w.sub(v, i*t.elem.n, t.elem))
		}
	case KMap:
		if v.p == nil {
			return
		}
		m := w.mapState(v)
		out := reflect.MakeMap(dst.Type())
		for i := range m.keys {
			if m.dead[i] {
				continue
			}
			k, e := reflect.New(dst.Type().Key()).Elem(), reflect.New(dst.Type().Elem()).Elem()
			h.set(k, t.key, m.keys[i])
			h.set(e, t.elem, m.vals[i])
			out.SetMapIndex(k, e)
		}
		dst.Set(out)
	case KIface:
		if v.p == nil {
			return
		}
		x := v.p.(*Iface)
		e := reflect.New(h.typ(x.t)).Elem()
		h.set(e, x.t, x.v)
		dst.Set(e)
	case KStruct:
		for i, f := range h.fields(t) {
			h.set(dst.Field(i), f.t, w.sub(v, f.off, f.t))
		}
	case KFunc, KChan:
		if v.p != nil {
			dst.Set(reflect.MakeFunc(dst.Type(), func([]reflect.Value) []reflect.Value { return nil }))
		}
	default:
		unsupported("serialization of %s", t.t)
	}
}

// hostMarshal serializes a value with the serializer of the host.
func (w *W) hostMarshal(format string, x *Iface) V {
	h := &hostEnv{w: w, index: map[*Term]int{}, tag: format}
	var val any
	name := ""
	if x != nil {
		t := x.t
		for t.kind == KPtr {
			t = t.elem
		}
		if n, ok := types.Unalias(t.t).(*types.Named); ok {
			name = n.Obj().Name()
		}
		r := reflect.New(h.typ(x.t)).Elem()
		h.set(r, x.t, x.v)
		val = r.Interface()
	}
	var b []byte
	var err error
	switch format {
	case "json":
		b, err = json.Marshal(val)
	case "xml":
		var buf bytes.Buffer
		e := xml.NewEncoder(&buf)
		if name != "" {
			err = e.EncodeElement(val, xml.StartElement{Name: xml.Name{Local: name}})
		} else {
			err = e.Encode(val)
		}
		if err == nil {
			err = e.Flush()
		}
		b = buf.Bytes()
	case "yaml":
		func() {
			defer func() {
				if r := recover(); r != nil {
					err = fmt.Errorf("%v", r)
				}
			}()
			b, err = yaml.Marshal(val)
		}()
	default:
		unsupported("format %s", format)
	}
	if err != nil {
		return mkTuple(V{}, mkStr(err.Error()))
	}
	return mkTuple(w.bytesOf(h.back(h.numbers(b))), V{})
}

// value translates a value of the host back.
func (h *hostEnv) value(src reflect.Value, t *TInfo, old V) V {
	w := h.w
	switch t.kind {
	case KBool:
		return mkBool(src.Bool())
	case KString:
		return h.back([]byte(src.String()))
	case KFloat:
		return mkFloat(src.Float())
	case KInt:
		if t.signed {
			return V{n: uint64(src.Int())}
		}
		return V{n: src.Uint()}
	case KSlice:
		if src.IsNil() {
			return V{}
		}
		n := src.Len()
		o := w.newObj(t.elem, n*t.elem.n)
		for i := 0; i < n; i++ {
			x := h.value(src.Index(i), t.elem, V{})
			if t.elem.isAgg() {
				copy(o.s[i*t.elem.n:], aggOf(x, t.elem))
			} else {
				o.s[i*t.elem.n] = x
			}
		}
		return mkSlice(o, 0, n, n)
	case KStruct:
		s := make([]V, t.n)
		copy(s, aggOf(old, t))
		for i, f := range h.fields(t) {
			x := h.value(src.Field(i), f.t, w.sub(V{p: &Agg{s}}, f.off, f.t))
			if f.t.isAgg() {
				copy(s[f.off:], aggOf(x, f.t))
			} else {
				s[f.off] = x
			}
		}
		return V{p: &Agg{s}}
	}
	unsupported("deserialization of %s", t.t)
	return V{}
}

// aggOf are the slots of a value of the type.
func aggOf(v V, t *TInfo) []V {
	if v.p == nil {
		return make([]V, t.n)
	}
	return v.p.(*Agg).s
}

// hostUnmarshal deserializes text with the deserializer of the host, and is the
// message of the error.
func (w *W) hostUnmarshal(format string, text V, x *Iface) V {
	if x == nil || x.t.kind != KPtr || x.v.p == nil {
		unsupported("deserialization into %v", x)
	}
	h := &hostEnv{w: w, index: map[*Term]int{}, tag: format}
	b := h.str(text)
	t := x.t.elem
	old := w.loadT(x.v, t)
	r := reflect.New(h.typ(t))
	h.set(r.Elem(), t, old)
	var err error
	func() {
		defer func() {
			if p := recover(); p != nil {
				err = fmt.Errorf("%v", p)
			}
		}()
		switch format {
		case "json":
			err = json.Unmarshal([]byte(b), r.Interface())
		case "xml":
			err = xml.Unmarshal([]byte(b), r.Interface())
		case "yaml":
			err = yaml.Unmarshal([]byte(b), r.Interface())
		default:
			unsupported("format %s", format)
		}
	}()
	if err != nil {
		if len(h.bytes) > 0 {
			unsupported("deserialization of symbolic text that fails")
		}
		return mkStr(err.Error())
	}
	n := h.value(r.Elem(), t, old)
	if len(h.used) < len(h.bytes) {
		unsupported("deserialization that drops symbolic text")
	}
	w.storeT(x.v, t, n)
	return V{}
}
