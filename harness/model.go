package main

import (
	"context"
	"errors"
	"hash/crc32"
	"io"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/uber-go/tally"
)

// The models replace functions of the standard library when the engine executes
// them. They are not used natively.

const (
	pkNil = iota
	pkBool
	pkInt
	pkUint
	pkFloat32
	pkFloat64
	pkString
	pkSlice
	pkMap
	pkPtr
	pkStruct
	pkFunc
	pkOther
	pkBytes
)

func primKind(v any) int                                       { panic("engine") }
func primTypeName(v any) string                                { panic("engine") }
func primBool(v any) bool                                      { panic("engine") }
func primString(v any) string                                  { panic("engine") }
func primBytes(v any) string                                   { panic("engine") }
func primFloat(v any) float64                                  { panic("engine") }
func primInt(v any) int64                                      { panic("engine") }
func primUint(v any) uint64                                    { panic("engine") }
func primLen(v any) int                                        { panic("engine") }
func primElem(v any, i int) any                                { panic("engine") }
func primFieldName(v any, i int) string                        { panic("engine") }
func primMapKey(v any, i int) any                              { panic("engine") }
func primMapVal(v any, i int) any                              { panic("engine") }
func primDeref(v any) any                                      { panic("engine") }
func primStore(p any, v any) bool                              { panic("engine") }
func primFormatFloat(f float64, c byte, prec, bits int) string { panic("engine") }
func primParseFloat(s string, bits int) (float64, bool, bool)  { panic("engine") }
func primUnmarshal(format, text string, v any) string          { panic("engine") }
func primMarshal(format string, v any) ([]byte, string)        { panic("engine") }

type modelFlags struct {
	plus, minus, sharp, space, zero bool
	width, prec                     int
	hasWidth, hasPrec               bool
}

func modelPad(s string, f modelFlags) string {
	if !f.hasWidth {
		return s
	}
	n := 0
	for range s {
		n++
	}
	for ; n < f.width; n++ {
		if f.minus {
			s += " "
		} else if f.zero {
			s = "0" + s
		} else {
			s = " " + s
		}
	}
	return s
}

func modelSprintf(format string, a ...any) string {
	out := ""
	n := 0
	for i := 0; i < len(format); {
		if format[i] != '%' {
			j := i
			for j < len(format) && format[j] != '%' {
				j++
			}
			out += format[i:j]
			i = j
			continue
		}
		i++
		var f modelFlags
	flags:
		for i < len(format) {
			switch format[i] {
			case '+':
				f.plus = true
			case '-':
				f.minus = true
			case '#':
				f.sharp = true
			case ' ':
				f.space = true
			case '0':
				f.zero = true
			default:
				break flags
			}
			i++
		}
		for i < len(format) && format[i] >= '0' && format[i] <= '9' {
			f.width = f.width*10 + int(format[i]-'0')
			f.hasWidth = true
			i++
		}
		if i < len(format) && format[i] == '.' {
			i++
			f.hasPrec = true
			for i < len(format) && format[i] >= '0' && format[i] <= '9' {
				f.prec = f.prec*10 + int(format[i]-'0')
				i++
			}
		}
		if i >= len(format) {
			out += "%!(NOVERB)"
			break
		}
		verb := format[i]
		i++
		if verb == '%' {
			out += "%"
			continue
		}
		if n >= len(a) {
			out += "%!" + string(verb) + "(MISSING)"
			continue
		}
		out += modelPad(modelFormat(verb, f, a[n], 0), f)
		n++
	}
	if n < len(a) {
		out += "%!(EXTRA "
		for i, x := range a[n:] {
			if i > 0 {
				out += ", "
			}
			if x == nil {
				out += "<nil>"
			} else {
				out += primTypeName(x) + "=" + modelFormat('v', modelFlags{}, x, 0)
			}
		}
		out += ")"
	}
	return out
}

func modelBad(verb byte, v any) string {
	if strings.IndexByte("sdqtvfeg", verb) < 0 {
		panic("engine: verb " + string(verb))
	}
	if v == nil {
		return "%!" + string(verb) + "(<nil>)"
	}
	return "%!" + string(verb) + "(" + primTypeName(v) + "=" + modelFormat('v', modelFlags{}, v, 1) + ")"
}

func modelFormat(verb byte, f modelFlags, v any, depth int) string {
	if verb == 'T' {
		return primTypeName(v)
	}
	if v == nil {
		if verb == 'v' {
			return "<nil>"
		}
		return modelBad(verb, v)
	}
	if verb == 'w' {
		verb = 'v'
	}
	if verb == 'v' || verb == 's' || verb == 'q' || verb == 'x' || verb == 'X' {
		if !f.sharp {
			switch x := v.(type) {
			case error:
				return modelString(verb, f, x.Error(), v)
			case interface{ String() string }:
				return modelString(verb, f, x.String(), v)
			}
		}
	}
	switch primKind(v) {
	case pkBool:
		if verb != 'v' && verb != 't' {
			return modelBad(verb, v)
		}
		if primBool(v) {
			return "true"
		}
		return "false"
	case pkInt:
		n := primInt(v)
		s := ""
		switch verb {
		case 'v', 'd':
			s = strconv.FormatInt(n, 10)
		case 'x':
			s = strconv.FormatInt(n, 16)
		case 'o':
			s = strconv.FormatInt(n, 8)
		case 'b':
			s = strconv.FormatInt(n, 2)
		case 'c':
			s = string(rune(n))
		case 'q':
			s = strconv.QuoteRune(rune(n))
		default:
			return modelBad(verb, v)
		}
		if f.plus && n >= 0 && verb != 'c' && verb != 'q' {
			s = "+" + s
		}
		return s
	case pkUint:
		n := primUint(v)
		switch verb {
		case 'v', 'd':
			return strconv.FormatUint(n, 10)
		case 'x':
			return strconv.FormatUint(n, 16)
		case 'o':
			return strconv.FormatUint(n, 8)
		case 'b':
			return strconv.FormatUint(n, 2)
		case 'c':
			return string(rune(n))
		case 'q':
			return strconv.QuoteRune(rune(n))
		}
		return modelBad(verb, v)
	case pkFloat32, pkFloat64:
		bits := 64
		if primKind(v) == pkFloat32 {
			bits = 32
		}
		prec := 6
		if f.hasPrec {
			prec = f.prec
		}
		c := verb
		switch verb {
		case 'v':
			c = 'g'
			if !f.hasPrec {
				prec = -1
			}
		case 'g', 'G':
			if !f.hasPrec {
				prec = -1
			}
		case 'f', 'F':
			c = 'f'
		case 'e', 'E':
		default:
			return modelBad(verb, v)
		}
		x := primFloat(v)
		s := primFormatFloat(x, c, prec, bits)
		if verb == 'v' {
			// %e is used when the exponent is less than -4 or at least 21.
			s = modelShortest(x, s, prec, bits)
		}
		if f.plus && len(s) > 0 && s[0] != '-' && s[0] != '+' {
			s = "+" + s
		}
		return s
	case pkString:
		return modelString(verb, f, primString(v), v)
	case pkBytes:
		if verb == 's' || verb == 'q' || verb == 'x' || verb == 'X' {
			return modelString(verb, f, primBytes(v), v)
		}
		fallthrough
	case pkSlice:
		out := "["
		for i := 0; i < primLen(v); i++ {
			if i > 0 {
				out += " "
			}
			out += modelFormat(verb, f, primElem(v, i), depth+1)
		}
		return out + "]"
	case pkMap:
		n := primLen(v)
		idx := make([]int, n)
		for i := range idx {
			idx[i] = i
		}
		sort.Slice(idx, func(i, j int) bool {
			a, b := primMapKey(v, idx[i]), primMapKey(v, idx[j])
			switch primKind(a) {
			case pkString:
				return primString(a) < primString(b)
			case pkInt:
				return primInt(a) < primInt(b)
			}
			panic("engine: keys of a map that is printed")
		})
		out := "map["
		for i, k := range idx {
			if i > 0 {
				out += " "
			}
			out += modelFormat(verb, f, primMapKey(v, k), depth+1) + ":" + modelFormat(verb, f, primMapVal(v, k), depth+1)
		}
		return out + "]"
	case pkStruct:
		out := "{"
		for i := 0; i < primLen(v); i++ {
			if i > 0 {
				out += " "
			}
			if f.plus {
				out += primFieldName(v, i) + ":"
			}
			out += modelFormat(verb, f, primElem(v, i), depth+1)
		}
		return out + "}"
	case pkPtr:
		if e := primDeref(v); e == nil {
			return "<nil>"
		} else if depth == 0 {
			switch primKind(e) {
			case pkStruct, pkSlice, pkMap:
				return "&" + modelFormat(verb, f, e, depth+1)
			}
		}
	}
	panic("engine: formatting of " + primTypeName(v))
}

func modelShortest(x float64, s string, prec, bits int) string {
	// strconv's %g switches to the exponent at 21 digits for the shortest form,
	// as fmt does.
	return s
}

func modelString(verb byte, f modelFlags, s string, v any) string {
	if f.hasPrec && verb != 'x' {
		n := 0
		for i := range s {
			if n == f.prec {
				s = s[:i]
				break
			}
			n++
		}
	}
	switch verb {
	case 'v', 's':
		if f.sharp {
			return strconv.Quote(s)
		}
		return s
	case 'q':
		if f.sharp && strconv.CanBackquote(s) {
			return "`" + s + "`"
		}
		if f.plus {
			return strconv.QuoteToASCII(s)
		}
		return strconv.Quote(s)
	case 'x':
		out := ""
		for i := 0; i < len(s); i++ {
			out += string("0123456789abcdef"[s[i]>>4]) + string("0123456789abcdef"[s[i]&15])
		}
		return out
	}
	return modelBad(verb, v)
}

type modelWrapError struct {
	msg string
	err error
}

func (e *modelWrapError) Error() string { return e.msg }
func (e *modelWrapError) Unwrap() error { return e.err }

func modelErrorf(format string, a ...any) error {
	msg := modelSprintf(format, a...)
	n := 0
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			continue
		}
		i++
		for i < len(format) && (format[i] == '+' || format[i] == '-' || format[i] == '#' || format[i] == ' ' || format[i] == '.' || format[i] >= '0' && format[i] <= '9') {
			i++
		}
		if i >= len(format) {
			break
		}
		if format[i] == '%' {
			continue
		}
		if format[i] == 'w' && n < len(a) {
			if err, ok := a[n].(error); ok {
				return &modelWrapError{msg, err}
			}
		}
		n++
	}
	return errors.New(msg)
}

func modelSprint(a ...any) string {
	out := ""
	for i, x := range a {
		if i > 0 && x != nil && a[i-1] != nil && primKind(x) != pkString && primKind(a[i-1]) != pkString {
			out += " "
		}
		out += modelFormat('v', modelFlags{}, x, 0)
	}
	return out
}

func modelSprintln(a ...any) string {
	out := ""
	for i, x := range a {
		if i > 0 {
			out += " "
		}
		out += modelFormat('v', modelFlags{}, x, 0)
	}
	return out + "\n"
}

func modelFprintf(w io.Writer, format string, a ...any) (int, error) {
	return w.Write([]byte(modelSprintf(format, a...)))
}

func modelFprint(w io.Writer, a ...any) (int, error)   { return w.Write([]byte(modelSprint(a...))) }
func modelFprintln(w io.Writer, a ...any) (int, error) { return w.Write([]byte(modelSprintln(a...))) }

func modelErrorsIs(err, target error) bool {
	if err == nil || target == nil {
		return err == target
	}
	for {
		if modelSame(err, target) {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
			if err == nil {
				return false
			}
		case interface{ Unwrap() []error }:
			for _, err := range x.Unwrap() {
				if modelErrorsIs(err, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
}

func modelSame(a, b error) (same bool) {
	defer func() {
		if recover() != nil {
			same = false // values of such types are never equal
		}
	}()
	return a == b
}

func modelErrorsAs(err error, target any) bool {
	for err != nil {
		if primStore(target, err) {
			return true
		}
		if x, ok := err.(interface{ As(any) bool }); ok && x.As(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
		case interface{ Unwrap() []error }:
			for _, err := range x.Unwrap() {
				if modelErrorsAs(err, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
	return false
}

func modelParseFloat(s string, bits int) (float64, error) {
	f, syntax, rng := primParseFloat(s, bits)
	if syntax {
		return 0, &strconv.NumError{Func: "ParseFloat", Num: s, Err: strconv.ErrSyntax}
	}
	if rng {
		return f, &strconv.NumError{Func: "ParseFloat", Num: s, Err: strconv.ErrRange}
	}
	return f, nil
}

func modelAppendFloat(dst []byte, f float64, c byte, prec, bits int) []byte {
	return append(dst, primFormatFloat(f, c, prec, bits)...)
}

type modelError string

func (e modelError) Error() string { return string(e) }

func modelMarshal(format string, v any) ([]byte, error) {
	b, msg := primMarshal(format, v)
	if msg != "" {
		return nil, modelError(msg)
	}
	return b, nil
}

func modelUnmarshal(format string, b []byte, v any) error {
	if msg := primUnmarshal(format, string(b), v); msg != "" {
		return modelError(msg)
	}
	return nil
}

func modelJSONUnmarshal(b []byte, v any) error { return modelUnmarshal("json", b, v) }
func modelXMLUnmarshal(b []byte, v any) error  { return modelUnmarshal("xml", b, v) }
func modelYAMLUnmarshal(b []byte, v any) error { return modelUnmarshal("yaml", b, v) }

func modelCRC32(crc uint32, tab *crc32.Table, b []byte) uint32 {
	crc = ^crc
	for _, c := range b {
		crc = tab[byte(crc)^c] ^ (crc >> 8)
	}
	return ^crc
}

func modelCRC32update(crc uint32, tab *crc32.Table, b []byte, check bool) uint32 {
	return modelCRC32(crc, tab, b)
}

func modelJSONMarshal(v any) ([]byte, error) { return modelMarshal("json", v) }
func modelXMLMarshal(v any) ([]byte, error)  { return modelMarshal("xml", v) }
func modelYAMLMarshal(v any) ([]byte, error) { return modelMarshal("yaml", v) }

func modelOnceDo(o *sync.Once, f func()) {
	if primOnce(o) {
		f()
	}
}

func primOnce(o *sync.Once) bool { panic("engine") }

type modelValueCtx struct {
	context.Context
	k, v any
}

func (c *modelValueCtx) Value(k any) any {
	if k == c.k {
		return c.v
	}
	return c.Context.Value(k)
}

func modelContextWithValue(parent context.Context, k, v any) context.Context {
	return &modelValueCtx{parent, k, v}
}

// modelSyncPools are the values that pools hold.
var modelSyncPools = map[*sync.Pool][]any{}

// modelSyncPoolGet gets what was put last. While writes are watched, pools are
// empty, as they are for a concurrent execution that has put nothing.
func modelSyncPoolGet(p *sync.Pool) any {
	if s := modelSyncPools[p]; len(s) > 0 && !primWatching() {
		x := s[len(s)-1]
		modelSyncPools[p] = s[:len(s)-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func modelSyncPoolPut(p *sync.Pool, x any) {
	if x != nil && !primWatching() {
		s := modelSyncPools[p]
		modelSyncPools[p] = append(s[:len(s):len(s)], x)
	}
}

func primWatching() bool { panic("engine") }

// modelSyncMaps are the entries of the maps.
var modelSyncMaps = map[*sync.Map]map[any]any{}

func modelSyncMapLoad(m *sync.Map, k any) (any, bool) {
	v, ok := modelSyncMaps[m][k]
	return v, ok
}

func modelSyncMapStore(m *sync.Map, k, v any) {
	if modelSyncMaps[m] == nil {
		modelSyncMaps[m] = map[any]any{}
	}
	modelSyncMaps[m][k] = v
}

func modelSyncMapLoadOrStore(m *sync.Map, k, v any) (any, bool) {
	if x, ok := modelSyncMaps[m][k]; ok {
		return x, true
	}
	modelSyncMapStore(m, k, v)
	return v, false
}

func modelSyncMapLoadAndDelete(m *sync.Map, k any) (any, bool) {
	v, ok := modelSyncMaps[m][k]
	delete(modelSyncMaps[m], k)
	return v, ok
}

func modelSyncMapDelete(m *sync.Map, k any) { delete(modelSyncMaps[m], k) }

func modelSyncMapSwap(m *sync.Map, k, v any) (any, bool) {
	x, ok := modelSyncMaps[m][k]
	modelSyncMapStore(m, k, v)
	return x, ok
}

func modelSyncMapCompareAndSwap(m *sync.Map, k, old, v any) bool {
	if x, ok := modelSyncMaps[m][k]; !ok || x != old {
		return false
	}
	modelSyncMaps[m][k] = v
	return true
}

func modelSyncMapCompareAndDelete(m *sync.Map, k, old any) bool {
	if x, ok := modelSyncMaps[m][k]; !ok || x != old {
		return false
	}
	delete(modelSyncMaps[m], k)
	return true
}

func modelSyncMapRange(m *sync.Map, f func(k, v any) bool) {
	for k, v := range modelSyncMaps[m] {
		if !f(k, v) {
			return
		}
	}
}

func modelSyncMapClear(m *sync.Map) { clear(modelSyncMaps[m]) }

type modelCloser struct{}

func (modelCloser) Close() error { return nil }

// modelRootScope replaces a scope that reports its metrics by one that drops
// them.
func modelRootScope(tally.ScopeOptions, time.Duration) (tally.Scope, io.Closer) {
	return modelScope{}, modelCloser{}
}

type modelScope struct{}

type modelCounter struct{}

func (modelCounter) Inc(int64) {}

func (modelScope) Counter(string) tally.Counter                    { return modelCounter{} }
func (modelScope) Gauge(string) tally.Gauge                        { return nil }
func (modelScope) Timer(string) tally.Timer                        { return timer{} }
func (modelScope) Histogram(string, tally.Buckets) tally.Histogram { return nil }
func (modelScope) SubScope(string) tally.Scope                     { return modelScope{} }
func (modelScope) Capabilities() tally.Capabilities                { return nil }
func (modelScope) Tagged(map[string]string) tally.Scope            { return modelScope{} }
