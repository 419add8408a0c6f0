package main

import (
	"fmt"
	"math"
)

// V is a value that fits a register or slot. The zero V is the zero value of
// every type.
//
//	integers, booleans  n, or p = *Term when symbolic
//	floats              n = bits of the float64, or p = *Tab when symbolic
//	strings             p = *Str, n = offset<<32 | length
//	pointers            p = *Obj, n = slot
//	slices              p = *Obj, n = slot<<40 | length<<20 | capacity
//	maps                p = *Obj, whose slot 0 has p = *MapState
//	interfaces          p = *Iface
//	functions           p = *Closure
//	structs, arrays     p = *Agg
//	tuples              p = *Agg, one element per value
type V struct {
	n uint64
	p any
}

type Obj struct {
	s     []V
	t     *TInfo // type of what is repeated
	birth uint64
	name  string
}

type Str struct {
	b []byte
	s []*Term // nil, or the symbolic bytes
}

type Iface struct {
	t *TInfo
	v V
}

type Closure struct {
	fn   *Func
	free []V
	bi   string // builtin
}

type Agg struct{ s []V }

type MapState struct {
	keys  []V
	vals  []V
	index map[string]int // of concrete keys
	dead  []bool         // entries that were deleted
	live  int
	symk  bool
	birth uint64
}

type Poison struct{ why string }

type Unsupported struct{ msg string }

func (u Unsupported) Error() string { return u.msg }

func unsupported(f string, a ...any) { panic(Unsupported{fmt.Sprintf(f, a...)}) }

func strLen(v V) int { return int(v.n & 0xffffffff) }

func mkStr(s string) V {
	if len(s) == 0 {
		return V{}
	}
	return V{uint64(len(s)), &Str{b: []byte(s)}}
}

func mkBytes(b []byte, s []*Term) V {
	if len(b) == 0 {
		return V{}
	}
	return V{uint64(len(b)), &Str{b: b, s: s}}
}

func strSlice(v V, lo, hi int) V {
	if lo == hi {
		return V{}
	}
	off := int(v.n >> 32)
	return V{uint64(off+lo)<<32 | uint64(hi-lo), v.p}
}

// strAt is the byte of the string, as a value.
func strAt(v V, i int) V {
	s := v.p.(*Str)
	i += int(v.n >> 32)
	if s.s != nil && s.s[i] != nil {
		return V{0, s.s[i]}
	}
	return V{n: uint64(s.b[i])}
}

func strConcrete(v V) bool {
	if v.p == nil {
		return true
	}
	s := v.p.(*Str)
	if s.s == nil {
		return true
	}
	off, n := int(v.n>>32), strLen(v)
	for i := off; i < off+n; i++ {
		if s.s[i] != nil {
			return false
		}
	}
	return true
}

func goStr(v V) string {
	if v.p == nil {
		return ""
	}
	s := v.p.(*Str)
	off, n := int(v.n>>32), strLen(v)
	return string(s.b[off : off+n])
}

// parts of a string: bytes and symbolic bytes, the latter being nil when it is
// concrete.
func strParts(v V) ([]byte, []*Term) {
	if v.p == nil {
		return nil, nil
	}
	s := v.p.(*Str)
	off, n := int(v.n>>32), strLen(v)
	if strConcrete(v) {
		return s.b[off : off+n], nil
	}
	return s.b[off : off+n], s.s[off : off+n]
}

func strCat(a, b V) V {
	if strLen(a) == 0 {
		return b
	}
	if strLen(b) == 0 {
		return a
	}
	ab, as := strParts(a)
	bb, bs := strParts(b)
	out := make([]byte, 0, len(ab)+len(bb))
	out = append(append(out, ab...), bb...)
	var sy []*Term
	if as != nil || bs != nil {
		sy = make([]*Term, len(out))
		copy(sy, as)
		copy(sy[len(ab):], bs)
	}
	return mkBytes(out, sy)
}

func mkSlice(o *Obj, slot, n, c int) V {
	if slot >= 1<<24 || n >= 1<<20 || c >= 1<<20 {
		unsupported("slice too large")
	}
	return V{uint64(slot)<<40 | uint64(n)<<20 | uint64(c), o}
}

func sliceOff(v V) int { return int(v.n >> 40) }
func sliceLen(v V) int { return int(v.n >> 20 & 0xfffff) }
func sliceCap(v V) int { return int(v.n & 0xfffff) }

func mkFloat(f float64) V  { return V{n: math.Float64bits(f)} }
func (v V) float() float64 { return math.Float64frombits(v.n) }

func mkBool(b bool) V { return V{n: b2u(b)} }

func mkInt(i int) V { return V{n: uint64(i)} }

func (v V) sym() bool {
	switch v.p.(type) {
	case *Term, *Tab:
		return true
	}
	return false
}

// mkTerm is the value of a term, being concrete when it is constant.
func mkTerm(t *Term) V {
	if t.op == TConst {
		return V{n: t.val}
	}
	return V{0, t}
}

func (w *W) term(v V, width uint8) *Term {
	switch p := v.p.(type) {
	case nil:
		return w.ts.Const(v.n, width)
	case *Term:
		if p.w != width {
			panic(fmt.Sprintf("term of width %d, want %d", p.w, width))
		}
		return p
	}
	unsupported("value %T is not a term", v.p)
	return nil
}

func mkTuple(vs ...V) V { return V{p: &Agg{vs}} }

func aggAt(v V, i int) V {
	if v.p == nil {
		return V{}
	}
	return v.p.(*Agg).s[i]
}

// aggSlots of a value having n slots.
func aggSlots(v V, n int) []V {
	if v.p == nil {
		return make([]V, n)
	}
	return v.p.(*Agg).s
}
