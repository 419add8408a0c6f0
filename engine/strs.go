package main

import (
	"strings"
	"unicode/utf8"
)

func (w *W) convert(in *Instr, x V) V {
	from, to := in.t2, in.t
	if from == to {
		return x
	}
	switch {
	case to.kind == KInt && from.kind == KInt:
		if x.p == nil {
			if from.signed {
				return V{n: uint64(sext(x.n, from.w)) & mask(to.w)}
			}
			return V{n: x.n & mask(to.w)}
		}
		if _, ok := x.p.(*Obj); ok {
			return x
		}
		t := w.term(x, from.w)
		switch {
		case to.w <= from.w:
			return mkTerm(w.ts.Trunc(t, to.w))
		case from.signed:
			return mkTerm(w.ts.Sext(t, to.w))
		}
		return mkTerm(w.ts.Zext(t, to.w))
	case to.kind == KFloat && from.kind == KFloat:
		if to.w == 32 && from.w == 64 {
			return w.floatMap(x, func(f float64) float64 { return float64(float32(f)) })
		}
		return x
	case to.kind == KFloat && from.kind == KInt:
		return w.intToFloat(x, from, to)
	case to.kind == KInt && from.kind == KFloat:
		return w.floatToInt(x, to)
	case to.kind == KString && from.kind == KInt:
		r := x
		if r.p == nil {
			return mkStr(string(rune(sext(r.n, from.w))))
		}
		return w.runeString(w.term(r, from.w))
	case to.kind == KString && from.kind == KSlice:
		if x.p == nil || sliceLen(x) == 0 {
			return V{}
		}
		o := x.p.(*Obj)
		if from.elem.w == 8 {
			return w.objString(o, sliceOff(x), sliceLen(x))
		}
		r := V{}
		for i := 0; i < sliceLen(x); i++ {
			e := o.s[sliceOff(x)+i]
			if e.p == nil {
				r = strCat(r, mkStr(string(rune(int32(e.n)))))
			} else {
				r = strCat(r, w.runeString(w.term(e, 32)))
			}
		}
		return r
	case to.kind == KSlice && from.kind == KString:
		if to.elem.w == 8 {
			n := strLen(x)
			return mkSlice(w.bytesObj(x), 0, n, n)
		}
		var rs []V
		for i := 0; i < strLen(x); {
			r, n := w.decodeRune(x, i)
			rs = append(rs, r)
			i += n
		}
		o := w.newObj(to.elem, len(rs))
		copy(o.s, rs)
		return mkSlice(o, 0, len(rs), len(rs))
	case to.kind == KString && from.kind == KString,
		to.kind == KPtr, to.kind == KBool, to.kind == KSlice && from.kind == KSlice:
		return x
	case to.kind == KInt && from.kind == KPtr:
		return x // uintptr(unsafe.Pointer)
	}
	unsupported("conversion of %s to %s", from.t, to.t)
	return V{}
}

func (w *W) runeString(t *Term) V {
	ts := w.ts
	if t.w < 32 {
		t = ts.Zext(t, 32)
	} else if t.w > 32 {
		if !w.decide(ts.Ule(t, ts.Const(0x10ffff, t.w))) {
			return mkStr("\uFFFD")
		}
		t = ts.Trunc(t, 32)
	}
	k := func(v uint64) *Term { return ts.Const(v, 32) }
	b := func(x *Term) *Term { return ts.Trunc(x, 8) }
	cont := func(sh uint64) *Term {
		return b(ts.Bin(TBor, k(0x80), ts.Bin(TBand, ts.Bin(TLshr, t, k(sh)), k(0x3f))))
	}
	lead := func(p, sh uint64) *Term { return b(ts.Bin(TBor, k(p), ts.Bin(TLshr, t, k(sh)))) }
	mk := func(x ...*Term) V {
		bs := make([]byte, len(x))
		for i, y := range x {
			if y.isConst() {
				bs[i], x[i] = byte(y.val), nil
			}
		}
		return mkBytes(bs, x)
	}
	switch {
	case w.decide(ts.Ult(t, k(0x80))):
		return mk(b(t))
	case w.decide(ts.Ult(t, k(0x800))):
		return mk(lead(0xc0, 6), cont(0))
	case !w.decide(ts.Ule(t, k(0x10ffff))):
		return mkStr("\uFFFD")
	case w.decide(ts.And(ts.Ule(k(0xd800), t), ts.Ule(t, k(0xdfff)))):
		return mkStr("\uFFFD")
	case w.decide(ts.Ult(t, k(0x10000))):
		return mk(lead(0xe0, 12), cont(6), cont(0))
	}
	return mk(lead(0xf0, 18), cont(12), cont(6), cont(0))
}

// decodeRune decodes the rune at the index: the rune and its size.
func (w *W) decodeRune(s V, i int) (V, int) {
	n := strLen(s)
	b, sy := strParts(s)
	anySym := false
	for k := i; k < n && k < i+4; k++ {
		if sy != nil && sy[k] != nil {
			anySym = true
		}
	}
	if !anySym {
		r, sz := utf8.DecodeRune(b[i:])
		return V{n: uint64(uint32(r))}, sz
	}
	ts := w.ts
	at := func(k int) *Term { return w.byteTerm(b, sy, k) }
	c := at(i)
	if c.isConst() && c.val < 0x80 {
		return V{n: c.val}, 1
	}
	in := func(t *Term, lo, hi uint64) bool {
		return w.decide(ts.And(ts.Ule(ts.Const(lo, 8), t), ts.Ule(t, ts.Const(hi, 8))))
	}
	if in(c, 0, 0x7f) {
		return mkTerm(ts.Zext(c, 32)), 1
	}
	bad := V{n: utf8.RuneError}
	ext := func(t *Term, m uint64) *Term { return ts.Bin(TBand, ts.Zext(t, 32), ts.Const(m, 32)) }
	shl := func(t *Term, k uint64) *Term { return ts.Bin(TShl, t, ts.Const(k, 32)) }
	or := func(a ...*Term) *Term {
		r := a[0]
		for _, x := range a[1:] {
			r = ts.Bin(TBor, r, x)
		}
		return r
	}
	if in(c, 0xc2, 0xdf) {
		if i+1 >= n || !in(at(i+1), 0x80, 0xbf) {
			return bad, 1
		}
		return mkTerm(or(shl(ext(c, 0x1f), 6), ext(at(i+1), 0x3f))), 2
	}
	if in(c, 0xe0, 0xef) {
		lo, hi := uint64(0x80), uint64(0xbf)
		if in(c, 0xe0, 0xe0) {
			lo = 0xa0
		} else if in(c, 0xed, 0xed) {
			hi = 0x9f
		}
		if i+2 >= n || !in(at(i+1), lo, hi) || !in(at(i+2), 0x80, 0xbf) {
			return bad, 1
		}
		return mkTerm(or(shl(ext(c, 0xf), 12), shl(ext(at(i+1), 0x3f), 6), ext(at(i+2), 0x3f))), 3
	}
	if in(c, 0xf0, 0xf4) {
		lo, hi := uint64(0x80), uint64(0xbf)
		if in(c, 0xf0, 0xf0) {
			lo = 0x90
		} else if in(c, 0xf4, 0xf4) {
			hi = 0x8f
		}
		if i+3 >= n || !in(at(i+1), lo, hi) || !in(at(i+2), 0x80, 0xbf) || !in(at(i+3), 0x80, 0xbf) {
			return bad, 1
		}
		return mkTerm(or(shl(ext(c, 7), 18), shl(ext(at(i+1), 0x3f), 12), shl(ext(at(i+2), 0x3f), 6), ext(at(i+3), 0x3f))), 4
	}
	return bad, 1
}

// iterators are objects having the position in slot 0, what is iterated in
// slot 1 and, for maps, the order of the entries in slot 2.
func (w *W) rangeInit(in *Instr, x V) V {
	o := w.newObj(nil, 3)
	o.s[1] = x
	if in.t2.kind == KMap {
		var order []int
		if x.p != nil {
			m := w.mapState(x)
			for i := range m.keys {
				if !m.dead[i] {
					order = append(order, i)
				}
			}
			if n := w.top().f.name; !strings.Contains(n, "net/http") && !strings.Contains(n, "zzverif") {
				order = w.mapOrder(m, order)
			}
		}
		a := &Agg{}
		for _, i := range order {
			a.s = append(a.s, m2(w.mapState(x), i))
		}
		o.s[2] = V{p: a}
	}
	return V{p: o}
}

func m2(m *MapState, i int) V { return m.keys[i] }

func (w *W) next(in *Instr, it V) V {
	o := it.p.(*Obj)
	pos := int(o.s[0].n)
	x := o.s[1]
	if in.commaOk { // string
		if pos >= strLen(x) {
			return mkTuple(V{}, V{}, V{})
		}
		r, n := w.decodeRune(x, pos)
		w.store(o, 0, mkInt(pos+n))
		return mkTuple(mkBool(true), mkInt(pos), r)
	}
	keys := o.s[2].p.(*Agg).s
	for pos < len(keys) {
		k := keys[pos]
		pos++
		if x.p == nil {
			break
		}
		m := w.mapState(x)
		if i := m.find(k); i >= 0 {
			w.store(o, 0, mkInt(pos))
			return mkTuple(mkBool(true), k, m.vals[i])
		}
	}
	w.store(o, 0, mkInt(pos))
	return mkTuple(V{}, V{}, V{})
}

// mapOrder picks the order in which the entries of a map are visited.
func (w *W) mapOrder(m *MapState, order []int) []int {
	if !w.nd.mapOrders || len(order) < 2 || w.initing > 0 {
		return order
	}
	// any permutation of up to four entries. The first iterations each have an
	// order of their own, the others have the same one.
	rest := append([]int(nil), order...)
	var out []int
	w.nd.orderN++
	name := "maporder." + itoa(w.nd.orderN)
	if w.nd.orderN > 4 {
		name = "maporder.rest." + itoa(len(order))
	}
	for k := 0; len(rest) > 1 && k < 3; k++ {
		i := w.pick(name+"."+itoa(k), len(rest))
		out = append(out, rest[i])
		rest = append(rest[:i:i], rest[i+1:]...)
	}
	return append(out, rest...)
}

// find is the entry that is identical to the key, by representation.
func (m *MapState) find(k V) int {
	if ks, ok := keyString(k); ok && !m.symk {
		if i, ok := m.index[ks]; ok {
			return i
		}
		return -1
	}
	for i := range m.keys {
		if !m.dead[i] && sameV(m.keys[i], k) {
			return i
		}
	}
	return -1
}

func sameV(a, b V) bool {
	if a.n != b.n {
		if _, ok := a.p.(*Str); !ok {
			return false
		}
	}
	if a.p == b.p {
		return a.n == b.n
	}
	switch p := a.p.(type) {
	case *Str:
		if _, ok := b.p.(*Str); !ok || strLen(a) != strLen(b) {
			return false
		}
		for i := 0; i < strLen(a); i++ {
			if strAt(a, i) != strAt(b, i) {
				return false
			}
		}
		return true
	case *Iface:
		q, ok := b.p.(*Iface)
		return ok && p.t == q.t && sameV(p.v, q.v)
	case *Agg:
		q, ok := b.p.(*Agg)
		if !ok || len(p.s) != len(q.s) {
			return false
		}
		for i := range p.s {
			if !sameV(p.s[i], q.s[i]) {
				return false
			}
		}
		return true
	}
	return false
}

// keyString encodes a concrete key.
func keyString(k V) (string, bool) {
	switch p := k.p.(type) {
	case nil:
		return string([]byte{byte(k.n), byte(k.n >> 8), byte(k.n >> 16), byte(k.n >> 24), byte(k.n >> 32), byte(k.n >> 40), byte(k.n >> 48), byte(k.n >> 56), 'n'}), true
	case *Str:
		if !strConcrete(k) {
			return "", false
		}
		return goStr(k) + "s", true
	case *Agg:
		var sb strings.Builder
		for _, x := range p.s {
			s, ok := keyString(x)
			if !ok {
				return "", false
			}
			sb.WriteString(itoa(len(s)))
			sb.WriteByte(':')
			sb.WriteString(s)
		}
		return sb.String() + "a", true
	case *Iface:
		s, ok := keyString(p.v)
		return itoa(p.t.id) + ":" + s + "i", ok
	}
	return "", false
}

func itoa(i int) string {
	if i == 0 {
		return "0"
	}
	neg := i < 0
	if neg {
		i = -i
	}
	var b [20]byte
	n := len(b)
	for i > 0 {
		n--
		b[n] = byte('0' + i%10)
		i /= 10
	}
	if neg {
		n--
		b[n] = '-'
	}
	return string(b[n:])
}

func (w *W) mapState(x V) *MapState {
	o, ok := x.p.(*Obj)
	if !ok {
		unsupported("map %T", x.p)
	}
	if o.s[0].p == nil {
		return &MapState{}
	}
	return o.s[0].p.(*MapState)
}

func (w *W) setMap(o *Obj, m *MapState) { w.store(o, 0, V{p: m}) }

// normKey makes the zero value of a string key distinguishable from integers.
func normKey(t *TInfo, k V) V { return k }

// findKey locates the entry of the key, deciding equality where needed.
func (w *W) findKey(t *TInfo, m *MapState, k V) int {
	if t.key.kind == KIface && k.p != nil {
		switch k.p.(*Iface).t.kind {
		case KSlice, KMap, KFunc:
			w.throwRuntime("hash of unhashable type " + k.p.(*Iface).t.t.String())
		}
	}
	ks, ok := keyString(k)
	if ok {
		if i, ok := m.index[ks]; ok {
			return i
		}
		if !m.symk {
			return -1
		}
	}
	for i := range m.keys {
		if m.dead[i] {
			continue
		}
		c := w.equal(t.key, m.keys[i], k)
		if w.decide(c) {
			return i
		}
	}
	return -1
}

func (w *W) mapLookup(in *Instr, x, k V) V {
	t := in.t2
	if t.kind == KString {
		return w.index(in, x, k)
	}
	var v V
	ok := false
	if x.p != nil {
		m := w.mapState(x)
		if i := w.findKey(t, m, k); i >= 0 {
			v, ok = m.vals[i], true
		}
	}
	if in.commaOk {
		return mkTuple(v, mkBool(ok))
	}
	return v
}

func (m *MapState) clone() *MapState {
	c := &MapState{keys: append([]V(nil), m.keys...), vals: append([]V(nil), m.vals...), dead: append([]bool(nil), m.dead...), live: m.live, symk: m.symk}
	c.index = make(map[string]int, len(m.index))
	for k, v := range m.index {
		c.index[k] = v
	}
	return c
}

// writable is the state of the map that may be modified in place: states that
// are newer than the last snapshot belong to this path only.
func (w *W) writable(o *Obj, m *MapState) *MapState {
	if w.initing > 0 || m.birth == w.epoch && o.birth == w.epoch && m.index != nil {
		if m.index == nil {
			m.index = map[string]int{}
		}
		return m
	}
	c := m.clone()
	c.birth = w.epoch
	return c
}

func (w *W) mapUpdate(t *TInfo, x, k, v V) {
	if x.p == nil {
		panic(goPanic{w.runtimeErrorI("assignment to entry in nil map")})
	}
	o, ok := x.p.(*Obj)
	if !ok {
		unsupported("update of map %T", x.p)
	}
	m := w.mapState(x)
	i := w.findKey(t, m, k)
	c := w.writable(o, m)
	if i >= 0 {
		c.vals[i] = v
	} else {
		ks, ok := keyString(k)
		if ok {
			c.index[ks] = len(c.keys)
		} else {
			c.symk = true
		}
		c.keys = append(c.keys, k)
		c.vals = append(c.vals, v)
		c.dead = append(c.dead, false)
		c.live++
	}
	w.setMap(o, c)
}

func (w *W) mapDelete(t *TInfo, x, k V) {
	if x.p == nil {
		return
	}
	o := x.p.(*Obj)
	m := w.mapState(x)
	i := w.findKey(t, m, k)
	if i < 0 {
		return
	}
	c := w.writable(o, m)
	if ks, ok := keyString(c.keys[i]); ok {
		delete(c.index, ks)
	}
	c.dead[i] = true
	c.vals[i] = V{}
	c.live--
	w.setMap(o, c)
}
