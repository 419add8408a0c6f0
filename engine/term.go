package main

import (
	"encoding/binary"
	"fmt"
	"math/bits"
	"sort"
	"strings"
)

// Terms are hash-consed boolean (w == 0) or bit-vector formulas over variables
// of eight bits, each having a static domain of values.

type TOp uint8

const (
	TConst TOp = iota
	TVar
	TSet // a boolean: variable a lies in set
	TNot
	TAnd
	TOr
	TIte
	TEq
	TUlt
	TUle
	TSlt
	TSle
	TAdd
	TSub
	TMul
	TUdiv
	TUrem
	TSdiv
	TSrem
	TShl
	TLshr
	TAshr
	TBand
	TBor
	TBxor
	TZext
	TSext
	TTrunc
	TTab // a function of the variable a
)

type Set [4]uint64

func (s *Set) has(b uint64) bool { return s[(b>>6)&3]>>(b&63)&1 == 1 }
func (s *Set) add(b uint64)      { s[(b>>6)&3] |= 1 << (b & 63) }
func (s *Set) empty() bool       { return s[0]|s[1]|s[2]|s[3] == 0 }
func (s *Set) and(o *Set) Set    { return Set{s[0] & o[0], s[1] & o[1], s[2] & o[2], s[3] & o[3]} }
func (s *Set) or(o *Set) Set     { return Set{s[0] | o[0], s[1] | o[1], s[2] | o[2], s[3] | o[3]} }
func (s *Set) minus(o *Set) Set {
	return Set{s[0] &^ o[0], s[1] &^ o[1], s[2] &^ o[2], s[3] &^ o[3]}
}
func (s *Set) count() int {
	return bits.OnesCount64(s[0]) + bits.OnesCount64(s[1]) + bits.OnesCount64(s[2]) + bits.OnesCount64(s[3])
}
func (s *Set) min() uint64 {
	for i := 0; i < 4; i++ {
		if s[i] != 0 {
			return uint64(i*64 + bits.TrailingZeros64(s[i]))
		}
	}
	return 0
}
func (s *Set) values() []uint64 {
	var v []uint64
	for i := uint64(0); i < 256; i++ {
		if s.has(i) {
			v = append(v, i)
		}
	}
	return v
}

type Term struct {
	op      TOp
	w       uint8
	id      uint32
	a, b, c *Term
	args    []*Term
	val     uint64 // constant, or index of the variable
	set     Set    // TSet, and the domain of a TVar
	vars    []int32
	tab     []uint64 // bit-vector terms over a single variable
	lo, hi  uint64
	name    string

	evalMark uint64
	evalVal  uint64
	smt      uint32 // generation of the solver the term has been sent to
}

type termKey struct {
	op      TOp
	w       uint8
	a, b, c uint32
	val     uint64
}

type setKey struct {
	v   uint32
	set Set
}

type Terms struct {
	tab    map[termKey]*Term
	sets   map[setKey]*Term
	nary   map[string]*Term
	consts [65]map[uint64]*Term
	vars   []*Term
	byName map[string]*Term
	next   uint32
	T, F   *Term
	evalN  uint64
}

func NewTerms() *Terms {
	ts := &Terms{tab: map[termKey]*Term{}, sets: map[setKey]*Term{}, nary: map[string]*Term{}, byName: map[string]*Term{}}
	ts.T = ts.mk(&Term{op: TConst, w: 0, val: 1})
	ts.F = ts.mk(&Term{op: TConst, w: 0, val: 0})
	return ts
}

func (ts *Terms) mk(t *Term) *Term {
	ts.next++
	t.id = ts.next
	return t
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<w - 1
}

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	return int64(v<<(64-w)) >> (64 - w)
}

func (ts *Terms) Bool(b bool) *Term {
	if b {
		return ts.T
	}
	return ts.F
}

func (ts *Terms) Const(v uint64, w uint8) *Term {
	if w == 0 {
		return ts.Bool(v != 0)
	}
	v &= mask(w)
	m := ts.consts[w]
	if m == nil {
		m = map[uint64]*Term{}
		ts.consts[w] = m
	}
	if t := m[v]; t != nil {
		return t
	}
	t := ts.mk(&Term{op: TConst, w: w, val: v, lo: v, hi: v})
	m[v] = t
	return t
}

// Var returns the variable having the name, which is created with the domain.
func (ts *Terms) Var(name string, dom Set) *Term {
	if t := ts.byName[name]; t != nil {
		if t.set != dom {
			unsupported("variable %s has two domains", name)
		}
		return t
	}
	t := ts.mk(&Term{op: TVar, w: 8, val: uint64(len(ts.vars)), set: dom, name: name})
	t.vars = []int32{int32(len(ts.vars))}
	t.lo, t.hi = 255, 0
	t.tab = make([]uint64, 256)
	for i := uint64(0); i < 256; i++ {
		t.tab[i] = i
		if dom.has(i) {
			if i < t.lo {
				t.lo = i
			}
			if i > t.hi {
				t.hi = i
			}
		}
	}
	ts.vars = append(ts.vars, t)
	ts.byName[name] = t
	return t
}

func (t *Term) isConst() bool { return t.op == TConst }
func (t *Term) isTrue() bool  { return t.op == TConst && t.w == 0 && t.val == 1 }
func (t *Term) isFalse() bool { return t.op == TConst && t.w == 0 && t.val == 0 }

func unionVars(a, b []int32) []int32 {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	if len(a) == len(b) && &a[0] == &b[0] {
		return a
	}
	out := make([]int32, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j == len(b) || i < len(a) && a[i] < b[j]:
			out = append(out, a[i])
			i++
		case i == len(a) || b[j] < a[i]:
			out = append(out, b[j])
			j++
		default:
			out = append(out, a[i])
			i++
			j++
		}
	}
	if len(out) == len(a) {
		return a
	}
	if len(out) == len(b) {
		return b
	}
	return out
}

// InSet is the boolean stating that the variable lies in the set.
func (ts *Terms) InSet(v *Term, s Set) *Term {
	s = s.and(&v.set)
	if s.empty() {
		return ts.F
	}
	if s == v.set {
		return ts.T
	}
	k := setKey{v.id, s}
	if t := ts.sets[k]; t != nil {
		return t
	}
	t := ts.mk(&Term{op: TSet, a: v, set: s, vars: v.vars})
	ts.sets[k] = t
	return t
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// evalOp evaluates the operation on concrete operands.
func evalOp(op TOp, w uint8, aw uint8, a, b, c uint64) uint64 {
	switch op {
	case TNot:
		return a ^ 1
	case TIte:
		if a != 0 {
			return b
		}
		return c
	case TEq:
		return b2u(a == b)
	case TUlt:
		return b2u(a < b)
	case TUle:
		return b2u(a <= b)
	case TSlt:
		return b2u(sext(a, aw) < sext(b, aw))
	case TSle:
		return b2u(sext(a, aw) <= sext(b, aw))
	case TAdd:
		return (a + b) & mask(w)
	case TSub:
		return (a - b) & mask(w)
	case TMul:
		return (a * b) & mask(w)
	case TUdiv:
		if b == 0 {
			return mask(w)
		}
		return a / b
	case TUrem:
		if b == 0 {
			return a
		}
		return a % b
	case TSdiv:
		if b == 0 {
			if sext(a, w) < 0 {
				return 1
			}
			return mask(w)
		}
		if sext(b, w) == -1 {
			return (-a) & mask(w)
		}
		return uint64(sext(a, w)/sext(b, w)) & mask(w)
	case TSrem:
		if b == 0 {
			return a
		}
		if sext(b, w) == -1 {
			return 0
		}
		return uint64(sext(a, w)%sext(b, w)) & mask(w)
	case TShl:
		if b >= uint64(w) {
			return 0
		}
		return (a << b) & mask(w)
	case TLshr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case TAshr:
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(sext(a, w)>>b) & mask(w)
	case TBand:
		return a & b
	case TBor:
		return a | b
	case TBxor:
		return a ^ b
	case TZext:
		return a
	case TSext:
		return uint64(sext(a, aw)) & mask(w)
	case TTrunc:
		return a & mask(w)
	}
	panic("evalOp")
}

func tid(t *Term) uint32 {
	if t == nil {
		return 0
	}
	return t.id
}

// pointwise value of a term that is constant or depends on a single variable.
func (t *Term) at(i uint64) uint64 {
	switch {
	case t.op == TConst:
		return t.val
	case t.op == TSet:
		return b2u(t.set.has(i))
	}
	return t.tab[i]
}

func (t *Term) tabular() bool { return t.op == TConst || t.op == TSet || t.tab != nil }

// Table is the function of the variable that is given by the table.
func (ts *Terms) Table(v *Term, tab []uint64, w uint8) *Term {
	buf := make([]byte, 0, 2100)
	buf = append(buf, 'T', w)
	buf = binary.LittleEndian.AppendUint32(buf, v.id)
	first, same, ident := true, true, w == 8
	var fv uint64
	out := make([]uint64, 256)
	for i := uint64(0); i < 256; i++ {
		if !v.set.has(i) {
			continue
		}
		x := tab[i] & mask(w)
		out[i] = x
		buf = binary.LittleEndian.AppendUint64(buf, x)
		if x != i {
			ident = false
		}
		if first {
			fv, first = x, false
		} else if fv != x {
			same = false
		}
	}
	if w == 0 {
		var s Set
		for i := uint64(0); i < 256; i++ {
			if v.set.has(i) && out[i] != 0 {
				s.add(i)
			}
		}
		return ts.InSet(v, s)
	}
	if same {
		return ts.Const(fv, w)
	}
	if ident {
		return v
	}
	if t := ts.nary[string(buf)]; t != nil {
		return t
	}
	t := ts.mk(&Term{op: TTab, w: w, a: v, vars: v.vars, tab: out})
	ts.interval(t)
	ts.nary[string(buf)] = t
	return t
}

// build creates the operation, folding constants and terms over one variable.
func (ts *Terms) build(op TOp, w uint8, a, b, c *Term) *Term {
	ca := a.op == TConst
	cb := b == nil || b.op == TConst
	cc := c == nil || c.op == TConst
	var bv, cv uint64
	if b != nil {
		bv = b.val
	}
	if c != nil {
		cv = c.val
	}
	if ca && cb && cc {
		return ts.Const(evalOp(op, w, a.w, a.val, bv, cv), w)
	}
	vars := a.vars
	if b != nil {
		vars = unionVars(vars, b.vars)
	}
	if c != nil {
		vars = unionVars(vars, c.vars)
	}
	var tab []uint64
	if len(vars) == 1 && a.tabular() && (b == nil || b.tabular()) && (c == nil || c.tabular()) {
		v := ts.vars[vars[0]]
		tab = make([]uint64, 256)
		var set Set
		first, same := true, true
		var fv uint64
		ident := w == 8
		for i := uint64(0); i < 256; i++ {
			if !v.set.has(i) {
				continue
			}
			var x, y, z uint64
			x = a.at(i)
			if b != nil {
				y = b.at(i)
			}
			if c != nil {
				z = c.at(i)
			}
			r := evalOp(op, w, a.w, x, y, z)
			tab[i] = r
			if r != i {
				ident = false
			}
			if w == 0 && r != 0 {
				set.add(i)
			}
			if first {
				fv, first = r, false
			} else if r != fv {
				same = false
			}
		}
		if w == 0 {
			return ts.InSet(v, set)
		}
		if same {
			return ts.Const(fv, w)
		}
		if ident {
			return v
		}
	}
	k := termKey{op, w, a.id, tid(b), tid(c), 0}
	if t := ts.tab[k]; t != nil {
		return t
	}
	t := ts.mk(&Term{op: op, w: w, a: a, b: b, c: c, vars: vars, tab: tab})
	ts.interval(t)
	if w != 0 && t.lo == t.hi {
		t = ts.Const(t.lo, w)
	}
	ts.tab[k] = t
	return t
}

func (ts *Terms) interval(t *Term) {
	if t.w == 0 {
		return
	}
	t.lo, t.hi = 0, mask(t.w)
	if t.tab != nil {
		v := ts.vars[t.vars[0]]
		t.lo, t.hi = mask(t.w), 0
		for i := uint64(0); i < 256; i++ {
			if v.set.has(i) {
				if t.tab[i] < t.lo {
					t.lo = t.tab[i]
				}
				if t.tab[i] > t.hi {
					t.hi = t.tab[i]
				}
			}
		}
		return
	}
	a, b, c := t.a, t.b, t.c
	switch t.op {
	case TIte:
		t.lo, t.hi = min(b.lo, c.lo), max(b.hi, c.hi)
	case TAdd:
		if s := a.hi + b.hi; s >= a.hi && s <= mask(t.w) {
			t.lo, t.hi = a.lo+b.lo, s
		}
	case TSub:
		if a.lo >= b.hi {
			t.lo, t.hi = a.lo-b.hi, a.hi-b.lo
		}
	case TMul:
		h, l := bits.Mul64(a.hi, b.hi)
		if h == 0 && l <= mask(t.w) {
			t.lo, t.hi = a.lo*b.lo, l
		}
	case TUdiv:
		if b.lo > 0 {
			t.lo, t.hi = a.lo/b.hi, a.hi/b.lo
		}
	case TUrem:
		if b.lo > 0 {
			t.hi = min(a.hi, b.hi-1)
		}
	case TZext:
		t.lo, t.hi = a.lo, a.hi
	case TTrunc:
		if a.hi <= mask(t.w) {
			t.lo, t.hi = a.lo, a.hi
		}
	case TSext:
		if a.hi <= mask(a.w)>>1 {
			t.lo, t.hi = a.lo, a.hi
		}
	case TBand:
		t.hi = min(a.hi, b.hi)
	case TLshr:
		if b.isConst() && b.val < 64 {
			t.lo, t.hi = a.lo>>b.val, a.hi>>b.val
		}
	case TShl:
		if b.isConst() && b.val < uint64(t.w) && bits.Len64(a.hi)+int(b.val) <= int(t.w) {
			t.lo, t.hi = a.lo<<b.val, a.hi<<b.val
		}
	case TBor, TBxor:
		n := max(bits.Len64(a.hi), bits.Len64(b.hi))
		t.hi = min(t.hi, mask(uint8(n)))
		if n == 0 {
			t.hi = 0
		}
	}
}

func (ts *Terms) Not(a *Term) *Term {
	switch a.op {
	case TConst:
		return ts.Bool(a.val == 0)
	case TNot:
		return a.a
	case TSet:
		return ts.InSet(a.a, a.a.set.minus(&a.set))
	}
	k := termKey{TNot, 0, a.id, 0, 0, 0}
	if t := ts.tab[k]; t != nil {
		return t
	}
	t := ts.mk(&Term{op: TNot, a: a, vars: a.vars})
	ts.tab[k] = t
	return t
}

func (ts *Terms) And(xs ...*Term) *Term { return ts.junction(TAnd, xs) }
func (ts *Terms) Or(xs ...*Term) *Term  { return ts.junction(TOr, xs) }

func (ts *Terms) junction(op TOp, xs []*Term) *Term {
	unit, zero := ts.T, ts.F
	if op == TOr {
		unit, zero = ts.F, ts.T
	}
	var args []*Term
	var flat func(xs []*Term) bool
	flat = func(xs []*Term) bool {
		for _, x := range xs {
			switch {
			case x == unit:
			case x == zero:
				return false
			case x.op == op:
				if !flat(x.args) {
					return false
				}
			default:
				args = append(args, x)
			}
		}
		return true
	}
	if !flat(xs) {
		return zero
	}
	if len(args) == 0 {
		return unit
	}
	if len(args) > 1 {
		// merge the sets of each variable.
		sort.Slice(args, func(i, j int) bool { return args[i].id < args[j].id })
		out := args[:0:0]
		setAt := map[*Term]int{}
		seen := map[*Term]bool{}
		for _, x := range args {
			if seen[x] {
				continue
			}
			seen[x] = true
			if x.op == TSet {
				if i, ok := setAt[x.a]; ok {
					var s Set
					if op == TAnd {
						s = out[i].set.and(&x.set)
					} else {
						s = out[i].set.or(&x.set)
					}
					m := ts.InSet(x.a, s)
					if m == zero {
						return zero
					}
					out[i] = m
					continue
				}
				setAt[x.a] = len(out)
			}
			out = append(out, x)
		}
		args = out[:0:0]
		for _, x := range out {
			if x == zero {
				return zero
			}
			if x == unit {
				continue
			}
			if x.op == TNot && seen[x.a] {
				return zero
			}
			args = append(args, x)
		}
	}
	if len(args) == 0 {
		return unit
	}
	if len(args) == 1 {
		return args[0]
	}
	sort.Slice(args, func(i, j int) bool { return args[i].id < args[j].id })
	buf := make([]byte, 0, 4*len(args)+1)
	buf = append(buf, byte(op))
	var vars []int32
	for _, x := range args {
		buf = binary.LittleEndian.AppendUint32(buf, x.id)
		vars = unionVars(vars, x.vars)
	}
	if t := ts.nary[string(buf)]; t != nil {
		return t
	}
	t := ts.mk(&Term{op: op, args: args, vars: vars})
	ts.nary[string(buf)] = t
	return t
}

func (ts *Terms) Ite(c, a, b *Term) *Term {
	if c.op == TConst {
		if c.val != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		return ts.Or(ts.And(c, a), ts.And(ts.Not(c), b))
	}
	if a.op == TIte && a.a == c {
		a = a.b
	}
	if b.op == TIte && b.a == c {
		b = b.c
	}
	if a == b {
		return a
	}
	if b.op == TIte && b.b == a { // ite(c, a, ite(d, a, e))
		return ts.Ite(ts.Or(c, b.a), a, b.c)
	}
	if c.op == TNot {
		return ts.Ite(c.a, b, a)
	}
	return ts.build(TIte, a.w, c, a, b)
}

func (ts *Terms) cmp(op TOp, a, b *Term) *Term {
	if a == b {
		return ts.Bool(op == TEq || op == TUle || op == TSle)
	}
	if a.w == 0 && op == TEq {
		if a.isConst() {
			a, b = b, a
		}
		if b.isTrue() {
			return a
		}
		if b.isFalse() {
			return ts.Not(a)
		}
		return ts.Or(ts.And(a, b), ts.And(ts.Not(a), ts.Not(b)))
	}
	// intervals.
	switch op {
	case TEq:
		if a.hi < b.lo || b.hi < a.lo {
			return ts.F
		}
		if a.id > b.id {
			a, b = b, a
		}
	case TUlt:
		if a.hi < b.lo {
			return ts.T
		}
		if a.lo >= b.hi {
			return ts.F
		}
	case TUle:
		if a.hi <= b.lo {
			return ts.T
		}
		if a.lo > b.hi {
			return ts.F
		}
	case TSlt, TSle:
		half := mask(a.w) >> 1
		if a.hi <= half && b.hi <= half { // both are non-negative.
			if op == TSlt {
				return ts.cmp(TUlt, a, b)
			}
			return ts.cmp(TUle, a, b)
		}
	}
	// narrow comparisons of extended values.
	if a.op == TZext && b.op == TZext && a.a.w == b.a.w {
		o := op
		if o == TSlt {
			o = TUlt
		} else if o == TSle {
			o = TUle
		}
		return ts.cmp(o, a.a, b.a)
	}
	// push comparisons with constants into alternatives.
	if a.op == TIte && b.isConst() && (a.b.isConst() || a.c.isConst()) && a.tab == nil {
		return ts.Ite(a.a, ts.cmp(op, a.b, b), ts.cmp(op, a.c, b))
	}
	if b.op == TIte && a.isConst() && (b.b.isConst() || b.c.isConst()) && b.tab == nil {
		return ts.Ite(b.a, ts.cmp(op, a, b.b), ts.cmp(op, a, b.c))
	}
	return ts.build(op, 0, a, b, nil)
}

func (ts *Terms) Eq(a, b *Term) *Term  { return ts.cmp(TEq, a, b) }
func (ts *Terms) Ult(a, b *Term) *Term { return ts.cmp(TUlt, a, b) }
func (ts *Terms) Ule(a, b *Term) *Term { return ts.cmp(TUle, a, b) }

func (ts *Terms) Bin(op TOp, a, b *Term) *Term {
	switch op {
	case TEq, TUlt, TUle, TSlt, TSle:
		return ts.cmp(op, a, b)
	}
	w := a.w
	zero := func(t *Term) bool { return t.isConst() && t.val == 0 }
	switch op {
	case TAdd:
		if zero(a) {
			return b
		}
		if zero(b) {
			return a
		}
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() && a.op == TAdd && a.b.isConst() && a.tab == nil {
			return ts.Bin(TAdd, a.a, ts.Const(a.b.val+b.val, w))
		}
		if b.isConst() && a.op == TSub && a.b.isConst() && a.tab == nil {
			return ts.Bin(TAdd, a.a, ts.Const(b.val-a.b.val, w))
		}
	case TSub:
		if zero(b) {
			return a
		}
		if a == b {
			return ts.Const(0, w)
		}
	case TMul:
		if zero(a) || zero(b) {
			return ts.Const(0, w)
		}
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() && b.val == 1 {
			return a
		}
	case TBand:
		if a == b {
			return a
		}
		if zero(a) || zero(b) {
			return ts.Const(0, w)
		}
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() && b.val&(b.val+1) == 0 && a.hi <= b.val {
			return a
		}
	case TBor, TBxor:
		if zero(a) {
			return b
		}
		if zero(b) {
			return a
		}
	case TShl, TLshr, TAshr:
		if zero(b) {
			return a
		}
	}
	return ts.build(op, w, a, b, nil)
}

func (ts *Terms) Zext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.w == 0 {
		return ts.Ite(a, ts.Const(1, w), ts.Const(0, w))
	}
	if a.op == TZext {
		return ts.Zext(a.a, w)
	}
	return ts.build(TZext, w, a, nil, nil)
}

func (ts *Terms) Sext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.hi <= mask(a.w)>>1 {
		return ts.Zext(a, w)
	}
	return ts.build(TSext, w, a, nil, nil)
}

func (ts *Terms) Trunc(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if (a.op == TZext || a.op == TSext) && a.tab == nil || a.op == TZext {
		if a.a.w == w {
			return a.a
		}
		if a.a.w > w {
			return ts.Trunc(a.a, w)
		}
		if a.op == TZext {
			return ts.Zext(a.a, w)
		}
	}
	return ts.build(TTrunc, w, a, nil, nil)
}

// Eval evaluates the term under an assignment of the variables.
func (ts *Terms) Eval(t *Term, m []uint64) uint64 {
	ts.evalN++
	return ts.eval(t, m, ts.evalN)
}

func (ts *Terms) eval(t *Term, m []uint64, n uint64) uint64 {
	switch t.op {
	case TConst:
		return t.val
	case TVar:
		if int(t.val) < len(m) {
			return m[t.val]
		}
		return t.lo
	case TSet:
		return b2u(t.set.has(ts.eval(t.a, m, n)))
	}
	if t.tab != nil {
		return t.tab[ts.eval(ts.vars[t.vars[0]], m, n)]
	}
	if t.evalMark == n {
		return t.evalVal
	}
	var r uint64
	switch t.op {
	case TAnd:
		r = 1
		for _, x := range t.args {
			if ts.eval(x, m, n) == 0 {
				r = 0
				break
			}
		}
	case TOr:
		for _, x := range t.args {
			if ts.eval(x, m, n) != 0 {
				r = 1
				break
			}
		}
	case TIte:
		if ts.eval(t.a, m, n) != 0 {
			r = ts.eval(t.b, m, n)
		} else {
			r = ts.eval(t.c, m, n)
		}
	default:
		var b, c uint64
		a := ts.eval(t.a, m, n)
		if t.b != nil {
			b = ts.eval(t.b, m, n)
		}
		if t.c != nil {
			c = ts.eval(t.c, m, n)
		}
		r = evalOp(t.op, t.w, t.a.w, a, b, c)
	}
	t.evalMark, t.evalVal = n, r
	return r
}

func (t *Term) String() string {
	var sb strings.Builder
	t.str(&sb, 4)
	return sb.String()
}

func (t *Term) str(sb *strings.Builder, d int) {
	if d == 0 {
		fmt.Fprintf(sb, "#%d", t.id)
		return
	}
	switch t.op {
	case TConst:
		fmt.Fprintf(sb, "%d", t.val)
	case TVar:
		sb.WriteString(t.name)
	case TSet:
		fmt.Fprintf(sb, "%s∈%s", t.a.name, setString(&t.set))
	case TAnd, TOr:
		sb.WriteString(map[TOp]string{TAnd: "(and", TOr: "(or"}[t.op])
		for _, x := range t.args {
			sb.WriteString(" ")
			x.str(sb, d-1)
		}
		sb.WriteString(")")
	default:
		fmt.Fprintf(sb, "(%s", smtOps[t.op])
		for _, x := range []*Term{t.a, t.b, t.c} {
			if x != nil {
				sb.WriteString(" ")
				x.str(sb, d-1)
			}
		}
		sb.WriteString(")")
	}
}

func setString(s *Set) string {
	var out []string
	for _, r := range setRanges(s) {
		if r[0] == r[1] {
			out = append(out, fmt.Sprintf("%d", r[0]))
		} else {
			out = append(out, fmt.Sprintf("%d-%d", r[0], r[1]))
		}
	}
	return "{" + strings.Join(out, ",") + "}"
}

func setRanges(s *Set) [][2]uint64 {
	var out [][2]uint64
	for i := uint64(0); i < 256; i++ {
		if !s.has(i) {
			continue
		}
		j := i
		for j < 255 && s.has(j+1) {
			j++
		}
		out = append(out, [2]uint64{i, j})
		i = j
	}
	return out
}

var smtOps = map[TOp]string{TNot: "not", TAnd: "and", TOr: "or", TIte: "ite", TEq: "=", TUlt: "bvult", TUle: "bvule",
	TSlt: "bvslt", TSle: "bvsle", TAdd: "bvadd", TSub: "bvsub", TMul: "bvmul", TUdiv: "bvudiv", TUrem: "bvurem",
	TSdiv: "bvsdiv", TSrem: "bvsrem", TShl: "bvshl", TLshr: "bvlshr", TAshr: "bvashr", TBand: "bvand", TBor: "bvor", TBxor: "bvxor",
	TZext: "zext", TSext: "sext", TTrunc: "trunc", TVar: "var", TSet: "in", TTab: "table"}
