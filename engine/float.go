package main

import (
	"go/token"
	"math"
	"sort"
	"strconv"
)

// Tab is a symbolic float: its values over the assignments of a few variables
// having small domains.
type Tab struct {
	vars []*Term
	doms [][]uint64
	vals []float64
}

const maxTab = 1 << 18

func (w *W) domOf(v *Term) *Set {
	if int(v.val) < len(w.dom) {
		return &w.dom[v.val]
	}
	return &v.set
}

// layout determines the variables and their current domains.
func (w *W) layout(limit int, vars []*Term) ([]*Term, [][]uint64, int) {
	var doms [][]uint64
	var out []*Term
	n := 1
	for _, v := range vars {
		d := w.domOf(v).values()
		if len(d) == 0 {
			panic(deadPath{"empty domain"})
		}
		out = append(out, v)
		doms = append(doms, d)
		n *= len(d)
		if n > limit {
			return nil, nil, -1
		}
	}
	return out, doms, n
}

func mergeVars(a, b []*Term) []*Term {
	out := append([]*Term(nil), a...)
	for _, v := range b {
		found := false
		for _, x := range out {
			if x == v {
				found = true
			}
		}
		if !found {
			out = append(out, v)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].val < out[j].val })
	return out
}

// odometer calls f with every assignment, given as positions.
func odometer(doms [][]uint64, f func(idx int, pos []int)) {
	pos := make([]int, len(doms))
	for idx := 0; ; idx++ {
		f(idx, pos)
		k := len(doms) - 1
		for k >= 0 {
			pos[k]++
			if pos[k] < len(doms[k]) {
				break
			}
			pos[k] = 0
			k--
		}
		if k < 0 {
			return
		}
	}
}

func (t *Tab) indexer(vars []*Term, doms [][]uint64) func(pos []int) float64 {
	// stride of each variable of the table, and the mapping of positions.
	type dim struct {
		at   int
		pmap []int
	}
	var dims []dim
	stride := make([]int, len(t.vars))
	s := 1
	for i := len(t.vars) - 1; i >= 0; i-- {
		stride[i] = s
		s *= len(t.doms[i])
	}
	for i, v := range t.vars {
		for k, x := range vars {
			if x == v {
				pm := make([]int, len(doms[k]))
				for p, val := range doms[k] {
					pm[p] = 0
					j := sort.Search(len(t.doms[i]), func(j int) bool { return t.doms[i][j] >= val })
					if j < len(t.doms[i]) && t.doms[i][j] == val {
						pm[p] = j * stride[i]
					} else {
						panic("domain of a table has grown")
					}
				}
				dims = append(dims, dim{k, pm})
			}
		}
	}
	return func(pos []int) float64 {
		idx := 0
		for _, d := range dims {
			idx += d.pmap[pos[d.at]]
		}
		return t.vals[idx]
	}
}

func (w *W) mkTab(vars []*Term, doms [][]uint64, vals []float64) V {
	same := true
	for _, v := range vals {
		if math.Float64bits(v) != math.Float64bits(vals[0]) {
			same = false
			break
		}
	}
	if same {
		return mkFloat(vals[0])
	}
	return V{p: &Tab{vars, doms, vals}}
}

func tabOf(v V) *Tab {
	switch p := v.p.(type) {
	case nil:
		return &Tab{vals: []float64{v.float()}}
	case *Tab:
		return p
	}
	unsupported("float %T", v.p)
	return nil
}

func (w *W) floatMap(x V, f func(float64) float64) V {
	if x.p == nil {
		return mkFloat(f(x.float()))
	}
	t := tabOf(x)
	vals := make([]float64, len(t.vals))
	for i, v := range t.vals {
		vals[i] = f(v)
	}
	return w.mkTab(t.vars, t.doms, vals)
}

func (w *W) floatOp2(x, y V, f func(a, b float64) float64) V {
	if x.p == nil && y.p == nil {
		return mkFloat(f(x.float(), y.float()))
	}
	if x.p == nil {
		a := x.float()
		return w.floatMap(y, func(b float64) float64 { return f(a, b) })
	}
	if y.p == nil {
		b := y.float()
		return w.floatMap(x, func(a float64) float64 { return f(a, b) })
	}
	a, b := tabOf(x), tabOf(y)
	vars, doms, n := w.layout(maxTab, mergeVars(a.vars, b.vars))
	if n < 0 {
		unsupported("table of floats too large")
	}
	ai, bi := a.indexer(vars, doms), b.indexer(vars, doms)
	vals := make([]float64, n)
	odometer(doms, func(idx int, pos []int) { vals[idx] = f(ai(pos), bi(pos)) })
	return w.mkTab(vars, doms, vals)
}

func (w *W) floatBin(in *Instr, x, y V) V {
	f32 := in.t.w == 32
	r := func(f float64) float64 {
		if f32 {
			return float64(float32(f))
		}
		return f
	}
	switch in.tok {
	case token.ADD:
		return w.floatOp2(x, y, func(a, b float64) float64 { return r(a + b) })
	case token.SUB:
		return w.floatOp2(x, y, func(a, b float64) float64 { return r(a - b) })
	case token.MUL:
		return w.floatOp2(x, y, func(a, b float64) float64 { return r(a * b) })
	case token.QUO:
		return w.floatOp2(x, y, func(a, b float64) float64 { return r(a / b) })
	}
	return mkTerm(w.floatCmp(in.tok, x, y))
}

func cmpFloat(tok token.Token, a, b float64) bool {
	switch tok {
	case token.EQL:
		return a == b
	case token.NEQ:
		return a != b
	case token.LSS:
		return a < b
	case token.LEQ:
		return a <= b
	case token.GTR:
		return a > b
	case token.GEQ:
		return a >= b
	}
	panic("cmpFloat")
}

func (w *W) floatCmp(tok token.Token, x, y V) *Term {
	if x.p == nil && y.p == nil {
		return w.ts.Bool(cmpFloat(tok, x.float(), y.float()))
	}
	a, b := tabOf(x), tabOf(y)
	shared := len(mergeVars(a.vars, b.vars)) < len(a.vars)+len(b.vars)
	vars, doms, n := w.layout(1<<12, mergeVars(a.vars, b.vars))
	if n < 0 && shared {
		vars, doms, n = w.layout(maxTab, mergeVars(a.vars, b.vars))
		if n < 0 {
			unsupported("comparison of large tables that share variables")
		}
	}
	if n >= 0 {
		ai, bi := a.indexer(vars, doms), b.indexer(vars, doms)
		vals := make([]bool, n)
		odometer(doms, func(idx int, pos []int) { vals[idx] = cmpFloat(tok, ai(pos), bi(pos)) })
		return w.boolTable(vars, doms, vals)
	}
	// the ranks of the values.
	var all []float64
	for _, v := range append(append([]float64(nil), a.vals...), b.vals...) {
		if v != v {
			unsupported("comparison of tables having NaN")
		}
		all = append(all, v+0)
	}
	sort.Float64s(all)
	u := all[:0]
	for i, v := range all {
		if i == 0 || v != u[len(u)-1] {
			u = append(u, v)
		}
	}
	// separable encodings are preferred: thousandths, when they are injective.
	for _, scale := range []float64{1000, 100000} {
		ok := true
		for i, v := range u {
			s := math.Round(v * scale)
			if s < 0 || s > 1e9 || i > 0 && s <= math.Round(u[i-1]*scale) {
				ok = false
				break
			}
		}
		if ok {
			code := func(v float64) uint64 { return uint64(math.Round(v * scale)) }
			return w.cmpCodes(tok, w.tabCode(a, code), w.tabCode(b, code))
		}
	}
	code := func(v float64) uint64 { return uint64(sort.SearchFloat64s(u, v)) }
	return w.cmpCodes(tok, w.tabCode(a, code), w.tabCode(b, code))
}

func (w *W) cmpCodes(tok token.Token, a, b *Term) *Term {
	switch tok {
	case token.EQL:
		return w.ts.Eq(a, b)
	case token.NEQ:
		return w.ts.Not(w.ts.Eq(a, b))
	case token.LSS:
		return w.ts.Ult(a, b)
	case token.LEQ:
		return w.ts.Ule(a, b)
	case token.GTR:
		return w.ts.Ult(b, a)
	}
	return w.ts.Ule(b, a)
}

func (w *W) tabCode(t *Tab, code func(float64) uint64) *Term {
	vals := make([]uint64, len(t.vals))
	for i, v := range t.vals {
		vals[i] = code(v)
	}
	return w.bvTable(t.vars, t.doms, vals, 32)
}

// boolTable is the condition of the assignments for which the table is true.
func (w *W) boolTable(vars []*Term, doms [][]uint64, vals []bool) *Term {
	if len(vars) == 0 {
		return w.ts.Bool(vals[0])
	}
	n := len(vals) / len(doms[0])
	if len(vars) == 1 {
		var s Set
		all := true
		for i, d := range doms[0] {
			if vals[i] {
				s.add(d)
			} else {
				all = false
			}
		}
		if all {
			return w.ts.T // within the current domain
		}
		return w.ts.InSet(vars[0], s)
	}
	groups := map[*Term]*Set{}
	var order []*Term
	for i, d := range doms[0] {
		t := w.boolTable(vars[1:], doms[1:], vals[i*n:(i+1)*n])
		s := groups[t]
		if s == nil {
			s = &Set{}
			groups[t] = s
			order = append(order, t)
		}
		s.add(d)
	}
	if len(order) == 1 {
		return order[0]
	}
	var alts []*Term
	for _, t := range order {
		alts = append(alts, w.ts.And(w.ts.InSet(vars[0], *groups[t]), t))
	}
	return w.ts.Or(alts...)
}

// bvTable is the bit-vector whose value is given by the table.
func (w *W) bvTable(vars []*Term, doms [][]uint64, vals []uint64, width uint8) *Term {
	ts := w.ts
	if len(vars) == 0 {
		return ts.Const(vals[0], width)
	}
	if len(vars) == 1 {
		tab := make([]uint64, 256)
		for i := range tab {
			tab[i] = vals[0]
		}
		for i, d := range doms[0] {
			tab[d] = vals[i]
		}
		return ts.Table(vars[0], tab, width)
	}
	// sums of functions of single variables.
	m := mask(width)
	strides := make([]int, len(vars))
	s := 1
	for i := len(vars) - 1; i >= 0; i-- {
		strides[i] = s
		s *= len(doms[i])
	}
	sep := true
	odometer(doms, func(idx int, pos []int) {
		if !sep {
			return
		}
		v := vals[0]
		for k, p := range pos {
			v += vals[p*strides[k]] - vals[0]
		}
		if v&m != vals[idx]&m {
			sep = false
		}
	})
	if sep {
		r := ts.Const(vals[0], width)
		// contributions are kept non-negative, so that intervals remain tight.
		for k := range vars {
			lo := vals[0]
			for p := range doms[k] {
				lo = min(lo, vals[p*strides[k]])
			}
			tab := make([]uint64, 256)
			for p, d := range doms[k] {
				tab[d] = (vals[p*strides[k]] - lo) & m
			}
			r = ts.Bin(TAdd, r, ts.Const(lo-vals[0], width))
			r = ts.Bin(TAdd, r, ts.Table(vars[k], tab, width))
		}
		return r
	}
	n := len(vals) / len(doms[0])
	groups := map[*Term]*Set{}
	var order []*Term
	for i, d := range doms[0] {
		t := w.bvTable(vars[1:], doms[1:], vals[i*n:(i+1)*n], width)
		g := groups[t]
		if g == nil {
			g = &Set{}
			groups[t] = g
			order = append(order, t)
		}
		g.add(d)
	}
	r := order[len(order)-1]
	for i := len(order) - 2; i >= 0; i-- {
		r = ts.Ite(ts.InSet(vars[0], *groups[order[i]]), order[i], r)
	}
	return r
}

func f2i(f float64, t *TInfo) uint64 {
	if t.signed {
		return uint64(int64(f)) & mask(t.w)
	}
	return uint64(f) & mask(t.w)
}

func (w *W) floatToInt(x V, t *TInfo) V {
	if x.p == nil {
		return V{n: f2i(x.float(), t)}
	}
	a := tabOf(x)
	vals := make([]uint64, len(a.vals))
	for i, v := range a.vals {
		vals[i] = f2i(v, t)
	}
	return mkTerm(w.bvTable(a.vars, a.doms, vals, t.w))
}

func (w *W) intToFloat(x V, from, to *TInfo) V {
	conv := func(n uint64) float64 {
		var f float64
		if from.signed {
			f = float64(sext(n, from.w))
			if to.w == 32 {
				f = float64(float32(sext(n, from.w)))
			}
		} else {
			f = float64(n)
			if to.w == 32 {
				f = float64(float32(n))
			}
		}
		return f
	}
	if x.p == nil {
		return mkFloat(conv(x.n))
	}
	t := w.term(x, from.w)
	vars, doms, vals := w.enumerate(t)
	fs := make([]float64, len(vals))
	for i, v := range vals {
		fs[i] = conv(v)
	}
	return w.mkTab(vars, doms, fs)
}

// enumerate tabulates the term over the assignments of its variables.
// tabulate turns products and quotients of a few variables into tables: the
// solver is poor at them.
func (w *W) tabulate(t *Term) *Term {
	if len(t.vars) < 2 || t.isConst() {
		return t
	}
	if vars, doms, vals := w.assignments(t, 1<<12); vars != nil {
		return w.bvTable(vars, doms, vals, t.w)
	}
	return t
}

// compare is the comparison of the terms. Where a few variables are involved
// it takes the same form as comparisons of fractions do.
func (w *W) compare(op TOp, a, b *Term) *Term {
	t := w.ts.Bin(op, a, b)
	if len(t.vars) < 2 || len(a.vars) < 2 && len(b.vars) < 2 || t.isConst() {
		return t
	}
	if vars, doms, vals := w.assignments(t, 1<<12); vars != nil {
		is := make([]bool, len(vals))
		for i, v := range vals {
			is[i] = v != 0
		}
		return w.boolTable(vars, doms, is)
	}
	return t
}

func (w *W) assignments(t *Term, limit int) ([]*Term, [][]uint64, []uint64) {
	w.syncVars()
	var all []*Term
	for _, v := range t.vars {
		all = append(all, w.ts.vars[v])
	}
	vars, doms, n := w.layout(limit, all)
	if n < 0 {
		return nil, nil, nil
	}
	m := make([]uint64, len(w.ts.vars))
	vals := make([]uint64, n)
	odometer(doms, func(idx int, pos []int) {
		for k, v := range vars {
			m[v.val] = doms[k][pos[k]]
		}
		vals[idx] = w.ts.Eval(t, m)
	})
	return vars, doms, vals
}

func (w *W) enumerate(ts ...*Term) ([]*Term, [][]uint64, []uint64) {
	var vs []int32
	for _, t := range ts {
		vs = unionVars(vs, t.vars)
	}
	var vars []*Term
	for _, v := range vs {
		vars = append(vars, w.ts.vars[v])
	}
	vars, doms, n := w.layout(1<<14, vars)
	if n < 0 {
		unsupported("term over too many assignments")
	}
	m := make([]uint64, len(w.ts.vars))
	vals := make([]uint64, n)
	odometer(doms, func(idx int, pos []int) {
		for k, v := range vars {
			m[v.val] = doms[k][pos[k]]
		}
		vals[idx] = w.ts.Eval(ts[0], m)
	})
	return vars, doms, vals
}

// strTable tabulates a symbolic string; nil when it has too many values.
func (w *W) strTable(s V, limit int) ([]*Term, [][]uint64, []string) {
	b, sy := strParts(s)
	var vs []int32
	for _, t := range sy {
		if t != nil {
			vs = unionVars(vs, t.vars)
		}
	}
	var vars []*Term
	for _, v := range vs {
		vars = append(vars, w.ts.vars[v])
	}
	vars, doms, n := w.layout(limit, vars)
	if n < 0 {
		return nil, nil, nil
	}
	m := make([]uint64, len(w.ts.vars))
	out := make([]string, n)
	buf := make([]byte, len(b))
	odometer(doms, func(idx int, pos []int) {
		for k, v := range vars {
			m[v.val] = doms[k][pos[k]]
		}
		for i := range b {
			if sy != nil && sy[i] != nil {
				buf[i] = byte(w.ts.Eval(sy[i], m))
			} else {
				buf[i] = b[i]
			}
		}
		out[idx] = string(buf)
	})
	return vars, doms, out
}

var floatChars, digitChars Set

func init() {
	for _, c := range "0123456789" {
		digitChars.add(uint64(c))
	}
	for _, c := range "0123456789+-._eExXpPabcdfABCDFinftyINFTYaA" {
		floatChars.add(uint64(c))
	}
}

// parseFloat is strconv.ParseFloat over all values of the string: the value,
// and whether it failed with a syntax or range error.
func (w *W) parseFloat(s V, bits int) (v V, syntax, rng bool) {
	classify := func(err error) (bool, bool) {
		if err == nil {
			return false, false
		}
		if err.(*strconv.NumError).Err == strconv.ErrRange {
			return false, true
		}
		return true, false
	}
	if strConcrete(s) {
		f, err := strconv.ParseFloat(goStr(s), bits)
		syntax, rng = classify(err)
		return mkFloat(f), syntax, rng
	}
	vars, doms, strs := w.strTable(s, 1<<13)
	if strs == nil {
		_, sy := strParts(s)
		for _, t := range sy {
			if t == nil {
				continue
			}
			if !w.decide(w.termIn(t, floatChars)) {
				return V{}, true, false
			}
		}
		for _, t := range sy {
			if t != nil && !w.decide(w.termIn(t, digitChars)) {
				w.concretise(t)
			}
		}
		s = w.refine(s)
		if strConcrete(s) {
			return w.parseFloat(s, bits)
		}
		vars, doms, strs = w.strTable(s, 1<<14)
		if strs == nil {
			unsupported("number having too many values")
		}
	}
	n := len(strs)
	vals, syn, rg := make([]float64, n), make([]bool, n), make([]bool, n)
	for i, x := range strs {
		f, err := strconv.ParseFloat(x, bits)
		vals[i] = f
		syn[i], rg[i] = classify(err)
	}
	if w.decide(w.boolTable(vars, doms, syn)) {
		return V{}, true, false
	}
	if w.decide(w.boolTable(vars, doms, rg)) {
		rng = true
	}
	return w.mkTab(vars, doms, vals), false, rng
}

// termIn states that the byte lies in the set.
func (w *W) termIn(t *Term, s Set) *Term {
	if t.op == TVar {
		return w.ts.InSet(t, s)
	}
	var alts []*Term
	for _, r := range setRanges(&s) {
		alts = append(alts, w.ts.And(w.ts.Ule(w.ts.Const(r[0], t.w), t), w.ts.Ule(t, w.ts.Const(r[1], t.w))))
	}
	return w.ts.Or(alts...)
}

// refine replaces the bytes that can have only one value on this path.
func (w *W) refine(s V) V {
	b, sy := strParts(s)
	if sy == nil {
		return s
	}
	nb := append([]byte(nil), b...)
	ns := append([]*Term(nil), sy...)
	for i, t := range sy {
		if t == nil || len(t.vars) != 1 || t.tab == nil {
			continue
		}
		vs := w.domOf(w.ts.vars[t.vars[0]]).values()
		same := true
		for _, x := range vs {
			if t.tab[x] != t.tab[vs[0]] {
				same = false
			}
		}
		if same {
			nb[i], ns[i] = byte(t.tab[vs[0]]), nil
		}
	}
	return mkBytes(nb, ns)
}

// formatFloat is strconv.FormatFloat over all values of the float.
func (w *W) formatFloat(x V, format byte, prec, bits int) V {
	if x.p == nil {
		return mkStr(strconv.FormatFloat(x.float(), format, prec, bits))
	}
	t := tabOf(x)
	// the table may have been restricted by the path.
	vars, doms, n := w.layout(maxTab, t.vars)
	ti := t.indexer(vars, doms)
	strs := make([]string, n)
	lens := map[int]bool{}
	odometer(doms, func(idx int, pos []int) {
		strs[idx] = strconv.FormatFloat(ti(pos), format, prec, bits)
		lens[len(strs[idx])] = true
	})
	return w.strOfTable(vars, doms, strs, lens)
}

func (w *W) strOfTable(vars []*Term, doms [][]uint64, strs []string, lens map[int]bool) V {
	n := len(strs)
	var ls []int
	for l := range lens {
		ls = append(ls, l)
	}
	sort.Ints(ls)
	length := ls[len(ls)-1]
	for _, l := range ls[:len(ls)-1] {
		is := make([]bool, n)
		for i, s := range strs {
			is[i] = len(s) == l
		}
		if w.decide(w.boolTable(vars, doms, is)) {
			length = l
			break
		}
	}
	out := make([]byte, length)
	sy := make([]*Term, length)
	for k := 0; k < length; k++ {
		vals := make([]uint64, n)
		var def uint64
		same := true
		for i, s := range strs {
			if len(s) == length {
				vals[i] = uint64(s[k])
				if def == 0 {
					def = vals[i]
				} else if def != vals[i] {
					same = false
				}
			}
		}
		if same {
			out[k] = byte(def)
			continue
		}
		for i, s := range strs {
			if len(s) != length {
				vals[i] = def
			}
		}
		sy[k] = w.bvTable(vars, doms, vals, 8)
		if sy[k].isConst() {
			out[k], sy[k] = byte(sy[k].val), nil
		}
	}
	return mkBytes(out, sy)
}
