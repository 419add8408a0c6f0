package main

import (
	"fmt"
	"os"
)

// lookup is 1 or 0 when the path implies the condition or its negation, and -1
// otherwise.
func (w *W) lookup(t *Term) int {
	switch t.op {
	case TConst:
		return int(t.val)
	case TSet:
		d := w.domOf(t.a)
		x := d.and(&t.set)
		if x.empty() {
			return 0
		}
		if x == *d {
			return 1
		}
		return -1
	}
	if v, ok := w.known[t.id]; ok {
		return int(b2u(v))
	}
	switch t.op {
	case TNot:
		if r := w.lookup(t.a); r >= 0 {
			return 1 - r
		}
	case TAnd:
		all := true
		for _, x := range t.args {
			switch w.lookup(x) {
			case 0:
				return 0
			case -1:
				all = false
			}
		}
		if all {
			return 1
		}
	case TOr:
		all := true
		for _, x := range t.args {
			switch w.lookup(x) {
			case 1:
				return 1
			case -1:
				all = false
			}
		}
		if all {
			return 0
		}
	}
	return -1
}

func (w *W) syncVars() {
	for len(w.dom) < len(w.ts.vars) {
		w.dom = append(w.dom, w.ts.vars[len(w.dom)].set)
		w.complexN = append(w.complexN, 0)
	}
}

// assume adds the condition to the path.
func (w *W) assume(t *Term) { w.add(t, false) }

// learn records a condition that the path implies.
func (w *W) learn(t *Term) { w.add(t, true) }

type knEntry struct {
	id  uint32
	had bool
	old bool
}

func (w *W) setKnown(id uint32, v bool) {
	old, had := w.known[id]
	w.knTr = append(w.knTr, knEntry{id, had, old})
	w.known[id] = v
}

func (w *W) add(t *Term, learned bool) {
	w.syncVars()
	switch t.op {
	case TConst:
		if t.val == 0 {
			panic(deadPath{"assumed false"})
		}
		return
	case TAnd:
		for _, x := range t.args {
			w.add(x, learned)
		}
		return
	case TSet:
		i := t.a.val
		n := w.dom[i].and(&t.set)
		if n == w.dom[i] {
			return
		}
		if n.empty() {
			panic(deadPath{"empty domain"})
		}
		w.domTr = append(w.domTr, domEntry{int32(i), w.dom[i]})
		w.dom[i] = n
		if !learned {
			w.pc = append(w.pc, t)
		}
		return
	case TNot:
		if t.a.op == TOr {
			for _, x := range t.a.args {
				w.add(w.ts.Not(x), learned)
			}
			return
		}
	}
	if v, ok := w.known[t.id]; ok && v {
		return
	}
	w.setKnown(t.id, true)
	if t.op == TNot {
		w.setKnown(t.a.id, false)
	}
	if learned {
		return
	}
	for _, v := range t.vars {
		w.complexN[v]++
	}
	w.pc = append(w.pc, t)
}

func (w *W) popPC(n, nd, nk int) {
	for i := len(w.knTr) - 1; i >= nk; i-- {
		e := w.knTr[i]
		if e.had {
			w.known[e.id] = e.old
		} else {
			delete(w.known, e.id)
		}
	}
	w.knTr = w.knTr[:nk]
	for i := len(w.pc) - 1; i >= n; i-- {
		t := w.pc[i]
		if t.op == TSet {
			continue
		}
		for _, v := range t.vars {
			w.complexN[v]--
		}
	}
	w.pc = w.pc[:n]
	for i := len(w.domTr) - 1; i >= nd; i-- {
		w.dom[w.domTr[i].v] = w.domTr[i].old
	}
	w.domTr = w.domTr[:nd]
}

func (w *W) solver() *Solver {
	if w.sol == nil {
		w.sol = NewSolver(w.ts)
	}
	return w.sol
}

// findModel determines a model of the path.
func (w *W) findModel() {
	w.syncVars()
	res, m := w.solver().Check(w.pc, nil, nil)
	if res == "sat" {
		w.model, w.modelOK = m, true
		return
	}
	if res == "unsat" {
		panic(deadPath{"infeasible"})
	}
	w.incomplete("solver: unknown path")
	panic(deadPath{"unknown"})
}

// feasible decides whether the path can be extended with the condition; the
// model is one of the extended path, when known.
func (w *W) feasible(t *Term) (bool, []uint64) {
	w.syncVars()
	if w.modelOK && w.ts.Eval(t, w.model) != 0 {
		return true, w.model
	}
	if t.op == TSet && w.modelOK && w.complexN[t.a.val] == 0 {
		x := w.dom[t.a.val].and(&t.set)
		if x.empty() {
			return false, nil
		}
		m := make([]uint64, len(w.ts.vars))
		copy(m, w.model)
		for i := len(w.model); i < len(m); i++ {
			m[i] = w.dom[i].min()
		}
		m[t.a.val] = x.min()
		return true, m
	}
	if !w.modelOK {
		w.findModel()
	}
	res, m := w.solver().Check(w.pc, t, w.model)
	switch res {
	case "sat":
		return true, m
	case "unsat":
		return false, nil
	}
	w.run_.UnknownQ++
	return true, nil
}

// decide determines the truth of the condition on this path. Where both are
// possible the path is forked, by executing the instruction again.
func (w *W) decide(t *Term) bool {
	switch w.lookup(t) {
	case 1:
		return true
	case 0:
		return false
	}
	if w.initing > 0 {
		unsupported("decision while initialising")
	}
	if !w.modelOK {
		w.findModel()
	}
	var other *Term
	holds := w.ts.Eval(t, w.model) != 0
	if holds {
		other = w.ts.Not(t)
	} else {
		other = t
	}
	if ok, _ := w.feasible(other); !ok {
		w.learn(w.ts.Not(other))
		return holds
	}
	panic(forkReq{t})
}

type snapshot struct {
	from    int
	frames  []*Frame
	trail   int
	pc      int
	dom     int
	kn      int
	model   []uint64
	modOK   bool
	nd      ndState
	watched int
}

func (fr *Frame) clone() *Frame {
	c := *fr
	c.regs = append([]V(nil), fr.regs...)
	return &c
}

func (w *W) snap(from int) *snapshot {
	s := &snapshot{from: from, trail: len(w.trail), pc: len(w.pc), dom: len(w.domTr), kn: len(w.knTr), model: w.model, modOK: w.modelOK, nd: w.nd.clone(), watched: len(w.watched)}
	for _, fr := range w.stack[from:] {
		s.frames = append(s.frames, fr.clone())
	}
	w.epoch++
	return s
}

// restore returns to the snapshot; it may be restored several times unless it
// is the last time.
func (w *W) restore(s *snapshot, last bool) {
	for i := len(w.trail) - 1; i >= s.trail; i-- {
		e := &w.trail[i]
		e.o.s[e.i] = e.old
	}
	w.trail = w.trail[:s.trail]
	w.popPC(s.pc, s.dom, s.kn)
	w.model, w.modelOK = s.model, s.modOK
	w.stack = w.stack[:s.from]
	for _, fr := range s.frames {
		if !last {
			fr = fr.clone()
		}
		w.stack = append(w.stack, fr)
	}
	w.nd = s.nd.clone()
	w.watched = w.watched[:s.watched]
	w.epoch++
}

type slotKey struct {
	o *Obj
	i int
}

// Outcome is how a region of the execution ended.
type Outcome struct {
	out     int
	blk     int
	pcs     []*Term
	cond    *Term
	frame   *Frame
	order   []slotKey
	writes  map[slotKey]V
	model   []uint64
	modOK   bool
	nd      ndState
	watched []string
}

func (w *W) capture(ev event, st stopAt, base *snapshot) *Outcome {
	o := &Outcome{out: ev.out, blk: st.blk, model: w.model, modOK: w.modelOK, nd: w.nd.clone()}
	o.pcs = append(o.pcs, w.pc[base.pc:]...)
	o.cond = w.ts.And(o.pcs...)
	o.frame = w.stack[st.depth].clone()
	o.writes = map[slotKey]V{}
	for _, e := range w.trail[base.trail:] {
		k := slotKey{e.o, e.i}
		if _, ok := o.writes[k]; !ok {
			o.order = append(o.order, k)
			o.writes[k] = e.o.s[e.i]
		}
	}
	o.watched = append(o.watched, w.watched[base.watched:]...)
	return o
}

// install applies the outcome to the state of the base.
func (w *W) install(o *Outcome, depth int) {
	for _, k := range o.order {
		w.watchOff++
		w.store(k.o, k.i, o.writes[k])
		w.watchOff--
	}
	if o.modOK {
		w.model, w.modelOK = o.model, true
	} else {
		w.modelOK = false
	}
	if o.pcs != nil {
		for _, t := range o.pcs {
			w.assume(t)
		}
	} else if o.cond != nil {
		w.assume(o.cond)
	}
	w.stack = append(w.stack[:depth], o.frame.clone())
	w.nd = o.nd.clone()
	w.watched = append(w.watched, o.watched...)
}

// mergeV merges two values of a slot: x when the condition holds.
func (w *W) mergeV(c *Term, k SK, x, y V) (V, bool) {
	if x == y {
		return x, true
	}
	switch k {
	case sBool, sI8, sI16, sI32, sI64:
		wd := [...]uint8{0, 8, 16, 32, 64}[k]
		if !isTermV(x) || !isTermV(y) {
			return V{}, false
		}
		return mkTerm(w.ts.Ite(c, w.term(x, wd), w.term(y, wd))), true
	case sInt:
		if isTermV(x) && isTermV(y) && (x.p != nil || y.p != nil) {
			return mkTerm(w.ts.Ite(c, w.term(x, 64), w.term(y, 64))), true
		}
	case sStr:
		n := strLen(x)
		if n != strLen(y) || n > 64 {
			return V{}, false
		}
		xb, xs := strParts(x)
		yb, ys := strParts(y)
		if xs == nil && ys == nil && string(xb) == string(yb) {
			return x, true
		}
		out, sy := make([]byte, n), make([]*Term, n)
		for i := 0; i < n; i++ {
			t := w.ts.Ite(c, w.byteTerm(xb, xs, i), w.byteTerm(yb, ys, i))
			if t.isConst() {
				out[i] = byte(t.val)
			} else {
				sy[i] = t
			}
		}
		return mkBytes(out, sy), true
	case sIface:
		a, ok1 := x.p.(*Iface)
		b, ok2 := y.p.(*Iface)
		if ok1 && ok2 && a.t == b.t {
			v, ok := w.mergeT(c, a.t, a.v, b.v)
			if !ok {
				return V{}, false
			}
			return V{p: &Iface{a.t, v}}, true
		}
	case sRef:
		if sameV(x, y) {
			return x, true
		}
		if a, ok := x.p.(*Agg); ok { // tuples
			if b, ok := y.p.(*Agg); ok && len(a.s) == len(b.s) {
				return V{}, false
			}
		}
	}
	return V{}, false
}

func isTermV(x V) bool {
	switch x.p.(type) {
	case nil, *Term:
		return true
	}
	return false
}

// mergeT merges two values of the type.
func (w *W) mergeT(c *Term, t *TInfo, x, y V) (V, bool) {
	if x == y {
		return x, true
	}
	switch t.kind {
	case KStruct, KArray:
		if t.n > 256 {
			return V{}, false
		}
		a, b := aggSlots(x, t.n), aggSlots(y, t.n)
		out := make([]V, t.n)
		for i := range out {
			v, ok := w.mergeV(c, t.slotKind(i), a[i], b[i])
			if !ok {
				return V{}, false
			}
			out[i] = v
		}
		return V{p: &Agg{out}}, true
	case KTuple:
		a, b := aggSlots(x, len(t.fields)), aggSlots(y, len(t.fields))
		out := make([]V, len(t.fields))
		for i, f := range t.fields {
			v, ok := w.mergeT(c, f, a[i], b[i])
			if !ok {
				return V{}, false
			}
			out[i] = v
		}
		return V{p: &Agg{out}}, true
	}
	return w.mergeV(c, t.slots[0], x, y)
}

// mergePair merges the outcome b into a, at the base state.
func (w *W) mergePair(a, b *Outcome, baseEpoch uint64) *Outcome {
	if a.out != b.out || a.out == outPanic || a.frame.defers != b.frame.defers || a.frame.panicking != b.frame.panicking || !a.nd.same(&b.nd) {
		return nil
	}
	f := a.frame.f
	c := a.cond
	m := &Outcome{out: a.out, blk: a.blk}
	fr := *a.frame
	m.frame = &fr
	if a.out == outReturn {
		rt := w.resultType(f)
		if rt != nil {
			v, ok := w.mergeT(c, rt, a.frame.ret, b.frame.ret)
			if !ok {
				return nil
			}
			fr.ret = v
		}
	} else {
		if a.frame.blk != b.frame.blk {
			return nil
		}
		f.analyse()
		live := f.liveIn[a.frame.blk]
		fr.regs = append([]V(nil), a.frame.regs...)
		for r := range fr.regs {
			if live[r/64]>>(r%64)&1 == 0 {
				continue
			}
			v, ok := w.mergeT(c, f.regT[r], a.frame.regs[r], b.frame.regs[r])
			if !ok {
				if w.debug {
					fmt.Fprintf(os.Stderr, "no merge %s: reg %d %s %v %v\n", f.name, r, f.regT[r].t, a.frame.regs[r], b.frame.regs[r])
				}
				return nil
			}
			fr.regs[r] = v
		}
	}
	m.writes = map[slotKey]V{}
	for _, k := range a.order {
		x := a.writes[k]
		y, ok := b.writes[k]
		if !ok {
			if k.o.birth >= baseEpoch {
				m.order = append(m.order, k)
				m.writes[k] = x
				continue
			}
			y = k.o.s[k.i]
		}
		v, ok := w.mergeSlot(c, k, x, y)
		if !ok {
			if w.debug {
				fmt.Fprintf(os.Stderr, "no merge %s: slot %d of %v: %v %v\n", f.name, k.i, k.o.t, x, y)
			}
			return nil
		}
		m.order = append(m.order, k)
		m.writes[k] = v
	}
	for _, k := range b.order {
		if _, ok := a.writes[k]; ok {
			continue
		}
		y := b.writes[k]
		if k.o.birth < baseEpoch {
			v, ok := w.mergeSlot(c, k, k.o.s[k.i], y)
			if !ok {
				if w.debug {
					fmt.Fprintf(os.Stderr, "no merge %s: slot %d of %v: %v %v\n", f.name, k.i, k.o.t, k.o.s[k.i], y)
				}
				return nil
			}
			y = v
		}
		m.order = append(m.order, k)
		m.writes[k] = y
	}
	m.cond = w.ts.Or(a.cond, b.cond)
	m.model, m.modOK = a.model, a.modOK
	if !m.modOK {
		m.model, m.modOK = b.model, b.modOK
	}
	m.nd = a.nd
	m.watched = append(append([]string(nil), a.watched...), b.watched...)
	return m
}

func (w *W) mergeSlot(c *Term, k slotKey, x, y V) (V, bool) {
	if x == y {
		return x, true
	}
	if k.o.t == nil {
		return V{}, false
	}
	kind := k.o.t.slotKind(k.i)
	return w.mergeV(c, kind, x, y)
}

func (w *W) resultType(f *Func) *TInfo {
	r := f.fn.Signature.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return w.ty.Of(r.At(0).Type())
	}
	return w.ty.Of(r)
}

// merge groups the outcomes.
func (w *W) merge(outs []*Outcome, baseEpoch uint64) []*Outcome {
	var groups []*Outcome
next:
	for _, o := range outs {
		for i, g := range groups {
			if m := w.mergePair(g, o, baseEpoch); m != nil {
				groups[i] = m
				continue next
			}
		}
		groups = append(groups, o)
	}
	return groups
}

// explore runs every path from the current state to the stop.
func (w *W) explore(st stopAt, base *snapshot) []*Outcome {
	ev, more := event{}, true
	for {
		if w.run_.need != nil || w.run_.Timeout {
			return nil
		}
		if more {
			ev = w.run(st)
		}
		more = true
		switch ev.kind {
		case evDead:
			w.leaf(nil)
			return nil
		case evStop:
			if base == nil {
				w.pathDone(ev)
				return nil
			}
			return []*Outcome{w.capture(ev, st, base)}
		}
		c := ev.cond
		d := len(w.stack) - 1
		fr := w.stack[d]
		// the sides that are feasible.
		if !w.modelOK {
			dead := func() (dead bool) {
				defer func() {
					if r := recover(); r != nil {
						if _, ok := r.(deadPath); ok {
							dead = true
							return
						}
						panic(r)
					}
				}()
				w.findModel()
				return false
			}()
			if dead {
				return nil
			}
		}
		holds := w.ts.Eval(c, w.model) != 0
		first, second := c, w.ts.Not(c)
		if !holds {
			first, second = second, first
		}
		ok, m2 := w.feasible(second)
		if !ok {
			w.learn(first)
			continue
		}
		w.run_.Forks++
		if w.run_.Forks > w.job.maxForks {
			w.incomplete("too many forks")
			return nil
		}
		merge := ev.isIf && !ev.in.noFork && w.job.merge && !w.nd.noMerge && (ev.in.tried < 3 || ev.in.merged*2 >= ev.in.tried)
		var region stopAt
		if merge {
			fr.f.analyse()
			region = stopAt{d, fr.f.ipdom[fr.blk]}
			if region == st {
				merge = false // merged at the enclosing region
			}
			if d == 0 && region.blk < 0 {
				merge = false
			}
		}
		if !merge {
			from := 0
			if base != nil {
				from = st.depth
			}
			s := w.snap(from)
			var outs []*Outcome
			w.assume(first)
			outs = append(outs, w.explore(st, base)...)
			w.restore(s, true)
			w.assume(second)
			w.model, w.modelOK = m2, m2 != nil
			outs = append(outs, w.explore(st, base)...)
			return outs
		}
		s := w.snap(d)
		baseEpoch := w.epoch
		var outs []*Outcome
		w.assume(first)
		outs = append(outs, w.explore(region, s)...)
		w.restore(s, false)
		w.assume(second)
		w.model, w.modelOK = m2, m2 != nil
		outs = append(outs, w.explore(region, s)...)
		w.restore(s, true)
		if len(outs) == 0 {
			return nil
		}
		groups := outs
		if len(outs) > 1 {
			ev.in.tried++
			groups = w.merge(outs, baseEpoch)
			if len(groups) < len(outs) {
				ev.in.merged++
				w.run_.Merges += len(outs) - len(groups)
			}
		}
		if len(groups) == 1 {
			w.install(groups[0], d)
			ev, more = w.resume(groups[0], st)
			continue
		}
		from := 0
		if base != nil {
			from = st.depth
		}
		s2 := w.snap(from)
		var res []*Outcome
		for i, g := range groups {
			if i > 0 {
				w.restore(s2, i == len(groups)-1)
			}
			w.install(g, d)
			ev, more := w.resume(g, st)
			if !more {
				switch ev.kind {
				case evStop:
					if base == nil {
						w.pathDone(ev)
					} else {
						res = append(res, w.capture(ev, st, base))
					}
				}
				continue
			}
			res = append(res, w.explore(st, base)...)
		}
		return res
	}
}

// resume continues after the outcome of a region has been installed.
func (w *W) resume(o *Outcome, st stopAt) (ev event, more bool) {
	d := len(w.stack) - 1
	switch o.out {
	case outBlock:
		if d == st.depth && o.frame.blk == st.blk && o.frame.pc == 0 {
			return event{kind: evStop}, false
		}
		return event{}, true
	case outReturn:
		if d == st.depth {
			return event{kind: evStop, out: outReturn}, false
		}
		return w.doReturn(st)
	}
	w.top().defers = nil
	return w.unwind(st)
}
