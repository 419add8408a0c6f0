package main

import (
	"fmt"
	"os"
	"strings"
)

// ndState is the part of the state of an execution that is kept by the
// primitives of the harnesses.
type ndState struct {
	mapOrders bool
	noMerge   bool
	orderN    int
	obs       *obsNode
	reached   *obsNode
}

type obsNode struct {
	next *obsNode
	name string
	val  V
	kind Kind
}

func (n ndState) clone() ndState { return n }

func (n *ndState) same(o *ndState) bool { return *n == *o }

type needCase struct {
	name string
	n    int
}

func (w *W) ndVar(name string, dom Set) *Term {
	t := w.ts.Var(name, dom)
	w.syncVars()
	return t
}

func rangeSet(lo, hi int) Set {
	var s Set
	for i := lo; i <= hi; i++ {
		s.add(uint64(i))
	}
	return s
}

// pick is a value below n, every one of which is explored.
func (w *W) pick(name string, n int) int {
	if n <= 1 {
		return 0
	}
	t := w.ndVar(name, rangeSet(0, n-1))
	return int(w.concretise(t))
}

func alphabet(a string) Set {
	var s Set
	if a == "" {
		return rangeSet(0, 255)
	}
	for i := 0; i < len(a); i++ {
		s.add(uint64(a[i]))
	}
	return s
}

func symByte(t *Term) V {
	return mkTerm(t)
}

func init() {
	h := func(name string, f intrinsic) { intrinsics["harness."+name] = f }
	h("ndByte", func(w *W, in *Instr, a []V) (V, bool) {
		return mkTerm(w.ndTerm(goStr(a[0]), alphabet(goStr(a[1])))), false
	})
	h("ndBool", func(w *W, in *Instr, a []V) (V, bool) {
		t := w.ndVar(goStr(a[0]), rangeSet(0, 1))
		var s Set
		s.add(1)
		return mkTerm(w.ts.InSet(t, s)), false
	})
	h("ndInt", func(w *W, in *Instr, a []V) (V, bool) {
		lo, hi := int(int64(a[1].n)), int(int64(a[2].n))
		if hi-lo > 255 || hi < lo {
			panic(fmt.Sprintf("ndInt(%q, %d, %d)", goStr(a[0]), lo, hi))
		}
		if lo == hi {
			return mkInt(lo), false
		}
		t := w.ndVar(goStr(a[0]), rangeSet(0, hi-lo))
		return mkTerm(w.ts.Bin(TAdd, w.ts.Zext(t, 64), w.ts.Const(uint64(lo), 64))), false
	})
	h("ndPick", func(w *W, in *Instr, a []V) (V, bool) {
		return mkInt(w.pick(goStr(a[0]), int(a[1].n))), false
	})
	h("ndCase", func(w *W, in *Instr, a []V) (V, bool) {
		name, n := goStr(a[0]), int(a[1].n)
		if n <= 1 {
			return V{}, false
		}
		if v, ok := w.job.cases[name]; ok {
			return mkInt(v), false
		}
		w.run_.need = &needCase{name, n}
		panic(deadPath{"case"})
	})
	h("ndStr", func(w *W, in *Instr, a []V) (V, bool) {
		name, n := goStr(a[0]), w.concInt(a[1])
		dom := alphabet(goStr(a[2]))
		b, sy := make([]byte, n), make([]*Term, n)
		for i := range sy {
			sy[i] = w.ndTerm(name+"."+itoa(i), dom)
			if sy[i].isConst() {
				b[i], sy[i] = byte(sy[i].val), nil
			}
		}
		return mkBytes(b, sy), false
	})
	h("ndAssume", func(w *W, in *Instr, a []V) (V, bool) {
		t := w.term(a[0], 0)
		if t.isFalse() {
			panic(deadPath{"assume"})
		}
		if t.isTrue() {
			return V{}, false
		}
		ok, m := w.feasible(t)
		if !ok {
			panic(deadPath{"assume"})
		}
		w.leaf(w.ts.Not(t))
		w.assume(t)
		w.model, w.modelOK = m, m != nil
		return V{}, false
	})
	h("ndAssert", func(w *W, in *Instr, a []V) (V, bool) {
		w.assertion(w.term(a[0], 0), goStr(a[1]))
		return V{}, false
	})
	h("ndReach", func(w *W, in *Instr, a []V) (V, bool) {
		w.nd.reached = &obsNode{next: w.nd.reached, name: goStr(a[0])}
		return V{}, false
	})
	h("ndObserve", func(w *W, in *Instr, a []V) (V, bool) {
		w.nd.obs = &obsNode{next: w.nd.obs, name: goStr(a[0]), val: a[1], kind: KString}
		return V{}, false
	})
	h("ndObserveInt", func(w *W, in *Instr, a []V) (V, bool) {
		w.nd.obs = &obsNode{next: w.nd.obs, name: goStr(a[0]), val: a[1], kind: KInt}
		return V{}, false
	})
	h("ndBound", func(w *W, in *Instr, a []V) (V, bool) {
		if w.job.thorough {
			return a[1], false
		}
		return a[0], false
	})
	h("ndMerge", func(w *W, in *Instr, a []V) (V, bool) {
		w.nd.noMerge = a[0].n == 0
		return V{}, false
	})
	h("ndMapOrders", func(w *W, in *Instr, a []V) (V, bool) {
		w.nd.mapOrders = a[0].n != 0
		return V{}, false
	})
	h("ndShare", func(w *W, in *Instr, a []V) (V, bool) {
		w.epoch++
		w.watch = w.epoch
		return V{}, false
	})
	h("ndUnshare", func(w *W, in *Instr, a []V) (V, bool) {
		if w.runPending() {
			return V{}, true
		}
		w.watch = 0
		return V{}, false
	})
	h("ndWatched", func(w *W, in *Instr, a []V) (V, bool) {
		if len(w.watched) == 0 {
			return V{}, false
		}
		return mkStr(w.watched[len(w.watched)-1]), false
	})
}

func (w *W) ndTerm(name string, dom Set) *Term {
	if dom.count() == 1 {
		return w.ts.Const(dom.min(), 8)
	}
	return w.ndVar(name, dom)
}

func (w *W) watchWrite(o *Obj, i int, v V) {
	d := "memory"
	if o.name != "" {
		d = o.name
	} else if o.t != nil {
		d = o.t.t.String()
	}
	fn := ""
	for k := len(w.stack) - 1; k >= 0; k-- {
		if n := w.stack[k].f.name; n == onceName || strings.HasPrefix(n, syncName) {
			// synchronised.
			return
		}
		if fn == "" && w.stack[k].f.inRepo {
			fn = w.stack[k].f.name
		}
	}
	w.watched = append(w.watched, fmt.Sprintf("%s written in %s by %s", d, w.top().f.name, fn))
	if w.debug {
		fmt.Fprintln(os.Stderr, "WATCHED", w.watched[len(w.watched)-1])
	}
}

// assertion checks that the path implies the condition.
func (w *W) assertion(t *Term, label string) {
	w.run_.Asserts++
	if t.isTrue() {
		return
	}
	if w.lookup(t) == 1 {
		return
	}
	neg := w.ts.Not(t)
	w.run_.AssertQ++
	w.syncVars()
	var m []uint64
	res := "sat"
	switch {
	case t.isFalse():
		if !w.modelOK {
			w.findModel()
		}
		m = w.model
	case w.modelOK && w.ts.Eval(neg, w.model) != 0:
		m = w.model
	default:
		if !w.modelOK {
			w.findModel()
		}
		res, m = w.solver().Check(w.pc, neg, w.model)
	}
	switch res {
	case "unsat":
		w.run_.Discharged++
		w.learn(t)
		return
	case "unknown":
		w.run_.UnknownQ++
		w.incomplete("solver: unknown assertion " + label)
		return
	}
	w.violation(label, m)
	if t.isFalse() {
		panic(deadPath{"violation"})
	}
	ok, m2 := w.feasible(t)
	if !ok {
		panic(deadPath{"violation"})
	}
	w.leaf(neg)
	w.assume(t)
	w.model, w.modelOK = m2, m2 != nil
}

const syncName = "github.com/freerware/negotiator/internal/zzverif.modelSync"
const onceName = "github.com/freerware/negotiator/internal/zzverif.modelOnceDo"
