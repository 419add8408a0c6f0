package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/bits"
	"os"
	"runtime/debug"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type deferNode struct {
	next *deferNode
	fn   V // closure
	args []V
	in   *Instr
	bi   string
}

type panicState struct {
	val       V // interface
	recovered bool
	runtime   bool
}

type Frame struct {
	f         *Func
	regs      []V
	blk, pc   int
	defers    *deferNode
	panicking *panicState
	isDefer   bool // returns to an instruction that runs again
	noResult  bool
	ret       V
	base      bool // a return ends the nested execution
}

type trailEntry struct {
	o   *Obj
	i   int
	old V
}

type domEntry struct {
	v   int32
	old Set
}

// W is a worker, exploring the executions of a job.
type W struct {
	prog  *Prog
	ty    *Types
	ts    *Terms
	sol   *Solver
	funcs map[*ssa.Function]*Func

	globals map[*ssa.Global]*Obj
	inited  map[*ssa.Package]int
	initing int

	stack []*Frame
	trail []trailEntry
	epoch uint64

	pc       []*Term
	known    map[uint32]bool
	dom      []Set
	domTr    []domEntry
	knTr     []knEntry
	complexN []int // per variable, the number of literals over several variables
	model    []uint64
	modelOK  bool

	job      *Job
	run_     *JobResult
	steps    uint64
	deadline time.Time
	depthMax int

	watch    uint64 // objects older than this epoch are shared, when not 0
	watchOff int
	goq      *Obj // the goroutines that have not run
	watched  []string

	nd ndState

	methodCache map[methodKey]*Func
	debug       bool
	ifaceTypes  map[string]*TInfo
	free        []*Frame
	bodies      map[string]*Func
}

type methodKey struct {
	t *TInfo
	m string
}

type evKind uint8

const (
	evStop evKind = iota
	evDead
	evFork
)

// ways in which a stop is reached.
const (
	outBlock = iota
	outReturn
	outPanic
)

type event struct {
	kind evKind
	out  int
	cond *Term
	isIf bool
	in   *Instr
}

// forkReq is thrown by an instruction that needs a condition to be decided.
type forkReq struct{ cond *Term }

// goPanic is thrown by an instruction that panics in the program.
type goPanic struct{ val V }

// deadPath is thrown when the path is to be given up.
type deadPath struct{ why string }

type stopAt struct {
	depth int
	blk   int // -1: the return from the frame
}

func (w *W) newObj(t *TInfo, n int) *Obj {
	o := &Obj{s: make([]V, n), t: t, birth: w.epoch}
	if w.initing > 0 {
		o.birth = 0
	}
	return o
}

func (w *W) store(o *Obj, i int, v V) {
	if o.birth < w.epoch && w.initing == 0 {
		w.trail = append(w.trail, trailEntry{o, i, o.s[i]})
		if w.watch != 0 && o.birth < w.watch && w.watchOff == 0 {
			w.watchWrite(o, i, v)
		}
	}
	o.s[i] = v
}

// syncStore is a store that does not race.
func (w *W) syncStore(o *Obj, i int, v V) {
	w.watchOff++
	w.store(o, i, v)
	w.watchOff--
}

func (w *W) loadT(p V, t *TInfo) V {
	o, ok := p.p.(*Obj)
	if !ok {
		if p.p == nil {
			w.throwRuntime("invalid memory address or nil pointer dereference")
		}
		unsupported("load through %T", p.p)
	}
	i := int(p.n)
	if t.isAgg() {
		if t.n == 0 {
			return V{}
		}
		s := make([]V, t.n)
		copy(s, o.s[i:i+t.n])
		return V{p: &Agg{s}}
	}
	return o.s[i]
}

func (w *W) storeT(p V, t *TInfo, v V) {
	o, ok := p.p.(*Obj)
	if !ok {
		if p.p == nil {
			w.throwRuntime("invalid memory address or nil pointer dereference")
		}
		unsupported("store through %T", p.p)
	}
	w.storeAt(o, int(p.n), t, v)
}

func (w *W) storeAt(o *Obj, i int, t *TInfo, v V) {
	if t.isAgg() {
		if v.p == nil {
			for k := 0; k < t.n; k++ {
				w.store(o, i+k, V{})
			}
			return
		}
		a, ok := v.p.(*Agg)
		if !ok {
			unsupported("store of %T as %s", v.p, t.t)
		}
		for k, x := range a.s {
			w.store(o, i+k, x)
		}
		return
	}
	w.store(o, i, v)
}

func (w *W) throwRuntime(msg string) {
	panic(goPanic{w.runtimeError(msg)})
}

func (w *W) runtimeError(msg string) V {
	return V{p: &Iface{t: w.prog.runtimeErrorT(w), v: mkStr("runtime error: " + msg)}}
}

func (w *W) push(f *Func, args []V, free []V) *Frame {
	w.ready(f)
	if f.blocks == nil {
		unsupported("call of %s", f.name)
	}
	if len(w.stack) > 400 {
		unsupported("stack depth exceeded in %s", f.name)
	}
	fr := &Frame{f: f, regs: make([]V, f.nregs)}
	copy(fr.regs, args)
	copy(fr.regs[f.params:], free)
	w.stack = append(w.stack, fr)
	if !f.entered {
		f.entered = true
	}
	return fr
}

func (w *W) top() *Frame { return w.stack[len(w.stack)-1] }

// run executes until the stop, the end of the path, or a decision.
func (w *W) run(st stopAt) event {
	for {
		ev, again := w.runProtected(st)
		if !again {
			return ev
		}
	}
}

func (w *W) runProtected(st stopAt) (ev event, again bool) {
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case forkReq:
				ev = event{kind: evFork, cond: r.cond}
				fr := w.top()
				ev.in = &fr.f.blocks[fr.blk].ins[fr.pc]
				again = false
			case goPanic:
				defer func() {
					if r := recover(); r != nil {
						w.incomplete(fmt.Sprint(r))
						ev, again = event{kind: evDead}, false
					}
				}()
				w.top().panicking = &panicState{val: r.val}
				ev, again = w.unwind(st)
			case deadPath:
				ev, again = event{kind: evDead}, false
			default:
				msg := ""
				switch r := r.(type) {
				case Unsupported:
					msg = r.msg
				default:
					msg = fmt.Sprintf("engine: %v", r)
					if w.debug {
						fmt.Fprintf(os.Stderr, "%v\n%s\n", r, debug.Stack())
					}
				}
				if w.initing > 0 {
					w.failInit(msg)
					again = len(w.stack) > 0
					ev = event{kind: evDead}
					return
				}
				w.incomplete(msg)
				ev, again = event{kind: evDead}, false
			}
		}
	}()
	return w.loop(st), false
}

func (w *W) where() string {
	var sb strings.Builder
	for i := len(w.stack) - 1; i >= 0 && i > len(w.stack)-7; i-- {
		fr := w.stack[i]
		pos := ""
		if fr.pc < len(fr.f.blocks[fr.blk].ins) {
			p := fr.f.blocks[fr.blk].ins[fr.pc].pos
			if p.IsValid() {
				q := w.prog.prog.Fset.Position(p)
				pos = fmt.Sprintf(":%d", q.Line)
			}
		}
		fmt.Fprintf(&sb, " < %s%s", fr.f.name, pos)
	}
	return sb.String()
}

func (fr *Frame) get(o int32) V {
	if o >= 0 {
		return fr.regs[o]
	}
	return fr.f.consts[-1-o]
}

func (w *W) enter(fr *Frame, target int) {
	b := &fr.f.blocks[target]
	if len(b.phis) > 0 {
		k := 0
		for k < len(b.preds) && b.preds[k] != fr.blk {
			k++
		}
		if len(b.phis) == 1 {
			fr.regs[b.phis[0].dst] = fr.get(b.phis[0].in[k])
		} else {
			var tmp [16]V
			vals := tmp[:0]
			for i := range b.phis {
				vals = append(vals, fr.get(b.phis[i].in[k]))
			}
			for i := range b.phis {
				fr.regs[b.phis[i].dst] = vals[i]
			}
		}
	}
	fr.blk, fr.pc = target, 0
}

func (w *W) loop(st stopAt) event {
	for {
		if len(w.stack) == 0 {
			return event{kind: evDead}
		}
		depth := len(w.stack) - 1
		fr := w.stack[depth]
		ins := fr.f.blocks[fr.blk].ins
	inner:
		for {
			in := &ins[fr.pc]
			w.steps++
			if w.steps&0x3fff == 0 && (halt.Load() || time.Now().After(w.deadline)) {
				w.run_.Timeout = true
				panic(deadPath{"deadline"})
			}
			switch in.op {
			case oJump:
				target := fr.f.blocks[fr.blk].succs[0]
				w.enter(fr, target)
				if depth == st.depth && target == st.blk {
					return event{kind: evStop}
				}
				ins = fr.f.blocks[fr.blk].ins
				continue inner
			case oIf:
				c := fr.get(in.a)
				k := 0
				if c.p == nil {
					if c.n == 0 {
						k = 1
					}
				} else {
					t, ok := c.p.(*Term)
					if !ok {
						unsupported("condition %T", c.p)
					}
					switch w.lookup(t) {
					case 1:
					case 0:
						k = 1
					default:
						return event{kind: evFork, cond: t, isIf: true, in: in}
					}
				}
				target := fr.f.blocks[fr.blk].succs[k]
				w.enter(fr, target)
				if depth == st.depth && target == st.blk {
					return event{kind: evStop}
				}
				ins = fr.f.blocks[fr.blk].ins
				continue inner
			case oBin:
				x, y := fr.get(in.a), fr.get(in.b)
				if x.p == nil && y.p == nil && in.t.kind == KInt {
					fr.regs[in.dst] = w.intBin(in, x.n, y.n)
				} else {
					fr.regs[in.dst] = w.binop(in, x, y)
				}
			case oLoad:
				p := fr.get(in.a)
				if o, ok := p.p.(*Obj); ok && !in.t.isAgg() {
					fr.regs[in.dst] = o.s[p.n]
				} else {
					fr.regs[in.dst] = w.loadT(p, in.t)
				}
			case oStore:
				w.storeT(fr.get(in.a), in.t, fr.get(in.b))
			case oAlloc:
				fr.regs[in.dst] = V{p: w.newObj(in.t, in.t.n)}
			case oFieldAddr:
				p := fr.get(in.a)
				o, ok := p.p.(*Obj)
				if !ok {
					if p.p == nil {
						w.throwRuntime("invalid memory address or nil pointer dereference")
					}
					unsupported("field of %T", p.p)
				}
				fr.regs[in.dst] = V{p.n + uint64(in.k), o}
			case oField:
				a := fr.get(in.a)
				fr.regs[in.dst] = w.sub(a, in.k, in.t)
			case oExtract:
				fr.regs[in.dst] = aggAt(fr.get(in.a), in.k)
			case oIndexAddr:
				fr.regs[in.dst] = w.indexAddr(in, fr.get(in.a), fr.get(in.b))
			case oIndex:
				fr.regs[in.dst] = w.index(in, fr.get(in.a), fr.get(in.b))
			case oLookup:
				fr.regs[in.dst] = w.mapLookup(in, fr.get(in.a), fr.get(in.b))
			case oMapUpdate:
				w.mapUpdate(in.t2, fr.get(in.a), fr.get(in.b), fr.get(in.c))
			case oMakeMap:
				o := w.newObj(in.t, 1)
				o.s[0] = V{p: &MapState{}}
				fr.regs[in.dst] = V{p: o}
			case oMakeIface:
				v := fr.get(in.a)
				fr.regs[in.dst] = V{p: &Iface{in.t2, v}}
			case oChangeType:
				fr.regs[in.dst] = fr.get(in.a)
			case oConvert:
				fr.regs[in.dst] = w.convert(in, fr.get(in.a))
			case oMakeClosure:
				c := &Closure{fn: in.fn, free: make([]V, len(in.args))}
				for k, a := range in.args {
					c.free[k] = fr.get(a)
				}
				fr.regs[in.dst] = V{p: c}
			case oMakeSlice:
				n, c := w.concInt(fr.get(in.a)), w.concInt(fr.get(in.b))
				if n < 0 || c < n {
					w.throwRuntime("makeslice: len out of range")
				}
				if c >= 1<<20 {
					unsupported("makeslice of %d", c)
				}
				e := in.t.elem
				fr.regs[in.dst] = mkSlice(w.newObj(e, c*e.n), 0, n, c)
			case oSlice:
				fr.regs[in.dst] = w.slice(in, fr)
			case oSliceToArrPtr:
				s := fr.get(in.a)
				if s.p == nil {
					fr.regs[in.dst] = V{}
				} else {
					fr.regs[in.dst] = V{uint64(sliceOff(s)), s.p}
				}
			case oTypeAssert:
				fr.regs[in.dst] = w.typeAssert(in, fr.get(in.a))
			case oNot:
				x := fr.get(in.a)
				if x.p == nil {
					fr.regs[in.dst] = V{n: x.n ^ 1}
				} else {
					fr.regs[in.dst] = mkTerm(w.ts.Not(w.term(x, 0)))
				}
			case oNeg, oCompl:
				fr.regs[in.dst] = w.unop(in, fr.get(in.a))
			case oRange:
				fr.regs[in.dst] = w.rangeInit(in, fr.get(in.a))
			case oNext:
				fr.regs[in.dst] = w.next(in, fr.get(in.a))
			case oBuiltin:
				args := make([]V, len(in.args))
				for k, a := range in.args {
					args[k] = fr.get(a)
				}
				v := w.builtin(in.name, in.t2, args, in)
				if in.dst >= 0 {
					fr.regs[in.dst] = v
				}
			case oCall:
				args := make([]V, 0, len(in.args)+1)
				if w.call(fr, in, args) {
					break inner // a frame has been pushed
				}
			case oDefer:
				w.deferCall(fr, in)
			case oGo:
				w.spawn(fr, in)
			case oMakeChan:
				fr.regs[in.dst] = w.makeChan(in.t, w.concInt(fr.get(in.a)))
			case oSend:
				if fr.get(in.a).p == nil {
					unsupported("send to a nil channel")
				}
				w.send(fr.get(in.a), fr.get(in.b))
			case oRecv:
				v, ok, ready := w.recv(fr.get(in.a))
				if !ready {
					if w.runPending() {
						break inner
					}
					unsupported("receive that blocks")
				}
				if in.commaOk {
					v = mkTuple(v, mkBool(ok))
				}
				fr.regs[in.dst] = v
			case oSelect:
				v, pushed := w.selectOp(fr, in)
				if pushed {
					break inner
				}
				fr.regs[in.dst] = v
			case oRunDefers:
				if d := fr.defers; d != nil {
					fr.defers = d.next
					if w.runDeferred(fr, d) {
						break inner
					}
					continue inner
				}
			case oPanic:
				v := fr.get(in.a)
				if v.p == nil {
					v = w.runtimeError("panic called with nil argument (use GODEBUG=panicnil=1 to disable)")
				}
				panic(goPanic{v})
			case oReturn:
				var r V
				switch len(in.args) {
				case 0:
				case 1:
					r = fr.get(in.args[0])
				default:
					a := &Agg{make([]V, len(in.args))}
					for k, x := range in.args {
						a.s[k] = fr.get(x)
					}
					r = V{p: a}
				}
				fr.ret = r
				if depth == st.depth {
					// the frame returns, whether or not it was to stop earlier.
					return event{kind: evStop, out: outReturn}
				}
				if ev, more := w.doReturn(st); !more {
					return ev
				}
				break inner
			case oNop:
			default:
				unsupported("%s", in.name)
			}
			fr.pc++
		}
	}
}

// doReturn pops the frame and delivers what it returned; it reports whether
// execution continues.
func (w *W) doReturn(st stopAt) (event, bool) {
	fr := w.top()
	w.stack = w.stack[:len(w.stack)-1]
	if fr.base || len(w.stack) == 0 {
		return event{kind: evDead}, false
	}
	cr := w.top()
	if fr.isDefer {
		if cr.panicking != nil {
			return w.unwind(st)
		}
		return event{}, true // RunDefers executes again
	}
	in := &cr.f.blocks[cr.blk].ins[cr.pc]
	if in.dst >= 0 && !fr.noResult {
		cr.regs[in.dst] = fr.ret
	}
	cr.pc++
	return event{}, true
}

// unwind continues the panic of the top frame until a deferred function runs,
// the panic has been recovered, the stop has been passed, or the harness has
// panicked. It reports whether execution continues.
func (w *W) unwind(st stopAt) (event, bool) {
	for {
		fr := w.top()
		p := fr.panicking
		if p.recovered {
			fr.panicking = nil
			if fr.f.recover >= 0 {
				fr.blk, fr.pc = fr.f.recover, 0
				return event{}, true
			}
			unsupported("recovery in %s without a recover block", fr.f.name)
		}
		if d := fr.defers; d != nil {
			fr.defers = d.next
			if w.runDeferred(fr, d) {
				return event{}, true
			}
			continue
		}
		if len(w.stack) == 1 || fr.base {
			if w.initing > 0 {
				unsupported("panic while initialising: %s", w.describe(p.val))
			}
			w.uncaught(p.val)
			return event{kind: evDead}, false
		}
		if len(w.stack)-1 == st.depth {
			return event{kind: evStop, out: outPanic}, false
		}
		w.stack = w.stack[:len(w.stack)-1]
		w.top().panicking = &panicState{val: p.val}
	}
}

func (w *W) runDeferred(fr *Frame, d *deferNode) bool {
	if d.bi != "" {
		if d.bi == "recover" {
			return false
		}
		w.builtin(d.bi, d.in.t2, d.args, d.in)
		return false
	}
	c := d.fn.p.(*Closure)
	f := c.fn
	if f.model != nil {
		f = f.model
	}
	if f.intr != nil {
		f.intr(w, d.in, append(append([]V(nil), d.args...), c.free...))
		return false
	}
	nf := w.push(f, d.args, c.free)
	nf.isDefer = true
	return true
}

func (w *W) deferCall(fr *Frame, in *Instr) {
	var args []V
	d := &deferNode{in: in, next: fr.defers}
	if in.name != "" {
		d.bi = in.name
		for _, a := range in.args {
			args = append(args, fr.get(a))
		}
		d.args = args
		fr.defers = d
		return
	}
	f, free, args := w.callee(fr, in, nil)
	d.fn = V{p: &Closure{fn: f, free: free}}
	d.args = args
	fr.defers = d
}

// callee resolves the function that is called, and its arguments.
func (w *W) callee(fr *Frame, in *Instr, args []V) (*Func, []V, []V) {
	var f *Func
	var free []V
	switch {
	case in.method != nil:
		recv := fr.get(in.a)
		x, ok := recv.p.(*Iface)
		if !ok {
			if recv.p == nil {
				w.throwRuntime("invalid memory address or nil pointer dereference")
			}
			unsupported("invocation of %s on %T", in.method.Name(), recv.p)
		}
		f = w.methodOf(x.t, in.method)
		args = append(args, x.v)
	case in.fn != nil:
		f = in.fn
	default:
		c, ok := fr.get(in.a).p.(*Closure)
		if !ok {
			if fr.get(in.a).p == nil {
				w.throwRuntime("invalid memory address or nil pointer dereference")
			}
			unsupported("call of %T", fr.get(in.a).p)
		}
		f, free = c.fn, c.free
		if c.fn == nil {
			unsupported("call of builtin %s as a value", c.bi)
		}
	}
	for _, a := range in.args {
		args = append(args, fr.get(a))
	}
	return f, free, args
}

func (w *W) methodOf(t *TInfo, m *types.Func) *Func {
	k := methodKey{t, m.Id()}
	if f := w.methodCache[k]; f != nil {
		return f
	}
	fn := w.prog.lookupMethod(t.t, m)
	if fn == nil {
		unsupported("method %s of %s", m.Name(), t.t)
	}
	f := w.funcOf(fn)
	w.methodCache[k] = f
	return f
}

// call executes the call; it reports whether a frame was pushed.
func (w *W) call(fr *Frame, in *Instr, args []V) bool {
	f, free, args := w.callee(fr, in, args)
	return w.callFn(fr, in, f, free, args)
}

func (w *W) callFn(fr *Frame, in *Instr, f *Func, free, args []V) bool {
	if f.model != nil {
		f = f.model
	}
	if f.intr != nil {
		if free != nil {
			args = append(args, free...)
		}
		depth := len(w.stack)
		v, pushed := f.intr(w, in, args)
		if pushed {
			return true
		}
		if len(w.stack) != depth {
			panic("intrinsic changed the stack: " + f.name)
		}
		if in.dst >= 0 {
			fr.regs[in.dst] = v
		}
		return false
	}
	if w.initing > 0 && f.fn.Name() == "init" && f.fn.Synthetic != "" {
		// packages are initialised when one of their variables is used.
		return false
	}
	w.push(f, args, free)
	return true
}

// callNow runs a function to completion, during initialisation only.
func (w *W) initPackage(p *ssa.Package) {
	init := p.Func("init")
	if init == nil {
		return
	}
	if skipInit[p.Pkg.Path()] {
		return
	}
	saved := w.stack
	w.stack = nil
	w.initing++
	f := w.funcOf(init)
	w.ready(f)
	if f.blocks != nil {
		fr := w.push(f, nil, nil)
		fr.base = true
		w.run(stopAt{depth: -1, blk: -2})
	}
	w.initing--
	w.stack = saved
}

func (w *W) ensureInit(p *ssa.Package) {
	if p == nil || w.inited[p] != 0 {
		return
	}
	w.inited[p] = 1
	w.initPackage(p)
	w.inited[p] = 2
}

// failInit abandons the call that failed; its result is poisoned.
func (w *W) failInit(msg string) {
	if w.debug {
		fmt.Fprintf(os.Stderr, "init: %s%s\n", msg, w.where())
	}
	w.stack = w.stack[:1]
	fr := w.stack[0]
	fr.panicking = nil
	in := &fr.f.blocks[fr.blk].ins[fr.pc]
	switch in.op {
	case oIf, oReturn, oJump, oPanic:
		w.stack = nil
		return
	}
	if in.dst >= 0 {
		p := V{p: &Poison{msg}}
		if in.t != nil && in.t.isAgg() {
			a := &Agg{make([]V, in.t.n)}
			for i := range a.s {
				a.s[i] = p
			}
			p = V{p: a}
		} else if in.t != nil && in.t.kind == KTuple {
			a := &Agg{make([]V, len(in.t.fields))}
			for i := range a.s {
				a.s[i] = p
			}
			p = V{p: a}
		}
		fr.regs[in.dst] = p
	}
	fr.pc++
}

func (w *W) sub(a V, k int, t *TInfo) V {
	if a.p == nil {
		return V{}
	}
	g, ok := a.p.(*Agg)
	if !ok {
		unsupported("field of %T", a.p)
	}
	if t.isAgg() {
		if t.n == 0 {
			return V{}
		}
		return V{p: &Agg{g.s[k : k+t.n : k+t.n]}}
	}
	return g.s[k]
}

func (w *W) intBin(in *Instr, x, y uint64) V {
	t := in.t
	m := mask(t.w)
	switch in.tok {
	case token.ADD:
		return V{n: (x + y) & m}
	case token.SUB:
		return V{n: (x - y) & m}
	case token.MUL:
		return V{n: (x * y) & m}
	case token.QUO, token.REM:
		if y == 0 {
			w.throwRuntime("integer divide by zero")
		}
		op := TUdiv
		if in.tok == token.REM {
			op = TUrem
		}
		if t.signed {
			op += TSdiv - TUdiv
		}
		return V{n: evalOp(op, t.w, t.w, x, y, 0)}
	case token.AND:
		return V{n: x & y}
	case token.OR:
		return V{n: x | y}
	case token.XOR:
		return V{n: x ^ y}
	case token.AND_NOT:
		return V{n: x &^ y}
	case token.SHL, token.SHR:
		if in.t2.signed && sext(y, in.t2.w) < 0 {
			w.throwRuntime("negative shift amount")
		}
		if in.tok == token.SHL {
			if y >= uint64(t.w) {
				return V{}
			}
			return V{n: (x << y) & m}
		}
		if t.signed {
			if y >= uint64(t.w) {
				y = uint64(t.w) - 1
			}
			return V{n: uint64(sext(x, t.w)>>y) & m}
		}
		if y >= 64 {
			return V{}
		}
		return V{n: x >> y}
	case token.EQL:
		return mkBool(x == y)
	case token.NEQ:
		return mkBool(x != y)
	}
	var less, eq bool
	eq = x == y
	if t.signed {
		less = sext(x, t.w) < sext(y, t.w)
	} else {
		less = x < y
	}
	switch in.tok {
	case token.LSS:
		return mkBool(less)
	case token.LEQ:
		return mkBool(less || eq)
	case token.GTR:
		return mkBool(!less && !eq)
	case token.GEQ:
		return mkBool(!less)
	}
	panic("intBin " + in.tok.String())
}

// concInt is the value as a concrete integer, deciding it when symbolic.
func (w *W) concInt(v V) int {
	switch p := v.p.(type) {
	case nil:
		return int(int64(v.n))
	case *Term:
		return int(int64(w.concretise(p)))
	}
	unsupported("integer %T", v.p)
	return 0
}

// concretise decides the value of the term.
func (w *W) concretise(t *Term) uint64 {
	for {
		if t.isConst() {
			return t.val
		}
		if t.lo == t.hi {
			return t.lo
		}
		if !w.modelOK {
			w.findModel()
		}
		v := w.ts.Eval(t, w.model)
		if w.decide(w.ts.Eq(t, w.ts.Const(v, t.w))) {
			return v
		}
	}
}

func (w *W) binop(in *Instr, x, y V) V {
	t := in.t
	switch in.tok {
	case token.EQL, token.NEQ:
		r := w.equal(t, x, y)
		if in.tok == token.NEQ {
			r = w.ts.Not(r)
		}
		return mkTerm(r)
	}
	switch t.kind {
	case KInt:
		return w.symBin(in, x, y)
	case KFloat:
		return w.floatBin(in, x, y)
	case KString:
		switch in.tok {
		case token.ADD:
			return strCat(x, y)
		case token.LSS:
			return mkTerm(w.strLess(x, y, false))
		case token.LEQ:
			return mkTerm(w.strLess(x, y, true))
		case token.GTR:
			return mkTerm(w.strLess(y, x, false))
		case token.GEQ:
			return mkTerm(w.strLess(y, x, true))
		}
	case KBool:
		a, b := w.term(x, 0), w.term(y, 0)
		switch in.tok {
		case token.AND, token.LAND:
			return mkTerm(w.ts.And(a, b))
		case token.OR, token.LOR:
			return mkTerm(w.ts.Or(a, b))
		}
	}
	unsupported("operation %s on %s", in.tok, t.t)
	return V{}
}

func (w *W) symBin(in *Instr, x, y V) V {
	t := in.t
	if _, ok := x.p.(*Obj); ok { // uintptr arithmetic
		if y.p == nil && y.n == 0 {
			return x
		}
	}
	a := w.term(x, t.w)
	ts := w.ts
	if in.tok == token.SHL || in.tok == token.SHR {
		b := w.term(y, in.t2.w)
		if in.t2.signed && !b.isConst() && b.hi > mask(b.w)>>1 {
			if w.decide(ts.Bin(TSlt, b, ts.Const(0, b.w))) {
				w.throwRuntime("negative shift amount")
			}
		}
		// adapt the width of the shift.
		if b.w > t.w {
			if b.isConst() {
				if b.val >= uint64(t.w) {
					b = ts.Const(uint64(t.w), t.w)
				} else {
					b = ts.Const(b.val, t.w)
				}
			} else if b.hi < uint64(t.w) {
				b = ts.Trunc(b, t.w)
			} else if w.decide(ts.Ult(b, ts.Const(uint64(t.w), b.w))) {
				b = ts.Trunc(b, t.w)
			} else {
				b = ts.Const(uint64(t.w), t.w)
			}
		} else {
			b = ts.Zext(b, t.w)
		}
		switch {
		case in.tok == token.SHL:
			return mkTerm(ts.Bin(TShl, a, b))
		case t.signed:
			return mkTerm(ts.Bin(TAshr, a, b))
		}
		return mkTerm(ts.Bin(TLshr, a, b))
	}
	b := w.term(y, t.w)
	switch in.tok {
	case token.ADD:
		return mkTerm(ts.Bin(TAdd, a, b))
	case token.SUB:
		return mkTerm(ts.Bin(TSub, a, b))
	case token.MUL:
		return mkTerm(w.tabulate(ts.Bin(TMul, a, b)))
	case token.QUO, token.REM:
		if w.decide(ts.Eq(b, ts.Const(0, b.w))) {
			w.throwRuntime("integer divide by zero")
		}
		op := TUdiv
		if in.tok == token.REM {
			op = TUrem
		}
		half := mask(t.w) >> 1
		if t.signed && (a.hi > half || b.hi > half) {
			op += TSdiv - TUdiv
		}
		return mkTerm(w.tabulate(ts.Bin(op, a, b)))
	case token.AND:
		return mkTerm(ts.Bin(TBand, a, b))
	case token.OR:
		return mkTerm(ts.Bin(TBor, a, b))
	case token.XOR:
		return mkTerm(ts.Bin(TBxor, a, b))
	case token.AND_NOT:
		return mkTerm(ts.Bin(TBand, a, ts.Bin(TBxor, b, ts.Const(mask(t.w), t.w))))
	}
	lt, le := TUlt, TUle
	if t.signed {
		lt, le = TSlt, TSle
	}
	switch in.tok {
	case token.LSS:
		return mkTerm(w.compare(lt, a, b))
	case token.LEQ:
		return mkTerm(w.compare(le, a, b))
	case token.GTR:
		return mkTerm(w.compare(lt, b, a))
	case token.GEQ:
		return mkTerm(w.compare(le, b, a))
	}
	unsupported("operation %s", in.tok)
	return V{}
}

func (w *W) unop(in *Instr, x V) V {
	t := in.t
	switch t.kind {
	case KInt:
		if x.p == nil {
			if in.op == oNeg {
				return V{n: -x.n & mask(t.w)}
			}
			return V{n: ^x.n & mask(t.w)}
		}
		a := w.term(x, t.w)
		if in.op == oNeg {
			return mkTerm(w.ts.Bin(TSub, w.ts.Const(0, t.w), a))
		}
		return mkTerm(w.ts.Bin(TBxor, a, w.ts.Const(mask(t.w), t.w)))
	case KFloat:
		return w.floatMap(x, func(f float64) float64 { return -f })
	}
	unsupported("unary operation on %s", t.t)
	return V{}
}

// equal compares two values of the type.
func (w *W) equal(t *TInfo, x, y V) *Term {
	ts := w.ts
	switch t.kind {
	case KBool:
		return ts.Eq(w.term(x, 0), w.term(y, 0))
	case KInt:
		if x.p == nil && y.p == nil {
			return ts.Bool(x.n == y.n)
		}
		return w.compare(TEq, w.term(x, t.w), w.term(y, t.w))
	case KFloat:
		return w.floatCmp(token.EQL, x, y)
	case KString:
		return w.strEq(x, y)
	case KPtr, KChan:
		if x.p != nil && y.p != nil {
			_, ok1 := x.p.(*Obj)
			_, ok2 := y.p.(*Obj)
			if !ok1 || !ok2 {
				unsupported("comparison of %T and %T", x.p, y.p)
			}
		}
		return ts.Bool(x.p == y.p && x.n == y.n)
	case KSlice, KMap, KFunc:
		if _, ok := x.p.(*Poison); ok {
			unsupported("comparison of a poisoned value")
		}
		return ts.Bool(x.p == nil && y.p == nil)
	case KIface:
		if x.p == nil || y.p == nil {
			if _, ok := x.p.(*Poison); ok {
				unsupported("comparison of a poisoned value")
			}
			return ts.Bool(x.p == nil && y.p == nil)
		}
		a, ok1 := x.p.(*Iface)
		b, ok2 := y.p.(*Iface)
		if !ok1 || !ok2 {
			unsupported("comparison of interfaces: %T %T", x.p, y.p)
		}
		if a == b {
			return ts.T
		}
		if a.t != b.t {
			return ts.F
		}
		switch a.t.kind {
		case KSlice, KMap, KFunc:
			w.throwRuntime("comparing uncomparable type " + a.t.t.String())
		}
		return w.equal(a.t, a.v, b.v)
	case KStruct:
		r := ts.T
		for i, f := range t.fields {
			r = ts.And(r, w.equal(f, w.sub(x, t.offs[i], f), w.sub(y, t.offs[i], f)))
			if r.isFalse() {
				return r
			}
		}
		return r
	case KArray:
		r := ts.T
		for i := 0; i < t.length; i++ {
			r = ts.And(r, w.equal(t.elem, w.sub(x, i*t.elem.n, t.elem), w.sub(y, i*t.elem.n, t.elem)))
			if r.isFalse() {
				return r
			}
		}
		return r
	}
	unsupported("comparison of %s", t.t)
	return nil
}

func (w *W) strEq(x, y V) *Term {
	n := strLen(x)
	if n != strLen(y) {
		return w.ts.F
	}
	if n == 0 || x == y {
		return w.ts.T
	}
	xb, xs := strParts(x)
	yb, ys := strParts(y)
	if xs == nil && ys == nil {
		return w.ts.Bool(string(xb) == string(yb))
	}
	var conj []*Term
	for i := 0; i < n; i++ {
		a, b := w.byteTerm(xb, xs, i), w.byteTerm(yb, ys, i)
		e := w.ts.Eq(a, b)
		if e.isFalse() {
			return e
		}
		conj = append(conj, e)
	}
	return w.ts.And(conj...)
}

func (w *W) byteTerm(b []byte, s []*Term, i int) *Term {
	if s != nil && s[i] != nil {
		return s[i]
	}
	return w.ts.Const(uint64(b[i]), 8)
}

func (w *W) strLess(x, y V, orEqual bool) *Term {
	xb, xs := strParts(x)
	yb, ys := strParts(y)
	if xs == nil && ys == nil {
		if orEqual {
			return w.ts.Bool(string(xb) <= string(yb))
		}
		return w.ts.Bool(string(xb) < string(yb))
	}
	n := min(len(xb), len(yb))
	r := w.ts.Bool(len(xb) < len(yb) || orEqual && len(xb) == len(yb))
	for i := n - 1; i >= 0; i-- {
		a, b := w.byteTerm(xb, xs, i), w.byteTerm(yb, ys, i)
		r = w.ts.Or(w.ts.Ult(a, b), w.ts.And(w.ts.Eq(a, b), r))
	}
	return r
}

// idx makes an index concrete and checks it against the bound.
func (w *W) idx(v V, n int, width int32) int {
	signed := width < 0
	if signed {
		width = -width
	}
	var i int
	switch p := v.p.(type) {
	case nil:
		if signed {
			i = int(sext(v.n, uint8(width)))
		} else {
			i = int(v.n)
			if i < 0 {
				i = n
			}
		}
	case *Term:
		in := w.ts.Ult(p, w.ts.Const(uint64(n), p.w))
		if p.w < 63 && uint64(n) > mask(p.w) {
			in = w.ts.T
		}
		if !w.decide(in) {
			w.throwRuntime(fmt.Sprintf("index out of range with length %d", n))
		}
		i = int(w.concretise(p))
	default:
		unsupported("index %T", v.p)
	}
	if i < 0 || i >= n {
		w.throwRuntime(fmt.Sprintf("index out of range [%d] with length %d", i, n))
	}
	return i
}

func (w *W) indexAddr(in *Instr, x, iv V) V {
	t := in.t2
	if x.p == nil {
		if t.kind == KSlice {
			w.throwRuntime("index out of range [0] with length 0")
		}
		w.throwRuntime("invalid memory address or nil pointer dereference")
	}
	o, ok := x.p.(*Obj)
	if !ok {
		unsupported("index of %T", x.p)
	}
	if t.kind == KSlice {
		n := sliceLen(x)
		var i int
		if iv.p == nil && iv.n < uint64(n) {
			i = int(iv.n)
		} else if tm, isT := iv.p.(*Term); isT {
			// tables that are indexed by a term of one variable become a
			// table, see tableAddr.
			if v, ok := w.tableAddr(o, sliceOff(x), n, t.elem, tm); ok {
				return v
			}
			i = w.idx(iv, n, in.c)
		} else {
			i = w.idx(iv, n, in.c)
		}
		return V{uint64(sliceOff(x) + i*t.elem.n), o}
	}
	if tm, isT := iv.p.(*Term); isT {
		if v, ok := w.tableAddr(o, int(x.n), t.length, t.elem, tm); ok {
			return v
		}
	}
	i := w.idx(iv, t.length, in.c)
	return V{x.n + uint64(i*t.elem.n), o}
}

// tableAddr reads a table of concrete scalars at a symbolic index into a
// temporary object, provided that the instruction that follows is the load.
func (w *W) tableAddr(o *Obj, off, n int, e *TInfo, i *Term) (V, bool) {
	if e.n != 1 || e.kind != KInt && e.kind != KBool && e.kind != KString {
		return V{}, false
	}
	fr := w.top()
	ins := fr.f.blocks[fr.blk].ins
	in := &ins[fr.pc]
	if fr.pc+1 >= len(ins) || ins[fr.pc+1].op != oLoad || ins[fr.pc+1].a != in.dst {
		return V{}, false
	}
	if i.w < 63 && uint64(n) > mask(i.w) || i.hi < uint64(n) {
	} else if !w.decide(w.ts.Ult(i, w.ts.Const(uint64(n), i.w))) {
		w.throwRuntime(fmt.Sprintf("index out of range with length %d", n))
	}
	v, ok := w.tableRead(o, off, n, e, i)
	if !ok {
		return V{}, false
	}
	tmp := &Obj{s: []V{v}, t: e, birth: w.epoch}
	return V{0, tmp}, true
}

func (w *W) tableRead(o *Obj, off, n int, e *TInfo, i *Term) (V, bool) {
	lo, hi := i.lo, i.hi
	if hi >= uint64(n) {
		hi = uint64(n) - 1
	}
	if hi-lo > 300 || e.kind == KString {
		return V{}, false
	}
	// group the indices by value.
	if i.tab != nil {
		v := w.ts.vars[i.vars[0]]
		dom := w.domOf(v)
		tab := make([]uint64, 256)
		var vals []uint64
		sym := false
		for b := uint64(0); b < 256; b++ {
			if dom.has(b) {
				x := o.s[off+int(min(i.tab[b], hi))]
				if x.p != nil {
					sym = true
					break
				}
				tab[b] = x.n
				vals = append(vals, x.n)
			}
		}
		if !sym {
			return mkTerm(w.ts.Table(v, tab, e.w)), true
		}
	}
	groups := map[uint64]*Term{}
	var order []uint64
	var symIdx []uint64
	for k := lo; k <= hi; k++ {
		x := o.s[off+int(k)]
		if x.p != nil {
			if _, ok := x.p.(*Term); !ok {
				return V{}, false
			}
			symIdx = append(symIdx, k)
			continue
		}
		c := w.ts.Eq(i, w.ts.Const(k, i.w))
		if g := groups[x.n]; g != nil {
			groups[x.n] = w.ts.Or(g, c)
		} else {
			groups[x.n] = c
			order = append(order, x.n)
		}
	}
	var r *Term
	for _, k := range symIdx {
		t := o.s[off+int(k)].p.(*Term)
		if r == nil {
			r = t
		} else {
			r = w.ts.Ite(w.ts.Eq(i, w.ts.Const(k, i.w)), t, r)
		}
	}
	for _, x := range order {
		t := w.ts.Const(x, e.w)
		if r == nil {
			r = t
		} else {
			r = w.ts.Ite(groups[x], t, r)
		}
	}
	return mkTerm(r), true
}

func (w *W) index(in *Instr, x, iv V) V {
	t := in.t2
	switch t.kind {
	case KString:
		n := strLen(x)
		if iv.p == nil && iv.n < uint64(n) {
			return strAt(x, int(iv.n))
		}
		if tm, ok := iv.p.(*Term); ok && n > 0 {
			if !w.decide(w.ts.Ult(tm, w.ts.Const(uint64(n), tm.w))) && !(tm.w < 63 && uint64(n) > mask(tm.w)) {
				w.throwRuntime(fmt.Sprintf("index out of range with length %d", n))
			}
			tmp := &Obj{}
			for k := 0; k < n; k++ {
				tmp.s = append(tmp.s, strAt(x, k))
			}
			if v, ok := w.tableRead(tmp, 0, n, w.prog.byteT(w), tm); ok {
				return v
			}
		}
		return strAt(x, w.idx(iv, n, in.c))
	case KArray:
		if tm, ok := iv.p.(*Term); ok && x.p != nil && t.elem.n == 1 {
			tmp := &Obj{s: aggSlots(x, t.n)}
			if tm.hi >= uint64(t.length) && !w.decide(w.ts.Ult(tm, w.ts.Const(uint64(t.length), tm.w))) {
				w.throwRuntime("index out of range")
			}
			if v, ok := w.tableRead(tmp, 0, t.length, t.elem, tm); ok {
				return v
			}
		}
		i := w.idx(iv, t.length, in.c)
		return w.sub(x, i*t.elem.n, t.elem)
	}
	unsupported("index of %s", t.t)
	return V{}
}

func (w *W) slice(in *Instr, fr *Frame) V {
	x := fr.get(in.a)
	opt := func(o int32, d int) int {
		if o == 1<<30 {
			return d
		}
		return w.concInt(fr.get(o))
	}
	t := in.t2
	switch t.kind {
	case KString:
		n := strLen(x)
		lo, hi := opt(in.args[0], 0), opt(in.args[1], n)
		if lo < 0 || hi < lo || hi > n {
			w.throwRuntime(fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", lo, hi, n))
		}
		return strSlice(x, lo, hi)
	case KSlice:
		n, c := 0, 0
		if x.p != nil {
			n, c = sliceLen(x), sliceCap(x)
		}
		lo, hi := opt(in.args[0], 0), opt(in.args[1], n)
		mx := opt(in.args[2], c)
		if lo < 0 || hi < lo || mx < hi || mx > c {
			w.throwRuntime(fmt.Sprintf("slice bounds out of range [%d:%d] with capacity %d", lo, hi, c))
		}
		if x.p == nil {
			return x
		}
		return mkSlice(x.p.(*Obj), sliceOff(x)+lo*t.elem.n, hi-lo, mx-lo)
	case KPtr:
		if x.p == nil {
			w.throwRuntime("invalid memory address or nil pointer dereference")
		}
		a := t.elem
		lo, hi := opt(in.args[0], 0), opt(in.args[1], a.length)
		mx := opt(in.args[2], a.length)
		if lo < 0 || hi < lo || mx < hi || mx > a.length {
			w.throwRuntime(fmt.Sprintf("slice bounds out of range [%d:%d] with capacity %d", lo, hi, a.length))
		}
		return mkSlice(x.p.(*Obj), int(x.n)+lo*a.elem.n, hi-lo, mx-lo)
	}
	unsupported("slice of %s", t.t)
	return V{}
}

func (w *W) typeAssert(in *Instr, x V) V {
	t := in.t2
	var r V
	ok := false
	if x.p != nil {
		i, isI := x.p.(*Iface)
		if !isI {
			unsupported("assertion of %T", x.p)
		}
		if t.kind == KIface {
			if w.ty.Implements(i.t, t) {
				r, ok = x, true
			}
		} else if i.t == t {
			r, ok = i.v, true
		}
	}
	if in.commaOk {
		return mkTuple(r, mkBool(ok))
	}
	if !ok {
		d := "nil"
		if x.p != nil {
			d = x.p.(*Iface).t.t.String()
		}
		panic(goPanic{w.runtimeErrorI("interface conversion: interface is " + d + ", not " + t.t.String())})
	}
	return r
}

func (w *W) runtimeErrorI(msg string) V {
	return V{p: &Iface{t: w.prog.runtimeErrorT(w), v: mkStr(msg)}}
}

func (w *W) builtin(name string, t *TInfo, args []V, in *Instr) V {
	switch name {
	case "len":
		x := args[0]
		switch t.kind {
		case KString:
			return mkInt(strLen(x))
		case KSlice:
			if x.p == nil {
				return V{}
			}
			return mkInt(sliceLen(x))
		case KMap:
			if x.p == nil {
				return V{}
			}
			return mkInt(w.mapState(x).live)
		case KChan:
			if x.p == nil {
				return V{}
			}
			return mkInt(len(chanQueue(chanObj(x))))
		case KArray:
			return mkInt(t.length)
		case KPtr:
			return mkInt(t.elem.length)
		}
	case "cap":
		x := args[0]
		switch t.kind {
		case KSlice:
			if x.p == nil {
				return V{}
			}
			return mkInt(sliceCap(x))
		case KChan:
			if x.p == nil {
				return V{}
			}
			return chanObj(x).s[2]
		case KArray:
			return mkInt(t.length)
		case KPtr:
			return mkInt(t.elem.length)
		}
	case "append":
		return w.appendBuiltin(t, args[0], args[1], w.ty.Of(in.t.t))
	case "copy":
		return w.copyBuiltin(t, args[0], args[1])
	case "delete":
		w.mapDelete(t, args[0], args[1])
		return V{}
	case "close":
		if args[0].p == nil || chanObj(args[0]).s[1].n != 0 {
			panic(goPanic{w.runtimeErrorI("close of nil or closed channel")})
		}
		w.syncStore(chanObj(args[0]), 1, mkBool(true))
		return V{}
	case "recover":
		return w.recover()
	case "print", "println":
		return V{}
	case "min", "max":
		r := args[0]
		for _, y := range args[1:] {
			var lt *Term
			switch t.kind {
			case KInt:
				op := TUlt
				if t.signed {
					op = TSlt
				}
				lt = w.ts.Bin(op, w.term(r, t.w), w.term(y, t.w))
			case KFloat:
				lt = w.floatCmp(token.LSS, r, y)
			default:
				lt = w.strLess(r, y, false)
			}
			if name == "max" {
				lt = w.ts.Not(lt)
			}
			if !w.decide(lt) {
				r = y
			}
		}
		return r
	case "clear":
		switch t.kind {
		case KMap:
			if args[0].p != nil {
				w.setMap(args[0].p.(*Obj), &MapState{})
			}
			return V{}
		case KSlice:
			if args[0].p != nil {
				o, off := args[0].p.(*Obj), sliceOff(args[0])
				for i := 0; i < sliceLen(args[0])*t.elem.n; i++ {
					w.store(o, off+i, V{})
				}
			}
			return V{}
		}
	case "String": // unsafe.String
		p := args[0]
		n := w.concInt(args[1])
		if n == 0 {
			return V{}
		}
		return w.objString(p.p.(*Obj), int(p.n), n)
	case "StringData":
		s := args[0]
		if strLen(s) == 0 {
			return V{}
		}
		o := w.bytesObj(s)
		return V{p: o}
	case "Slice":
		p := args[0]
		n := w.concInt(args[1])
		if p.p == nil {
			return V{}
		}
		return mkSlice(p.p.(*Obj), int(p.n), n, n)
	case "SliceData":
		s := args[0]
		if s.p == nil {
			return V{}
		}
		return V{uint64(sliceOff(s)), s.p}
	case "ssa:wrapnilchk":
		if args[0].p == nil {
			w.throwRuntime("invalid memory address or nil pointer dereference")
		}
		return args[0]
	}
	unsupported("builtin %s on %s", name, t.t)
	return V{}
}

func (w *W) recover() V {
	n := len(w.stack)
	if n >= 2 && w.stack[n-1].isDefer {
		fr := w.stack[n-2]
		if fr.panicking != nil && !fr.panicking.recovered {
			v := fr.panicking.val
			fr.panicking = &panicState{val: v, recovered: true}
			return v
		}
	}
	return V{}
}

func (w *W) objString(o *Obj, off, n int) V {
	b := make([]byte, n)
	var s []*Term
	for i := 0; i < n; i++ {
		x := o.s[off+i]
		switch p := x.p.(type) {
		case nil:
			b[i] = byte(x.n)
		case *Term:
			if s == nil {
				s = make([]*Term, n)
			}
			s[i] = p
		default:
			unsupported("string of %T", x.p)
		}
	}
	return mkBytes(b, s)
}

func (w *W) bytesObj(s V) *Obj {
	n := strLen(s)
	o := w.newObj(w.prog.byteT(w), n)
	for i := 0; i < n; i++ {
		o.s[i] = strAt(s, i)
	}
	return o
}

func growCap(old, need int) int {
	c := old * 2
	if old >= 256 {
		c = old + (old+768)/4
	}
	if c < need {
		c = need
	}
	// sizes of allocations are rounded up.
	if c < 8 {
		return max(need, c)
	}
	return 1 << bits.Len(uint(c-1))
}

func (w *W) appendBuiltin(t *TInfo, x, y V, rt *TInfo) V {
	e := rt.elem
	n, c := 0, 0
	if x.p != nil {
		n, c = sliceLen(x), sliceCap(x)
	}
	var src []V
	m := 0
	if y.p != nil {
		if s, ok := y.p.(*Str); ok {
			_ = s
			m = strLen(y)
			src = make([]V, m)
			for i := range src {
				src[i] = strAt(y, i)
			}
		} else {
			m = sliceLen(y)
			o := y.p.(*Obj)
			off := sliceOff(y)
			src = append([]V(nil), o.s[off:off+m*e.n]...)
		}
	}
	if m == 0 {
		return x
	}
	if n+m <= c {
		o := x.p.(*Obj)
		off := sliceOff(x) + n*e.n
		for i, v := range src {
			w.store(o, off+i, v)
		}
		return mkSlice(o, sliceOff(x), n+m, c)
	}
	nc := growCap(c, n+m)
	o := w.newObj(e, nc*e.n)
	if x.p != nil {
		off := sliceOff(x)
		copy(o.s, x.p.(*Obj).s[off:off+n*e.n])
	}
	copy(o.s[n*e.n:], src)
	return mkSlice(o, 0, n+m, nc)
}

func (w *W) copyBuiltin(t *TInfo, x, y V) V {
	if x.p == nil || y.p == nil {
		return V{}
	}
	o := x.p.(*Obj)
	n := sliceLen(x)
	var src []V
	if _, ok := y.p.(*Str); ok {
		n = min(n, strLen(y))
		for i := 0; i < n; i++ {
			src = append(src, strAt(y, i))
		}
	} else {
		n = min(n, sliceLen(y))
		off := sliceOff(y)
		src = append([]V(nil), y.p.(*Obj).s[off:off+n*t.elem.n]...)
	}
	off := sliceOff(x)
	for i, v := range src {
		w.store(o, off+i, v)
	}
	return mkInt(n)
}

func (w *W) describe(v V) string {
	switch p := v.p.(type) {
	case *Iface:
		switch p.t.kind {
		case KString:
			return fmt.Sprintf("%s(%q)", p.t.t, goStr(p.v))
		case KPtr:
			if o, ok := p.v.p.(*Obj); ok && len(o.s) > 0 {
				if _, ok := o.s[p.v.n].p.(*Str); ok {
					return fmt.Sprintf("%s(%q)", p.t.t, goStr(o.s[p.v.n]))
				}
			}
		}
		return p.t.t.String()
	}
	return fmt.Sprintf("%v", v.p)
}

// deepEqual is reflect.DeepEqual of two values of the type.
func (w *W) deepEqual(t *TInfo, x, y V, depth int) *Term {
	ts := w.ts
	if depth > 20 {
		unsupported("deep equality of a deep value")
	}
	switch t.kind {
	case KPtr:
		if x == y {
			return ts.T
		}
		if x.p == nil || y.p == nil {
			return ts.F
		}
		e := w.ty.Of(t.t.Underlying().(*types.Pointer).Elem())
		return w.deepEqual(e, w.loadT(x, e), w.loadT(y, e), depth+1)
	case KSlice:
		if (x.p == nil) != (y.p == nil) {
			return ts.F
		}
		if x.p == nil {
			return ts.T
		}
		n := sliceLen(x)
		if n != sliceLen(y) {
			return ts.F
		}
		r := ts.T
		for i := 0; i < n && !r.isFalse(); i++ {
			a := w.loadT(V{uint64(sliceOff(x) + i*t.elem.n), x.p}, t.elem)
			b := w.loadT(V{uint64(sliceOff(y) + i*t.elem.n), y.p}, t.elem)
			r = ts.And(r, w.deepEqual(t.elem, a, b, depth+1))
		}
		return r
	case KMap:
		if (x.p == nil) != (y.p == nil) {
			return ts.F
		}
		if x.p == nil {
			return ts.T
		}
		m, o := w.mapState(x), w.mapState(y)
		if m.live != o.live {
			return ts.F
		}
		r := ts.T
		for i := range m.keys {
			if m.dead[i] {
				continue
			}
			k := w.findKey(t, o, m.keys[i])
			if k < 0 {
				return ts.F
			}
			r = ts.And(r, w.deepEqual(t.elem, m.vals[i], o.vals[k], depth+1))
		}
		return r
	case KFunc:
		return ts.Bool(x.p == nil && y.p == nil)
	case KIface:
		a, ok1 := x.p.(*Iface)
		b, ok2 := y.p.(*Iface)
		if !ok1 || !ok2 {
			return ts.Bool(!ok1 && !ok2)
		}
		if a.t != b.t {
			return ts.F
		}
		return w.deepEqual(a.t, a.v, b.v, depth+1)
	case KStruct:
		r := ts.T
		for i, f := range t.fields {
			r = ts.And(r, w.deepEqual(f, w.sub(x, t.offs[i], f), w.sub(y, t.offs[i], f), depth+1))
			if r.isFalse() {
				break
			}
		}
		return r
	case KArray:
		r := ts.T
		for i := 0; i < t.length && !r.isFalse(); i++ {
			r = ts.And(r, w.deepEqual(t.elem, w.sub(x, i*t.elem.n, t.elem), w.sub(y, i*t.elem.n, t.elem), depth+1))
		}
		return r
	}
	return w.equal(t, x, y)
}
