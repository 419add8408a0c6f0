package main

import "go/types"

// Goroutines run to completion when the execution cannot go on without them:
// at a receive from an empty channel, at (*sync.WaitGroup).Wait and where the
// harness asks for it. That is one of the schedules that are possible.
//
// A channel is an object of three slots: the queue (*Agg), whether it is
// closed, and its capacity. Sends do not block.

func (w *W) goQueue() *Obj {
	if w.goq == nil {
		t := w.ty.Of(types.NewChan(types.SendRecv, types.Typ[types.Int]))
		w.goq = &Obj{s: make([]V, 1), t: t, name: "goroutines"}
	}
	return w.goq
}

// spawn records a goroutine.
func (w *W) spawn(fr *Frame, in *Instr) {
	var f *Func
	var free, args []V
	f, free, args = w.callee(fr, in, nil)
	if f.model != nil {
		f = f.model
	}
	if f.intr != nil {
		unsupported("goroutine of %s", f.name)
	}
	q := w.goQueue()
	var s []V
	if a, ok := q.s[0].p.(*Agg); ok {
		s = append(s, a.s...)
	}
	s = append(s, V{p: &Closure{fn: f, free: free}}, V{p: &Agg{args}})
	w.syncStore(q, 0, V{p: &Agg{s}})
}

// runPending starts a goroutine that has not run; the instruction that
// executes is executed again when it is done.
func (w *W) runPending() bool {
	q := w.goQueue()
	a, ok := q.s[0].p.(*Agg)
	if !ok || len(a.s) == 0 {
		return false
	}
	w.syncStore(q, 0, V{p: &Agg{append([]V(nil), a.s[2:]...)}})
	c := a.s[0].p.(*Closure)
	nf := w.push(c.fn, a.s[1].p.(*Agg).s, c.free)
	nf.isDefer = true
	return true
}

func (w *W) makeChan(t *TInfo, n int) V {
	o := w.newObj(t, 3)
	o.name = "channel"
	o.s[2] = mkInt(n)
	return V{p: o}
}

func chanQueue(o *Obj) []V {
	if a, ok := o.s[0].p.(*Agg); ok {
		return a.s
	}
	return nil
}

func chanObj(v V) *Obj {
	o, ok := v.p.(*Obj)
	if !ok {
		unsupported("channel %T", v.p)
	}
	return o
}

func (w *W) send(ch, v V) {
	o := chanObj(ch)
	if o.s[1].n != 0 {
		panic(goPanic{w.runtimeErrorI("send on closed channel")})
	}
	w.syncStore(o, 0, V{p: &Agg{append(append([]V(nil), chanQueue(o)...), v)}})
}

// recv reports whether a value was received (or the channel is closed).
func (w *W) recv(ch V) (v V, ok, ready bool) {
	if ch.p == nil {
		return
	}
	o := chanObj(ch)
	if q := chanQueue(o); len(q) > 0 {
		w.syncStore(o, 0, V{p: &Agg{append([]V(nil), q[1:]...)}})
		return q[0], true, true
	}
	return V{}, false, o.s[1].n != 0
}

// selectOp executes a select statement; it reports whether a frame was pushed.
func (w *W) selectOp(fr *Frame, in *Instr) (V, bool) {
	n := 0
	for _, s := range in.sel {
		if !s.send {
			n++
		}
	}
	out := &Agg{make([]V, 2+n)}
	k := 0
	for i, s := range in.sel {
		if s.send {
			if ch := fr.get(s.ch); ch.p != nil {
				w.send(ch, fr.get(s.val))
				out.s[0] = mkInt(i)
				return V{p: out}, false
			}
			continue
		}
		if v, ok, ready := w.recv(fr.get(s.ch)); ready {
			out.s[0], out.s[1], out.s[2+k] = mkInt(i), mkBool(ok), v
			return V{p: out}, false
		}
		k++
	}
	if !in.commaOk {
		out.s[0] = V{n: ^uint64(0)}
		return V{p: out}, false
	}
	if w.runPending() {
		return V{}, true
	}
	unsupported("select that blocks")
	return V{}, false
}

type selCase struct {
	send    bool
	ch, val int32
}
