package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Op uint8

const (
	oNop Op = iota
	oAlloc
	oBin
	oCall
	oBuiltin
	oChangeType
	oConvert
	oDefer
	oExtract
	oField
	oFieldAddr
	oIf
	oIndex
	oIndexAddr
	oJump
	oLookup
	oMakeClosure
	oMakeIface
	oMakeMap
	oMakeSlice
	oMapUpdate
	oNext
	oPanic
	oRange
	oReturn
	oRunDefers
	oSlice
	oSliceToArrPtr
	oStore
	oTypeAssert
	oLoad
	oNeg
	oNot
	oCompl
	oGo
	oMakeChan
	oSend
	oRecv
	oSelect
	oUnsupported
)

type Instr struct {
	op      Op
	commaOk bool
	tok     token.Token
	dst     int32
	a, b, c int32
	args    []int32
	t, t2   *TInfo
	k       int
	fn      *Func
	method  *types.Func
	name    string
	pos     token.Pos
	sel     []selCase

	// learning whether the region of a branch can be merged.
	tried, merged int
	noFork        bool
}

type Phi struct {
	dst int32
	in  []int32
	t   *TInfo
}

type Block struct {
	phis  []Phi
	ins   []Instr
	preds []int
	succs []int
}

type intrinsic func(w *W, in *Instr, args []V) (V, bool)

type Func struct {
	fn      *ssa.Function
	name    string
	nregs   int
	regT    []*TInfo
	params  int
	nfree   int
	blocks  []Block
	consts  []V
	constOf map[string]int32
	regOf   map[ssa.Value]int32
	intr    intrinsic
	model   *Func
	built   bool
	ipdom   []int // of each block, -1 being the exit
	liveIn  [][]uint64
	recover int
	entered bool
	inRepo  bool
}

func (w *W) funcOf(fn *ssa.Function) *Func {
	if f := w.funcs[fn]; f != nil {
		return f
	}
	f := &Func{fn: fn, name: fn.String(), recover: -1}
	w.funcs[fn] = f
	f.intr = intrinsics[f.name]
	if f.intr == nil {
		if o := fn.Origin(); o != nil {
			f.intr = intrinsics[o.String()]
		}
	}
	if f.intr == nil && fn.Pkg == w.prog.harness {
		f.intr = intrinsics["harness."+fn.Name()]
	}
	if m := w.prog.models[f.name]; m != nil && m != fn {
		f.model = w.funcOf(m)
	}
	if fn.Pkg != nil {
		p := fn.Pkg.Pkg.Path()
		f.inRepo = strings.HasPrefix(p, modulePath) && fn.Pkg != w.prog.harness
	} else if fn.Origin() != nil || fn.Parent() != nil {
		f.inRepo = strings.Contains(f.name, modulePath) && !strings.Contains(f.name, "zzverif")
	}
	return f
}

const modulePath = "github.com/freerware/negotiator"

func (w *W) ready(f *Func) {
	if !f.built {
		f.built = true
		w.compile(f)
	}
}

type compiler struct {
	w *W
	f *Func
}

func (w *W) compile(f *Func) {
	fn := f.fn
	w.prog.build(fn)
	if fn.Blocks == nil {
		return
	}
	c := &compiler{w, f}
	f.regOf = map[ssa.Value]int32{}
	f.constOf = map[string]int32{}
	reg := func(v ssa.Value) int32 {
		r := int32(f.nregs)
		f.nregs++
		f.regOf[v] = r
		f.regT = append(f.regT, w.ty.Of(v.Type()))
		return r
	}
	for _, p := range fn.Params {
		reg(p)
	}
	f.params = len(fn.Params)
	for _, p := range fn.FreeVars {
		reg(p)
	}
	f.nfree = len(fn.FreeVars)
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				reg(v)
			}
		}
	}
	for _, b := range fn.Blocks {
		var blk Block
		for _, p := range b.Preds {
			blk.preds = append(blk.preds, p.Index)
		}
		for _, s := range b.Succs {
			blk.succs = append(blk.succs, s.Index)
		}
		for _, in := range b.Instrs {
			if p, ok := in.(*ssa.Phi); ok {
				ph := Phi{dst: f.regOf[p], t: w.ty.Of(p.Type())}
				for _, e := range p.Edges {
					ph.in = append(ph.in, c.opnd(e))
				}
				blk.phis = append(blk.phis, ph)
				continue
			}
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			i := c.instr(in)
			i.pos = in.Pos()
			blk.ins = append(blk.ins, i)
		}
		f.blocks = append(f.blocks, blk)
	}
	if fn.Recover != nil {
		f.recover = fn.Recover.Index
	}
}

func (c *compiler) konst(v V) int32 {
	c.f.consts = append(c.f.consts, v)
	return -int32(len(c.f.consts))
}

func (c *compiler) opnd(v ssa.Value) int32 {
	if r, ok := c.f.regOf[v]; ok {
		return r
	}
	switch v := v.(type) {
	case *ssa.Const:
		return c.konst(c.w.constant(v))
	case *ssa.Global:
		return c.konst(V{p: c.w.global(v)})
	case *ssa.Function:
		return c.konst(V{p: &Closure{fn: c.w.funcOf(v)}})
	case *ssa.Builtin:
		return c.konst(V{p: &Closure{bi: v.Name()}})
	}
	panic(fmt.Sprintf("operand %T %v in %v", v, v, c.f.fn))
}

func (w *W) constant(v *ssa.Const) V {
	if v.Value == nil {
		return V{}
	}
	t := w.ty.Of(v.Type())
	switch t.kind {
	case KBool:
		return mkBool(constant.BoolVal(v.Value))
	case KInt:
		if t.signed {
			return V{n: uint64(v.Int64()) & mask(t.w)}
		}
		return V{n: v.Uint64() & mask(t.w)}
	case KFloat:
		f := v.Float64()
		if t.w == 32 {
			f = float64(float32(f))
		}
		return mkFloat(f)
	case KString:
		if v.Value.Kind() == constant.Int {
			return mkStr(string(rune(v.Int64())))
		}
		return mkStr(constant.StringVal(v.Value))
	}
	return V{p: &Poison{"constant of type " + t.t.String()}}
}

func (w *W) global(g *ssa.Global) *Obj {
	if o := w.globals[g]; o != nil {
		return o
	}
	t := w.ty.Of(g.Type().Underlying().(*types.Pointer).Elem())
	o := &Obj{s: make([]V, t.n), t: t, name: g.String()}
	w.globals[g] = o
	w.ensureInit(g.Pkg)
	return o
}

func (c *compiler) instr(in ssa.Instruction) Instr {
	w := c.w
	i := Instr{dst: -1}
	if v, ok := in.(ssa.Value); ok {
		i.dst = c.f.regOf[v]
		i.t = w.ty.Of(v.Type())
	}
	switch in := in.(type) {
	case *ssa.Alloc:
		i.op = oAlloc
		i.t = w.ty.Of(in.Type().Underlying().(*types.Pointer).Elem())
	case *ssa.BinOp:
		i.op, i.tok = oBin, in.Op
		i.a, i.b = c.opnd(in.X), c.opnd(in.Y)
		i.t, i.t2 = w.ty.Of(in.X.Type()), w.ty.Of(in.Y.Type())
		// comparisons of an interface with a concrete type do not occur: go/ssa
		// inserts conversions; nil has the type of the other operand.
		if k, ok := in.X.(*ssa.Const); ok && k.Value == nil {
			i.t = i.t2
		}
	case *ssa.Call:
		c.call(&i, in.Common(), oCall)
	case *ssa.Defer:
		c.call(&i, in.Common(), oDefer)
		if i.op == oBuiltin {
			i.op = oDefer
		}
	case *ssa.Go:
		c.call(&i, in.Common(), oGo)
		if i.op == oBuiltin {
			i.op, i.name = oUnsupported, "goroutine of a builtin"
		}
	case *ssa.MakeChan:
		i.op, i.a = oMakeChan, c.opnd(in.Size)
	case *ssa.Send:
		i.op, i.a, i.b = oSend, c.opnd(in.Chan), c.opnd(in.X)
	case *ssa.Select:
		i.op, i.commaOk = oSelect, in.Blocking
		for _, s := range in.States {
			x := selCase{send: s.Dir == types.SendOnly, ch: c.opnd(s.Chan)}
			i.args = append(i.args, x.ch)
			if x.send {
				x.val = c.opnd(s.Send)
				i.args = append(i.args, x.val)
			}
			i.sel = append(i.sel, x)
		}
	case *ssa.ChangeInterface:
		i.op, i.a = oChangeType, c.opnd(in.X)
	case *ssa.ChangeType:
		i.op, i.a = oChangeType, c.opnd(in.X)
	case *ssa.Convert:
		i.op, i.a = oConvert, c.opnd(in.X)
		i.t2 = w.ty.Of(in.X.Type())
	case *ssa.MultiConvert:
		i.op, i.a = oConvert, c.opnd(in.X)
		i.t2 = w.ty.Of(in.X.Type())
	case *ssa.Extract:
		i.op, i.a, i.k = oExtract, c.opnd(in.Tuple), in.Index
	case *ssa.Field:
		i.op, i.a = oField, c.opnd(in.X)
		st := w.ty.Of(in.X.Type())
		i.k, i.t = st.offs[in.Field], st.fields[in.Field]
	case *ssa.FieldAddr:
		i.op, i.a = oFieldAddr, c.opnd(in.X)
		st := w.ty.Of(in.X.Type().Underlying().(*types.Pointer).Elem())
		i.k = st.offs[in.Field]
	case *ssa.If:
		i.op, i.a = oIf, c.opnd(in.Cond)
	case *ssa.Index:
		i.op, i.a, i.b = oIndex, c.opnd(in.X), c.opnd(in.Index)
		i.t2 = w.ty.Of(in.X.Type())
		it := w.ty.Of(in.Index.Type())
		i.c = int32(it.w)
		if it.signed {
			i.c = -i.c
		}
	case *ssa.IndexAddr:
		i.op, i.a, i.b = oIndexAddr, c.opnd(in.X), c.opnd(in.Index)
		t := in.X.Type().Underlying()
		if p, ok := t.(*types.Pointer); ok {
			i.t2 = w.ty.Of(p.Elem())
		} else {
			i.t2 = w.ty.Of(t)
		}
		it := w.ty.Of(in.Index.Type())
		i.c = int32(it.w)
		if it.signed {
			i.c = -i.c
		}
	case *ssa.Jump:
		i.op = oJump
	case *ssa.Lookup:
		i.op, i.a, i.b = oLookup, c.opnd(in.X), c.opnd(in.Index)
		i.commaOk = in.CommaOk
		i.t2 = w.ty.Of(in.X.Type())
	case *ssa.MakeClosure:
		i.op = oMakeClosure
		i.fn = w.funcOf(in.Fn.(*ssa.Function))
		for _, b := range in.Bindings {
			i.args = append(i.args, c.opnd(b))
		}
	case *ssa.MakeInterface:
		i.op, i.a = oMakeIface, c.opnd(in.X)
		i.t2 = w.ty.Of(in.X.Type())
	case *ssa.MakeMap:
		i.op = oMakeMap
	case *ssa.MakeSlice:
		i.op, i.a, i.b = oMakeSlice, c.opnd(in.Len), c.opnd(in.Cap)
	case *ssa.MapUpdate:
		i.op, i.a, i.b, i.c = oMapUpdate, c.opnd(in.Map), c.opnd(in.Key), c.opnd(in.Value)
		i.t2 = w.ty.Of(in.Map.Type())
	case *ssa.Next:
		i.op, i.a = oNext, c.opnd(in.Iter)
		i.commaOk = in.IsString
	case *ssa.Panic:
		i.op, i.a = oPanic, c.opnd(in.X)
	case *ssa.Range:
		i.op, i.a = oRange, c.opnd(in.X)
		i.t2 = w.ty.Of(in.X.Type())
	case *ssa.Return:
		i.op = oReturn
		for _, r := range in.Results {
			i.args = append(i.args, c.opnd(r))
		}
	case *ssa.RunDefers:
		i.op = oRunDefers
	case *ssa.Slice:
		i.op, i.a = oSlice, c.opnd(in.X)
		i.t2 = w.ty.Of(in.X.Type())
		o := func(v ssa.Value) int32 {
			if v == nil {
				return 1 << 30
			}
			return c.opnd(v)
		}
		i.args = []int32{o(in.Low), o(in.High), o(in.Max)}
	case *ssa.SliceToArrayPointer:
		i.op, i.a = oSliceToArrPtr, c.opnd(in.X)
	case *ssa.Store:
		i.op, i.a, i.b = oStore, c.opnd(in.Addr), c.opnd(in.Val)
		i.t = w.ty.Of(in.Val.Type())
	case *ssa.TypeAssert:
		i.op, i.a = oTypeAssert, c.opnd(in.X)
		i.commaOk = in.CommaOk
		i.t2 = w.ty.Of(in.AssertedType)
	case *ssa.UnOp:
		i.a = c.opnd(in.X)
		i.t2 = w.ty.Of(in.X.Type())
		switch in.Op {
		case token.MUL:
			i.op = oLoad
		case token.NOT:
			i.op = oNot
		case token.SUB:
			i.op = oNeg
		case token.XOR:
			i.op = oCompl
		case token.ARROW:
			i.op, i.commaOk = oRecv, in.CommaOk
		default:
			i.op, i.name = oUnsupported, "operation "+in.Op.String()
		}
	default:
		i.op, i.name = oUnsupported, fmt.Sprintf("instruction %T", in)
	}
	return i
}

func (c *compiler) call(i *Instr, cc *ssa.CallCommon, op Op) {
	i.op = op
	if cc.IsInvoke() {
		i.method = cc.Method
		i.a = c.opnd(cc.Value)
	} else {
		switch v := cc.Value.(type) {
		case *ssa.Function:
			i.fn = c.w.funcOf(v)
		case *ssa.Builtin:
			i.op = oBuiltin
			i.name = v.Name()
			if len(cc.Args) > 0 {
				i.t2 = c.w.ty.Of(cc.Args[0].Type())
			}
			i.a = c.opnd(v)
		default:
			i.a = c.opnd(v)
		}
	}
	for _, a := range cc.Args {
		i.args = append(i.args, c.opnd(a))
	}
	if op == oDefer {
		i.dst = -1
	}
	_ = strings.TrimSpace
}

// analyse computes the immediate postdominators of the blocks. Blocks that
// panic are disregarded, since they leave the function otherwise.
func (f *Func) analyse() {
	if f.ipdom != nil {
		return
	}
	n := len(f.blocks)
	exit := n
	succs := make([][]int, n+1)
	for i := range f.blocks {
		b := &f.blocks[i]
		succs[i] = b.succs
		if len(b.succs) == 0 {
			if len(b.ins) > 0 && b.ins[len(b.ins)-1].op == oReturn {
				succs[i] = []int{exit}
			}
		}
	}
	// sets of postdominators, by iteration.
	words := (n + 64) / 64
	full := make([]uint64, words)
	for i := 0; i <= n; i++ {
		full[i/64] |= 1 << (i % 64)
	}
	pd := make([][]uint64, n+1)
	for i := range pd {
		pd[i] = append([]uint64(nil), full...)
	}
	pd[exit] = make([]uint64, words)
	pd[exit][exit/64] |= 1 << (exit % 64)
	for changed := true; changed; {
		changed = false
		for i := n - 1; i >= 0; i-- {
			if len(succs[i]) == 0 {
				continue // stays full: panics
			}
			x := append([]uint64(nil), full...)
			for _, s := range succs[i] {
				for k := range x {
					x[k] &= pd[s][k]
				}
			}
			x[i/64] |= 1 << (i % 64)
			for k := range x {
				if x[k] != pd[i][k] {
					changed = true
				}
			}
			pd[i] = x
		}
	}
	has := func(s []uint64, i int) bool { return s[i/64]>>(i%64)&1 == 1 }
	count := func(s []uint64) int {
		c := 0
		for i := 0; i <= n; i++ {
			if has(s, i) {
				c++
			}
		}
		return c
	}
	f.ipdom = make([]int, n)
	for i := 0; i < n; i++ {
		f.ipdom[i] = -1
		best := -1
		for j := 0; j < n; j++ {
			if j != i && has(pd[i], j) {
				if c := count(pd[j]); c > best {
					best = c
					f.ipdom[i] = j
				}
			}
		}
		if len(succs[i]) == 0 {
			f.ipdom[i] = -1
		}
	}
	// liveness.
	rw := (f.nregs + 63) / 64
	f.liveIn = make([][]uint64, n)
	for i := range f.liveIn {
		f.liveIn[i] = make([]uint64, rw)
	}
	use := func(s []uint64, o int32) {
		if o >= 0 && o < 1<<30 {
			s[o/64] |= 1 << (o % 64)
		}
	}
	for changed := true; changed; {
		changed = false
		for i := n - 1; i >= 0; i-- {
			b := &f.blocks[i]
			s := make([]uint64, rw)
			for _, q := range b.succs {
				for k := range s {
					s[k] |= f.liveIn[q][k]
				}
				sb := &f.blocks[q]
				for _, ph := range sb.phis {
					s[ph.dst/64] &^= 1 << (ph.dst % 64)
				}
				for pi, p := range sb.preds {
					if p == i {
						for _, ph := range sb.phis {
							use(s, ph.in[pi])
						}
					}
				}
			}
			for k := len(b.ins) - 1; k >= 0; k-- {
				in := &b.ins[k]
				if in.dst >= 0 {
					s[in.dst/64] &^= 1 << (in.dst % 64)
				}
				in.uses(func(o int32) { use(s, o) })
			}
			// the destinations of phis are live after they have been evaluated.
			for k := range s {
				if s[k] != f.liveIn[i][k] {
					changed = true
				}
			}
			f.liveIn[i] = s
		}
	}
}

func (in *Instr) uses(use func(int32)) {
	switch in.op {
	case oAlloc, oJump, oRunDefers, oMakeMap, oNop, oSelect:
	case oCall, oDefer, oGo:
		if in.fn == nil {
			use(in.a)
		}
	case oBuiltin, oReturn, oMakeClosure:
	case oBin, oIndex, oIndexAddr, oLookup, oMakeSlice, oStore, oSend:
		use(in.a)
		use(in.b)
	case oMapUpdate:
		use(in.a)
		use(in.b)
		use(in.c)
	default:
		use(in.a)
	}
	for _, a := range in.args {
		use(a)
	}
}
