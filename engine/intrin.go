package main

import (
	"bytes"
	"math"
	"strconv"
	"strings"
)

// intrinsics are the functions that are executed by the engine itself, by their
// full name: runtime primitives, assembly, and functions whose effect on
// symbolic values is determined here.
var intrinsics = map[string]intrinsic{}

// modelNames are the functions that are replaced by a function of the harness
// package that has the same effect.
var modelNames = map[string]string{
	"fmt.Sprintf":              "modelSprintf",
	"fmt.Errorf":               "modelErrorf",
	"fmt.Sprint":               "modelSprint",
	"fmt.Sprintln":             "modelSprintln",
	"fmt.Fprintf":              "modelFprintf",
	"fmt.Fprint":               "modelFprint",
	"fmt.Fprintln":             "modelFprintln",
	"errors.Is":                "modelErrorsIs",
	"errors.As":                "modelErrorsAs",
	"strconv.ParseFloat":       "modelParseFloat",
	"strconv.AppendFloat":      "modelAppendFloat",
	"encoding/json.Marshal":    "modelJSONMarshal",
	"encoding/xml.Marshal":     "modelXMLMarshal",
	"gopkg.in/yaml.v2.Marshal": "modelYAMLMarshal",

	"encoding/json.Unmarshal":    "modelJSONUnmarshal",
	"encoding/xml.Unmarshal":     "modelXMLUnmarshal",
	"gopkg.in/yaml.v2.Unmarshal": "modelYAMLUnmarshal",

	"hash/crc32.Update": "modelCRC32",
	"hash/crc32.update": "modelCRC32update",
	"(*sync.Once).Do":   "modelOnceDo",

	"context.WithValue": "modelContextWithValue",

	"(*sync.Pool).Get":             "modelSyncPoolGet",
	"(*sync.Pool).Put":             "modelSyncPoolPut",
	"(*sync.Map).Load":             "modelSyncMapLoad",
	"(*sync.Map).Store":            "modelSyncMapStore",
	"(*sync.Map).LoadOrStore":      "modelSyncMapLoadOrStore",
	"(*sync.Map).LoadAndDelete":    "modelSyncMapLoadAndDelete",
	"(*sync.Map).Delete":           "modelSyncMapDelete",
	"(*sync.Map).Swap":             "modelSyncMapSwap",
	"(*sync.Map).CompareAndSwap":   "modelSyncMapCompareAndSwap",
	"(*sync.Map).CompareAndDelete": "modelSyncMapCompareAndDelete",
	"(*sync.Map).Range":            "modelSyncMapRange",
	"(*sync.Map).Clear":            "modelSyncMapClear",

	"github.com/uber-go/tally.NewRootScope": "modelRootScope",
}

// skipInit are the packages whose variables are not initialised.
var skipInit = map[string]bool{
	"runtime": true, "os": true, "syscall": true, "internal/poll": true, "internal/godebug": true,
	"internal/cpu": true, "reflect": false, "time": false, "net": true, "crypto/tls": true,
}

func concAll(args []V) bool {
	for _, a := range args {
		switch a.p.(type) {
		case nil:
		case *Str:
			if !strConcrete(a) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// asciiMap applies a function of bytes to a string, all of whose symbolic
// bytes are ASCII.
func (w *W) asciiMap(s V, f func(b byte) byte, native func(string) string) (V, bool) {
	if strConcrete(s) {
		return mkStr(native(goStr(s))), true
	}
	b, sy := strParts(s)
	nb := make([]byte, len(b))
	ns := make([]*Term, len(b))
	for i := range b {
		if sy[i] == nil {
			if b[i] >= 0x80 {
				return V{}, false
			}
			nb[i] = f(b[i])
			continue
		}
		t := sy[i]
		if !w.decide(w.ts.Ult(t, w.ts.Const(0x80, 8))) {
			return V{}, false
		}
		x := w.mapByte(t, f)
		if x.isConst() {
			nb[i] = byte(x.val)
		} else {
			ns[i] = x
		}
	}
	return mkBytes(nb, ns), true
}

func (w *W) mapByte(t *Term, f func(b byte) byte) *Term {
	if t.tab != nil {
		tab := make([]uint64, 256)
		for i := range tab {
			tab[i] = uint64(f(byte(t.tab[i])))
		}
		return w.ts.Table(w.ts.vars[t.vars[0]], tab, 8)
	}
	if t.op == TIte {
		return w.ts.Ite(t.a, w.mapByte(t.b, f), w.mapByte(t.c, f))
	}
	if t.isConst() {
		return w.ts.Const(uint64(f(byte(t.val))), 8)
	}
	// ranges of equal displacement.
	r := w.ts.Const(uint64(f(0)), 8)
	for lo := 0; lo < 256; {
		d := f(byte(lo)) - byte(lo)
		hi := lo
		for hi+1 < 256 && f(byte(hi+1))-byte(hi+1) == d {
			hi++
		}
		in := w.ts.And(w.ts.Ule(w.ts.Const(uint64(lo), 8), t), w.ts.Ule(t, w.ts.Const(uint64(hi), 8)))
		r = w.ts.Ite(in, w.ts.Bin(TAdd, t, w.ts.Const(uint64(d), 8)), r)
		lo = hi + 1
	}
	return r
}

func lowerByte(b byte) byte {
	if 'A' <= b && b <= 'Z' {
		return b + 32
	}
	return b
}

func upperByte(b byte) byte {
	if 'a' <= b && b <= 'z' {
		return b - 32
	}
	return b
}

func (w *W) sliceStr(v V) V {
	if v.p == nil {
		return V{}
	}
	return w.objString(v.p.(*Obj), sliceOff(v), sliceLen(v))
}

func (w *W) bytesOf(v V) V {
	o := w.bytesObj(v)
	n := strLen(v)
	return mkSlice(o, 0, n, n)
}

func (w *W) indexByte(s V, c V) V {
	n := strLen(s)
	if strConcrete(s) && c.p == nil {
		return V{n: uint64(int64(strings.IndexByte(goStr(s), byte(c.n))))}
	}
	b, sy := strParts(s)
	ct := w.term(c, 8)
	for i := 0; i < n; i++ {
		if w.decide(w.ts.Eq(w.byteTerm(b, sy, i), ct)) {
			return mkInt(i)
		}
	}
	return V{n: ^uint64(0)}
}

func (w *W) lastIndexByte(s V, c V) V {
	b, sy := strParts(s)
	ct := w.term(c, 8)
	for i := strLen(s) - 1; i >= 0; i-- {
		if w.decide(w.ts.Eq(w.byteTerm(b, sy, i), ct)) {
			return mkInt(i)
		}
	}
	return V{n: ^uint64(0)}
}

func (w *W) countByte(s V, c V) V {
	b, sy := strParts(s)
	ct := w.term(c, 8)
	k := 0
	for i := 0; i < strLen(s); i++ {
		if w.decide(w.ts.Eq(w.byteTerm(b, sy, i), ct)) {
			k++
		}
	}
	return mkInt(k)
}

func (w *W) indexStr(s, sub V) V {
	n, m := strLen(s), strLen(sub)
	for i := 0; i+m <= n; i++ {
		if w.decide(w.strEq(strSlice(s, i, i+m), sub)) {
			return mkInt(i)
		}
	}
	return V{n: ^uint64(0)}
}

func (w *W) compareStr(a, b V) V {
	if w.decide(w.strEq(a, b)) {
		return V{}
	}
	if w.decide(w.strLess(a, b, false)) {
		return V{n: ^uint64(0)}
	}
	return mkInt(1)
}

// nativeFunc is a function value implemented by the engine.
func nativeFunc(name string, f intrinsic, free ...V) V {
	return V{p: &Closure{fn: &Func{name: name, intr: f, recover: -1, built: true}, free: free}}
}

func (w *W) field(t *TInfo, name string) (int, *TInfo) {
	for i := 0; i < t.st.NumFields(); i++ {
		if t.st.Field(i).Name() == name {
			return t.offs[i], t.fields[i]
		}
	}
	unsupported("field %s of %s", name, t.t)
	return 0, nil
}

func init() {
	reg := func(f intrinsic, names ...string) {
		for _, n := range names {
			intrinsics[n] = f
		}
	}
	nop := func(w *W, in *Instr, a []V) (V, bool) { return V{}, false }
	yes := func(w *W, in *Instr, a []V) (V, bool) { return mkBool(true), false }
	first := func(w *W, in *Instr, a []V) (V, bool) { return a[0], false }

	// memory.
	reg(first, "internal/abi.NoEscape", "internal/abi.Escape", "strings.noescape", "reflect.noescape", "internal/bytealg.noescape", "internal/reflectlite.noescape")
	reg(nop, "runtime.KeepAlive", "runtime.SetFinalizer", "runtime.GC", "runtime.Gosched", "runtime/debug.SetGCPercent",
		"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock",
		"(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock", "(*internal/sync.Mutex).Lock", "(*internal/sync.Mutex).Unlock",
		"(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done",
		"(*internal/godebug.Setting).IncNonDefault", "internal/godebug.registerMetric", "(*internal/godebug.Setting).register",
		"internal/race.Acquire", "internal/race.Release", "internal/race.ReleaseMerge", "internal/race.Disable", "internal/race.Enable",
		"time.registerLoadFromEmbeddedTZData", "internal/runtime/sys.EnableDIT", "runtime_registerPoolCleanup", "sync.runtime_registerPoolCleanup")
	reg(yes, "(*sync.Mutex).TryLock")
	reg(func(w *W, in *Instr, a []V) (V, bool) { return V{}, false }, "(*internal/godebug.Setting).Value", "os.Getenv", "time.Since", "time.runtimeNano", "time.Now", "runtime.NumGoroutine")
	reg(func(w *W, in *Instr, a []V) (V, bool) { return mkInt(8), false }, "runtime.GOMAXPROCS", "runtime.NumCPU")
	reg(func(w *W, in *Instr, a []V) (V, bool) {
		return V{p: w.newObj(w.ty.Of(in.t.elem.t), in.t.elem.n)}, false
	}, "internal/godebug.New")
	reg(func(w *W, in *Instr, a []V) (V, bool) { return V{}, w.runPending() }, "(*sync.WaitGroup).Wait")
	reg(func(w *W, in *Instr, a []V) (V, bool) {
		x, ok := a[0].p.(*Iface)
		if !ok || x.v.p == nil {
			return a[0], false
		}
		o := w.newObj(x.v.p.(*Obj).t, 1)
		m := w.mapState(x.v).clone()
		m.birth = w.epoch
		o.s[0] = V{p: m}
		return V{p: &Iface{x.t, V{p: o}}}, false
	}, "maps.clone")

	reg(func(w *W, in *Instr, a []V) (V, bool) {
		x, ok1 := a[0].p.(*Iface)
		y, ok2 := a[1].p.(*Iface)
		if !ok1 || !ok2 {
			return mkBool(!ok1 && !ok2), false
		}
		if x.t != y.t {
			return mkBool(false), false
		}
		return mkTerm(w.deepEqual(x.t, x.v, y.v, 0)), false
	}, "reflect.DeepEqual")

	// atomics.
	load := func(w *W, in *Instr, a []V) (V, bool) {
		if a[0].p == nil {
			w.throwRuntime("invalid memory address or nil pointer dereference")
		}
		return a[0].p.(*Obj).s[a[0].n], false
	}
	store := func(w *W, in *Instr, a []V) (V, bool) {
		w.syncStore(a[0].p.(*Obj), int(a[0].n), a[1])
		return V{}, false
	}
	swap := func(w *W, in *Instr, a []V) (V, bool) {
		o, i := a[0].p.(*Obj), int(a[0].n)
		v := o.s[i]
		w.syncStore(o, i, a[1])
		return v, false
	}
	cas := func(w *W, in *Instr, a []V) (V, bool) {
		o, i := a[0].p.(*Obj), int(a[0].n)
		if !sameV(o.s[i], a[1]) {
			return V{}, false
		}
		w.syncStore(o, i, a[2])
		return mkBool(true), false
	}
	add := func(width uint8) intrinsic {
		return func(w *W, in *Instr, a []V) (V, bool) {
			o, i := a[0].p.(*Obj), int(a[0].n)
			v := V{n: (o.s[i].n + a[1].n) & mask(width)}
			w.syncStore(o, i, v)
			return v, false
		}
	}
	for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		reg(load, "sync/atomic.Load"+t)
		reg(store, "sync/atomic.Store"+t)
		reg(swap, "sync/atomic.Swap"+t)
		reg(cas, "sync/atomic.CompareAndSwap"+t)
		wd := uint8(64)
		if strings.HasSuffix(t, "32") {
			wd = 32
		}
		reg(add(wd), "sync/atomic.Add"+t)
	}
	reg(func(w *W, in *Instr, a []V) (V, bool) { return a[0].p.(*Obj).s[a[0].n], false }, "(*sync/atomic.Value).Load")
	reg(store, "(*sync/atomic.Value).Store")
	reg(load, "internal/runtime/atomic.Load", "internal/runtime/atomic.Load8", "internal/runtime/atomic.Load64")

	// bytes and strings.
	reg(func(w *W, in *Instr, a []V) (V, bool) { return w.indexByte(a[0], a[1]), false }, "internal/bytealg.IndexByteString", "strings.IndexByte", "internal/stringslite.IndexByte")
	reg(func(w *W, in *Instr, a []V) (V, bool) { return w.indexByte(w.sliceStr(a[0]), a[1]), false }, "internal/bytealg.IndexByte")
	reg(func(w *W, in *Instr, a []V) (V, bool) { return w.lastIndexByte(a[0], a[1]), false }, "internal/bytealg.LastIndexByteString", "strings.LastIndexByte")
	reg(func(w *W, in *Instr, a []V) (V, bool) { return w.lastIndexByte(w.sliceStr(a[0]), a[1]), false }, "internal/bytealg.LastIndexByte")
	reg(func(w *W, in *Instr, a []V) (V, bool) { return w.countByte(a[0], a[1]), false }, "internal/bytealg.CountString")
	reg(func(w *W, in *Instr, a []V) (V, bool) { return w.countByte(w.sliceStr(a[0]), a[1]), false }, "internal/bytealg.Count")
	reg(func(w *W, in *Instr, a []V) (V, bool) { return w.indexStr(a[0], a[1]), false }, "internal/bytealg.IndexString", "strings.Index", "internal/stringslite.Index")
	reg(func(w *W, in *Instr, a []V) (V, bool) { return w.indexStr(w.sliceStr(a[0]), w.sliceStr(a[1])), false }, "internal/bytealg.Index", "bytes.Index")
	reg(func(w *W, in *Instr, a []V) (V, bool) { return w.compareStr(a[0], a[1]), false }, "internal/bytealg.CompareString", "strings.Compare")
	reg(func(w *W, in *Instr, a []V) (V, bool) { return w.compareStr(w.sliceStr(a[0]), w.sliceStr(a[1])), false }, "internal/bytealg.Compare", "bytes.Compare")
	reg(func(w *W, in *Instr, a []V) (V, bool) {
		return mkTerm(w.strEq(w.sliceStr(a[0]), w.sliceStr(a[1]))), false
	}, "bytes.Equal", "internal/bytealg.Equal")
	reg(func(w *W, in *Instr, a []V) (V, bool) {
		n := w.concInt(a[0])
		return mkSlice(w.newObj(w.prog.byteT(w), n), 0, n, n), false
	}, "internal/bytealg.MakeNoZero")
	reg(first, "strings.Clone", "internal/stringslite.Clone")
	reg(func(w *W, in *Instr, a []V) (V, bool) {
		if v, ok := w.asciiMap(a[0], lowerByte, strings.ToLower); ok {
			return v, false
		}
		w.stepInto(in, "strings.ToLower", a)
		return V{}, true
	}, "strings.ToLower")
	reg(func(w *W, in *Instr, a []V) (V, bool) {
		if v, ok := w.asciiMap(a[0], upperByte, strings.ToUpper); ok {
			return v, false
		}
		w.stepInto(in, "strings.ToUpper", a)
		return V{}, true
	}, "strings.ToUpper")
	reg(func(w *W, in *Instr, a []V) (V, bool) {
		if strConcrete(a[0]) && strConcrete(a[1]) {
			return mkBool(strings.EqualFold(goStr(a[0]), goStr(a[1]))), false
		}
		x, ok1 := w.asciiMap(a[0], lowerByte, strings.ToLower)
		y, ok2 := w.asciiMap(a[1], lowerByte, strings.ToLower)
		ascii := func(v V) bool {
			b, sy := strParts(v)
			for i := range b {
				if (sy == nil || sy[i] == nil) && b[i] >= 0x80 {
					return false
				}
			}
			return true
		}
		if ok1 && ok2 && ascii(a[0]) && ascii(a[1]) {
			return mkTerm(w.strEq(x, y)), false
		}
		w.stepInto(in, "strings.EqualFold", a)
		return V{}, true
	}, "strings.EqualFold")
	reg(func(w *W, in *Instr, a []V) (V, bool) {
		return mkBool(true), false
	}, "unique.registerCleanup")

	// numbers.
	fmap := func(f func(float64) float64) intrinsic {
		return func(w *W, in *Instr, a []V) (V, bool) { return w.floatMap(a[0], f), false }
	}
	fmap2 := func(f func(a, b float64) float64) intrinsic {
		return func(w *W, in *Instr, a []V) (V, bool) { return w.floatOp2(a[0], a[1], f), false }
	}
	reg(fmap(math.Round), "math.Round")
	reg(fmap(math.RoundToEven), "math.RoundToEven")
	reg(fmap(math.Floor), "math.Floor")
	reg(fmap(math.Ceil), "math.Ceil")
	reg(fmap(math.Trunc), "math.Trunc")
	reg(fmap(math.Abs), "math.Abs")
	reg(fmap(math.Sqrt), "math.Sqrt")
	reg(fmap(math.Log10), "math.Log10")
	reg(fmap2(math.Pow), "math.Pow")
	reg(fmap2(math.Max), "math.Max")
	reg(fmap2(math.Min), "math.Min")
	reg(fmap2(math.Mod), "math.Mod")
	reg(func(w *W, in *Instr, a []V) (V, bool) {
		if a[0].p != nil {
			unsupported("Pow10 of a symbolic value")
		}
		return mkFloat(math.Pow10(int(int64(a[0].n)))), false
	}, "math.Pow10")
	reg(func(w *W, in *Instr, a []V) (V, bool) {
		return mkTerm(w.floatPred(a[0], func(f float64) bool { return f != f })), false
	}, "math.IsNaN")
	reg(func(w *W, in *Instr, a []V) (V, bool) {
		s := w.concInt(a[1])
		return mkTerm(w.floatPred(a[0], func(f float64) bool { return math.IsInf(f, s) })), false
	}, "math.IsInf")
	reg(func(w *W, in *Instr, a []V) (V, bool) {
		return mkTerm(w.floatPred(a[0], math.Signbit)), false
	}, "math.Signbit")
	reg(func(w *W, in *Instr, a []V) (V, bool) { return w.floatBits(a[0], 64), false }, "math.Float64bits")
	reg(func(w *W, in *Instr, a []V) (V, bool) { return w.floatBits(a[0], 32), false }, "math.Float32bits")
	reg(func(w *W, in *Instr, a []V) (V, bool) {
		if a[0].p != nil {
			unsupported("Float64frombits of a symbolic value")
		}
		return V{n: a[0].n}, false
	}, "math.Float64frombits")
	reg(func(w *W, in *Instr, a []V) (V, bool) {
		if a[0].p != nil {
			unsupported("Float32frombits of a symbolic value")
		}
		return mkFloat(float64(math.Float32frombits(uint32(a[0].n)))), false
	}, "math.Float32frombits")
	reg(func(w *W, in *Instr, a []V) (V, bool) {
		return w.formatFloat(a[0], byte(a[1].n), w.concInt(a[2]), w.concInt(a[3])), false
	}, "strconv.FormatFloat")
	reg(func(w *W, in *Instr, a []V) (V, bool) {
		if a[0].p == nil && a[1].p == nil {
			return mkStr(strconv.FormatInt(int64(a[0].n), int(a[1].n))), false
		}
		w.stepInto(in, "strconv.FormatInt", a)
		return V{}, true
	}, "strconv.FormatInt")
	reg(func(w *W, in *Instr, a []V) (V, bool) {
		if a[0].p == nil {
			return mkStr(strconv.Itoa(int(int64(a[0].n)))), false
		}
		w.stepInto(in, "strconv.Itoa", a)
		return V{}, true
	}, "strconv.Itoa")

	// sorting.
	reg(func(w *W, in *Instr, a []V) (V, bool) {
		x := a[0].p.(*Iface)
		return nativeFunc("swapper", func(w *W, in *Instr, b []V) (V, bool) {
			s := b[2]
			i, j := w.concInt(b[0]), w.concInt(b[1])
			if s.p == nil || i >= sliceLen(s) || j >= sliceLen(s) || i < 0 || j < 0 {
				w.throwRuntime("reflect: slice index out of range")
			}
			o, off, n := s.p.(*Obj), sliceOff(s), x.t.elem.n
			for k := 0; k < n; k++ {
				p, q := o.s[off+i*n+k], o.s[off+j*n+k]
				w.store(o, off+i*n+k, q)
				w.store(o, off+j*n+k, p)
			}
			return V{}, false
		}, x.v), false
	}, "internal/reflectlite.Swapper")
	reg(func(w *W, in *Instr, a []V) (V, bool) {
		return V{p: &Agg{[]V{{}, a[0], {}}}}, false
	}, "internal/reflectlite.ValueOf")
	reg(func(w *W, in *Instr, a []V) (V, bool) {
		x := a[0].p.(*Agg).s[1].p.(*Iface)
		switch x.t.kind {
		case KSlice:
			if x.v.p == nil {
				return V{}, false
			}
			return mkInt(sliceLen(x.v)), false
		case KString:
			return mkInt(strLen(x.v)), false
		}
		unsupported("length of %s", x.t.t)
		return V{}, false
	}, "(internal/reflectlite.Value).Len")

	_ = bytes.Equal

	prims(reg)
}

// stepInto executes the body of a function that has an intrinsic.
func (w *W) stepInto(in *Instr, name string, args []V) {
	f := w.bodies[name]
	if f == nil {
		i := strings.LastIndex(name, ".")
		fn := w.prog.funcByName(name[:i], name[i+1:])
		if fn == nil {
			unsupported("body of %s", name)
		}
		f = &Func{fn: fn, name: name, recover: -1}
		w.bodies[name] = f
	}
	w.push(f, args, nil)
}

func (w *W) floatPred(x V, f func(float64) bool) *Term {
	if x.p == nil {
		return w.ts.Bool(f(x.float()))
	}
	t := tabOf(x)
	vars, doms, n := w.layout(maxTab, t.vars)
	ti := t.indexer(vars, doms)
	vals := make([]bool, n)
	odometer(doms, func(idx int, pos []int) { vals[idx] = f(ti(pos)) })
	return w.boolTable(vars, doms, vals)
}

func (w *W) floatBits(x V, width uint8) V {
	bits := func(f float64) uint64 {
		if width == 32 {
			return uint64(math.Float32bits(float32(f)))
		}
		return math.Float64bits(f)
	}
	if x.p == nil {
		return V{n: bits(x.float())}
	}
	t := tabOf(x)
	vars, doms, n := w.layout(maxTab, t.vars)
	ti := t.indexer(vars, doms)
	vals := make([]uint64, n)
	odometer(doms, func(idx int, pos []int) { vals[idx] = bits(ti(pos)) })
	return mkTerm(w.bvTable(vars, doms, vals, width))
}

// kinds of values, as known to the model of fmt.
const (
	pkNil = iota
	pkBool
	pkInt
	pkUint
	pkFloat32
	pkFloat64
	pkString
	pkSlice
	pkMap
	pkPtr
	pkStruct
	pkFunc
	pkOther
	pkBytes
)

// prims are the primitives of the models.
func prims(reg func(f intrinsic, names ...string)) {
	h := func(name string, f func(w *W, a []V) V) {
		reg(func(w *W, in *Instr, a []V) (V, bool) { return f(w, a), false }, "harness."+name)
	}
	iface := func(v V) *Iface {
		if v.p == nil {
			return nil
		}
		x, ok := v.p.(*Iface)
		if !ok {
			unsupported("primitive on %T", v.p)
		}
		return x
	}
	wrap := func(t *TInfo, v V) V {
		if t.kind == KIface {
			return v
		}
		return V{p: &Iface{t, v}}
	}
	h("primKind", func(w *W, a []V) V {
		x := iface(a[0])
		if x == nil {
			return mkInt(pkNil)
		}
		k := pkOther
		switch x.t.kind {
		case KBool:
			k = pkBool
		case KInt:
			k = pkUint
			if x.t.signed {
				k = pkInt
			}
		case KFloat:
			k = pkFloat64
			if x.t.w == 32 {
				k = pkFloat32
			}
		case KString:
			k = pkString
		case KSlice, KArray:
			k = pkSlice
			if x.t.kind == KSlice && x.t.elem.kind == KInt && x.t.elem.w == 8 && !x.t.elem.signed {
				k = pkBytes
			}
		case KMap:
			k = pkMap
		case KPtr:
			k = pkPtr
		case KStruct:
			k = pkStruct
		case KFunc:
			k = pkFunc
		}
		return mkInt(k)
	})
	h("primTypeName", func(w *W, a []V) V {
		x := iface(a[0])
		if x == nil {
			return mkStr("<nil>")
		}
		return mkStr(typeName(x.t.t))
	})
	h("primBool", func(w *W, a []V) V { return iface(a[0]).v })
	h("primString", func(w *W, a []V) V { return iface(a[0]).v })
	h("primBytes", func(w *W, a []V) V { return w.sliceStr(iface(a[0]).v) })
	h("primFloat", func(w *W, a []V) V { return iface(a[0]).v })
	h("primInt", func(w *W, a []V) V {
		x := iface(a[0])
		if x.v.p == nil {
			return V{n: uint64(sext(x.v.n, x.t.w))}
		}
		t := w.term(x.v, x.t.w)
		if x.t.w < 64 {
			t = w.ts.Sext(t, 64)
		}
		return mkTerm(t)
	})
	h("primUint", func(w *W, a []V) V {
		x := iface(a[0])
		if x.v.p == nil {
			return V{n: x.v.n}
		}
		t := w.term(x.v, x.t.w)
		if x.t.w < 64 {
			t = w.ts.Zext(t, 64)
		}
		return mkTerm(t)
	})
	h("primLen", func(w *W, a []V) V {
		x := iface(a[0])
		switch x.t.kind {
		case KSlice:
			if x.v.p == nil {
				return V{}
			}
			return mkInt(sliceLen(x.v))
		case KArray:
			return mkInt(x.t.length)
		case KMap:
			if x.v.p == nil {
				return V{}
			}
			return mkInt(w.mapState(x.v).live)
		case KStruct:
			return mkInt(len(x.t.fields))
		}
		unsupported("primLen of %s", x.t.t)
		return V{}
	})
	h("primElem", func(w *W, a []V) V {
		x := iface(a[0])
		i := w.concInt(a[1])
		switch x.t.kind {
		case KSlice:
			e := x.t.elem
			return wrap(e, w.loadT(V{uint64(sliceOff(x.v) + i*e.n), x.v.p}, e))
		case KArray:
			e := x.t.elem
			return wrap(e, w.sub(x.v, i*e.n, e))
		case KStruct:
			return wrap(x.t.fields[i], w.sub(x.v, x.t.offs[i], x.t.fields[i]))
		}
		unsupported("primElem of %s", x.t.t)
		return V{}
	})
	h("primFieldName", func(w *W, a []V) V {
		return mkStr(iface(a[0]).t.st.Field(w.concInt(a[1])).Name())
	})
	live := func(w *W, x *Iface, i int) (*MapState, int) {
		m := w.mapState(x.v)
		for k := range m.keys {
			if m.dead[k] {
				continue
			}
			if i == 0 {
				return m, k
			}
			i--
		}
		unsupported("map index")
		return nil, 0
	}
	h("primMapKey", func(w *W, a []V) V {
		x := iface(a[0])
		m, k := live(w, x, w.concInt(a[1]))
		return wrap(x.t.key, m.keys[k])
	})
	h("primMapVal", func(w *W, a []V) V {
		x := iface(a[0])
		m, k := live(w, x, w.concInt(a[1]))
		return wrap(x.t.elem, m.vals[k])
	})
	h("primDeref", func(w *W, a []V) V {
		x := iface(a[0])
		if x.v.p == nil {
			return V{}
		}
		return wrap(x.t.elem, w.loadT(x.v, x.t.elem))
	})
	h("primStore", func(w *W, a []V) V { // pointer, value of an interface: reports assignability
		x, y := iface(a[0]), iface(a[1])
		if x == nil || x.t.kind != KPtr || x.v.p == nil {
			unsupported("errors.As target")
		}
		e := x.t.elem
		if e.kind == KIface {
			if !w.ty.Implements(y.t, e) {
				return mkBool(false)
			}
			w.storeT(x.v, e, a[1])
			return mkBool(true)
		}
		if y.t != e {
			return mkBool(false)
		}
		w.storeT(x.v, e, y.v)
		return mkBool(true)
	})
	h("primFormatFloat", func(w *W, a []V) V {
		return w.formatFloat(a[0], byte(a[1].n), w.concInt(a[2]), w.concInt(a[3]))
	})
	h("primParseFloat", func(w *W, a []V) V {
		v, syn, rng := w.parseFloat(a[0], w.concInt(a[1]))
		return mkTuple(v, mkBool(syn), mkBool(rng))
	})
	h("primMarshal", func(w *W, a []V) V { // format, value: bytes, error
		return w.hostMarshal(goStr(a[0]), iface(a[1]))
	})
	h("primUnmarshal", func(w *W, a []V) V { // format, text, pointer: error
		return w.hostUnmarshal(goStr(a[0]), a[1], iface(a[2]))
	})
	h("primOnce", func(w *W, a []V) V {
		if a[0].p == nil {
			w.throwRuntime("invalid memory address or nil pointer dereference")
		}
		o, i := a[0].p.(*Obj), int(a[0].n)
		t := w.ty.Of(w.lookupType("sync", "Once"))
		off, ft := w.field(t, "done")
		// the flag of a Once may be written by concurrent executions.
		for ft.kind == KStruct {
			k := len(ft.fields) - 1
			off += ft.offs[k]
			ft = ft.fields[k]
		}
		if o.s[i+off] == (V{n: 1}) {
			return mkBool(false)
		}
		w.syncStore(o, i+off, V{n: 1})
		return mkBool(true)
	})
	h("primWatching", func(w *W, a []V) V { return mkBool(w.watch != 0) })
	h("primConcInt", func(w *W, a []V) V { return mkInt(w.concInt(a[0])) })
	h("primSymbolic", func(w *W, a []V) V { return mkBool(true) })
}
