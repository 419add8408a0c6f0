package main

import (
	"go/types"

	"golang.org/x/tools/go/types/typeutil"
)

type Kind uint8

const (
	KInvalid Kind = iota
	KBool
	KInt
	KFloat
	KComplex
	KString
	KPtr
	KSlice
	KMap
	KFunc
	KIface
	KStruct
	KArray
	KTuple
	KChan
)

// SK is the kind of a slot, which determines how its values can be merged.
type SK uint8

const (
	sBool SK = iota
	sI8
	sI16
	sI32
	sI64
	sInt // int, uint and uintptr: structural, as they are indices and lengths
	sFloat
	sStr
	sRef
	sIface
)

type TInfo struct {
	id     int
	t      types.Type
	kind   Kind
	w      uint8
	signed bool
	n      int // slots
	elem   *TInfo
	key    *TInfo
	length int
	fields []*TInfo
	offs   []int
	slots  []SK
	st     *types.Struct
}

type Types struct {
	byPtr map[types.Type]*TInfo
	canon typeutil.Map
	list  []*TInfo
	// implementation cache for interfaces.
	impl map[[2]*TInfo]bool
}

func NewTypes() *Types {
	return &Types{byPtr: map[types.Type]*TInfo{}, impl: map[[2]*TInfo]bool{}}
}

func (ty *Types) Of(t types.Type) *TInfo {
	if ti := ty.byPtr[t]; ti != nil {
		return ti
	}
	t0 := t
	t = types.Unalias(t)
	if x := ty.canon.At(t); x != nil {
		ti := x.(*TInfo)
		ty.byPtr[t0] = ti
		return ti
	}
	ti := &TInfo{t: t, id: len(ty.list)}
	ty.list = append(ty.list, ti)
	ty.canon.Set(t, ti)
	ty.byPtr[t0] = ti
	scalar := func(k Kind, w uint8, signed bool, s SK) {
		ti.kind, ti.w, ti.signed, ti.n, ti.slots = k, w, signed, 1, []SK{s}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			scalar(KBool, 0, false, sBool)
		case types.Int, types.UntypedInt:
			scalar(KInt, 64, true, sInt)
		case types.Int8:
			scalar(KInt, 8, true, sI8)
		case types.Int16:
			scalar(KInt, 16, true, sI16)
		case types.Int32, types.UntypedRune:
			scalar(KInt, 32, true, sI32)
		case types.Int64:
			scalar(KInt, 64, true, sI64)
		case types.Uint, types.Uintptr:
			scalar(KInt, 64, false, sInt)
		case types.Uint8:
			scalar(KInt, 8, false, sI8)
		case types.Uint16:
			scalar(KInt, 16, false, sI16)
		case types.Uint32:
			scalar(KInt, 32, false, sI32)
		case types.Uint64:
			scalar(KInt, 64, false, sI64)
		case types.Float32:
			scalar(KFloat, 32, true, sFloat)
		case types.Float64, types.UntypedFloat:
			scalar(KFloat, 64, true, sFloat)
		case types.String, types.UntypedString:
			scalar(KString, 0, false, sStr)
		case types.UnsafePointer:
			scalar(KPtr, 64, false, sRef)
		case types.UntypedNil:
			scalar(KPtr, 64, false, sRef)
		default:
			scalar(KComplex, 0, false, sRef)
		}
	case *types.Pointer:
		scalar(KPtr, 64, false, sRef)
		ti.elem = ty.Of(u.Elem())
	case *types.Slice:
		scalar(KSlice, 0, false, sRef)
		ti.elem = ty.Of(u.Elem())
	case *types.Map:
		scalar(KMap, 0, false, sRef)
		ti.key, ti.elem = ty.Of(u.Key()), ty.Of(u.Elem())
	case *types.Chan:
		scalar(KChan, 0, false, sRef)
	case *types.Signature:
		scalar(KFunc, 0, false, sRef)
	case *types.Interface:
		scalar(KIface, 0, false, sIface)
	case *types.Struct:
		ti.kind, ti.st = KStruct, u
		for i := 0; i < u.NumFields(); i++ {
			f := ty.Of(u.Field(i).Type())
			ti.fields = append(ti.fields, f)
			ti.offs = append(ti.offs, ti.n)
			ti.n += f.n
			for k := 0; k < f.n; k++ { // the slots of arrays are repeated
				ti.slots = append(ti.slots, f.slots[k%len(f.slots)])
			}
		}
	case *types.Array:
		ti.kind = KArray
		ti.elem = ty.Of(u.Elem())
		ti.length = int(u.Len())
		ti.n = ti.length * ti.elem.n
		if ti.length > 0 {
			ti.slots = ti.elem.slots // repeated
		}
	case *types.Tuple:
		ti.kind, ti.n = KTuple, 1
		for i := 0; i < u.Len(); i++ {
			ti.fields = append(ti.fields, ty.Of(u.At(i).Type()))
		}
		ti.slots = []SK{sRef}
	default:
		ti.kind, ti.n, ti.slots = KInvalid, 1, []SK{sRef}
	}
	return ti
}

func (ti *TInfo) slotKind(i int) SK {
	if len(ti.slots) == 0 {
		return sRef
	}
	return ti.slots[i%len(ti.slots)]
}

func (ti *TInfo) isAgg() bool { return ti.kind == KStruct || ti.kind == KArray }

// Implements decides whether the dynamic type implements the interface.
func (ty *Types) Implements(dyn, iface *TInfo) bool {
	k := [2]*TInfo{dyn, iface}
	if r, ok := ty.impl[k]; ok {
		return r
	}
	r := types.Implements(dyn.t, iface.t.Underlying().(*types.Interface))
	ty.impl[k] = r
	return r
}
