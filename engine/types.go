package main

import (
	"go/types"
	"reflect"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/types/typeutil"
)

// RType is an interned Go type with its storage layout.
// Storage is counted in slots: one slot per scalar, pointer, string, slice, map,
// interface or function; structs and arrays are flattened.
type RType struct {
	T     types.Type
	id    int
	kind  reflect.Kind
	slots int
	foff  []int    // struct: slot offset of each field
	ftyp  []*RType // struct: field types
	elem  *RType   // array, slice, ptr, map, chan element
	key   *RType
	alen  int
	size  int64
	w     uint8 // scalar width
	sign  bool
	st    *types.Struct
	name  string

	ptrTo   atomic.Pointer[RType]
	cmp     atomic.Int32 // 0 unknown 1 comparable 2 not
	opaqueV bool         // reflect.Value
}

var (
	rtMu    sync.Mutex
	rtMap   typeutil.Map
	rtIdent sync.Map // types.Type -> *RType
	rtCount int
	sizes   = types.SizesFor("gc", "amd64")
)

func rtypeOf(t types.Type) *RType {
	if r, ok := rtIdent.Load(t); ok {
		return r.(*RType)
	}
	rtMu.Lock()
	defer rtMu.Unlock()
	r := rtypeLocked(t)
	for len(rtQueue) > 0 {
		f := rtQueue[len(rtQueue)-1]
		rtQueue = rtQueue[:len(rtQueue)-1]
		f()
	}
	// publish only complete types
	for _, p := range rtNew {
		rtIdent.Store(p.T, p)
	}
	rtNew = rtNew[:0]
	rtIdent.Store(t, r)
	return r
}

var (
	rtQueue []func()
	rtNew   []*RType
)

func later(dst **RType, t types.Type) {
	rtQueue = append(rtQueue, func() { *dst = rtypeLocked(t) })
}

func rtypeLocked(t types.Type) *RType {
	t = types.Unalias(t)
	if r := rtMap.At(t); r != nil {
		return r.(*RType)
	}
	rtCount++
	r := &RType{T: t, id: rtCount, slots: -1}
	rtMap.Set(t, r)
	rtNew = append(rtNew, r)
	if n, ok := t.(*types.Named); ok {
		if o := n.Obj(); o.Pkg() != nil && o.Pkg().Path() == "reflect" && o.Name() == "Value" {
			r.opaqueV = true
		}
	}
	u := t.Underlying()
	if _, ok := t.(*types.TypeParam); ok {
		r.slots = 1
		return r
	}
	switch u := u.(type) {
	case *types.Basic:
		r.slots = 1
		r.kind, r.w, r.sign = basicKind(u)
	case *types.Pointer:
		r.slots, r.kind = 1, reflect.Pointer
		later(&r.elem, u.Elem())
	case *types.Slice:
		r.slots, r.kind = 1, reflect.Slice
		later(&r.elem, u.Elem())
	case *types.Map:
		r.slots, r.kind = 1, reflect.Map
		later(&r.key, u.Key())
		later(&r.elem, u.Elem())
	case *types.Chan:
		r.slots, r.kind = 1, reflect.Chan
		later(&r.elem, u.Elem())
	case *types.Signature:
		r.slots, r.kind = 1, reflect.Func
	case *types.Interface:
		r.slots, r.kind = 1, reflect.Interface
	case *types.Array:
		r.kind = reflect.Array
		r.elem = rtypeLocked(u.Elem())
		r.alen = int(u.Len())
		if r.elem.slots < 0 {
			panic("array of incomplete type")
		}
		r.slots = r.alen * r.elem.slots
	case *types.Struct:
		r.kind = reflect.Struct
		r.st = u
		n := 0
		for i := 0; i < u.NumFields(); i++ {
			ft := rtypeLocked(u.Field(i).Type())
			if ft.slots < 0 {
				panic("field of incomplete type")
			}
			r.ftyp = append(r.ftyp, ft)
			r.foff = append(r.foff, n)
			n += ft.slots
		}
		r.slots = n
		if r.opaqueV {
			r.slots = 1
		}
	case *types.Tuple:
		r.slots = 1
	default:
		r.slots = 1
	}
	return r
}

func basicKind(b *types.Basic) (reflect.Kind, uint8, bool) {
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return reflect.Bool, 0, false
	case types.Int, types.UntypedInt:
		return reflect.Int, 64, true
	case types.Int8:
		return reflect.Int8, 8, true
	case types.Int16:
		return reflect.Int16, 16, true
	case types.Int32, types.UntypedRune:
		return reflect.Int32, 32, true
	case types.Int64:
		return reflect.Int64, 64, true
	case types.Uint:
		return reflect.Uint, 64, false
	case types.Uint8:
		return reflect.Uint8, 8, false
	case types.Uint16:
		return reflect.Uint16, 16, false
	case types.Uint32:
		return reflect.Uint32, 32, false
	case types.Uint64:
		return reflect.Uint64, 64, false
	case types.Uintptr:
		return reflect.Uintptr, 64, false
	case types.Float32:
		return reflect.Float32, 32, true
	case types.Float64, types.UntypedFloat:
		return reflect.Float64, 64, true
	case types.Complex64:
		return reflect.Complex64, 0, false
	case types.Complex128, types.UntypedComplex:
		return reflect.Complex128, 0, false
	case types.String, types.UntypedString:
		return reflect.String, 0, false
	case types.UnsafePointer:
		return reflect.UnsafePointer, 0, false
	}
	return reflect.Invalid, 0, false
}

func (r *RType) isNamed() bool {
	switch r.T.(type) {
	case *types.Named, *types.Basic:
		return true
	}
	return false
}

func (r *RType) ptr() *RType {
	p := r.ptrTo.Load()
	if p == nil {
		p = rtypeOf(types.NewPointer(r.T))
		r.ptrTo.Store(p)
	}
	return p
}

func (r *RType) Size() int64 {
	return sizes.Sizeof(r.T)
}

func (r *RType) String() string {
	return types.TypeString(r.T, func(p *types.Package) string { return p.Name() })
}

func (r *RType) comparable() bool {
	c := r.cmp.Load()
	if c == 0 {
		c = 2
		if types.Comparable(r.T) {
			c = 1
		}
		r.cmp.Store(c)
	}
	return c == 1
}

func isInt(k reflect.Kind) bool { return k >= reflect.Int && k <= reflect.Int64 }
func isUint(k reflect.Kind) bool {
	return k >= reflect.Uint && k <= reflect.Uintptr
}
func isFloat(k reflect.Kind) bool { return k == reflect.Float32 || k == reflect.Float64 }
func isScalar(k reflect.Kind) bool {
	return k == reflect.Bool || isInt(k) || isUint(k) || isFloat(k)
}
