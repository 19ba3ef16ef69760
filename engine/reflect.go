package main

import (
	"fmt"
	"go/token"
	"go/types"
	"reflect"
	"strconv"
	"strings"
)

// RV models reflect.Value.
type RV struct {
	t    *RType
	o    *Object
	off  int
	addr bool  // addressable storage at (o, off)
	ro   uint8 // 0 none, 1 embedded, 2 sticky
	v    V
}

func anyType() *RType { return rtypeOf(types.NewInterfaceType(nil, nil)) }

func (w *Worker) rvGet(r *RV) V {
	if r.addr {
		return w.load(r.o, r.off, r.t)
	}
	return r.v
}

func rvV(r *RV) V { return V{p: r} }

func (w *Worker) typeV(t *RType) V {
	if t == nil {
		return V{}
	}
	return V{p: &Iface{typ: w.eng.rtypePtr, v: V{p: t}}}
}

func (w *Worker) asType(v V) *RType {
	i, ok := v.p.(*Iface)
	if !ok {
		w.nilDeref()
	}
	rt, ok := i.v.p.(*RType)
	if !ok {
		w.unsupported("reflect.Type implementation " + i.typ.String())
	}
	return rt
}

func (w *Worker) rvPack(r *RV) V {
	v := w.rvGet(r)
	if r.t.kind == reflect.Interface {
		return v
	}
	return V{p: &Iface{typ: r.t, v: v}}
}

func (w *Worker) rvAssign(dst *RType, r *RV) V {
	if dst == r.t {
		return w.rvGet(r)
	}
	if dst.kind == reflect.Interface {
		v := w.rvPack(r)
		if r.t.kind == reflect.Interface && v.p == nil {
			return v
		}
		it := dst.T.Underlying().(*types.Interface)
		if i := v.p.(*Iface); w.implements(i.typ, it) {
			return v
		}
	} else if types.AssignableTo(r.t.T, dst.T) {
		return w.rvGet(r)
	}
	w.goPanicStr("reflect.Set: value of type " + r.t.String() + " is not assignable to type " + dst.String())
	return V{}
}

func (w *Worker) rvSettable(r *RV, op string) {
	if r.ro != 0 {
		w.goPanicStr("reflect: " + op + " using value obtained using unexported field")
	}
	if !r.addr {
		w.goPanicStr("reflect: " + op + " using unaddressable value")
	}
}

func (w *Worker) rvStore(r *RV, v V) { w.store(r.o, r.off, r.t, v) }

func (w *Worker) rvKindPanic(op string, r *RV) {
	k := "zero"
	if r != nil {
		k = r.t.kind.String()
	}
	w.goPanicStr("reflect: call of reflect.Value." + op + " on " + k + " Value")
}

func (w *Worker) rvExported(r *RV, op string) {
	if r.ro != 0 {
		w.goPanicStr("reflect: reflect.Value." + op + " using value obtained using unexported field")
	}
}

// argRV returns the RV of a reflect.Value argument.
func argRV(v V) *RV {
	r, _ := v.p.(*RV)
	return r
}

func (w *Worker) newZero(t *RType) V { return V{} }

func (w *Worker) rvIndex(r *RV, iv V) V {
	i := iv
	switch r.t.kind {
	case reflect.Array:
		w.rvBounds(i, r.t.alen, "array")
		k := int(w.conc(i, 64))
		es := r.t.elem.slots
		if r.addr {
			return rvV(&RV{t: r.t.elem, o: r.o, off: r.off + k*es, addr: true, ro: r.ro})
		}
		return rvV(&RV{t: r.t.elem, v: w.aggGet(r.v, k*es, r.t.elem), ro: r.ro})
	case reflect.Slice:
		s, _ := w.rvGet(r).p.(*Slice)
		n := 0
		if s != nil {
			n = s.len
		}
		w.rvBounds(i, n, "slice")
		k := int(w.conc(i, 64))
		return rvV(&RV{t: r.t.elem, o: s.obj, off: s.off + k*r.t.elem.slots, addr: true, ro: r.ro})
	case reflect.String:
		s := w.rvGet(r)
		w.rvBounds(i, strLen(s), "string")
		k := int(w.conc(i, 64))
		return rvV(&RV{t: rtypeOf(types.Typ[types.Uint8]), v: w.strByte(s, k), ro: r.ro})
	}
	w.rvKindPanic("Index", r)
	return V{}
}

func (w *Worker) rvBounds(i V, n int, what string) {
	if i.t == nil {
		if i.c >= uint64(n) {
			w.goPanicStr("reflect: " + what + " index out of range")
		}
		return
	}
	if !w.decide(w.tb.Ult(i.t, w.tb.Const(64, uint64(n)))) {
		w.goPanicStr("reflect: " + what + " index out of range")
	}
}

func (w *Worker) rvField(r *RV, i int) V {
	st := r.t.st
	if i < 0 || i >= st.NumFields() {
		w.goPanicStr("reflect: Field index out of range")
	}
	f := st.Field(i)
	ro := uint8(0)
	if r.ro == 2 {
		ro = 2
	}
	if !f.Exported() {
		if f.Embedded() {
			if ro == 0 {
				ro = 1
			}
		} else {
			ro = 2
		}
	}
	ft := r.t.ftyp[i]
	if r.addr {
		return rvV(&RV{t: ft, o: r.o, off: r.off + r.t.foff[i], addr: true, ro: ro})
	}
	return rvV(&RV{t: ft, v: w.aggGet(r.v, r.t.foff[i], ft), ro: ro})
}

func (w *Worker) rvElem(r *RV) V {
	switch r.t.kind {
	case reflect.Interface:
		v := w.rvGet(r)
		i, ok := v.p.(*Iface)
		if !ok {
			return V{}
		}
		return rvV(&RV{t: i.typ, v: i.v, ro: r.ro})
	case reflect.Pointer:
		p := w.concPtr(w.rvGet(r))
		if p.p == nil {
			return V{}
		}
		o, ok := p.p.(*Object)
		if !ok {
			w.unsupported(fmt.Sprintf("reflect Elem of pointer to %T", p.p))
		}
		return rvV(&RV{t: r.t.elem, o: o, off: int(p.c), addr: true, ro: r.ro})
	}
	w.rvKindPanic("Elem", r)
	return V{}
}

func (w *Worker) rvIsZero(t *RType, v V) *Term {
	tb := w.tb
	switch k := t.kind; {
	case k == reflect.Bool:
		return tb.Not(w.term(v, 0))
	case isInt(k) || isUint(k):
		if v.p != nil {
			return tb.fls
		}
		return tb.Eq(w.term(v, t.w), tb.Const(t.w, 0))
	case isFloat(k):
		return tb.FEq(w.term(v, t.w), tb.Const(t.w, 0))
	case k == reflect.String:
		return tb.Bool(strLen(v) == 0)
	case k == reflect.Struct:
		res := tb.tru
		for i, ft := range t.ftyp {
			res = tb.And(res, w.rvIsZero(ft, w.aggGet(v, t.foff[i], ft)))
		}
		return res
	case k == reflect.Array:
		res := tb.tru
		for i := 0; i < t.alen; i++ {
			res = tb.And(res, w.rvIsZero(t.elem, w.aggGet(v, i*t.elem.slots, t.elem)))
		}
		return res
	default:
		return tb.Bool(v.p == nil && v.c == 0)
	}
}

// structFieldV builds a reflect.StructField.
func (w *Worker) structFieldV(t *RType, i int, index []int) V {
	sft := w.eng.namedType("reflect", "StructField")
	a := &Agg{vals: make([]V, sft.slots)}
	f := t.st.Field(i)
	for k := 0; k < sft.st.NumFields(); k++ {
		off := sft.foff[k]
		switch sft.st.Field(k).Name() {
		case "Name":
			a.vals[off] = strV(f.Name())
		case "PkgPath":
			if !f.Exported() {
				p := ""
				if f.Pkg() != nil {
					p = f.Pkg().Path()
				}
				a.vals[off] = strV(p)
			}
		case "Type":
			a.vals[off] = w.typeV(t.ftyp[i])
		case "Tag":
			a.vals[off] = strV(t.st.Tag(i))
		case "Offset":
			var fs []*types.Var
			for j := 0; j < t.st.NumFields(); j++ {
				fs = append(fs, t.st.Field(j))
			}
			a.vals[off] = V{c: uint64(sizes.Offsetsof(fs)[i])}
		case "Index":
			if index == nil {
				index = []int{i}
			}
			o := &Object{n: len(index)}
			for _, x := range index {
				o.vals = append(o.vals, iv(x))
			}
			a.vals[off] = V{p: &Slice{obj: o, len: len(index), cap: len(index)}}
		case "Anonymous":
			a.vals[off] = bv(f.Embedded())
		}
	}
	return V{p: a}
}

func strV(s string) V {
	if s == "" {
		return V{}
	}
	return V{p: s}
}

func (w *Worker) needStr(v V, what string) string {
	s, ok := w.concStr(v)
	if !ok {
		w.unsupported("symbolic string in " + what)
	}
	return s
}

func (t *RType) Name() string {
	switch x := t.T.(type) {
	case *types.Named:
		s := x.Obj().Name()
		if ta := x.TypeArgs(); ta != nil && ta.Len() > 0 {
			var p []string
			for i := 0; i < ta.Len(); i++ {
				p = append(p, types.TypeString(ta.At(i), nil))
			}
			s += "[" + strings.Join(p, ",") + "]"
		}
		return s
	case *types.Basic:
		if x.Kind() == types.UnsafePointer {
			return "Pointer"
		}
		return x.Name()
	}
	return ""
}

func exportedMethods(t types.Type, w *Worker) []*types.Selection {
	ms := w.eng.prog.MethodSets.MethodSet(t)
	var out []*types.Selection
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Exported() {
			out = append(out, ms.At(i))
		}
	}
	return out
}

// typeMethod implements reflect.Type.
func (w *Worker) typeMethod(t *RType, name string, args []V) V {
	bad := func() { w.goPanicStr("reflect: " + name + " of non-matching type " + t.String()) }
	switch name {
	case "Kind":
		return V{c: uint64(t.kind)}
	case "Elem":
		switch t.kind {
		case reflect.Array, reflect.Chan, reflect.Map, reflect.Pointer, reflect.Slice:
			return w.typeV(t.elem)
		}
		bad()
	case "Key":
		if t.kind != reflect.Map {
			bad()
		}
		return w.typeV(t.key)
	case "Len":
		if t.kind != reflect.Array {
			bad()
		}
		return iv(t.alen)
	case "Name":
		return strV(t.Name())
	case "String":
		return strV(t.String())
	case "PkgPath":
		if n, ok := t.T.(*types.Named); ok && n.Obj().Pkg() != nil {
			return strV(n.Obj().Pkg().Path())
		}
		return V{}
	case "Size":
		return V{c: uint64(t.Size())}
	case "Bits":
		return V{c: uint64(t.Size() * 8)}
	case "Align", "FieldAlign":
		return V{c: uint64(sizes.Alignof(t.T))}
	case "NumField":
		if t.kind != reflect.Struct {
			bad()
		}
		return iv(t.st.NumFields())
	case "Field":
		if t.kind != reflect.Struct {
			bad()
		}
		i := int(w.conc(args[0], 64))
		if i < 0 || i >= t.st.NumFields() {
			w.goPanicStr("reflect: Field index out of bounds")
		}
		return w.structFieldV(t, i, nil)
	case "FieldByName":
		n := w.needStr(args[0], "FieldByName")
		obj, index, _ := types.LookupFieldOrMethod(t.T, true, nil, n)
		if v, ok := obj.(*types.Var); ok && v.IsField() {
			cur := t
			for k, ix := range index {
				if cur.kind == reflect.Pointer {
					cur = cur.elem
				}
				if k == len(index)-1 {
					return V{p: Tuple{w.structFieldV(cur, ix, index), bv(true)}}
				}
				cur = cur.ftyp[ix]
			}
		}
		return V{p: Tuple{V{}, bv(false)}}
	case "Implements":
		u := w.asType(args[0])
		it, ok := u.T.Underlying().(*types.Interface)
		if !ok {
			w.goPanicStr("reflect: non-interface type passed to Type.Implements")
		}
		return bv(types.Implements(t.T, it))
	case "AssignableTo":
		return bv(types.AssignableTo(t.T, w.asType(args[0]).T))
	case "ConvertibleTo":
		return bv(types.ConvertibleTo(t.T, w.asType(args[0]).T))
	case "Comparable":
		return bv(t.comparable())
	case "NumMethod":
		if it, ok := t.T.Underlying().(*types.Interface); ok {
			return iv(it.NumMethods())
		}
		return iv(len(exportedMethods(t.T, w)))
	case "OverflowInt", "OverflowUint", "OverflowFloat":
		return w.rvOverflow(t, strings.TrimPrefix(name, "Overflow"), args[0])
	case "MethodByName":
		n := w.needStr(args[0], "MethodByName")
		mt := w.eng.namedType("reflect", "Method")
		a := &Agg{vals: make([]V, mt.slots)}
		for _, s := range exportedMethods(t.T, w) {
			if s.Obj().Name() == n {
				a.vals[0] = strV(n)
				return V{p: Tuple{V{p: a}, bv(true)}}
			}
		}
		return V{p: Tuple{V{p: a}, bv(false)}}
	case "NumIn":
		return iv(t.T.Underlying().(*types.Signature).Params().Len())
	case "NumOut":
		return iv(t.T.Underlying().(*types.Signature).Results().Len())
	case "CanSeq", "CanSeq2":
		return bv(false)
	}
	w.unsupported("reflect.Type." + name)
	return V{}
}

func (w *Worker) rvOverflow(t *RType, what string, x V) V {
	tb := w.tb
	switch what {
	case "Int":
		if !isInt(t.kind) {
			w.goPanicStr("reflect: OverflowInt of non-int type")
		}
		y := w.term(x, 64)
		return tv(tb.Not(tb.Eq(tb.SExt(tb.Extract(y, 0, t.w), 64), y)))
	case "Uint":
		if !isUint(t.kind) {
			w.goPanicStr("reflect: OverflowUint of non-uint type")
		}
		y := w.term(x, 64)
		return tv(tb.Not(tb.Eq(tb.ZExt(tb.Extract(y, 0, t.w), 64), y)))
	default:
		if !isFloat(t.kind) {
			w.goPanicStr("reflect: OverflowFloat of non-float type")
		}
		if t.w == 64 {
			return bv(false)
		}
		f := w.term(x, 64)
		if f.op == OpF32to64 { // a widened 32 bit value
			return bv(false)
		}
		y := tb.fabs(f)
		return tv(tb.And(tb.FLt(tb.Const(64, 0x47efffffe0000000), y), tb.FLe(y, tb.Const(64, 0x7fefffffffffffff))))
	}
}

type mapIterSt struct {
	it    *rangeIter
	m     *RV
	k, v  V
	valid bool
	done  bool
}

func (w *Worker) rvMap(r *RV) *MapObj {
	m, _ := w.rvGet(r).p.(*MapObj)
	return m
}

func (w *Worker) rvLen(r *RV) V {
	switch r.t.kind {
	case reflect.Array:
		return iv(r.t.alen)
	case reflect.Slice:
		return iv(w.sliceLen(w.rvGet(r)))
	case reflect.String:
		return iv(strLen(w.rvGet(r)))
	case reflect.Map:
		m := w.rvMap(r)
		if m == nil {
			return V{}
		}
		if w.mt {
			w.raceMap(m, false)
		}
		return iv(m.live)
	case reflect.Chan:
		if c, ok := w.rvGet(r).p.(*Chan); ok {
			return iv(len(c.buf))
		}
		return V{}
	case reflect.Pointer:
		if r.t.elem.kind == reflect.Array {
			return iv(r.t.elem.alen)
		}
	}
	w.rvKindPanic("Len", r)
	return V{}
}

func (w *Worker) f64of(t *RType, v V) V {
	if t.w == 32 {
		return tv(w.tb.F32to64(w.term(v, 32)))
	}
	return v
}

func (w *Worker) rvConvert(r *RV, to *RType) V {
	if !types.ConvertibleTo(r.t.T, to.T) {
		w.goPanicStr("reflect.Value.Convert: value of type " + r.t.String() + " cannot be converted to type " + to.String())
	}
	v := w.rvGet(r)
	if to.kind == reflect.Interface {
		return rvV(&RV{t: to, v: w.rvAssign(to, r), ro: r.ro})
	}
	if r.t.kind == to.kind && !isScalar(to.kind) {
		return rvV(&RV{t: to, v: v, ro: r.ro})
	}
	return rvV(&RV{t: to, v: w.convert(v, r.t, to), ro: r.ro})
}

// rvMethod implements the methods of reflect.Value. args[0] is the receiver.
func (w *Worker) rvMethod(name string, args []V) V {
	r := argRV(args[0])
	if r == nil {
		switch name {
		case "IsValid":
			return bv(false)
		case "Kind":
			return V{}
		case "String":
			return strV("<invalid Value>")
		case "CanSet", "CanAddr", "CanInt", "CanUint", "CanFloat", "CanComplex":
			return bv(false)
		}
		w.rvKindPanic(name, nil)
	}
	t := r.t
	tb := w.tb
	kindErr := func() { w.rvKindPanic(name, r) }
	switch name {
	case "IsValid":
		return bv(true)
	case "Kind":
		return V{c: uint64(t.kind)}
	case "Type":
		return w.typeV(t)
	case "CanSet":
		return bv(r.addr && r.ro == 0)
	case "CanAddr":
		return bv(r.addr)
	case "CanInterface":
		return bv(r.ro == 0)
	case "CanInt":
		return bv(isInt(t.kind))
	case "CanUint":
		return bv(isUint(t.kind))
	case "CanFloat":
		return bv(isFloat(t.kind))
	case "CanComplex":
		return bv(t.kind == reflect.Complex64 || t.kind == reflect.Complex128)
	case "Interface":
		w.rvExported(r, name)
		return w.rvPack(r)
	case "Elem":
		return w.rvElem(r)
	case "Addr":
		if !r.addr {
			w.goPanicStr("reflect.Value.Addr of unaddressable value")
		}
		return rvV(&RV{t: t.ptr(), v: V{p: r.o, c: uint64(r.off)}, ro: r.ro})
	case "UnsafeAddr":
		if !r.addr {
			w.goPanicStr("reflect.Value.UnsafeAddr of unaddressable value")
		}
		return V{p: r.o, c: uint64(r.off)}
	case "Bool":
		if t.kind != reflect.Bool {
			kindErr()
		}
		return w.rvGet(r)
	case "Int":
		if !isInt(t.kind) {
			kindErr()
		}
		return w.widen(w.rvGet(r), t)
	case "Uint":
		if !isUint(t.kind) {
			kindErr()
		}
		return w.widen(w.rvGet(r), t)
	case "Float":
		if !isFloat(t.kind) {
			kindErr()
		}
		return w.f64of(t, w.rvGet(r))
	case "String":
		if t.kind != reflect.String {
			return strV("<" + t.String() + " Value>")
		}
		return w.rvGet(r)
	case "Bytes":
		if t.kind == reflect.Slice && t.elem.kind == reflect.Uint8 {
			return w.rvGet(r)
		}
		if t.kind == reflect.Array && t.elem.kind == reflect.Uint8 {
			if !r.addr {
				w.goPanicStr("reflect.Value.Bytes of unaddressable byte array")
			}
			return V{p: &Slice{obj: r.o, off: r.off, len: t.alen, cap: t.alen}}
		}
		kindErr()
	case "Len":
		return w.rvLen(r)
	case "Cap":
		switch t.kind {
		case reflect.Array:
			return iv(t.alen)
		case reflect.Slice:
			s, _ := w.rvGet(r).p.(*Slice)
			return tv(w.sliceCapTerm(s))
		}
		kindErr()
	case "Index":
		return w.rvIndex(r, args[1])
	case "NumField":
		if t.kind != reflect.Struct {
			kindErr()
		}
		return iv(t.st.NumFields())
	case "Field":
		if t.kind != reflect.Struct {
			kindErr()
		}
		return w.rvField(r, int(w.conc(args[1], 64)))
	case "FieldByIndex":
		var ix []int
		for _, x := range w.sliceBytes(args[1]) {
			ix = append(ix, int(w.conc(x, 64)))
		}
		cur := r
		for k, i := range ix {
			if k > 0 && cur.t.kind == reflect.Pointer && cur.t.elem.kind == reflect.Struct {
				e := w.rvElem(cur)
				if e.p == nil {
					w.goPanicStr("reflect: indirection through nil pointer to embedded struct")
				}
				cur = e.p.(*RV)
			}
			cur = w.rvField(cur, i).p.(*RV)
		}
		return rvV(cur)
	case "FieldByName":
		n := w.needStr(args[1], "FieldByName")
		obj, index, _ := types.LookupFieldOrMethod(t.T, true, nil, n)
		if v, ok := obj.(*types.Var); !ok || !v.IsField() {
			return V{}
		}
		cur := r
		for k, i := range index {
			if k > 0 && cur.t.kind == reflect.Pointer {
				e := w.rvElem(cur)
				if e.p == nil {
					w.goPanicStr("reflect: indirection through nil pointer to embedded struct")
				}
				cur = e.p.(*RV)
			}
			cur = w.rvField(cur, i).p.(*RV)
		}
		return rvV(cur)
	case "IsNil":
		switch t.kind {
		case reflect.Chan, reflect.Func, reflect.Interface, reflect.Map, reflect.Pointer, reflect.Slice, reflect.UnsafePointer:
			v := w.rvGet(r)
			return bv(v.p == nil && v.c == 0)
		}
		kindErr()
	case "IsZero":
		return tv(w.rvIsZero(t, w.rvGet(r)))
	case "Pointer", "UnsafePointer":
		switch t.kind {
		case reflect.Pointer, reflect.UnsafePointer:
			return w.concPtr(w.rvGet(r))
		case reflect.Map, reflect.Chan, reflect.Func:
			v := w.rvGet(r)
			return V{p: v.p}
		case reflect.Slice:
			if s, ok := w.rvGet(r).p.(*Slice); ok {
				return V{p: s.obj, c: uint64(s.off)}
			}
			return V{}
		case reflect.String:
			if s, ok := w.rvGet(r).p.(*SStr); ok {
				return V{p: s.obj, c: uint64(s.off)}
			}
			w.unsupported("pointer of string")
		}
		kindErr()
	case "Set":
		w.rvSettable(r, "reflect.Set")
		x := argRV(args[1])
		if x == nil {
			w.goPanicStr("reflect: call of reflect.Value.Set on zero Value")
		}
		w.rvExported(x, "Set")
		w.rvStore(r, w.rvAssign(t, x))
		return V{}
	case "SetZero":
		w.rvSettable(r, "reflect.Value.SetZero")
		w.rvStore(r, V{})
		return V{}
	case "SetBool":
		w.rvSettable(r, "reflect.Value.SetBool")
		if t.kind != reflect.Bool {
			kindErr()
		}
		w.rvStore(r, args[1])
		return V{}
	case "SetInt", "SetUint":
		w.rvSettable(r, "reflect.Value."+name)
		if name == "SetInt" && !isInt(t.kind) || name == "SetUint" && !isUint(t.kind) {
			kindErr()
		}
		x := args[1]
		if x.t != nil {
			w.rvStore(r, tv(w.resize(x.t, false, t.w)))
		} else {
			w.rvStore(r, V{c: x.c & mask(t.w)})
		}
		return V{}
	case "SetFloat":
		w.rvSettable(r, "reflect.Value.SetFloat")
		if !isFloat(t.kind) {
			kindErr()
		}
		x := args[1]
		if t.w == 32 {
			x = tv(tb.F64to32(w.term(x, 64)))
		}
		w.rvStore(r, x)
		return V{}
	case "SetString":
		w.rvSettable(r, "reflect.Value.SetString")
		if t.kind != reflect.String {
			kindErr()
		}
		w.rvStore(r, args[1])
		return V{}
	case "SetBytes":
		w.rvSettable(r, "reflect.Value.SetBytes")
		if t.kind != reflect.Slice || t.elem.kind != reflect.Uint8 {
			w.goPanicStr("reflect.Value.SetBytes of non-byte slice")
		}
		w.rvStore(r, args[1])
		return V{}
	case "SetPointer":
		w.rvSettable(r, "reflect.Value.SetPointer")
		w.rvStore(r, args[1])
		return V{}
	case "OverflowInt", "OverflowUint", "OverflowFloat":
		return w.rvOverflow(t, strings.TrimPrefix(name, "Overflow"), args[1])
	case "MapRange":
		if t.kind != reflect.Map {
			kindErr()
		}
		o := newObject(1)
		o.vals[0] = V{p: &mapIterSt{m: r}}
		return V{p: o}
	case "MapIndex":
		if t.kind != reflect.Map {
			kindErr()
		}
		k := argRV(args[1])
		if k == nil {
			kindErr()
		}
		v, ok := w.mapGet(w.rvMap(r), w.rvAssign(t.key, k))
		if !ok {
			return V{}
		}
		return rvV(&RV{t: t.elem, v: v, ro: r.ro | k.ro})
	case "MapKeys":
		if t.kind != reflect.Map {
			kindErr()
		}
		vt := w.eng.namedType("reflect", "Value")
		o := &Object{}
		m := w.rvMap(r)
		it := w.mapIter(m)
		for {
			k, _, ok := w.mapIterNext(it)
			if !ok {
				break
			}
			o.vals = append(o.vals, rvV(&RV{t: t.key, v: k, ro: r.ro}))
		}
		_ = vt
		o.n = len(o.vals)
		return V{p: &Slice{obj: o, len: o.n, cap: o.n}}
	case "SetMapIndex":
		if t.kind != reflect.Map {
			kindErr()
		}
		w.rvExported(r, name)
		k, e := argRV(args[1]), argRV(args[2])
		if k == nil {
			kindErr()
		}
		w.rvExported(k, name)
		kv := w.rvAssign(t.key, k)
		m := w.rvMap(r)
		if e == nil {
			w.mapDelete(m, kv)
			return V{}
		}
		w.rvExported(e, name)
		ev := w.rvAssign(t.elem, e)
		if m == nil {
			w.goPanicStr("assignment to entry in nil map")
		}
		w.mapSet(m, kv, ev)
		return V{}
	case "SetIterKey", "SetIterValue":
		w.rvSettable(r, "reflect.Value."+name)
		it := w.mapIterOf(args[1])
		if !it.valid {
			w.goPanicStr("reflect: " + name + " called before Next")
		}
		if name == "SetIterKey" {
			w.rvStore(r, w.rvAssign(t, &RV{t: it.m.t.key, v: it.k}))
		} else {
			w.rvStore(r, w.rvAssign(t, &RV{t: it.m.t.elem, v: it.v}))
		}
		return V{}
	case "Slice":
		return w.rvSlice(r, args[1], args[2], V{}, false)
	case "Slice3":
		return w.rvSlice(r, args[1], args[2], args[3], true)
	case "SetLen", "SetCap":
		w.rvSettable(r, "reflect.Value."+name)
		if t.kind != reflect.Slice {
			kindErr()
		}
		s, _ := w.rvGet(r).p.(*Slice)
		capT := w.sliceCapTerm(s)
		n := w.term(args[1], 64)
		if w.decide(tb.Ult(capT, n)) {
			w.goPanicStr("reflect: slice length out of range in " + name)
		}
		if s == nil {
			return V{}
		}
		w.boundHi(s, n)
		k := int(w.conc(args[1], 64))
		ns := *s
		if name == "SetLen" {
			ns.len = k
		} else {
			if k < s.len {
				w.goPanicStr("reflect: slice capacity out of range in SetCap")
			}
			ns.cap, ns.capT = k, nil
		}
		w.rvStore(r, V{p: &ns})
		return V{}
	case "Grow":
		w.rvSettable(r, "reflect.Value.Grow")
		if t.kind != reflect.Slice {
			kindErr()
		}
		if w.decide(tb.Slt(w.term(args[1], 64), tb.Const(64, 0))) {
			w.goPanicStr("reflect.Value.Grow: negative len")
		}
		if w.decide(tb.Ult(tb.Const(64, uint64(maxAlloc)), w.term(args[1], 64))) {
			w.goPanicStr("reflect.Value.Grow: slice overflow")
		}
		w.noteAlloc(w.term(args[1], 64), t.elem.Size(), "Grow")
		n := int(w.conc(args[1], 64))
		if n > w.eng.cfg.MaxLen {
			w.hugeAlloc(w.term(args[1], 64), t.elem.Size())
		}
		v := w.rvGet(r)
		s, _ := v.p.(*Slice)
		ol := 0
		if s != nil {
			ol = s.len
			if s.capT == nil && s.len+n <= s.cap {
				return V{}
			}
		}
		if n == 0 {
			return V{}
		}
		nv := w.appendVals(v, make([]V, n*t.elem.slots), n, t.elem.slots)
		ns := *(nv.p.(*Slice))
		ns.len = ol
		w.rvStore(r, V{p: &ns})
		return V{}
	case "Clear":
		switch t.kind {
		case reflect.Map:
			w.mapClear(w.rvMap(r))
		case reflect.Slice:
			if s, ok := w.rvGet(r).p.(*Slice); ok {
				for i := 0; i < s.len*t.elem.slots; i++ {
					w.storeSlot(s.obj, s.off+i, V{})
				}
			}
		default:
			kindErr()
		}
		return V{}
	case "NumMethod":
		if it, ok := t.T.Underlying().(*types.Interface); ok {
			return iv(it.NumMethods())
		}
		return iv(len(exportedMethods(t.T, w)))
	case "MethodByName":
		n := w.needStr(args[1], "MethodByName")
		recv := r
		if t.kind == reflect.Interface {
			e := argRV(w.rvElem(r))
			if e == nil {
				w.goPanicStr("reflect: Method on nil interface value")
			}
			recv = e
		}
		for _, s := range exportedMethods(recv.t.T, w) {
			if s.Obj().Name() == n {
				fn := w.eng.prog.MethodValue(s)
				rcv := w.rvGet(recv)
				sig := s.Obj().Type().(*types.Signature)
				ft := rtypeOf(types.NewSignatureType(nil, nil, nil, sig.Params(), sig.Results(), sig.Variadic()))
				cl := &Closure{label: n, intr: func(w *Worker, a []V) V {
					return w.runSync(V{p: &Closure{fn: fn}}, append([]V{rcv}, a...))
				}}
				return rvV(&RV{t: ft, v: V{p: cl}, ro: r.ro})
			}
		}
		return V{}
	case "Call":
		if t.kind != reflect.Func {
			kindErr()
		}
		sig := t.T.Underlying().(*types.Signature)
		if sig.Variadic() {
			w.unsupported("reflect Call of variadic function")
		}
		in := w.sliceBytes(args[1])
		if len(in) != sig.Params().Len() {
			w.goPanicStr("reflect: Call with wrong number of input arguments")
		}
		var a []V
		for i, x := range in {
			xr := argRV(x)
			if xr == nil {
				w.goPanicStr("reflect: Call using zero Value argument")
			}
			a = append(a, w.rvAssign(rtypeOf(sig.Params().At(i).Type()), xr))
		}
		res := w.runSync(w.rvGet(r), a)
		o := &Object{n: sig.Results().Len()}
		for i := 0; i < o.n; i++ {
			x := res
			if o.n > 1 {
				x = res.p.(Tuple)[i]
			}
			o.vals = append(o.vals, rvV(&RV{t: rtypeOf(sig.Results().At(i).Type()), v: x}))
		}
		return V{p: &Slice{obj: o, len: o.n, cap: o.n}}
	case "Convert":
		return w.rvConvert(r, w.asType(args[1]))
	case "CanConvert":
		return bv(types.ConvertibleTo(t.T, w.asType(args[1]).T))
	case "Comparable":
		if t.kind == reflect.Interface {
			e := argRV(w.rvElem(r))
			return bv(e == nil || e.t.comparable())
		}
		return bv(t.comparable())
	case "Equal":
		x := argRV(args[1])
		if x == nil {
			return bv(false)
		}
		if t.kind == reflect.Interface {
			r = argRV(w.rvElem(r))
		}
		if x.t.kind == reflect.Interface {
			x = argRV(w.rvElem(x))
		}
		if r == nil || x == nil {
			return bv(r == nil && x == nil)
		}
		if r.t != x.t {
			return bv(false)
		}
		if !r.t.comparable() {
			w.goPanicStr("reflect.Value.Equal: values of type are not comparable")
		}
		return tv(w.eq(r.t, w.rvGet(r), w.rvGet(x)))
	}
	w.unsupported("reflect.Value." + name)
	return V{}
}

func (w *Worker) rvSlice(r *RV, lo, hi, mx V, three bool) V {
	tb := w.tb
	t := r.t
	var s *Slice
	es := 0
	rt := t
	switch t.kind {
	case reflect.Slice:
		s, _ = w.rvGet(r).p.(*Slice)
		es = t.elem.slots
	case reflect.Array:
		if !r.addr {
			w.goPanicStr("reflect.Value.Slice: slice of unaddressable array")
		}
		es = t.elem.slots
		s = &Slice{obj: r.o, off: r.off, len: t.alen, cap: t.alen}
		rt = rtypeOf(types.NewSlice(t.elem.T))
	case reflect.String:
		v := w.rvGet(r)
		n := strLen(v)
		L, H := w.term(lo, 64), w.term(hi, 64)
		if w.decide(tb.Or(tb.Ult(tb.Const(64, uint64(n)), H), tb.Ult(H, L))) {
			w.goPanicStr("reflect.Value.Slice: string slice index out of bounds")
		}
		h := int(w.conc(hi, 64))
		l := int(w.conc(lo, 64))
		return rvV(&RV{t: t, v: w.substr(v, l, h), ro: r.ro})
	default:
		w.rvKindPanic("Slice", r)
	}
	capT := w.sliceCapTerm(s)
	M := capT
	if three {
		M = w.term(mx, 64)
	}
	L, H := w.term(lo, 64), w.term(hi, 64)
	if w.decide(tb.Or(tb.Ult(capT, M), tb.Ult(M, H), tb.Ult(H, L))) {
		w.goPanicStr("reflect.Value.Slice: slice index out of bounds")
	}
	if s == nil {
		return rvV(&RV{t: rt, ro: r.ro})
	}
	w.boundHi(s, H)
	h := int(w.conc(hi, 64))
	l := int(w.conc(lo, 64))
	ns := &Slice{obj: s.obj, off: s.off + l*es, len: h - l}
	if three {
		ns.cap = int(w.conc(mx, 64)) - l
	} else if s.capT != nil {
		ns.capT = tb.Sub(s.capT, tb.Const(64, uint64(l)))
		ns.cap = -1
	} else {
		ns.cap = s.cap - l
	}
	return rvV(&RV{t: rt, v: V{p: ns}, ro: r.ro})
}

func (w *Worker) mapIterOf(v V) *mapIterSt {
	o, ok := v.p.(*Object)
	if !ok {
		w.nilDeref()
	}
	it, ok := o.vals[int(v.c)].p.(*mapIterSt)
	if !ok {
		w.goPanicStr("reflect: MapIter used on zero value")
	}
	return it
}

func (w *Worker) mapIterMethod(name string, args []V) V {
	if name == "Reset" {
		o, ok := args[0].p.(*Object)
		if !ok {
			w.nilDeref()
		}
		r := argRV(args[1])
		if r == nil {
			o.vals[int(args[0].c)] = V{}
		} else {
			o.vals[int(args[0].c)] = V{p: &mapIterSt{m: r}}
		}
		return V{}
	}
	it := w.mapIterOf(args[0])
	switch name {
	case "Next":
		if it.done {
			w.goPanicStr("MapIter.Next called on exhausted iterator")
		}
		if it.it == nil {
			it.it = w.mapIter(w.rvMap(it.m))
		}
		it.k, it.v, it.valid = w.mapIterNext(it.it)
		it.done = !it.valid
		return bv(it.valid)
	case "Key", "Value":
		if !it.valid {
			w.goPanicStr("MapIter." + name + " called before Next")
		}
		if name == "Key" {
			return rvV(&RV{t: it.m.t.key, v: it.k, ro: it.m.ro})
		}
		return rvV(&RV{t: it.m.t.elem, v: it.v, ro: it.m.ro})
	}
	w.unsupported("reflect.MapIter." + name)
	return V{}
}

// deepEqual implements reflect.DeepEqual as a term.
func (w *Worker) deepEqual(t *RType, a, b V, depth int) *Term {
	tb := w.tb
	if depth > 200 {
		w.unsupported("DeepEqual depth")
	}
	switch t.kind {
	case reflect.Interface:
		if a.p == nil || b.p == nil {
			return tb.Bool(a.p == nil && b.p == nil)
		}
		x, y := a.p.(*Iface), b.p.(*Iface)
		if x.typ != y.typ {
			return tb.fls
		}
		return w.deepEqual(x.typ, x.v, y.v, depth+1)
	case reflect.Pointer:
		a, b = w.concPtr(a), w.concPtr(b)
		if a.p == b.p && a.c == b.c {
			return tb.tru
		}
		if a.p == nil || b.p == nil {
			return tb.fls
		}
		x, ok1 := a.p.(*Object)
		y, ok2 := b.p.(*Object)
		if !ok1 || !ok2 {
			return tb.fls
		}
		return w.deepEqual(t.elem, w.load(x, int(a.c), t.elem), w.load(y, int(b.c), t.elem), depth+1)
	case reflect.Slice:
		if (a.p == nil) != (b.p == nil) {
			return tb.fls
		}
		if a.p == nil {
			return tb.tru
		}
		x, y := a.p.(*Slice), b.p.(*Slice)
		if x.len != y.len {
			return tb.fls
		}
		res := tb.tru
		for i := 0; i < x.len; i++ {
			res = tb.And(res, w.deepEqual(t.elem, w.load(x.obj, x.off+i*t.elem.slots, t.elem), w.load(y.obj, y.off+i*t.elem.slots, t.elem), depth+1))
			if res == tb.fls {
				return res
			}
		}
		return res
	case reflect.Map:
		if (a.p == nil) != (b.p == nil) {
			return tb.fls
		}
		if a.p == nil {
			return tb.tru
		}
		x, y := a.p.(*MapObj), b.p.(*MapObj)
		if x.live != y.live {
			return tb.fls
		}
		res := tb.tru
		for _, e := range x.ents {
			if e.dead {
				continue
			}
			v, ok := w.mapGet(y, e.k)
			if !ok {
				return tb.fls
			}
			res = tb.And(res, w.deepEqual(t.elem, e.v, v, depth+1))
			if res == tb.fls {
				return res
			}
		}
		return res
	case reflect.Struct:
		res := tb.tru
		for i, ft := range t.ftyp {
			res = tb.And(res, w.deepEqual(ft, w.aggGet(a, t.foff[i], ft), w.aggGet(b, t.foff[i], ft), depth+1))
			if res == tb.fls {
				return res
			}
		}
		return res
	case reflect.Array:
		res := tb.tru
		for i := 0; i < t.alen; i++ {
			res = tb.And(res, w.deepEqual(t.elem, w.aggGet(a, i*t.elem.slots, t.elem), w.aggGet(b, i*t.elem.slots, t.elem), depth+1))
			if res == tb.fls {
				return res
			}
		}
		return res
	case reflect.Func:
		return tb.Bool(a.p == nil && b.p == nil)
	}
	return w.eq(t, a, b)
}

var reflectFuncs = map[string]intrinsic{
	"TypeOf": func(w *Worker, a []V) V {
		i, ok := a[0].p.(*Iface)
		if !ok {
			return V{}
		}
		return w.typeV(i.typ)
	},
	"ValueOf": func(w *Worker, a []V) V {
		i, ok := a[0].p.(*Iface)
		if !ok {
			return V{}
		}
		return rvV(&RV{t: i.typ, v: i.v})
	},
	"New": func(w *Worker, a []V) V {
		if a[0].p == nil {
			w.goPanicStr("reflect: New(nil)")
		}
		t := w.asType(a[0])
		return rvV(&RV{t: t.ptr(), v: V{p: newObject(t.slots)}})
	},
	"NewAt": func(w *Worker, a []V) V {
		t := w.asType(a[0])
		return rvV(&RV{t: t.ptr(), v: a[1]})
	},
	"Zero": func(w *Worker, a []V) V {
		if a[0].p == nil {
			w.goPanicStr("reflect: Zero(nil)")
		}
		return rvV(&RV{t: w.asType(a[0])})
	},
	"Indirect": func(w *Worker, a []V) V {
		r := argRV(a[0])
		if r == nil || r.t.kind != reflect.Pointer {
			return a[0]
		}
		return w.rvElem(r)
	},
	"PointerTo": func(w *Worker, a []V) V { return w.typeV(w.asType(a[0]).ptr()) },
	"PtrTo":     func(w *Worker, a []V) V { return w.typeV(w.asType(a[0]).ptr()) },
	"SliceOf":   func(w *Worker, a []V) V { return w.typeV(rtypeOf(types.NewSlice(w.asType(a[0]).T))) },
	"MapOf": func(w *Worker, a []V) V {
		return w.typeV(rtypeOf(types.NewMap(w.asType(a[0]).T, w.asType(a[1]).T)))
	},
	"ArrayOf": func(w *Worker, a []V) V {
		n := int64(w.conc(a[0], 64))
		if n < 0 || n > 1<<20 {
			w.unsupported("reflect.ArrayOf large")
		}
		return w.typeV(rtypeOf(types.NewArray(w.asType(a[1]).T, n)))
	},
	"StructOf": func(w *Worker, a []V) V {
		sft := w.eng.namedType("reflect", "StructField")
		var vars []*types.Var
		var tags []string
		if s, ok := a[0].p.(*Slice); ok {
			for i := 0; i < s.len; i++ {
				f := w.load(s.obj, s.off+i*sft.slots, sft)
				var name, tag string
				var typ *RType
				for k := 0; k < sft.st.NumFields(); k++ {
					x := w.aggGet(f, sft.foff[k], sft.ftyp[k])
					switch sft.st.Field(k).Name() {
					case "Name":
						name = w.needStr(x, "reflect.StructOf")
					case "Tag":
						tag = w.needStr(x, "reflect.StructOf")
					case "Type":
						if x.p == nil {
							w.goPanicStr("reflect.StructOf: field " + strconv.Itoa(i) + " has no type")
						}
						typ = w.asType(x)
					case "PkgPath":
						if x.p != nil {
							w.unsupported("reflect.StructOf of an unexported field")
						}
					case "Anonymous":
						if x.c != 0 {
							w.unsupported("reflect.StructOf of an embedded field")
						}
					}
				}
				if !token.IsExported(name) {
					w.unsupported("reflect.StructOf of an unexported field")
				}
				vars = append(vars, types.NewField(token.NoPos, nil, name, typ.T, false))
				tags = append(tags, tag)
			}
		}
		return w.typeV(rtypeOf(types.NewStruct(vars, tags)))
	},
	"MakeSlice": func(w *Worker, a []V) V {
		t := w.asType(a[0])
		if t.kind != reflect.Slice {
			w.goPanicStr("reflect.MakeSlice of non-slice type")
		}
		tb := w.tb
		L, C := w.term(a[1], 64), w.term(a[2], 64)
		z := tb.Const(64, 0)
		if w.decide(tb.Slt(L, z)) {
			w.goPanicStr("reflect.MakeSlice: negative len")
		}
		if w.decide(tb.Slt(C, z)) {
			w.goPanicStr("reflect.MakeSlice: negative cap")
		}
		if w.decide(tb.Slt(C, L)) {
			w.goPanicStr("reflect.MakeSlice: len > cap")
		}
		return rvV(&RV{t: t, v: w.makeSlice(t, a[1], a[2], "reflect.MakeSlice: ")})
	},
	"MakeMap": func(w *Worker, a []V) V {
		t := w.asType(a[0])
		if t.kind != reflect.Map {
			w.goPanicStr("reflect.MakeMapWithSize of non-map type")
		}
		return rvV(&RV{t: t, v: V{p: newMap(t.key, t.elem)}})
	},
	"MakeMapWithSize": func(w *Worker, a []V) V {
		t := w.asType(a[0])
		if t.kind != reflect.Map {
			w.goPanicStr("reflect.MakeMapWithSize of non-map type")
		}
		w.noteAlloc(w.term(a[1], 64), t.key.Size()+t.elem.Size()+1, "MakeMap")
		return rvV(&RV{t: t, v: V{p: newMap(t.key, t.elem)}})
	},
	"Copy": func(w *Worker, a []V) V {
		d, s := argRV(a[0]), argRV(a[1])
		if d == nil || s == nil {
			w.goPanicStr("reflect: call of reflect.Copy on zero Value")
		}
		slots := func(r *RV) (*Slice, V) {
			switch r.t.kind {
			case reflect.Slice:
				x, _ := w.rvGet(r).p.(*Slice)
				return x, V{}
			case reflect.Array:
				if r.addr {
					return &Slice{obj: r.o, off: r.off, len: r.t.alen, cap: r.t.alen}, V{}
				}
				o := newObject(r.t.slots)
				o.ensure(r.t.slots)
				w.store(o, 0, r.t, r.v)
				return &Slice{obj: o, len: r.t.alen, cap: r.t.alen}, V{}
			case reflect.String:
				return nil, w.rvGet(r)
			}
			w.rvKindPanic("Copy", r)
			return nil, V{}
		}
		if d.t.kind == reflect.Array {
			w.rvSettable(d, "reflect.Copy")
		}
		w.rvExported(d, "Copy")
		ds, _ := slots(d)
		if s.t.kind == reflect.String {
			_, str := slots(s)
			n := strLen(str)
			if ds == nil {
				return V{}
			}
			if ds.len < n {
				n = ds.len
			}
			w.copySlots(ds, w.strBytes(str)[:n])
			return iv(n)
		}
		if d.t.elem != s.t.elem {
			w.goPanicStr("reflect.Copy: element types differ")
		}
		ss, _ := slots(s)
		if ds == nil || ss == nil {
			return V{}
		}
		n := ds.len
		if ss.len < n {
			n = ss.len
		}
		es := d.t.elem.slots
		vals := make([]V, n*es)
		for i := range vals {
			vals[i] = w.loadSlot(ss.obj, ss.off+i)
		}
		w.copySlots(ds, vals)
		return iv(n)
	},
	"Append": func(w *Worker, a []V) V {
		r := argRV(a[0])
		if r == nil || r.t.kind != reflect.Slice {
			w.goPanicStr("reflect: call of reflect.Append on non-slice Value")
		}
		v := w.rvGet(r)
		es := r.t.elem.slots
		for _, x := range w.sliceBytes(a[1]) {
			xr := argRV(x)
			if xr == nil {
				w.goPanicStr("reflect: call of reflect.Append on zero Value")
			}
			ev := w.rvAssign(r.t.elem, xr)
			v = w.appendVals(v, w.flat(r.t.elem, ev), 1, es)
		}
		return rvV(&RV{t: r.t, v: v})
	},
	"AppendSlice": func(w *Worker, a []V) V {
		r, x := argRV(a[0]), argRV(a[1])
		if r == nil || x == nil || r.t.kind != reflect.Slice {
			w.goPanicStr("reflect: call of reflect.AppendSlice on non-slice Value")
		}
		es := r.t.elem.slots
		v := w.rvGet(r)
		if s, ok := w.rvGet(x).p.(*Slice); ok {
			vals := make([]V, s.len*es)
			for i := range vals {
				vals[i] = w.loadSlot(s.obj, s.off+i)
			}
			v = w.appendVals(v, vals, s.len, es)
		}
		return rvV(&RV{t: r.t, v: v})
	},
	"DeepEqual": func(w *Worker, a []V) V {
		return tv(w.deepEqual(anyType(), a[0], a[1], 0))
	},
}

// flat returns the slots of a value.
func (w *Worker) flat(t *RType, v V) []V {
	if !isAgg(t) {
		return []V{v}
	}
	if v.p == nil {
		return make([]V, t.slots)
	}
	return v.p.(*Agg).vals
}
