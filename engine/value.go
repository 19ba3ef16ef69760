package main

import (
	"fmt"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// V is a runtime value. The static type decides the interpretation:
//
//	scalars        c (masked bits) or t (symbolic)
//	string         p: nil (empty), string, *SStr
//	pointer        p: nil, *Object (offset in c), *SymPtr
//	slice          p: nil, *Slice
//	map            p: nil, *MapObj
//	interface      p: nil, *Iface
//	func           p: nil, *Closure
//	struct/array   p: *Agg (flattened slots); nil means all zero
//	tuple          p: Tuple
//	reflect.Value  p: nil, *RV
type V struct {
	c uint64
	t *Term
	p any
}

type Object struct {
	vals []V
	n    int // logical slots
	base bool
	ro   bool
	inl  [2]V
	sh   *shadow
	tag  string
}

func newObject(n int) *Object {
	o := &Object{n: n}
	if n <= 2 {
		o.vals = o.inl[:n]
	} else if n <= 64 {
		o.vals = make([]V, n)
	}
	return o
}

// ensure materialises storage up to slot i (exclusive).
func (o *Object) ensure(i int) {
	if i <= len(o.vals) {
		return
	}
	if i <= cap(o.vals) {
		o.vals = o.vals[:i]
		return
	}
	nc := 2 * cap(o.vals)
	if nc < i {
		nc = i
	}
	if nc < 16 {
		nc = 16
	}
	if nc > o.n && o.n >= i {
		nc = o.n
	}
	nv := make([]V, i, nc)
	copy(nv, o.vals)
	o.vals = nv
}

type SymPtr struct {
	obj  *Object
	off  int
	idx  *Term // 64 bit, known < n
	n    int
	step int
}

type Slice struct {
	obj      *Object
	off      int // in slots
	len, cap int // in elements
	capT     *Term
}

// SStr is a string whose bytes live in an object (possibly symbolic, possibly aliased).
type SStr struct {
	obj *Object
	off int
	n   int
}

type Iface struct {
	typ *RType
	v   V
}

type Closure struct {
	fn    *ssa.Function
	free  []V
	intr  func(w *Worker, args []V) V // native closure
	label string
}

type Agg struct{ vals []V }
type Tuple []V

type mapEnt struct {
	k, v V
	dead bool
	ck   any
}

type MapObj struct {
	keyT, valT *RType
	ents       []mapEnt
	idx        map[any]int
	nsym       int // live entries with symbolic keys
	live       int
	base       bool
	saved      bool
	gen        int
	sh         *shadow
}

type mapSave struct {
	m    *MapObj
	copy MapObj
}

func newMap(k, v *RType) *MapObj {
	return &MapObj{keyT: k, valT: v, idx: map[any]int{}}
}

func (m *MapObj) clone() MapObj {
	c := *m
	c.ents = append([]mapEnt(nil), m.ents...)
	c.idx = make(map[any]int, len(m.idx))
	for k, v := range m.idx {
		c.idx[k] = v
	}
	return c
}

type undoRec struct {
	o   *Object
	i   int
	old V
}

// ---- memory access

func (w *Worker) loadSlot(o *Object, i int) V {
	if w.mt {
		w.raceRead(o, i)
	}
	if o.tag != "" {
		w.unsupported("read of uninitialised package variable " + o.tag)
	}
	if i >= len(o.vals) {
		if i >= o.n || i < 0 {
			panic(fmt.Sprintf("engine: load out of object bounds %d/%d", i, o.n))
		}
		return V{}
	}
	return o.vals[i]
}

func (w *Worker) storeSlot(o *Object, i int, v V) {
	if w.mt {
		w.raceWrite(o, i)
	}
	if i >= len(o.vals) {
		if i >= o.n || i < 0 {
			panic(fmt.Sprintf("engine: store out of object bounds %d/%d", i, o.n))
		}
		if o.base && !w.initing {
			// growing base storage: record the logical zero
			w.undo = append(w.undo, undoRec{o, i, V{}})
		}
		o.ensure(i + 1)
	} else if o.base && !w.initing {
		w.undo = append(w.undo, undoRec{o, i, o.vals[i]})
	}
	if o.tag != "" {
		o.tag = ""
	}
	o.vals[i] = v
}

// load reads a value of type t at (o, off).
func (w *Worker) load(o *Object, off int, t *RType) V {
	if !isAgg(t) {
		return w.loadSlot(o, off)
	}
	n := t.slots
	a := &Agg{vals: make([]V, n)}
	for i := 0; i < n; i++ {
		a.vals[i] = w.loadSlot(o, off+i)
	}
	return V{p: a}
}

func isAgg(t *RType) bool {
	return (t.kind == reflect.Struct || t.kind == reflect.Array) && !t.opaqueV
}

func (w *Worker) store(o *Object, off int, t *RType, v V) {
	if !isAgg(t) {
		w.storeSlot(o, off, v)
		return
	}
	n := t.slots
	if v.p == nil {
		for i := 0; i < n; i++ {
			w.storeSlot(o, off+i, V{})
		}
		return
	}
	a := v.p.(*Agg)
	for i := 0; i < n; i++ {
		w.storeSlot(o, off+i, a.vals[i])
	}
}

// ---- scalars

func cv(c uint64) V { return V{c: c} }
func bv(b bool) V   { return V{c: b2u(b)} }
func iv(i int) V    { return V{c: uint64(i)} }
func sv(s string) V { return V{p: s} }
func tv(t *Term) V {
	if t.op == OpConst {
		return V{c: t.k}
	}
	return V{t: t}
}

func (w *Worker) term(v V, width uint8) *Term {
	if v.t != nil {
		return v.t
	}
	return w.tb.Const(width, v.c)
}

// ---- strings

func strLen(v V) int {
	switch s := v.p.(type) {
	case nil:
		return 0
	case *LazyStr:
		return strLen(force(v))
	case string:
		return len(s)
	case *SStr:
		return s.n
	}
	panic(fmt.Sprintf("engine: not a string: %T", v.p))
}

func (w *Worker) strByte(v V, i int) V {
	switch s := v.p.(type) {
	case *LazyStr:
		return w.strByte(force(v), i)
	case string:
		return V{c: uint64(s[i])}
	case *SStr:
		return w.loadSlot(s.obj, s.off+i)
	}
	panic("engine: strByte")
}

// concStr returns the Go string if all bytes are concrete.
func (w *Worker) concStr(v V) (string, bool) {
	switch s := v.p.(type) {
	case nil:
		return "", true
	case *LazyStr:
		return w.concStr(force(v))
	case string:
		return s, true
	case *SStr:
		b := make([]byte, s.n)
		for i := range b {
			x := w.loadSlot(s.obj, s.off+i)
			if x.t != nil {
				return "", false
			}
			b[i] = byte(x.c)
		}
		return string(b), true
	}
	panic(fmt.Sprintf("engine: not a string: %T", v.p))
}

func (w *Worker) strBytes(v V) []V {
	n := strLen(v)
	out := make([]V, n)
	for i := range out {
		out[i] = w.strByte(v, i)
	}
	return out
}

// mkStr builds a string from byte values (copied).
func mkStr(b []V) V {
	if len(b) == 0 {
		return V{}
	}
	conc := true
	for i := range b {
		if b[i].t != nil {
			conc = false
			break
		}
	}
	if conc {
		bs := make([]byte, len(b))
		for i := range b {
			bs[i] = byte(b[i].c)
		}
		return V{p: string(bs)}
	}
	o := &Object{n: len(b), vals: append([]V(nil), b...)}
	return V{p: &SStr{obj: o, n: len(b)}}
}

func (w *Worker) substr(v V, lo, hi int) V {
	if lo == hi {
		return V{}
	}
	switch s := v.p.(type) {
	case *LazyStr:
		return w.substr(force(v), lo, hi)
	case string:
		return V{p: s[lo:hi]}
	case *SStr:
		return V{p: &SStr{obj: s.obj, off: s.off + lo, n: hi - lo}}
	}
	panic("engine: substr")
}

func (w *Worker) strConcat(a, b V) V {
	_, l1 := a.p.(*LazyStr)
	_, l2 := b.p.(*LazyStr)
	if l1 || l2 {
		return w.joinParts([]any{a, b})
	}
	if strLen(a) == 0 {
		return b
	}
	if strLen(b) == 0 {
		return a
	}
	if x, ok := a.p.(string); ok {
		if y, ok := b.p.(string); ok {
			w.charge((len(x) + len(y)) >> 4)
			return V{p: x + y}
		}
	}
	return mkStr(append(w.strBytes(a), w.strBytes(b)...))
}

func (w *Worker) strEq(a, b V) *Term {
	a, b = force(a), force(b)
	if strLen(a) != strLen(b) {
		return w.tb.fls
	}
	x, ok1 := a.p.(string)
	y, ok2 := b.p.(string)
	if ok1 && ok2 {
		return w.tb.Bool(x == y)
	}
	n := strLen(a)
	if n == 0 {
		return w.tb.tru
	}
	if s1, ok := a.p.(*SStr); ok {
		if s2, ok := b.p.(*SStr); ok && s1.obj == s2.obj && s1.off == s2.off {
			return w.tb.tru
		}
	}
	var ts []*Term
	for i := 0; i < n; i++ {
		p, q := w.strByte(a, i), w.strByte(b, i)
		if p.t == nil && q.t == nil {
			if p.c != q.c {
				return w.tb.fls
			}
			continue
		}
		e := w.tb.Eq(w.term(p, 8), w.term(q, 8))
		if e == w.tb.fls {
			return e
		}
		ts = append(ts, e)
	}
	return w.tb.And(ts...)
}

// strLess returns a < b as a term.
func (w *Worker) strLess(a, b V) *Term {
	x, ok1 := w.concStr(a)
	y, ok2 := w.concStr(b)
	if ok1 && ok2 {
		return w.tb.Bool(x < y)
	}
	na, nb := strLen(a), strLen(b)
	n := na
	if nb < n {
		n = nb
	}
	res := w.tb.Bool(na < nb)
	for i := n - 1; i >= 0; i-- {
		p, q := w.term(w.strByte(a, i), 8), w.term(w.strByte(b, i), 8)
		res = w.tb.Or(w.tb.Ult(p, q), w.tb.And(w.tb.Eq(p, q), res))
	}
	return res
}

// ---- slices

func (w *Worker) sliceLen(v V) int {
	if v.p == nil {
		return 0
	}
	return v.p.(*Slice).len
}

func (w *Worker) sliceBytes(v V) []V {
	if v.p == nil {
		return nil
	}
	s := v.p.(*Slice)
	out := make([]V, s.len)
	for i := range out {
		out[i] = w.loadSlot(s.obj, s.off+i)
	}
	return out
}

func mkByteSlice(b []V) V {
	o := &Object{n: len(b), vals: append([]V(nil), b...)}
	return V{p: &Slice{obj: o, len: len(b), cap: len(b)}}
}

func (w *Worker) bytesFromString(v V) V {
	b := w.strBytes(v)
	return mkByteSlice(b)
}

// ---- equality

func (w *Worker) eq(t *RType, a, b V) *Term {
	switch k := t.kind; {
	case k == reflect.Bool:
		if a.t == nil && b.t == nil {
			return w.tb.Bool(a.c == b.c)
		}
		return w.tb.Eq(w.term(a, 0), w.term(b, 0))
	case isInt(k) || isUint(k):
		if a.t == nil && b.t == nil {
			if a.p != nil || b.p != nil { // uintptr carrying a pointer
				return w.tb.Bool(a.p == b.p && a.c == b.c)
			}
			return w.tb.Bool(a.c == b.c)
		}
		return w.tb.Eq(w.term(a, t.w), w.term(b, t.w))
	case isFloat(k):
		return w.tb.FEq(w.term(a, t.w), w.term(b, t.w))
	case k == reflect.String:
		return w.strEq(a, b)
	case k == reflect.Interface:
		return w.ifaceEq(a, b)
	case k == reflect.Struct:
		if t.opaqueV {
			w.unsupported("comparison of reflect.Value")
		}
		res := w.tb.tru
		for i, ft := range t.ftyp {
			if t.st.Field(i).Name() == "_" {
				continue
			}
			res = w.tb.And(res, w.eq(ft, w.aggGet(a, t.foff[i], ft), w.aggGet(b, t.foff[i], ft)))
			if res == w.tb.fls {
				return res
			}
		}
		return res
	case k == reflect.Array:
		res := w.tb.tru
		for i := 0; i < t.alen; i++ {
			res = w.tb.And(res, w.eq(t.elem, w.aggGet(a, i*t.elem.slots, t.elem), w.aggGet(b, i*t.elem.slots, t.elem)))
			if res == w.tb.fls {
				return res
			}
		}
		return res
	case k == reflect.Complex64 || k == reflect.Complex128:
		x, _ := a.p.(complex128)
		y, _ := b.p.(complex128)
		return w.tb.Bool(x == y)
	default:
		a, b = w.concPtr(a), w.concPtr(b)
		return w.tb.Bool(w.ptrEq(a, b))
	}
}

func (w *Worker) ptrEq(a, b V) bool {
	if a.p == nil || b.p == nil {
		return a.p == nil && b.p == nil && a.c == b.c
	}
	if x, ok := a.p.(*Slice); ok { // nil comparisons only
		y, ok2 := b.p.(*Slice)
		return ok2 && x == y
	}
	return a.p == b.p && a.c == b.c
}

func (w *Worker) ifaceEq(a, b V) *Term {
	if a.p == nil || b.p == nil {
		return w.tb.Bool(a.p == nil && b.p == nil)
	}
	x, y := a.p.(*Iface), b.p.(*Iface)
	if x.typ != y.typ {
		return w.tb.fls
	}
	if !x.typ.comparable() {
		w.goPanicStr("runtime error: comparing uncomparable type " + x.typ.String())
	}
	return w.eq(x.typ, x.v, y.v)
}

func (w *Worker) aggGet(a V, off int, t *RType) V {
	if a.p == nil {
		return V{}
	}
	ag := a.p.(*Agg)
	if isAgg(t) {
		return V{p: &Agg{vals: ag.vals[off : off+t.slots : off+t.slots]}}
	}
	return ag.vals[off]
}

// ---- maps

type ptrKey struct {
	p any
	c uint64
}
type ifKey struct {
	t *RType
	k any
}

// ckey returns a Go comparable key for a concrete value, or false when symbolic.
func (w *Worker) ckey(t *RType, v V) (any, bool) {
	switch k := t.kind; {
	case k == reflect.Bool || isInt(k) || isUint(k):
		if v.t != nil {
			return nil, false
		}
		if v.p != nil {
			return ptrKey{v.p, v.c}, true
		}
		return v.c, true
	case isFloat(k):
		if v.t != nil {
			return nil, false
		}
		if v.c<<(64-t.w)<<1 == 0 { // +-0
			return uint64(0), true
		}
		return v.c, true
	case k == reflect.String:
		return w.concStrAny(v)
	case k == reflect.Interface:
		if v.p == nil {
			return nil, true
		}
		i := v.p.(*Iface)
		if !i.typ.comparable() {
			w.goPanicStr("runtime error: hash of unhashable type " + i.typ.String())
		}
		x, ok := w.ckey(i.typ, i.v)
		if !ok {
			return nil, false
		}
		return ifKey{i.typ, x}, true
	case k == reflect.Struct:
		var sb strings.Builder
		var ptrs [4]any
		np := 0
		for i, ft := range t.ftyp {
			x, ok := w.ckey(ft, w.aggGet(v, t.foff[i], ft))
			if !ok {
				return nil, false
			}
			switch x := x.(type) {
			case uint64, string, nil:
				fmt.Fprintf(&sb, "%T:%q;", x, fmt.Sprint(x))
			default:
				if np < 4 {
					ptrs[np] = x
					np++
				} else {
					return nil, false
				}
			}
		}
		return [5]any{sb.String(), ptrs[0], ptrs[1], ptrs[2], ptrs[3]}, true
	case k == reflect.Array:
		var sb strings.Builder
		for i := 0; i < t.alen; i++ {
			x, ok := w.ckey(t.elem, w.aggGet(v, i*t.elem.slots, t.elem))
			if !ok {
				return nil, false
			}
			fmt.Fprintf(&sb, "%T:%q;", x, fmt.Sprint(x))
		}
		return [2]any{"array", sb.String()}, true
	default:
		v = w.concPtr(v)
		return ptrKey{v.p, v.c}, true
	}
}

func (w *Worker) concStrAny(v V) (any, bool) {
	s, ok := w.concStr(v)
	return s, ok
}

// find returns the index of the entry for key k, or -1; it may fork.
func (w *Worker) mapFind(m *MapObj, k V) (int, any) {
	ck, conc := w.ckey(m.keyT, k)
	if conc {
		if isFloat(m.keyT.kind) && k.c != 0 {
			if w.tb.FIsNaN(w.tb.Const(m.keyT.w, k.c)) == w.tb.tru {
				return -1, nil
			}
		}
		if i, ok := m.idx[ck]; ok {
			return i, ck
		}
		if m.nsym == 0 {
			return -1, ck
		}
	} else {
		ck = nil
	}
	for i := range m.ents {
		e := &m.ents[i]
		if e.dead {
			continue
		}
		if conc && e.ck != nil {
			continue
		}
		if w.decide(w.eq(m.keyT, e.k, k)) {
			return i, ck
		}
	}
	return -1, ck
}

func (w *Worker) mapWritable(m *MapObj) {
	if w.mt {
		w.raceMap(m, true)
	}
	if m.base && !w.initing && !m.saved {
		m.saved = true
		w.mapUndo = append(w.mapUndo, mapSave{m, m.clone()})
	}
}

func (w *Worker) mapGet(m *MapObj, k V) (V, bool) {
	if m == nil {
		return V{}, false
	}
	if w.mt {
		w.raceMap(m, false)
	}
	i, _ := w.mapFind(m, k)
	if i < 0 {
		return V{}, false
	}
	return m.ents[i].v, true
}

func (w *Worker) mapSet(m *MapObj, k, v V) {
	w.mapWritable(m)
	i, ck := w.mapFind(m, k)
	if i >= 0 {
		m.ents[i].v = v
		return
	}
	if ck == nil {
		if c, ok := w.ckey(m.keyT, k); ok && !(isFloat(m.keyT.kind)) {
			ck = c
			// nil interface key has a nil canonical key; keep it symbolic-like
		}
	}
	m.ents = append(m.ents, mapEnt{k: k, v: v, ck: ck})
	if ck != nil {
		m.idx[ck] = len(m.ents) - 1
	} else {
		m.nsym++
	}
	m.live++
}

func (w *Worker) mapDelete(m *MapObj, k V) {
	if m == nil {
		return
	}
	w.mapWritable(m)
	i, _ := w.mapFind(m, k)
	if i < 0 {
		return
	}
	w.mapKill(m, i)
}

func (w *Worker) mapKill(m *MapObj, i int) {
	e := &m.ents[i]
	e.dead = true
	if e.ck != nil {
		delete(m.idx, e.ck)
	} else {
		m.nsym--
	}
	m.live--
}

func (w *Worker) mapClear(m *MapObj) {
	if m == nil {
		return
	}
	w.mapWritable(m)
	for i := range m.ents {
		if !m.ents[i].dead {
			w.mapKill(m, i)
		}
	}
}
