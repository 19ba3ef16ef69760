package main

import (
	"fmt"
	"go/types"
	"math"
	"math/bits"
	"reflect"
	"strconv"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

var theEngine *Engine

func nop(w *Worker, a []V) V { return V{} }

var intrTable = map[string]intrinsic{}

func findIntrinsic(name string, fn *ssa.Function) intrinsic {
	if f, ok := intrTable[name]; ok {
		return f
	}
	if fn.Name() == "init" && fn.Signature.Recv() == nil && fn.Signature.Params().Len() == 0 && fn.Pkg != nil && fn.Parent() == nil {
		if !theEngine.initPkg(fn.Pkg.Pkg.Path()) {
			return nop
		}
	}
	if strings.HasPrefix(name, "(reflect.Value).") {
		m := name[len("(reflect.Value)."):]
		if h := theEngine.symHelper("reflect" + m); h != nil {
			return func(w *Worker, a []V) V { w.tail = &tailCall{cl: V{p: &Closure{fn: h}}, args: a}; return V{} }
		}
		if m[0] >= 'A' && m[0] <= 'Z' {
			return func(w *Worker, a []V) V { return w.rvMethod(m, a) }
		}
	}
	if strings.HasPrefix(name, "(*reflect.MapIter).") {
		m := name[len("(*reflect.MapIter)."):]
		return func(w *Worker, a []V) V { return w.mapIterMethod(m, a) }
	}
	if ta := fn.TypeArgs(); len(ta) == 1 {
		switch name {
		case "reflect.TypeFor":
			return func(w *Worker, a []V) V { return w.typeV(rtypeOf(ta[0])) }
		case "reflect.TypeAssert":
			if !types.IsInterface(ta[0]) {
				t := rtypeOf(ta[0])
				return func(w *Worker, a []V) V {
					i, ok := w.rvMethod("Interface", a).p.(*Iface)
					if !ok || i.typ != t {
						return V{p: Tuple{V{}, bv(false)}}
					}
					return V{p: Tuple{i.v, bv(true)}}
				}
			}
		case "slices.overlaps":
			return func(w *Worker, a []V) V {
				x, ok1 := a[0].p.(*Slice)
				y, ok2 := a[1].p.(*Slice)
				if !ok1 || !ok2 || x.len == 0 || y.len == 0 || x.obj != y.obj {
					return bv(false)
				}
				n := rtypeOf(ta[0]).slots
				return bv(x.off < y.off+y.len*n && y.off < x.off+x.len*n)
			}
		}
	}
	if strings.HasPrefix(name, "reflect.") {
		if f, ok := reflectFuncs[name[len("reflect."):]]; ok {
			return f
		}
		if fn.Name() != "init" && name != "reflect.VisibleFields" && name != "reflect.TypeFor" && name != "reflect.TypeAssert" {
			return func(w *Worker, a []V) V { w.unsupported(name); return V{} }
		}
	}
	if strings.HasPrefix(name, "(*sync.Map).") {
		return syncMapOp(name[len("(*sync.Map)."):])
	}
	if strings.HasPrefix(name, "unicode.") {
		if f := unicodeFn(fn.Name()); f != nil {
			return f
		}
	}
	if strings.HasPrefix(name, symPath+".") {
		if f, ok := symFuncs[fn.Name()]; ok {
			return f
		}
	}
	return nil
}

func unicodeFn(n string) intrinsic {
	b := map[string]func(rune) bool{"IsLetter": unicode.IsLetter, "IsDigit": unicode.IsDigit, "IsNumber": unicode.IsNumber, "IsSpace": unicode.IsSpace,
		"IsUpper": unicode.IsUpper, "IsLower": unicode.IsLower, "IsPunct": unicode.IsPunct, "IsPrint": unicode.IsPrint, "IsControl": unicode.IsControl, "IsGraphic": unicode.IsGraphic}[n]
	if b != nil {
		return func(w *Worker, a []V) V { return bv(b(rune(int32(w.conc(a[0], 32))))) }
	}
	m := map[string]func(rune) rune{"ToUpper": unicode.ToUpper, "ToLower": unicode.ToLower, "ToTitle": unicode.ToTitle, "SimpleFold": unicode.SimpleFold}[n]
	if m != nil {
		return func(w *Worker, a []V) V { return V{c: uint64(uint32(m(rune(int32(w.conc(a[0], 32))))))} }
	}
	return nil
}

// fallback makes the interpreter run the function's own body.
func (w *Worker) fallback() V { w.fb = true; return V{} }

func f1(f func(float64) float64) intrinsic {
	return func(w *Worker, a []V) V {
		if a[0].t != nil {
			w.unsupported("symbolic float function")
		}
		return V{c: math.Float64bits(f(math.Float64frombits(a[0].c)))}
	}
}

func (w *Worker) mkErr(msg V) V {
	et := w.eng.namedPtr("errors", "errorString")
	o := newObject(1)
	o.vals[0] = msg
	return V{p: &Iface{typ: et, v: V{p: o}}}
}

func ident(w *Worker, a []V) V { return a[0] }

func init() {
	t := intrTable
	// sync
	t["(*sync.Mutex).Lock"] = mutexLock
	t["(*sync.Mutex).TryLock"] = mutexTryLock
	t["(*sync.Mutex).Unlock"] = mutexUnlock
	t["(*sync.RWMutex).Lock"] = mutexLock
	t["(*sync.RWMutex).TryLock"] = mutexTryLock
	t["(*sync.RWMutex).Unlock"] = mutexUnlock
	t["(*sync.RWMutex).RLock"] = rwRLock
	t["(*sync.RWMutex).RUnlock"] = rwRUnlock
	t["(*sync.WaitGroup).Add"] = wgAdd
	t["(*sync.WaitGroup).Done"] = wgDone
	t["(*sync.WaitGroup).Wait"] = wgWait
	t["(*sync.Pool).Get"] = poolGet
	t["(*sync.Pool).Put"] = poolPut
	t["sync.runtime_registerPoolCleanup"] = nop
	t["sync.init#1"] = nop
	t["sync.init#2"] = nop
	t["sync.init#3"] = nop
	t["sync.runtime_notifyListCheck"] = nop
	for _, x := range []struct {
		n string
		w uint8
	}{{"Int32", 32}, {"Int64", 64}, {"Uint32", 32}, {"Uint64", 64}, {"Uintptr", 64}, {"Pointer", 0}} {
		p := "sync/atomic."
		t[p+"Load"+x.n] = atomicLoad
		t[p+"Store"+x.n] = atomicStore
		t[p+"Swap"+x.n] = atomicSwap
		t[p+"CompareAndSwap"+x.n] = atomicCAS(x.w)
		if x.w > 0 {
			t[p+"Add"+x.n] = atomicAdd(x.w)
			t[p+"And"+x.n] = atomicBits(x.w, true)
			t[p+"Or"+x.n] = atomicBits(x.w, false)
		}
	}
	t["(*sync/atomic.Value).Load"] = atomicLoad
	t["(*sync/atomic.Value).Store"] = func(w *Worker, a []V) V {
		if a[1].p == nil {
			w.goPanicStr("sync/atomic: store of nil value into Value")
		}
		return atomicStore(w, a)
	}
	t["(*sync/atomic.Value).Swap"] = atomicSwap
	t["(*sync/atomic.Value).CompareAndSwap"] = func(w *Worker, a []V) V {
		o, i, sv := w.atomicVar(a[0])
		ok := false
		w.quiet(func() {
			ok = w.decide(w.ifaceEq(w.loadSlot(o, i), a[1]))
			if ok {
				w.storeSlot(o, i, a[2])
			}
		})
		w.acquire(sv)
		if ok {
			w.release(sv)
		}
		w.schedPoint()
		return bv(ok)
	}
	t["maps.clone"] = func(w *Worker, a []V) V {
		i, ok := a[0].p.(*Iface)
		if !ok {
			w.unsupported("maps.clone")
		}
		m, ok := i.v.p.(*MapObj)
		if !ok {
			return a[0]
		}
		if w.mt {
			w.raceMap(m, false)
		}
		c := m.clone()
		c.base, c.saved, c.sh = false, false, nil
		return V{p: &Iface{typ: i.typ, v: V{p: &c}}}
	}
	t["runtime.NumGoroutine"] = func(w *Worker, a []V) V { return iv(len(w.gs)) }
	t["runtime.KeepAlive"] = nop
	t["runtime.GC"] = nop
	t["runtime.SetFinalizer"] = nop
	t["runtime.Gosched"] = func(w *Worker, a []V) V { w.schedPoint(); return V{} }
	t["runtime.NumCPU"] = func(w *Worker, a []V) V { return iv(8) }
	t["runtime.GOMAXPROCS"] = func(w *Worker, a []V) V { return iv(8) }
	t["internal/abi.NoEscape"] = ident
	t["internal/abi.Escape"] = ident
	t["internal/reflectlite.TypeOf"] = reflectFuncs["TypeOf"]
	t["internal/race.Enabled"] = nop
	t["internal/bytealg.init"] = nop
	// math
	for _, n := range []string{"Float64bits", "Float64frombits", "Float32bits", "Float32frombits"} {
		t["math."+n] = ident
	}
	for n, f := range map[string]func(float64) float64{"Floor": math.Floor, "Ceil": math.Ceil, "Trunc": math.Trunc, "Sqrt": math.Sqrt, "Log10": math.Log10,
		"Log": math.Log, "Log2": math.Log2, "Exp": math.Exp, "Round": math.Round, "RoundToEven": math.RoundToEven} {
		t["math."+n] = f1(f)
	}
	one := math.Float64bits(1)
	for n, f := range map[string]func(tb *TB, x *Term) *Term{
		"Trunc": (*TB).ftrunc,
		"Floor": func(tb *TB, x *Term) *Term {
			t := tb.ftrunc(x)
			return tb.Ite(tb.FLt(x, t), tb.FBin(OpFSub, t, tb.Const(64, one)), t)
		},
		"Ceil": func(tb *TB, x *Term) *Term {
			t := tb.ftrunc(x)
			return tb.Ite(tb.FLt(t, x), tb.FBin(OpFAdd, t, tb.Const(64, one)), t)
		},
	} {
		conc := t["math."+n]
		t["math."+n] = func(w *Worker, a []V) V {
			if a[0].t == nil {
				return conc(w, a)
			}
			return tv(f(w.tb, a[0].t))
		}
	}
	t["math.Abs"] = func(w *Worker, a []V) V { return tv(w.tb.fabs(w.term(a[0], 64))) }
	t["math.Modf"] = func(w *Worker, a []V) V {
		if a[0].t != nil {
			return w.fallback()
		}
		x, y := math.Modf(math.Float64frombits(a[0].c))
		return V{p: Tuple{{c: math.Float64bits(x)}, {c: math.Float64bits(y)}}}
	}
	minmax := func(conc func(x, y float64) float64, max bool) intrinsic {
		return func(w *Worker, a []V) V {
			if a[0].t == nil && a[1].t == nil {
				return V{c: math.Float64bits(conc(math.Float64frombits(a[0].c), math.Float64frombits(a[1].c)))}
			}
			tb := w.tb
			x, y := w.term(a[0], 64), w.term(a[1], 64)
			lt, neg := tb.FLt(x, y), tb.Const(64, 1<<63)
			first, second := x, y // of equal zeros: the one without (max) or with (min) a sign
			if max {
				lt, first, second = tb.FLt(y, x), y, x
			}
			r := tb.Ite(lt, x, tb.Ite(tb.FEq(x, y), tb.Ite(tb.Eq(x, neg), first, second), y))
			r = tb.Ite(tb.FIsNaN(y), tb.Const(64, math.Float64bits(math.NaN())), r)
			r = tb.Ite(tb.FIsNaN(x), tb.Const(64, math.Float64bits(math.NaN())), r)
			inf := tb.Const(64, math.Float64bits(math.Inf(-1)))
			if max {
				inf = tb.Const(64, math.Float64bits(math.Inf(1)))
			}
			return tv(tb.Ite(tb.Eq(x, inf), inf, tb.Ite(tb.Eq(y, inf), inf, r)))
		}
	}
	t["math.Max"], t["math.Min"] = minmax(math.Max, true), minmax(math.Min, false)
	t["math.Hypot"] = func(w *Worker, a []V) V {
		if a[0].t != nil || a[1].t != nil {
			w.unsupported("symbolic math.Hypot")
		}
		return V{c: math.Float64bits(math.Hypot(math.Float64frombits(a[0].c), math.Float64frombits(a[1].c)))}
	}
	t["math.Pow"] = func(w *Worker, a []V) V {
		if a[0].t != nil || a[1].t != nil {
			w.unsupported("symbolic math.Pow")
		}
		return V{c: math.Float64bits(math.Pow(math.Float64frombits(a[0].c), math.Float64frombits(a[1].c)))}
	}
	t["math/bits.Mul64"] = func(w *Worker, a []V) V {
		if a[0].t != nil || a[1].t != nil {
			return w.fallback()
		}
		h, l := bits.Mul64(a[0].c, a[1].c)
		return V{p: Tuple{{c: h}, {c: l}}}
	}
	for n, f := range map[string]func(uint64) int{"Len64": bits.Len64, "LeadingZeros64": bits.LeadingZeros64, "TrailingZeros64": bits.TrailingZeros64, "OnesCount64": bits.OnesCount64} {
		t["math/bits."+n] = func(w *Worker, a []V) V {
			if a[0].t != nil {
				return w.fallback()
			}
			return iv(f(a[0].c))
		}
	}
	// bytealg
	idx := func(get func(w *Worker, v V) []V, last bool) intrinsic {
		return func(w *Worker, a []V) V {
			b := get(w, a[0])
			n := len(b)
			for k := 0; k < n; k++ {
				i := k
				if last {
					i = n - 1 - k
				}
				if b[i].t == nil && a[1].t == nil {
					if b[i].c == a[1].c {
						return iv(i)
					}
					continue
				}
				if w.decide(w.tb.Eq(w.term(b[i], 8), w.term(a[1], 8))) {
					return iv(i)
				}
			}
			return V{c: ^uint64(0)}
		}
	}
	sb := func(w *Worker, v V) []V { return w.sliceBytes(v) }
	ss := func(w *Worker, v V) []V { return w.strBytes(v) }
	for _, p := range []string{"internal/bytealg.", "internal/stringslite.", "bytes.", "strings."} {
		g, gs := sb, ss
		if p == "internal/stringslite." || p == "strings." {
			g = ss
		}
		t[p+"IndexByte"] = idx(g, false)
		t[p+"LastIndexByte"] = idx(g, true)
		t[p+"IndexByteString"] = idx(gs, false)
		t[p+"LastIndexByteString"] = idx(gs, true)
	}
	cnt := func(get func(w *Worker, v V) []V) intrinsic {
		return func(w *Worker, a []V) V {
			n := 0
			for _, x := range get(w, a[0]) {
				if w.decide(w.tb.Eq(w.term(x, 8), w.term(a[1], 8))) {
					n++
				}
			}
			return iv(n)
		}
	}
	t["internal/bytealg.Count"] = cnt(sb)
	t["internal/bytealg.CountString"] = cnt(ss)
	cmp := func(get func(w *Worker, v V) []V) intrinsic {
		return func(w *Worker, a []V) V {
			x, y := mkStr(get(w, a[0])), mkStr(get(w, a[1]))
			if w.decide(w.strEq(x, y)) {
				return V{}
			}
			if w.decide(w.strLess(x, y)) {
				return V{c: ^uint64(0)}
			}
			return iv(1)
		}
	}
	t["internal/bytealg.Compare"] = cmp(sb)
	t["internal/bytealg.CompareString"] = cmp(ss)
	t["strings.Compare"] = cmp(ss)
	t["bytes.Compare"] = cmp(sb)
	index := func(get func(w *Worker, v V) []V) intrinsic {
		return func(w *Worker, a []V) V {
			x, y := get(w, a[0]), get(w, a[1])
			n := len(y)
			for i := 0; i+n <= len(x); i++ {
				if w.decide(w.strEq(mkStr(x[i:i+n]), mkStr(y))) {
					return iv(i)
				}
			}
			return V{c: ^uint64(0)}
		}
	}
	t["internal/bytealg.Index"] = index(sb)
	t["internal/bytealg.IndexString"] = index(ss)
	t["strings.Index"] = index(ss)
	t["internal/stringslite.Index"] = index(ss)
	t["bytes.Index"] = index(sb)
	eqb := func(w *Worker, a []V) V {
		return tv(w.strEq(mkStr(w.sliceBytes(a[0])), mkStr(w.sliceBytes(a[1]))))
	}
	t["bytes.Equal"] = eqb
	t["internal/bytealg.Equal"] = eqb
	t["internal/bytealg.MakeNoZero"] = func(w *Worker, a []V) V {
		return w.makeSlice(rtypeOf(types.NewSlice(types.Typ[types.Uint8])), a[0], a[0], "make")
	}
	// errors
	t["errors.As"] = errorsAs
	t["errors.Is"] = errorsIs
	// sort
	t["sort.Slice"] = sortSlice
	t["sort.SliceStable"] = sortSlice
	// reflect helpers
	t["(reflect.Kind).String"] = func(w *Worker, a []V) V {
		return strV(reflect.Kind(w.conc(a[0], 64)).String())
	}
	t["(reflect.StructTag).Get"] = func(w *Worker, a []V) V {
		return strV(reflect.StructTag(w.needStr(a[0], "StructTag")).Get(w.needStr(a[1], "StructTag")))
	}
	t["(reflect.StructTag).Lookup"] = func(w *Worker, a []V) V {
		s, ok := reflect.StructTag(w.needStr(a[0], "StructTag")).Lookup(w.needStr(a[1], "StructTag"))
		return V{p: Tuple{strV(s), bv(ok)}}
	}
	// strconv
	t["strconv.AppendInt"] = appendInt(true)
	t["strconv.AppendUint"] = appendInt(false)
	t["strconv.FormatInt"] = formatInt(true)
	t["strconv.FormatUint"] = formatInt(false)
	t["strconv.Itoa"] = func(w *Worker, a []V) V { return formatInt(true)(w, []V{a[0], iv(10)}) }
	t["strconv.AppendFloat"] = func(w *Worker, a []V) V {
		txt := w.fmtFloat(a[1], byte(w.conc(a[2], 8)), int(int64(w.conc(a[3], 64))), int(w.conc(a[4], 64)))
		return w.appendVals(a[0], txt, len(txt), 1)
	}
	t["strconv.FormatFloat"] = func(w *Worker, a []V) V {
		return mkStr(w.fmtFloat(a[0], byte(w.conc(a[1], 8)), int(int64(w.conc(a[2], 64))), int(w.conc(a[3], 64))))
	}
	t["strconv.ParseFloat"] = parseFloat
	for _, n := range []string{"internal/strconv.eiselLemire64", "internal/strconv.eiselLemire32"} {
		t[n] = func(w *Worker, a []V) V {
			if a[0].t == nil && a[1].t == nil {
				return w.fallback()
			}
			return V{p: Tuple{{}, {}}} // leave it to the general algorithm
		}
	}
	t["(*internal/strconv.decimal).floatBits"] = floatBits
	t["strconv.ParseInt"] = func(w *Worker, a []V) V {
		if s, ok := w.concStr(a[0]); ok && a[1].t == nil && a[2].t == nil {
			if x, err := strconv.ParseInt(s, int(a[1].c), int(a[2].c)); err == nil {
				return V{p: Tuple{{c: uint64(x)}, {}}}
			}
		}
		return w.fallback()
	}
	for _, n := range []string{"Quote", "QuoteToASCII", "QuoteToGraphic"} {
		f := map[string]func(string) string{"Quote": strconv.Quote, "QuoteToASCII": strconv.QuoteToASCII, "QuoteToGraphic": strconv.QuoteToGraphic}[n]
		t["strconv."+n] = func(w *Worker, a []V) V {
			if s, ok := w.concStr(a[0]); ok {
				return strV(f(s))
			}
			return w.lazyOpaque("quoted symbolic string")
		}
	}
	// fmt
	t["fmt.Errorf"] = fmtErrorf
	t["fmt.Sprintf"] = func(w *Worker, a []V) V { return w.format(a[0], w.sliceBytes(a[1])) }
	t["fmt.Appendf"] = func(w *Worker, a []V) V {
		s := w.strBytes(w.format(a[1], w.sliceBytes(a[2])))
		return w.appendVals(a[0], s, len(s), 1)
	}
	t["fmt.Sprint"] = func(w *Worker, a []V) V { return w.sprint(w.sliceBytes(a[0]), false) }
	t["fmt.Append"] = func(w *Worker, a []V) V {
		s := w.strBytes(w.sprint(w.sliceBytes(a[1]), false))
		return w.appendVals(a[0], s, len(s), 1)
	}
	t["fmt.Sprintln"] = func(w *Worker, a []V) V { return w.sprint(w.sliceBytes(a[0]), true) }
	t["fmt.Fprintf"] = func(w *Worker, a []V) V {
		return w.fprint(a[0], w.format(a[1], w.sliceBytes(a[2])))
	}
	t["fmt.Fprint"] = func(w *Worker, a []V) V {
		return w.fprint(a[0], w.sprint(w.sliceBytes(a[1]), false))
	}
	for _, n := range []string{"Printf", "Println", "Print"} {
		t["fmt."+n] = func(w *Worker, a []V) V { return V{p: Tuple{{}, {}}} }
	}
}

func (w *Worker) fprint(dst, s V) V {
	b := w.bytesFromString(s)
	r, ok := w.callMethod(dst, "Write", b)
	if !ok {
		w.unsupported("fmt.Fprint writer")
	}
	return r
}

func errorsAs(w *Worker, a []V) V {
	err, target := a[0], a[1]
	if err.p == nil {
		return bv(false)
	}
	ti, ok := target.p.(*Iface)
	if !ok || ti.typ.kind != reflect.Pointer {
		w.goPanicStr("errors: target must be a non-nil pointer")
	}
	want := ti.typ.elem
	var rec func(e V) bool
	rec = func(e V) bool {
		for e.p != nil {
			i := e.p.(*Iface)
			match := false
			if want.kind == reflect.Interface {
				match = w.implements(i.typ, want.T.Underlying().(*types.Interface))
			} else {
				match = i.typ == want
			}
			if match {
				v := i.v
				if want.kind == reflect.Interface {
					v = e
				}
				w.store(ti.v.p.(*Object), int(ti.v.c), want, v)
				return true
			}
			sel := w.eng.prog.MethodSets.MethodSet(i.typ.T).Lookup(nil, "Unwrap")
			if sel == nil {
				return false
			}
			res := sel.Obj().Type().(*types.Signature).Results()
			u, _ := w.callMethod(e, "Unwrap")
			if _, ok := res.At(0).Type().Underlying().(*types.Slice); ok {
				for _, x := range w.sliceBytes(u) {
					if rec(x) {
						return true
					}
				}
				return false
			}
			e = u
		}
		return false
	}
	return bv(rec(err))
}

func errorsIs(w *Worker, a []V) V {
	err, target := a[0], a[1]
	if err.p == nil || target.p == nil {
		return bv(err.p == nil && target.p == nil)
	}
	var rec func(e V) bool
	rec = func(e V) bool {
		for e.p != nil {
			i := e.p.(*Iface)
			if i.typ.comparable() && target.p.(*Iface).typ == i.typ && w.decide(w.ifaceEq(e, target)) {
				return true
			}
			if w.eng.prog.MethodSets.MethodSet(i.typ.T).Lookup(nil, "Is") != nil {
				if r, ok := w.callMethod(e, "Is", target); ok && r.c != 0 {
					return true
				}
			}
			sel := w.eng.prog.MethodSets.MethodSet(i.typ.T).Lookup(nil, "Unwrap")
			if sel == nil {
				return false
			}
			res := sel.Obj().Type().(*types.Signature).Results()
			u, _ := w.callMethod(e, "Unwrap")
			if _, ok := res.At(0).Type().Underlying().(*types.Slice); ok {
				for _, x := range w.sliceBytes(u) {
					if rec(x) {
						return true
					}
				}
				return false
			}
			e = u
		}
		return false
	}
	return bv(rec(err))
}

// sortSlice is a stable insertion sort driven by the caller's less function.
func sortSlice(w *Worker, a []V) V {
	i, ok := a[0].p.(*Iface)
	if !ok || i.typ.kind != reflect.Slice {
		w.goPanicStr("reflect: call of Swapper on non-slice value")
	}
	s, _ := i.v.p.(*Slice)
	if s == nil {
		return V{}
	}
	less := a[1]
	es := i.typ.elem.slots
	for k := 1; k < s.len; k++ {
		for j := k; j > 0; j-- {
			r := w.runSync(less, []V{iv(j), iv(j - 1)})
			lt := r.c != 0
			if r.t != nil {
				lt = w.decide(r.t)
			}
			if !lt {
				break
			}
			for m := 0; m < es; m++ {
				x := w.loadSlot(s.obj, s.off+j*es+m)
				y := w.loadSlot(s.obj, s.off+(j-1)*es+m)
				w.storeSlot(s.obj, s.off+j*es+m, y)
				w.storeSlot(s.obj, s.off+(j-1)*es+m, x)
			}
		}
	}
	return V{}
}

// ---- decimal text

type digKey struct {
	t      *Term
	signed bool
}

var pow10 = func() (p [20]uint64) {
	p[0] = 1
	for i := 1; i < 20; i++ {
		p[i] = p[i-1] * 10
	}
	return
}()

// decimal renders an integer term as digit characters; it forks on sign and length
// and introduces one constrained variable per digit.
func (w *Worker) decimal(v V, width uint8, signed bool) []V {
	if v.t == nil {
		var s string
		if signed {
			s = strconv.FormatInt(sext64(v.c, width), 10)
		} else {
			s = strconv.FormatUint(v.c, 10)
		}
		return constBytes(s)
	}
	tb := w.tb
	t := v.t
	if signed {
		t = w.resize(t, true, 64)
	} else {
		t = w.resize(t, false, 64)
	}
	key := digKey{t, signed}
	if d, ok := w.path.digits[key]; ok {
		return d
	}
	var out []V
	u := t
	if signed && w.decide(tb.Slt(t, tb.Const(64, 0))) {
		out = append(out, V{c: '-'})
		u = tb.Neg(t)
	}
	n := 1
	for n < 20 && !w.decide(tb.Ult(u, tb.Const(64, pow10[n]))) {
		n++
	}
	uv := tb.Eval(u, w.path.model)
	sum := tb.Const(64, 0)
	def := &digDef{u: u}
	for i := 0; i < n; i++ { // most significant first
		p := pow10[n-1-i]
		d := w.newVar(8, '0'+uv/p%10)
		lo := '0'
		if i == 0 && n > 1 {
			lo = '1'
		}
		var dom [4]uint64
		top := '9'
		if n == 20 && i == 0 { // 20-digit numbers below 2^64; also rules out sums that wrap
			top = '1'
		}
		for c := lo; c <= top; c++ {
			dom[0] |= 1 << c
		}
		w.path.dom[d.vars[0]] = &dom
		def.vars = append(def.vars, d.vars[0])
		sum = tb.Add(sum, tb.Mul(tb.Sub(tb.ZExt(d, 64), tb.Const(64, '0')), tb.Const(64, p)))
		out = append(out, tv(d))
	}
	def.con = tb.Eq(u, sum)
	def.sum = sum
	w.path.defs = append(w.path.defs, def)
	for _, v := range def.vars {
		w.path.digOf[v] = def
	}
	w.path.subst[sum] = u
	w.path.subst[tb.Neg(sum)] = tb.Neg(u)
	w.path.digits[key] = out
	return out
}

func constBytes(s string) []V {
	out := make([]V, len(s))
	for i := range out {
		out[i] = V{c: uint64(s[i])}
	}
	return out
}

func appendInt(signed bool) intrinsic {
	return func(w *Worker, a []V) V {
		base := int(w.conc(a[2], 64))
		var d []V
		if base == 10 {
			d = w.decimal(a[1], 64, signed)
		} else if a[1].t == nil && base >= 2 && base <= 36 {
			if signed {
				d = constBytes(strconv.FormatInt(int64(a[1].c), base))
			} else {
				d = constBytes(strconv.FormatUint(a[1].c, base))
			}
		} else {
			return w.fallback()
		}
		return w.appendVals(a[0], d, len(d), 1)
	}
}

func formatInt(signed bool) intrinsic {
	return func(w *Worker, a []V) V {
		base := int(w.conc(a[1], 64))
		v := a[0]
		if v.t == nil {
			if signed {
				return strV(strconv.FormatInt(int64(v.c), base))
			}
			return strV(strconv.FormatUint(v.c, base))
		}
		if base != 10 {
			return w.fallback()
		}
		return w.lazy(func() V { return mkStr(w.decimal(v, 64, signed)) })
	}
}

// ---- floats

// floatTok stands for the shortest decimal text of a symbolic float.
type floatTok struct {
	f    *Term // 64 bit pattern of the value
	fm   byte
	text []V
	bits int
	neg  bool
	mant []V
	eneg bool
	exp  []V
}

func (w *Worker) fmtFloat(v V, fm byte, prec, bitSize int) []V {
	if v.t == nil {
		return constBytes(strconv.FormatFloat(math.Float64frombits(v.c), fm, prec, bitSize))
	}
	tb := w.tb
	f := v.t
	if w.decide(tb.FIsNaN(f)) {
		return constBytes("NaN")
	}
	neg := w.decide(tb.fsign(f))
	a := tb.fabs(f)
	if w.decide(tb.Eq(a, tb.Const(64, 0x7ff0000000000000))) {
		if neg {
			return constBytes("-Inf")
		}
		return constBytes("+Inf")
	}
	if w.decide(tb.Eq(a, tb.Const(64, 0))) {
		z := 0.0
		if neg {
			z = math.Copysign(0, -1)
		}
		return constBytes(strconv.FormatFloat(z, fm, prec, bitSize))
	}
	if prec != -1 {
		w.unsupported("symbolic float formatting with explicit precision")
	}
	if bitSize == 32 {
		// the text is the shortest one that identifies the value rounded to 32 bits
		f = tb.F32to64(tb.F64to32(f))
	}
	var out []V
	if neg {
		out = append(out, V{c: '-'})
	}
	for i := range w.path.tokens {
		if tk := &w.path.tokens[i]; tk.f == f && tk.fm == fm && tk.bits == bitSize {
			return append([]V(nil), tk.text...)
		}
	}
	tok := floatTok{f: f, fm: fm, bits: bitSize, neg: neg}
	digit := func(lo byte) V {
		d := w.newVar(8, uint64(lo))
		w.addCon(tb.Ule(tb.Const(8, uint64(lo)), d))
		w.addCon(tb.Ule(d, tb.Const(8, '9')))
		return V{t: d}
	}
	fl := func(x float64) *Term { return tb.Const(64, math.Float64bits(x)) }
	switch fm {
	case 'f':
		tok.mant = []V{digit('1'), digit('0'), {c: '.'}, digit('0'), digit('1')}
	case 'e', 'E', 'g', 'G':
		exp := fm == 'e' || fm == 'E'
		if !exp {
			// %g uses an exponent when exp < -4 || exp >= max(digits, 21)
			exp = w.decide(tb.FLt(a, fl(1e-4))) || w.decide(tb.FLe(fl(1e21), a))
		}
		if !exp {
			tok.mant = []V{digit('1'), digit('0'), {c: '.'}, digit('0'), digit('1')}
			break
		}
		tok.mant = []V{digit('1'), {c: '.'}, digit('0'), digit('1')}
		var ds []V
		esign := byte('+')
		if w.decide(tb.FLt(a, fl(1))) {
			tok.eneg = true
			esign = '-'
		}
		var small, mid *Term
		if tok.eneg {
			small, mid = tb.FLe(fl(1e-9), a), tb.FLe(fl(1e-99), a)
		} else {
			small, mid = tb.FLt(a, fl(1e10)), tb.FLt(a, fl(1e100))
		}
		if w.decide(small) {
			// one-digit exponent: pin it exactly
			k := 0
			for ; k < 9; k++ {
				var c *Term
				if tok.eneg {
					c = tb.FLe(fl(math.Pow10(-k-1)), a)
				} else {
					c = tb.FLt(a, fl(math.Pow10(k+1)))
				}
				if w.decide(c) {
					break
				}
			}
			if tok.eneg {
				k++
			}
			if k > 9 {
				k = 9
			}
			ds = []V{{c: '0'}, {c: uint64('0' + k)}}
			tok.exp = []V{ds[1]}
		} else if w.decide(mid) {
			ds = []V{digit('1'), digit('0')}
			tok.exp = ds
		} else {
			ds = []V{digit('1'), digit('0'), digit('0')}
			tok.exp = ds
		}
		out = append(out, tok.mant...)
		e := byte('e')
		if fm == 'E' || fm == 'G' {
			e = 'E'
		}
		out = append(out, V{c: uint64(e)}, V{c: uint64(esign)})
		out = append(out, ds...)
		tok.text = append([]V(nil), out...)
		w.path.tokens = append(w.path.tokens, tok)
		return out
	default:
		w.unsupported("symbolic float format " + string(fm))
	}
	out = append(out, tok.mant...)
	tok.text = append([]V(nil), out...)
	w.path.tokens = append(w.path.tokens, tok)
	return out
}

func sameV(a, b V) bool { return a.t == b.t && a.c == b.c }

// tokenValue recognises the text of a previously formatted symbolic float.
func (w *Worker) tokenValue(b []V) (*floatTok, bool) {
next:
	for i := len(w.path.tokens) - 1; i >= 0; i-- {
		tk := &w.path.tokens[i]
		x := b
		if tk.neg {
			if len(x) == 0 || x[0].t != nil || x[0].c != '-' {
				continue
			}
			x = x[1:]
		}
		if len(x) < len(tk.mant) {
			continue
		}
		for j := range tk.mant {
			if !sameV(x[j], tk.mant[j]) {
				continue next
			}
		}
		x = x[len(tk.mant):]
		if tk.exp == nil {
			if len(x) == 0 {
				return tk, true
			}
			continue
		}
		if len(x) < 2 || x[0].t != nil || (x[0].c != 'e' && x[0].c != 'E') {
			continue
		}
		x = x[1:]
		neg := false
		if x[0].t == nil && (x[0].c == '-' || x[0].c == '+') {
			neg = x[0].c == '-'
			x = x[1:]
		}
		if neg != tk.eneg {
			continue
		}
		for len(x) > len(tk.exp) && x[0].t == nil && x[0].c == '0' {
			x = x[1:]
		}
		if len(x) != len(tk.exp) {
			continue
		}
		for j := range x {
			if !sameV(x[j], tk.exp[j]) {
				continue next
			}
		}
		return tk, true
	}
	return nil, false
}

// floatBits models the general decimal to binary conversion of symbolic digits: some finite value
// of the right sign, or an overflow, decided by the position of the decimal point.
func floatBits(w *Worker, a []V) V {
	o, ok := a[0].p.(*Object)
	fo, ok2 := a[1].p.(*Object)
	if !ok || !ok2 {
		return w.fallback()
	}
	at := func(i int) V { return w.loadSlot(o, int(a[0].c)+i) }
	nd, dp := at(800), at(801)
	if nd.t != nil {
		return w.fallback()
	}
	symb := dp.t != nil
	for i := 0; i < int(nd.c) && !symb; i++ {
		symb = at(i).t != nil
	}
	if !symb {
		return w.fallback()
	}
	tb := w.tb
	small := w.loadSlot(fo, int(a[1].c)).c == 23
	ng := at(802)
	neg := ng.c != 0
	if ng.t != nil {
		neg = w.decide(ng.t)
	}
	max := int64(309)
	if small {
		max = 39
	}
	var sign uint64
	width := uint8(64)
	inf := uint64(0x7ff0000000000000)
	if small {
		width, inf = 32, 0x7f800000
	}
	if neg {
		sign = 1 << (width - 1)
	}
	d := w.term(dp, 64)
	w.path.opaque = true
	if nd.c == 0 {
		return V{p: Tuple{{c: sign}, {}}}
	}
	over := false
	if w.decide(tb.Slt(tb.Const(64, uint64(max)), d)) {
		over = true
	} else if w.decide(tb.Eq(tb.Const(64, uint64(max)), d)) {
		v := w.newVar(8, 0)
		over = w.decide(tb.Eq(v, tb.Const(8, 1)))
	}
	if over {
		return V{p: Tuple{{c: sign | inf}, {c: 1}}}
	}
	g := w.newVar(width, sign)
	w.addCon(tb.Ult(tb.AndB(g, tb.Const(width, 1<<(width-1)-1)), tb.Const(width, inf)))
	w.addCon(tb.Eq(tb.AndB(g, tb.Const(width, 1<<(width-1))), tb.Const(width, sign)))
	if small {
		g = tb.ZExt(g, 64)
	}
	return V{p: Tuple{tv(g), {}}}
}

func parseFloat(w *Worker, a []V) V {
	if s, ok := w.concStr(a[0]); ok && a[1].t == nil {
		x, err := strconv.ParseFloat(s, int(a[1].c))
		if err == nil {
			return V{p: Tuple{{c: math.Float64bits(x)}, {}}}
		}
		return w.fallback()
	}
	if len(w.path.tokens) > 0 {
		if tk, ok := w.tokenValue(w.strBytes(a[0])); ok {
			tb := w.tb
			f := tk.f
			want := int(w.conc(a[1], 64))
			switch {
			case want == tk.bits:
			case want == 32: // 64 bit text read as 32 bits: correctly rounded, as the text may be longer than needed
				f = tb.F32to64(tb.F64to32(f))
				g := tb.F64to32(tk.f)
				if w.decide(tb.Eq(tb.fabs(g), tb.Const(32, 0x7f800000))) {
					// out of range: the result and the error of some text of this kind
					big := "1e99"
					if tk.neg {
						big = "-1e99"
					}
					a[0] = strV(big)
					return w.fallback()
				}
			default: // the shortest text of a 32 bit value read as 64 bits: some double that rounds to it,
				// with one exception, known from an enumeration of all 32 bit values
				odd := math.Float32frombits(363742205)
				if w.decide(tb.Eq(tb.fabs(f), tb.Const(64, math.Float64bits(float64(odd))))) {
					g := 7.038531e-26
					if tk.neg {
						g = -g
					}
					return V{p: Tuple{{c: math.Float64bits(g)}, {}}}
				}
				g := w.newVar(64, tb.Eval(f, w.path.model))
				w.addCon(tb.Eq(tb.F64to32(g), tb.F64to32(f)))
				w.addCon(tb.Not(tb.FIsNaN(g)))
				f = g
			}
			return V{p: Tuple{tv(f), {}}}
		}
	}
	return w.fallback()
}

// ---- lazily rendered strings

type LazyStr struct {
	parts []any // V or func() V
	done  bool
	v     V
}

func (w *Worker) lazy(f func() V) V { return V{p: &LazyStr{parts: []any{f}}} }
func (w *Worker) lazyOpaque(why string) V {
	return w.lazy(func() V { w.unsupported(why); return V{} })
}

// force resolves a lazy string.
func force(v V) V {
	l, ok := v.p.(*LazyStr)
	if !ok {
		return v
	}
	if !l.done {
		var b []V
		add := func(x V) {
			switch s := force(x).p.(type) {
			case nil:
			case string:
				b = append(b, constBytes(s)...)
			case *SStr:
				for i := 0; i < s.n; i++ {
					b = append(b, s.obj.vals[s.off+i])
				}
			}
		}
		for _, p := range l.parts {
			switch p := p.(type) {
			case V:
				add(p)
			case func() V:
				add(p())
			}
		}
		l.v = mkStr(b)
		l.done = true
		l.parts = nil
	}
	return l.v
}

// ---- fmt

type piece struct {
	v V
}

func (w *Worker) joinParts(parts []any) V {
	lazyAny := false
	for _, p := range parts {
		switch p := p.(type) {
		case V:
			if l, ok := p.p.(*LazyStr); ok && !l.done {
				lazyAny = true
			}
		default:
			lazyAny = true
		}
	}
	l := &LazyStr{parts: parts}
	if lazyAny {
		return V{p: l}
	}
	return force(V{p: l})
}

func (w *Worker) sprint(args []V, ln bool) V {
	var parts []any
	for i, a := range args {
		if i > 0 && ln {
			parts = append(parts, strV(" "))
		}
		parts = append(parts, w.renderArg(a, 'v', "%v"))
	}
	if ln {
		parts = append(parts, strV("\n"))
	}
	return w.joinParts(parts)
}

func (w *Worker) format(f V, args []V) V {
	fs, ok := w.concStr(f)
	if !ok {
		return w.lazyOpaque("symbolic format string")
	}
	var parts []any
	ai := 0
	for i := 0; i < len(fs); {
		j := strings.IndexByte(fs[i:], '%')
		if j < 0 {
			parts = append(parts, strV(fs[i:]))
			break
		}
		if j > 0 {
			parts = append(parts, strV(fs[i:i+j]))
		}
		i += j
		k := i + 1
		for k < len(fs) && strings.IndexByte("+-# 0123456789.", fs[k]) >= 0 {
			k++
		}
		if k >= len(fs) {
			parts = append(parts, strV("%!(NOVERB)"))
			break
		}
		verb := fs[k]
		spec := fs[i : k+1]
		i = k + 1
		if verb == '%' {
			parts = append(parts, strV("%"))
			continue
		}
		if ai >= len(args) {
			parts = append(parts, strV("%!"+string(verb)+"(MISSING)"))
			continue
		}
		parts = append(parts, w.renderArg(args[ai], verb, spec))
		ai++
	}
	return w.joinParts(parts)
}

func (w *Worker) renderArg(a V, verb byte, spec string) any {
	i, ok := a.p.(*Iface)
	if !ok {
		return strV(fmt.Sprintf(strings.Replace(spec, "w", "v", 1), nil))
	}
	if rt, ok := i.v.p.(*RType); ok && i.typ == w.eng.rtypePtr {
		return strV(fmt.Sprintf(spec, rt.String()))
	}
	t := i.typ
	plain := len(spec) == 2
	ms := w.eng.prog.MethodSets.MethodSet(t.T)
	if verb != 'T' && verb != 'd' && verb != 'c' && verb != 'p' && verb != 't' && verb != 'U' {
		if ms.Lookup(nil, "Error") != nil || ms.Lookup(nil, "String") != nil {
			return func() V {
				m := "Error"
				if ms.Lookup(nil, m) == nil {
					m = "String"
				}
				r, _ := w.callMethod(a, m)
				if !plain && verb != 'w' || verb == 'q' {
					return strV(fmt.Sprintf(spec, w.needStr(r, "formatted text")))
				}
				return r
			}
		}
	}
	if verb == 'T' {
		return strV(t.String())
	}
	v := i.v
	switch k := t.kind; {
	case k == reflect.String:
		if s, ok := v.p.(*LazyStr); ok && !s.done {
			if plain && (verb == 's' || verb == 'v') {
				return v
			}
			return func() V { w.unsupported("formatting of a lazy string"); return V{} }
		}
		if s, ok := w.concStr(v); ok {
			return strV(fmt.Sprintf(spec, s))
		}
		if plain && (verb == 's' || verb == 'v') {
			return v
		}
	case isInt(k):
		if v.t == nil && v.p == nil {
			x := sext64(v.c, t.w)
			if k == reflect.Int32 {
				return strV(fmt.Sprintf(spec, int32(x)))
			}
			return strV(fmt.Sprintf(spec, x))
		}
		if plain && (verb == 'd' || verb == 'v') {
			return func() V { return mkStr(w.decimal(v, t.w, true)) }
		}
		if plain && verb == 'c' {
			return func() V { return strV(string(rune(sext64(w.conc(v, t.w), t.w)))) }
		}
	case isUint(k):
		if v.t == nil && v.p == nil {
			if k == reflect.Uint8 {
				return strV(fmt.Sprintf(spec, uint8(v.c)))
			}
			return strV(fmt.Sprintf(spec, v.c))
		}
		if plain && (verb == 'd' || verb == 'v') {
			return func() V { return mkStr(w.decimal(v, t.w, false)) }
		}
		if plain && verb == 'c' {
			return func() V { return strV(string(rune(w.conc(v, t.w)))) }
		}
	case isFloat(k):
		if v.t == nil {
			if t.w == 32 {
				return strV(fmt.Sprintf(spec, math.Float32frombits(uint32(v.c))))
			}
			return strV(fmt.Sprintf(spec, math.Float64frombits(v.c)))
		}
	case k == reflect.Bool:
		if v.t == nil {
			return strV(fmt.Sprintf(spec, v.c != 0))
		}
		if plain && (verb == 't' || verb == 'v') {
			return func() V {
				if w.decide(v.t) {
					return strV("true")
				}
				return strV("false")
			}
		}
	case k == reflect.Slice && t.elem.kind == reflect.Uint8:
		b := w.sliceBytes(v)
		s := mkStr(b)
		if x, ok := w.concStr(s); ok {
			return strV(fmt.Sprintf(spec, []byte(x)))
		}
		if plain && verb == 's' {
			return s
		}
	}
	return func() V { w.unsupported("formatting of " + t.String() + " with " + spec); return V{} }
}

func fmtErrorf(w *Worker, a []V) V {
	fs, _ := w.concStr(a[0])
	args := w.sliceBytes(a[1])
	msg := w.format(a[0], args)
	// find %w operands
	var wraps []V
	ai := 0
	for i := 0; i < len(fs); i++ {
		if fs[i] != '%' {
			continue
		}
		i++
		for i < len(fs) && strings.IndexByte("+-# 0123456789.", fs[i]) >= 0 {
			i++
		}
		if i >= len(fs) {
			break
		}
		if fs[i] == '%' {
			continue
		}
		if fs[i] == 'w' && ai < len(args) {
			wraps = append(wraps, args[ai])
		}
		ai++
	}
	if len(wraps) == 0 {
		return w.mkErr(msg)
	}
	pt := w.eng.namedPtr("fmt", "wrapError")
	o := newObject(2)
	o.vals[0] = msg
	o.vals[1] = wraps[0]
	return V{p: &Iface{typ: pt, v: V{p: o}}}
}
