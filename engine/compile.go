package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"reflect"

	"golang.org/x/tools/go/ssa"
)

type opcode uint8

const (
	iNop opcode = iota
	iAlloc
	iBin
	iNeg
	iNot
	iCompl
	iLoad
	iRecv
	iCall
	iCopy
	iConvert
	iMakeIface
	iTypeAssert
	iField
	iFieldAddr
	iIndex
	iIndexAddr
	iLookup
	iSlice
	iMakeSlice
	iMakeMap
	iMakeChan
	iMakeClosure
	iMapUpdate
	iRange
	iNext
	iExtract
	iStore
	iIf
	iJump
	iReturn
	iPanic
	iDefer
	iRunDefers
	iGo
	iSend
	iSelect
	iS2AP
	iUnsupported
)

type Ins struct {
	op         opcode
	dst        int32
	a, b, c, d int32 // operands; noOp if absent
	n, m       int
	w          uint8
	sign       bool
	flag       bool
	tok        token.Token
	typ        *RType // primary type
	typ2       *RType
	args       []int32
	call       *callInfo
	in         ssa.Instruction
	cls        opClass
}

type opClass uint8

const (
	cInt opClass = iota
	cFloat
	cString
	cBool
	cComplex
	cOther
)

const noOp = math.MinInt32

type callInfo struct {
	static  *ssa.Function
	sfn     *Func
	builtin *ssa.Builtin
	invoke  *types.Func
	name    string
	sig     *types.Signature
	argT    []*RType
	retT    *RType
}

type phiMove struct{ dst, src int32 }

type Block struct {
	ins   []Ins
	phis  [][]phiMove // per predecessor index
	preds []*ssa.BasicBlock
	succs []int
	index int
}

type Func struct {
	fn     *ssa.Function
	name   string
	blocks []*Block
	nregs  int
	consts []V
	params []int32
	nfree  int
	freeR  []int32
	recov  int // recover block index or -1
	intr   intrinsic
	ready  bool
	hits   int64
	resT   []*RType
	repo   bool
}

type fcomp struct {
	w    *Worker
	f    *Func
	regs map[ssa.Value]int32
	cix  map[ssa.Value]int32
}

func (w *Worker) getFunc(fn *ssa.Function) *Func {
	if f, ok := w.funcs[fn]; ok {
		return f
	}
	f := &Func{fn: fn, recov: -1}
	w.funcs[fn] = f
	f.name = funcName(fn)
	if pk := funcPkg(fn); pk != nil {
		f.repo = w.eng.isRepo(pk.Path())
	}
	f.intr = findIntrinsic(f.name, fn)
	res := fn.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		f.resT = append(f.resT, w.safeType(res.At(i).Type()))
	}
	return f
}

func funcPkg(fn *ssa.Function) *types.Package {
	if fn.Pkg != nil {
		return fn.Pkg.Pkg
	}
	if o := fn.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg.Pkg
	}
	if fn.Parent() != nil {
		return funcPkg(fn.Parent())
	}
	if o := fn.Object(); o != nil {
		return o.Pkg()
	}
	return nil
}

func funcName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

func (w *Worker) safeType(t types.Type) (r *RType) {
	defer func() {
		if x := recover(); x != nil {
			r = nil
		}
	}()
	return rtypeOf(t)
}

func (w *Worker) prepare(f *Func) {
	f.ready = true
	fn := f.fn
	if fn.Blocks == nil {
		return
	}
	c := &fcomp{w: w, f: f, regs: map[ssa.Value]int32{}, cix: map[ssa.Value]int32{}}
	for _, p := range fn.Params {
		f.params = append(f.params, c.reg(p))
	}
	for _, p := range fn.FreeVars {
		f.freeR = append(f.freeR, c.reg(p))
	}
	for _, b := range fn.Blocks {
		blk := &Block{index: b.Index, preds: b.Preds}
		for _, s := range b.Succs {
			blk.succs = append(blk.succs, s.Index)
		}
		blk.phis = make([][]phiMove, len(b.Preds))
		for _, in := range b.Instrs {
			if phi, ok := in.(*ssa.Phi); ok {
				d := c.reg(phi)
				for i, e := range phi.Edges {
					blk.phis[i] = append(blk.phis[i], phiMove{d, c.op(e)})
				}
				continue
			}
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			blk.ins = append(blk.ins, c.ins(in))
		}
		f.blocks = append(f.blocks, blk)
	}
	if fn.Recover != nil {
		f.recov = fn.Recover.Index
	}
	f.nregs = len(c.regs)
}

func (c *fcomp) reg(v ssa.Value) int32 {
	if r, ok := c.regs[v]; ok {
		return r
	}
	r := int32(len(c.regs))
	c.regs[v] = r
	return r
}

func (c *fcomp) addConst(v ssa.Value, x V) int32 {
	i := int32(len(c.f.consts))
	c.f.consts = append(c.f.consts, x)
	r := ^i
	c.cix[v] = r
	return r
}

func (c *fcomp) op(v ssa.Value) int32 {
	if v == nil {
		return noOp
	}
	if i, ok := c.cix[v]; ok {
		return i
	}
	switch x := v.(type) {
	case *ssa.Const:
		return c.addConst(v, c.w.constV(x))
	case *ssa.Global:
		return c.addConst(v, V{p: c.w.global(x)})
	case *ssa.Function:
		return c.addConst(v, V{p: &Closure{fn: x}})
	case *ssa.Builtin:
		return c.addConst(v, V{p: &Closure{label: "builtin:" + x.Name()}})
	}
	return c.reg(v)
}

func (w *Worker) constV(x *ssa.Const) V {
	if x.Value == nil {
		return V{}
	}
	t := rtypeOf(x.Type())
	return constValue(x.Value, t)
}

func constValue(val constant.Value, t *RType) V {
	switch k := t.kind; {
	case k == reflect.Bool:
		return bv(constant.BoolVal(val))
	case isInt(k) || isUint(k):
		val = constant.ToInt(val)
		if i, ok := constant.Int64Val(val); ok {
			return V{c: uint64(i) & mask(t.w)}
		}
		u, _ := constant.Uint64Val(val)
		return V{c: u & mask(t.w)}
	case k == reflect.Float32:
		f, _ := constant.Float32Val(val)
		return V{c: uint64(math.Float32bits(f))}
	case k == reflect.Float64:
		f, _ := constant.Float64Val(val)
		return V{c: math.Float64bits(f)}
	case k == reflect.String:
		s := constant.StringVal(val)
		if s == "" {
			return V{}
		}
		return V{p: s}
	case k == reflect.Complex64 || k == reflect.Complex128:
		re, _ := constant.Float64Val(constant.Real(val))
		im, _ := constant.Float64Val(constant.Imag(val))
		return V{p: complex(re, im)}
	case k == reflect.UnsafePointer:
		i, _ := constant.Int64Val(val)
		return V{c: uint64(i)}
	}
	panic(fmt.Sprintf("engine: constant of type %s", t))
}

func classOf(t *RType) opClass {
	switch k := t.kind; {
	case isInt(k) || isUint(k):
		return cInt
	case isFloat(k):
		return cFloat
	case k == reflect.String:
		return cString
	case k == reflect.Bool:
		return cBool
	case k == reflect.Complex64 || k == reflect.Complex128:
		return cComplex
	}
	return cOther
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (c *fcomp) ins(in ssa.Instruction) (r Ins) {
	r = Ins{in: in, dst: noOp, a: noOp, b: noOp, c: noOp, d: noOp}
	defer func() {
		if x := recover(); x != nil {
			r.op = iUnsupported
			r.in = in
			c.f.w_note(fmt.Sprint(x))
		}
	}()
	if v, ok := in.(ssa.Value); ok {
		r.dst = c.reg(v)
	}
	switch x := in.(type) {
	case *ssa.Alloc:
		r.op = iAlloc
		r.typ = rtypeOf(deref(x.Type()))
		r.n = r.typ.slots
	case *ssa.BinOp:
		r.op = iBin
		r.a, r.b = c.op(x.X), c.op(x.Y)
		r.tok = x.Op
		r.typ = rtypeOf(x.X.Type())
		r.typ2 = rtypeOf(x.Y.Type())
		r.w, r.sign = r.typ.w, r.typ.sign
		r.cls = classOf(r.typ)
		// comparison of interface with concrete nil etc. keeps the interface type
		if r.typ.kind != reflect.Interface && r.typ2.kind == reflect.Interface {
			r.typ = r.typ2
		}
	case *ssa.UnOp:
		r.a = c.op(x.X)
		switch x.Op {
		case token.MUL:
			r.op = iLoad
			r.typ = rtypeOf(x.Type())
			r.flag = isAgg(r.typ)
		case token.SUB:
			r.op = iNeg
			r.typ = rtypeOf(x.X.Type())
			r.cls = classOf(r.typ)
			r.w = r.typ.w
		case token.NOT:
			r.op = iNot
		case token.XOR:
			r.op = iCompl
			r.typ = rtypeOf(x.X.Type())
			r.w = r.typ.w
		case token.ARROW:
			r.op = iRecv
			r.flag = x.CommaOk
			r.typ = rtypeOf(x.X.Type()).elem
		}
	case *ssa.Call:
		r.op = iCall
		c.call(&r, &x.Call)
		r.call.retT = c.w.safeType(x.Type())
	case *ssa.Defer:
		r.op = iDefer
		c.call(&r, &x.Call)
		r.d = noOp
		if x.DeferStack != nil {
			r.d = c.op(x.DeferStack)
		}
	case *ssa.Go:
		r.op = iGo
		c.call(&r, &x.Call)
	case *ssa.ChangeInterface:
		r.op = iCopy
		r.a = c.op(x.X)
	case *ssa.ChangeType:
		r.op = iCopy
		r.a = c.op(x.X)
	case *ssa.Convert:
		r.op = iConvert
		r.a = c.op(x.X)
		r.typ = rtypeOf(x.X.Type())
		r.typ2 = rtypeOf(x.Type())
	case *ssa.MultiConvert:
		r.op = iConvert
		r.a = c.op(x.X)
		r.typ = rtypeOf(x.X.Type())
		r.typ2 = rtypeOf(x.Type())
	case *ssa.MakeInterface:
		r.op = iMakeIface
		r.a = c.op(x.X)
		r.typ = rtypeOf(x.X.Type())
	case *ssa.TypeAssert:
		r.op = iTypeAssert
		r.a = c.op(x.X)
		r.typ = rtypeOf(x.AssertedType)
		r.flag = x.CommaOk
	case *ssa.Field:
		r.op = iField
		r.a = c.op(x.X)
		st := rtypeOf(x.X.Type())
		r.n = st.foff[x.Field]
		r.typ = st.ftyp[x.Field]
	case *ssa.FieldAddr:
		r.op = iFieldAddr
		r.a = c.op(x.X)
		st := rtypeOf(deref(x.X.Type()))
		r.n = st.foff[x.Field]
	case *ssa.Index:
		r.op = iIndex
		r.a, r.b = c.op(x.X), c.op(x.Index)
		r.typ = rtypeOf(x.X.Type())
		r.typ2 = rtypeOf(x.Index.Type())
		if r.typ.kind == reflect.Array {
			r.n = r.typ.elem.slots
			r.m = r.typ.alen
		}
	case *ssa.IndexAddr:
		r.op = iIndexAddr
		r.a, r.b = c.op(x.X), c.op(x.Index)
		t := rtypeOf(x.X.Type())
		r.typ2 = rtypeOf(x.Index.Type())
		if t.kind == reflect.Slice {
			r.flag = true
			r.n = t.elem.slots
			r.typ = t.elem
		} else {
			at := t.elem
			r.n = at.elem.slots
			r.m = at.alen
			r.typ = at.elem
		}
	case *ssa.Lookup:
		r.op = iLookup
		r.a, r.b = c.op(x.X), c.op(x.Index)
		r.typ = rtypeOf(x.X.Type())
		r.flag = x.CommaOk
		r.typ2 = rtypeOf(x.Index.Type())
	case *ssa.Slice:
		r.op = iSlice
		r.a, r.b, r.c, r.d = c.op(x.X), c.op(x.Low), c.op(x.High), c.op(x.Max)
		r.typ = rtypeOf(x.X.Type())
	case *ssa.MakeSlice:
		r.op = iMakeSlice
		r.a, r.b = c.op(x.Len), c.op(x.Cap)
		r.typ = rtypeOf(x.Type())
		r.typ2 = rtypeOf(x.Len.Type())
	case *ssa.MakeMap:
		r.op = iMakeMap
		r.a = c.op(x.Reserve)
		r.typ = rtypeOf(x.Type())
	case *ssa.MakeChan:
		r.op = iMakeChan
		r.a = c.op(x.Size)
		r.typ = rtypeOf(x.Type())
	case *ssa.MakeClosure:
		r.op = iMakeClosure
		r.a = c.op(x.Fn)
		for _, b := range x.Bindings {
			r.args = append(r.args, c.op(b))
		}
	case *ssa.MapUpdate:
		r.op = iMapUpdate
		r.a, r.b, r.c = c.op(x.Map), c.op(x.Key), c.op(x.Value)
	case *ssa.Range:
		r.op = iRange
		r.a = c.op(x.X)
		r.typ = rtypeOf(x.X.Type())
	case *ssa.Next:
		r.op = iNext
		r.a = c.op(x.Iter)
		r.flag = x.IsString
	case *ssa.Extract:
		r.op = iExtract
		r.a = c.op(x.Tuple)
		r.n = x.Index
	case *ssa.Store:
		r.op = iStore
		r.a, r.b = c.op(x.Addr), c.op(x.Val)
		r.typ = rtypeOf(x.Val.Type())
		r.flag = isAgg(r.typ)
	case *ssa.If:
		r.op = iIf
		r.a = c.op(x.Cond)
	case *ssa.Jump:
		r.op = iJump
	case *ssa.Return:
		r.op = iReturn
		for _, v := range x.Results {
			r.args = append(r.args, c.op(v))
		}
	case *ssa.Panic:
		r.op = iPanic
		r.a = c.op(x.X)
	case *ssa.RunDefers:
		r.op = iRunDefers
	case *ssa.Send:
		r.op = iSend
		r.a, r.b = c.op(x.Chan), c.op(x.X)
	case *ssa.Select:
		r.op = iSelect
		r.flag = x.Blocking
		for _, st := range x.States {
			r.args = append(r.args, c.op(st.Chan))
			if st.Dir == types.SendOnly {
				r.args = append(r.args, c.op(st.Send))
			} else {
				r.args = append(r.args, noOp)
			}
		}
	case *ssa.SliceToArrayPointer:
		r.op = iS2AP
		r.a = c.op(x.X)
		r.typ = rtypeOf(deref(x.Type()))
	default:
		r.op = iUnsupported
	}
	return r
}

func (f *Func) w_note(string) {}

func (c *fcomp) call(r *Ins, cc *ssa.CallCommon) {
	ci := &callInfo{sig: cc.Signature()}
	r.call = ci
	for _, a := range cc.Args {
		r.args = append(r.args, c.op(a))
		ci.argT = append(ci.argT, c.w.safeType(a.Type()))
	}
	if cc.IsInvoke() {
		ci.invoke = cc.Method
		ci.name = cc.Method.Name()
		r.a = c.op(cc.Value)
		return
	}
	switch f := cc.Value.(type) {
	case *ssa.Builtin:
		ci.builtin = f
		ci.name = f.Name()
	case *ssa.Function:
		ci.static = f
		ci.name = f.Name()
	default:
		r.a = c.op(cc.Value)
	}
}
