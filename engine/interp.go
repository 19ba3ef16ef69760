package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"reflect"
	"runtime/debug"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type deferRec struct {
	cl   V
	bi   *callInfo
	args []V
}

type arenaMark struct{ ci, off int }

type arena struct {
	chunks [][]V
	ci     int
	off    int
}

const arenaChunk = 1 << 14

func (a *arena) alloc(n int) ([]V, arenaMark) {
	m := arenaMark{a.ci, a.off}
	for {
		if a.ci >= len(a.chunks) {
			sz := arenaChunk
			if n > sz {
				sz = n
			}
			a.chunks = append(a.chunks, make([]V, sz))
		}
		c := a.chunks[a.ci]
		if a.off+n <= len(c) {
			r := c[a.off : a.off+n : a.off+n]
			a.off += n
			return r, m
		}
		a.ci++
		a.off = 0
	}
}
func (a *arena) release(m arenaMark) { a.ci, a.off = m.ci, m.off }

type Frame struct {
	f         *Func
	regs      []V
	mark      arenaMark
	blk       *Block
	pc        int
	dst       int32
	defers    []deferRec
	deferred  bool
	panicking bool
	recovered bool
	recJump   bool
	inDefers  bool
	isInit    bool
}

type G struct {
	id     int
	frames []*Frame
	pool   []*Frame
	ar     arena
	panics []V
	done   bool
	wait   func() bool
	result V
	vc     []uint32
	label  string
	nested bool
}

func (g *G) top() *Frame { return g.frames[len(g.frames)-1] }

func (g *G) pushFrame() *Frame {
	var fr *Frame
	if n := len(g.pool); n > 0 {
		fr = g.pool[n-1]
		g.pool = g.pool[:n-1]
	} else {
		fr = new(Frame)
	}
	g.frames = append(g.frames, fr)
	return fr
}

func (g *G) popFrame() {
	n := len(g.frames) - 1
	fr := g.frames[n]
	g.frames = g.frames[:n]
	if n > 40 {
		clear(fr.regs) // deep recursion: do not keep dead values alive
	}
	g.ar.release(fr.mark)
	d := fr.defers[:0]
	*fr = Frame{defers: d}
	g.pool = append(g.pool, fr)
}

func (fr *Frame) get(i int32) V {
	if i >= 0 {
		return fr.regs[i]
	}
	return fr.f.consts[^i]
}

type tailCall struct {
	cl   V
	args []V
}

// ---- panics

func (w *Worker) runtimeErr(msg string) V {
	return V{p: &Iface{typ: w.eng.rtErrType, v: sv(msg)}}
}

type goPanic struct{ v V }
type nestedPanic struct{ v V }

func (w *Worker) goPanicStr(msg string) { panic(&goPanic{w.runtimeErr(msg)}) }

func (w *Worker) nilDeref() {
	w.goPanicStr("runtime error: invalid memory address or nil pointer dereference")
}

// ---- calls

func (w *Worker) callFunc(g *G, f *Func, free []V, args []V, dst int32) {
	if f.intr != nil {
		f.hits++
		w.tail = nil
		r := f.intr(w, args)
		if w.fb {
			w.fb = false
			w.enter(g, f, free, args, dst)
			return
		}
		w.afterIntr(g, r, dst)
		return
	}
	w.enter(g, f, free, args, dst)
}

func (w *Worker) afterIntr(g *G, r V, dst int32) {
	if w.blk != nil {
		return
	}
	if t := w.tail; t != nil {
		w.tail = nil
		w.callValue(g, t.cl, t.args, dst)
		return
	}
	if dst != noOp {
		fr := g.top()
		fr.regs[dst] = r
	}
}

func (w *Worker) enter(g *G, f *Func, free []V, args []V, dst int32) *Frame {
	if !f.ready {
		w.prepare(f)
	}
	if f.blocks == nil {
		w.unsupported("external function " + f.name)
	}
	if len(g.frames) >= w.maxDepth {
		w.stop(stopDepth, "call depth limit reached in "+f.name)
	}
	if !w.initing && !w.pkgReady(f) {
		w.unsupported("package not initialised for " + f.name)
	}
	f.hits++
	regs, mark := g.ar.alloc(f.nregs)
	for i, r := range f.params {
		regs[r] = args[i]
	}
	for i, r := range f.freeR {
		regs[r] = free[i]
	}
	fr := g.pushFrame()
	fr.f = f
	fr.regs = regs
	fr.mark = mark
	fr.blk = f.blocks[0]
	fr.dst = dst
	return fr
}

func (w *Worker) callValue(g *G, cl V, args []V, dst int32) {
	c, ok := cl.p.(*Closure)
	if !ok || c == nil {
		w.nilDeref()
	}
	if c.intr != nil {
		w.tail = nil
		r := c.intr(w, args)
		w.afterIntr(g, r, dst)
		return
	}
	if c.fn == nil {
		if strings.HasPrefix(c.label, "builtin:") {
			w.unsupported("indirect builtin call " + c.label)
		}
		w.unsupported("call of " + c.label)
	}
	w.callFunc(g, w.getFunc(c.fn), c.free, args, dst)
}

// resolveInvoke finds the method for an interface value.
func (w *Worker) resolveInvoke(recv V, m *types.Func) (V, V) {
	i, ok := recv.p.(*Iface)
	if !ok || i == nil {
		w.nilDeref()
	}
	if rt, ok := i.v.p.(*RType); ok && i.typ == w.eng.rtypePtr {
		name := m.Name()
		return V{p: &Closure{label: "reflect.Type." + name, intr: func(w *Worker, args []V) V {
			return w.typeMethod(rt, name, args)
		}}}, V{}
	}
	key := methKey{i.typ, m}
	if fn, ok := w.methCache[key]; ok {
		return V{p: fn}, i.v
	}
	fn := w.eng.prog.LookupMethod(i.typ.T, m.Pkg(), m.Name())
	if fn == nil {
		w.unsupported("method " + m.Name() + " of " + i.typ.String())
	}
	c := &Closure{fn: fn}
	w.methCache[key] = c
	return V{p: c}, i.v
}

type methKey struct {
	t *RType
	m *types.Func
}

// ---- unwinding

func (w *Worker) startPanic(g *G, v V) {
	g.panics = append(g.panics, v)
	w.unwind(g)
}

func (w *Worker) unwind(g *G) {
	for {
		if len(g.frames) == 0 {
			v := g.panics[len(g.panics)-1]
			if g.nested {
				panic(&nestedPanic{v})
			}
			w.violation("panic: " + w.panicText(v))
		}
		fr := g.top()
		if len(fr.defers) > 0 {
			fr.panicking = true
			w.runOneDefer(g, fr)
			return
		}
		if fr.isInit {
			w.unsupported("panic during package init")
		}
		g.popFrame()
		if len(g.frames) > 0 {
			// if the popped frame was a deferred call, the parent keeps unwinding with the new panic
			par := g.top()
			par.recovered = false
		}
	}
}

func (w *Worker) panicText(v V) string {
	i, ok := v.p.(*Iface)
	if !ok || i == nil {
		return "nil"
	}
	if s, ok := i.v.p.(string); ok {
		return s
	}
	return "value of type " + i.typ.String()
}

func (w *Worker) runOneDefer(g *G, fr *Frame) {
	n := len(fr.defers) - 1
	d := fr.defers[n]
	fr.defers[n] = deferRec{}
	fr.defers = fr.defers[:n]
	depth := len(g.frames)
	if d.bi != nil {
		w.callBuiltin(g, d.bi, d.args, noOp, nil)
	} else {
		w.callValue(g, d.cl, d.args, noOp)
	}
	if len(g.frames) > depth {
		g.top().deferred = true
		return
	}
	// completed immediately (intrinsic)
	w.afterDefer(g)
}

// afterDefer continues a frame whose deferred call just finished.
func (w *Worker) afterDefer(g *G) {
	fr := g.top()
	if fr.panicking {
		if fr.recovered {
			g.panics = g.panics[:len(g.panics)-1]
			fr.panicking = false
			fr.recovered = false
			fr.recJump = true
		} else {
			w.unwind(g)
			return
		}
	}
	if fr.recJump {
		if len(fr.defers) > 0 {
			w.runOneDefer(g, fr)
			return
		}
		fr.recJump = false
		if fr.f.recov >= 0 {
			fr.blk = fr.f.blocks[fr.f.recov]
			fr.pc = 0
			return
		}
		w.doReturn(g, zeroResult(fr.f))
	}
	// otherwise the frame is at RunDefers and continues there
}

func zeroResult(f *Func) V {
	if len(f.resT) <= 1 {
		return V{}
	}
	return V{p: make(Tuple, len(f.resT))}
}

func (w *Worker) doReturn(g *G, v V) {
	fr := g.top()
	dst, deferred := fr.dst, fr.deferred
	g.popFrame()
	if len(g.frames) == 0 {
		g.result = v
		g.done = true
		return
	}
	if deferred {
		w.afterDefer(g)
		return
	}
	if dst != noOp {
		g.top().regs[dst] = v
	}
}

// runG executes g until it finishes, blocks or a scheduling point is reached.
func (w *Worker) runG(g *G) {
	for {
		if w.step(g) {
			return
		}
	}
}

// step runs instructions until something exceptional; returns true to go back to the scheduler.
func (w *Worker) step(g *G) (ret bool) {
	defer func() {
		if x := recover(); x != nil {
			switch x := x.(type) {
			case *goPanic:
				w.startPanicSafe(g, x.v)
				ret = false
			case *nestedPanic:
				w.startPanicSafe(g, x.v)
				ret = false
			case *stopPath:
				panic(x)
			default:
				if w.eng.cfg.Debug {
					fmt.Println("ENGINE PANIC", x, string(debug.Stack()))
				}
				panic(&stopPath{kind: stopUnsupported, msg: fmt.Sprintf("engine: %v in %s", x, w.where(g))})
			}
		}
	}()
	return w.loop(g)
}

func (w *Worker) startPanicSafe(g *G, v V) {
	// a panic raised while starting deferred calls replaces the current one
	for n := 0; ; n++ {
		again := func() (again bool) {
			defer func() {
				if x := recover(); x != nil {
					if gp, ok := x.(*goPanic); ok {
						v = gp.v
						again = true
						return
					}
					panic(x)
				}
			}()
			w.startPanic(g, v)
			return false
		}()
		if !again {
			return
		}
		if n > 100 {
			w.unsupported("panic loop")
		}
	}
}

func (w *Worker) where(g *G) string {
	if len(g.frames) == 0 {
		return "?"
	}
	fr := g.top()
	if fr.blk != nil && fr.pc < len(fr.blk.ins) {
		in := fr.blk.ins[fr.pc].in
		pos := w.eng.prog.Fset.Position(in.Pos())
		return fmt.Sprintf("%s %s [%s]", fr.f.name, pos, in)
	}
	return fr.f.name
}

func (w *Worker) jump(fr *Frame, succ int) {
	from := fr.blk
	to := fr.f.blocks[from.succs[succ]]
	w.enterBlock(fr, from, to, succ)
}

func (w *Worker) enterBlock(fr *Frame, from, to *Block, succ int) {
	if len(to.phis) > 0 {
		pi := 0
		if len(to.preds) > 1 {
			n := 0
			for i, p := range to.preds {
				if p.Index == from.index {
					// distinguish duplicate edges
					if n == w.dupEdge(from, succ) {
						pi = i
						break
					}
					n++
				}
			}
		}
		mv := to.phis[pi]
		switch len(mv) {
		case 0:
		case 1:
			fr.regs[mv[0].dst] = fr.get(mv[0].src)
		default:
			w.phiBuf = w.phiBuf[:0]
			for _, m := range mv {
				w.phiBuf = append(w.phiBuf, fr.get(m.src))
			}
			for i, m := range mv {
				fr.regs[m.dst] = w.phiBuf[i]
			}
		}
	}
	fr.blk = to
	fr.pc = 0
}

func (w *Worker) dupEdge(from *Block, succ int) int {
	n := 0
	for i := 0; i < succ; i++ {
		if from.succs[i] == from.succs[succ] {
			n++
		}
	}
	return n
}

func (w *Worker) loop(g *G) bool {
	for {
		if g.done {
			return true
		}
		fr := g.top()
		ins := &fr.blk.ins[fr.pc]
		w.steps++
		if w.steps&0xfff == 0 && w.eng.stopped.Load() {
			w.stop(stopBound, "interrupted by the time limit")
		}
		if w.steps > w.stepLimit {
			w.stop(stopSteps, "step limit in "+w.where(g))
		}
		switch ins.op {
		case iJump:
			w.jump(fr, 0)
			continue
		case iIf:
			c := fr.get(ins.a)
			taken := c.c != 0
			if c.t != nil {
				taken = w.decide(c.t)
			}
			if taken {
				w.jump(fr, 0)
			} else {
				w.jump(fr, 1)
			}
			continue
		case iBin:
			fr.regs[ins.dst] = w.binop(ins, fr.get(ins.a), fr.get(ins.b))
		case iLoad:
			p := fr.get(ins.a)
			o, ok := p.p.(*Object)
			if !ok {
				fr.regs[ins.dst] = w.loadPtr(p, ins.typ)
			} else if ins.flag {
				fr.regs[ins.dst] = w.load(o, int(p.c), ins.typ)
			} else {
				v := w.loadSlot(o, int(p.c))
				switch v.p.(type) {
				case *Slice:
					if ins.typ.kind == reflect.String {
						v = sliceAsString(v) // *(*string)(unsafe.Pointer(&slice))
					}
				case string, *SStr, *LazyStr:
					if ins.typ.kind == reflect.Slice {
						v = w.stringAsSlice(v) // *(*[]byte)(unsafe.Pointer(&str))
					}
				}
				fr.regs[ins.dst] = v
			}
		case iStore:
			p := fr.get(ins.a)
			o, ok := p.p.(*Object)
			if !ok {
				if sp, ok := p.p.(*SymPtr); ok {
					p = w.concSym(sp)
					o = p.p.(*Object)
				} else {
					w.nilDeref()
				}
			}
			if ins.flag {
				w.store(o, int(p.c), ins.typ, fr.get(ins.b))
			} else {
				w.storeSlot(o, int(p.c), fr.get(ins.b))
			}
		case iFieldAddr:
			p := fr.get(ins.a)
			if p.p == nil {
				w.nilDeref()
			}
			p = w.concPtr(p)
			p.c += uint64(ins.n)
			fr.regs[ins.dst] = p
		case iField:
			a := fr.get(ins.a)
			if a.p == nil {
				fr.regs[ins.dst] = V{}
			} else {
				fr.regs[ins.dst] = w.aggGet(a, ins.n, ins.typ)
			}
		case iIndexAddr:
			fr.regs[ins.dst] = w.indexAddr(ins, fr.get(ins.a), fr.get(ins.b))
		case iIndex:
			fr.regs[ins.dst] = w.index(ins, fr.get(ins.a), fr.get(ins.b))
		case iExtract:
			fr.regs[ins.dst] = fr.get(ins.a).p.(Tuple)[ins.n]
		case iCopy:
			fr.regs[ins.dst] = fr.get(ins.a)
		case iMakeIface:
			fr.regs[ins.dst] = V{p: &Iface{typ: ins.typ, v: fr.get(ins.a)}}
		case iAlloc:
			fr.regs[ins.dst] = V{p: newObject(ins.n)}
		case iConvert:
			fr.regs[ins.dst] = w.convert(fr.get(ins.a), ins.typ, ins.typ2)
		case iNot:
			a := fr.get(ins.a)
			if a.t != nil {
				fr.regs[ins.dst] = tv(w.tb.Not(a.t))
			} else {
				fr.regs[ins.dst] = V{c: a.c ^ 1}
			}
		case iNeg:
			a := fr.get(ins.a)
			switch ins.cls {
			case cInt:
				if a.t != nil {
					fr.regs[ins.dst] = tv(w.tb.Neg(a.t))
				} else {
					fr.regs[ins.dst] = V{c: -a.c & mask(ins.w)}
				}
			case cFloat:
				fr.regs[ins.dst] = tv(w.tb.FNeg(w.term(a, ins.w)))
			default:
				w.unsupported("negation of " + ins.typ.String())
			}
		case iCompl:
			a := fr.get(ins.a)
			if a.t != nil {
				fr.regs[ins.dst] = tv(w.tb.NotB(a.t))
			} else {
				fr.regs[ins.dst] = V{c: ^a.c & mask(ins.w)}
			}
		case iCall:
			w.cur = g
			w.doCall(g, fr, ins)
			if w.blk != nil {
				g.wait = w.blk
				w.blk = nil
				return true
			}
			if g.done {
				return true
			}
			// the caller frame may not be on top any more, but its pc advances
			fr.pc++
			if w.yield {
				w.yield = false
				return true
			}
			continue
		case iReturn:
			var v V
			switch len(ins.args) {
			case 0:
			case 1:
				v = fr.get(ins.args[0])
			default:
				t := make(Tuple, len(ins.args))
				for i, a := range ins.args {
					t[i] = fr.get(a)
				}
				v.p = t
			}
			w.doReturn(g, v)
			if g.done {
				return true
			}
			continue
		case iRunDefers:
			if len(fr.defers) > 0 {
				w.cur = g
				w.runOneDefer(g, fr)
				if w.blk != nil {
					w.unsupported("blocking deferred call")
				}
				continue
			}
		case iDefer:
			w.doDefer(g, fr, ins)
		case iGo:
			w.doGo(g, fr, ins)
			fr.pc++
			return true
		case iPanic:
			v := fr.get(ins.a)
			if v.p == nil {
				v = w.runtimeErr("panic called with nil argument")
			}
			w.startPanic(g, v)
			continue
		case iTypeAssert:
			fr.regs[ins.dst] = w.typeAssert(ins, fr.get(ins.a))
		case iLookup:
			fr.regs[ins.dst] = w.lookup(ins, fr.get(ins.a), fr.get(ins.b))
		case iMapUpdate:
			m, ok := fr.get(ins.a).p.(*MapObj)
			if !ok {
				w.goPanicStr("assignment to entry in nil map")
			}
			w.mapSet(m, fr.get(ins.b), fr.get(ins.c))
		case iMakeMap:
			if ins.a != noOp {
				n := fr.get(ins.a)
				w.noteAlloc(w.term(n, 64), ins.typ.key.Size()+ins.typ.elem.Size()+1, "make(map)")
			}
			fr.regs[ins.dst] = V{p: newMap(ins.typ.key, ins.typ.elem)}
		case iMakeSlice:
			fr.regs[ins.dst] = w.makeSlice(ins.typ, w.widen(fr.get(ins.a), ins.typ2), w.widen(fr.get(ins.b), ins.typ2), "make")
		case iSlice:
			fr.regs[ins.dst] = w.slice(ins, fr)
		case iMakeClosure:
			free := make([]V, len(ins.args))
			for i, a := range ins.args {
				free[i] = fr.get(a)
			}
			fr.regs[ins.dst] = V{p: &Closure{fn: fr.get(ins.a).p.(*Closure).fn, free: free}}
		case iRange:
			fr.regs[ins.dst] = V{p: w.newIter(fr.get(ins.a), ins.typ)}
		case iNext:
			fr.regs[ins.dst] = w.iterNext(fr.get(ins.a).p.(*rangeIter), ins.flag)
		case iS2AP:
			s := fr.get(ins.a)
			n := w.sliceLen(s)
			if n < ins.typ.alen {
				w.goPanicStr("runtime error: cannot convert slice to array pointer: length too short")
			}
			if s.p == nil {
				fr.regs[ins.dst] = V{}
			} else {
				sl := s.p.(*Slice)
				fr.regs[ins.dst] = V{p: sl.obj, c: uint64(sl.off)}
			}
		case iMakeChan:
			n := fr.get(ins.a)
			fr.regs[ins.dst] = V{p: &Chan{cap: int(w.conc(n, 64))}}
		case iSend:
			if w.chanSend(g, fr.get(ins.a), fr.get(ins.b)) {
				return true
			}
			fr.pc++
			if w.mt {
				return true
			}
			continue
		case iRecv:
			v, ok, blocked := w.chanRecv(g, fr.get(ins.a))
			if blocked {
				return true
			}
			if ins.flag {
				fr.regs[ins.dst] = V{p: Tuple{v, bv(ok)}}
			} else {
				fr.regs[ins.dst] = v
			}
			fr.pc++
			if w.mt {
				return true
			}
			continue
		case iSelect:
			if w.selectChan(g, fr, ins) {
				return true
			}
			fr.pc++
			if w.mt {
				return true
			}
			continue
		default:
			w.unsupported(fmt.Sprintf("instruction %T in %s", ins.in, fr.f.name))
		}
		fr.pc++
	}
}

func (w *Worker) conc(v V, width uint8) uint64 {
	if v.t == nil {
		return v.c
	}
	return w.concretize(v.t)
}

// widen converts an integer operand of type t to 64 bits.
func (w *Worker) widen(v V, t *RType) V {
	if t.w == 64 || t.w == 0 {
		return v
	}
	if v.t == nil {
		if t.sign {
			return V{c: uint64(sext64(v.c, t.w))}
		}
		return v
	}
	if t.sign {
		return tv(w.tb.SExt(v.t, 64))
	}
	return tv(w.tb.ZExt(v.t, 64))
}

func (w *Worker) doCall(g *G, fr *Frame, ins *Ins) {
	ci := ins.call
	if ci.builtin != nil {
		args := w.argBuf(len(ins.args))
		for i, a := range ins.args {
			args[i] = fr.get(a)
		}
		w.callBuiltin(g, ci, args, ins.dst, fr)
		return
	}
	if ci.static != nil {
		if ci.sfn == nil {
			ci.sfn = w.getFunc(ci.static)
		}
		f := ci.sfn
		args := w.argBuf(len(ins.args))
		for i, a := range ins.args {
			args[i] = fr.get(a)
		}
		w.callFunc(g, f, nil, args, ins.dst)
		return
	}
	if ci.invoke != nil {
		cl, recv := w.resolveInvoke(fr.get(ins.a), ci.invoke)
		args := w.argBuf(len(ins.args) + 1)
		c := cl.p.(*Closure)
		if c.intr != nil {
			for i, a := range ins.args {
				args[i] = fr.get(a)
			}
			w.tail = nil
			r := c.intr(w, args[:len(ins.args)])
			w.afterIntr(g, r, ins.dst)
			return
		}
		args[0] = recv
		for i, a := range ins.args {
			args[i+1] = fr.get(a)
		}
		w.callFunc(g, w.getFunc(c.fn), nil, args, ins.dst)
		return
	}
	args := w.argBuf(len(ins.args))
	for i, a := range ins.args {
		args[i] = fr.get(a)
	}
	w.callValue(g, fr.get(ins.a), args, ins.dst)
}

func (w *Worker) argBuf(n int) []V {
	if n > len(w.abuf) {
		w.abuf = make([]V, n+16)
	}
	return w.abuf[:n]
}

func (w *Worker) doDefer(g *G, fr *Frame, ins *Ins) {
	ci := ins.call
	if ins.d != noOp {
		w.unsupported("defer in range-over-func body")
	}
	args := make([]V, len(ins.args))
	for i, a := range ins.args {
		args[i] = fr.get(a)
	}
	d := deferRec{args: args}
	switch {
	case ci.builtin != nil:
		d.bi = ci
	case ci.static != nil:
		d.cl = V{p: &Closure{fn: ci.static}}
	case ci.invoke != nil:
		cl, recv := w.resolveInvoke(fr.get(ins.a), ci.invoke)
		d.cl = cl
		if cl.p.(*Closure).intr == nil {
			d.args = append([]V{recv}, args...)
		}
	default:
		d.cl = fr.get(ins.a)
	}
	fr.defers = append(fr.defers, d)
}

func (w *Worker) doGo(g *G, fr *Frame, ins *Ins) {
	ci := ins.call
	args := make([]V, len(ins.args))
	for i, a := range ins.args {
		args[i] = fr.get(a)
	}
	var cl V
	switch {
	case ci.builtin != nil:
		w.unsupported("go builtin")
	case ci.static != nil:
		cl = V{p: &Closure{fn: ci.static}}
	case ci.invoke != nil:
		c, recv := w.resolveInvoke(fr.get(ins.a), ci.invoke)
		cl = c
		if c.p.(*Closure).intr == nil {
			args = append([]V{recv}, args...)
		}
	default:
		cl = fr.get(ins.a)
	}
	w.spawn(g, cl, args)
}

// sliceAsString is a string sharing the slice's bytes.
func sliceAsString(v V) V {
	s := v.p.(*Slice)
	if s.len == 0 {
		return V{}
	}
	return V{p: &SStr{obj: s.obj, off: s.off, n: s.len}}
}

// stringAsSlice is a slice sharing the string's bytes.
func (w *Worker) stringAsSlice(v V) V {
	v = force(v)
	switch s := v.p.(type) {
	case string:
		o := &Object{n: len(s), vals: make([]V, len(s))}
		w.charge(len(s))
		for i := range o.vals {
			o.vals[i] = V{c: uint64(s[i])}
		}
		return V{p: &Slice{obj: o, len: len(s), cap: len(s)}}
	case *SStr:
		return V{p: &Slice{obj: s.obj, off: s.off, len: s.n, cap: s.n}}
	}
	return V{}
}

// ---- operations

func (w *Worker) concSym(sp *SymPtr) V {
	i := w.concretize(sp.idx)
	return V{p: sp.obj, c: uint64(sp.off + int(i)*sp.step)}
}

func (w *Worker) concPtr(p V) V {
	if sp, ok := p.p.(*SymPtr); ok {
		return w.concSym(sp)
	}
	return p
}

func (w *Worker) loadPtr(p V, t *RType) V {
	switch x := p.p.(type) {
	case *Object:
		return w.load(x, int(p.c), t)
	case *SymPtr:
		if !isAgg(t) && isScalar(t.kind) && x.n <= 1024 && !isFloat(t.kind) {
			if isByteIdx(x.idx) || x.obj.base {
				vals := make([]V, x.n)
				for i := range vals {
					vals[i] = w.loadSlot(x.obj, x.off+i*x.step)
				}
				return w.selectV(vals, x.idx, t)
			}
		}
		c := w.concSym(x)
		return w.load(c.p.(*Object), int(c.c), t)
	case nil:
		w.nilDeref()
	}
	w.unsupported(fmt.Sprintf("load through %T", p.p))
	return V{}
}

// isByteIdx reports whether an index is a zero-extended byte, i.e. a table lookup.
func isByteIdx(t *Term) bool { return t.op == OpZExt && t.args[0].w <= 8 }

// isTable reports whether every element is a constant.
func isTable(vals []V) bool {
	for i := range vals {
		if vals[i].t != nil {
			return false
		}
	}
	return true
}

// selectString is the byte of a string at a symbolic index.
func (w *Worker) selectString(a V, idx *Term) V {
	vals := w.strBytes(a)
	if isByteIdx(idx) || isTable(vals) {
		return w.selectV(vals, idx, rtypeOf(types.Typ[types.Uint8]))
	}
	return vals[w.concretize(idx)]
}

// selectV builds the term vals[idx].
func (w *Worker) selectV(vals []V, idx *Term, t *RType) V {
	width := t.w
	// group runs of equal values
	tb := w.tb
	type run struct {
		lo, hi int
		v      *Term
	}
	var runs []run
	for i := range vals {
		v := w.term(vals[i], width)
		if len(runs) > 0 && runs[len(runs)-1].v == v {
			runs[len(runs)-1].hi = i
		} else {
			runs = append(runs, run{i, i, v})
		}
	}
	inRange := func(lo, hi int) *Term {
		if lo == hi {
			return tb.Eq(idx, tb.Const(64, uint64(lo)))
		}
		return tb.And(tb.Ule(tb.Const(64, uint64(lo)), idx), tb.Ule(idx, tb.Const(64, uint64(hi))))
	}
	if width == 0 {
		var ors []*Term
		for _, r := range runs {
			if r.v == tb.fls {
				continue
			}
			ors = append(ors, tb.And(inRange(r.lo, r.hi), r.v))
		}
		return tv(tb.Or(ors...))
	}
	// most frequent value is the default
	cnt := map[*Term]int{}
	var def *Term
	for _, r := range runs {
		cnt[r.v] += r.hi - r.lo + 1
		if def == nil || cnt[r.v] > cnt[def] {
			def = r.v
		}
	}
	res := def
	for i := len(runs) - 1; i >= 0; i-- {
		r := runs[i]
		if r.v == def {
			continue
		}
		res = tb.Ite(inRange(r.lo, r.hi), r.v, res)
	}
	return tv(res)
}

func (w *Worker) boundsCheck(idx V, n int) {
	if idx.t == nil {
		if idx.c >= uint64(n) {
			w.goPanicStr(fmt.Sprintf("runtime error: index out of range [%d] with length %d", int64(idx.c), n))
		}
		return
	}
	if !w.decide(w.tb.Ult(idx.t, w.tb.Const(64, uint64(n)))) {
		w.goPanicStr(fmt.Sprintf("runtime error: index out of range with length %d", n))
	}
}

func (w *Worker) indexAddr(ins *Ins, a, i V) V {
	i = w.widen(i, ins.typ2)
	if ins.flag {
		n := 0
		s, _ := a.p.(*Slice)
		if s != nil {
			n = s.len
		}
		w.boundsCheck(i, n)
		if i.t != nil {
			return V{p: &SymPtr{obj: s.obj, off: s.off, idx: i.t, n: n, step: ins.n}}
		}
		return V{p: s.obj, c: uint64(s.off + int(i.c)*ins.n)}
	}
	if a.p == nil {
		w.nilDeref()
	}
	w.boundsCheck(i, ins.m)
	a = w.concPtr(a)
	o := a.p.(*Object)
	if i.t != nil {
		return V{p: &SymPtr{obj: o, off: int(a.c), idx: i.t, n: ins.m, step: ins.n}}
	}
	return V{p: o, c: a.c + i.c*uint64(ins.n)}
}

func (w *Worker) index(ins *Ins, a, i V) V {
	i = w.widen(i, ins.typ2)
	if ins.typ.kind == reflect.String {
		n := strLen(a)
		w.boundsCheck(i, n)
		if i.t == nil {
			return w.strByte(a, int(i.c))
		}
		return w.selectString(a, i.t)
	}
	w.boundsCheck(i, ins.m)
	if i.t == nil {
		return w.aggGet(a, int(i.c)*ins.n, ins.typ.elem)
	}
	if !isAgg(ins.typ.elem) && isScalar(ins.typ.elem.kind) {
		vals := make([]V, ins.m)
		for k := range vals {
			vals[k] = w.aggGet(a, k*ins.n, ins.typ.elem)
		}
		return w.selectV(vals, i.t, ins.typ.elem)
	}
	k := w.concretize(i.t)
	return w.aggGet(a, int(k)*ins.n, ins.typ.elem)
}

func (w *Worker) lookup(ins *Ins, a, k V) V {
	if ins.typ.kind == reflect.String {
		k = w.widen(k, ins.typ2)
		w.boundsCheck(k, strLen(a))
		if k.t == nil {
			return w.strByte(a, int(k.c))
		}
		return w.selectString(a, k.t)
	}
	m, _ := a.p.(*MapObj)
	v, ok := w.mapGet(m, k)
	if ins.flag {
		return V{p: Tuple{v, bv(ok)}}
	}
	return v
}

func (w *Worker) binop(ins *Ins, a, b V) V {
	switch ins.cls {
	case cInt:
		if a.t == nil && b.t == nil {
			if a.p != nil || b.p != nil {
				return w.ptrArith(ins, a, b)
			}
			return w.binInt(ins, a.c, b.c)
		}
		return w.binIntSym(ins, a, b)
	case cString:
		switch ins.tok {
		case token.ADD:
			return w.strConcat(a, b)
		case token.EQL:
			return tv(w.strEq(a, b))
		case token.NEQ:
			return tv(w.tb.Not(w.strEq(a, b)))
		case token.LSS:
			return tv(w.strLess(a, b))
		case token.GTR:
			return tv(w.strLess(b, a))
		case token.LEQ:
			return tv(w.tb.Not(w.strLess(b, a)))
		case token.GEQ:
			return tv(w.tb.Not(w.strLess(a, b)))
		}
	case cFloat:
		x, y := w.term(a, ins.w), w.term(b, ins.w)
		switch ins.tok {
		case token.EQL:
			return tv(w.tb.FEq(x, y))
		case token.NEQ:
			return tv(w.tb.Not(w.tb.FEq(x, y)))
		case token.LSS:
			return tv(w.tb.FLt(x, y))
		case token.GTR:
			return tv(w.tb.FLt(y, x))
		case token.LEQ:
			return tv(w.tb.FLe(x, y))
		case token.GEQ:
			return tv(w.tb.FLe(y, x))
		case token.ADD:
			return tv(w.tb.FBin(OpFAdd, x, y))
		case token.SUB:
			return tv(w.tb.FBin(OpFSub, x, y))
		case token.MUL:
			return tv(w.tb.FBin(OpFMul, x, y))
		case token.QUO:
			return tv(w.tb.FBin(OpFDiv, x, y))
		}
	}
	// interface against concrete operand
	if ins.typ.kind == reflect.Interface {
		ta := rtypeOf(ins.in.(*ssa.BinOp).X.Type())
		tbp := rtypeOf(ins.in.(*ssa.BinOp).Y.Type())
		if ta.kind != reflect.Interface {
			a = V{p: &Iface{typ: ta, v: a}}
		}
		if tbp.kind != reflect.Interface {
			b = V{p: &Iface{typ: tbp, v: b}}
		}
	}
	switch ins.tok {
	case token.EQL:
		return tv(w.eq(ins.typ, a, b))
	case token.NEQ:
		return tv(w.tb.Not(w.eq(ins.typ, a, b)))
	}
	w.unsupported("binop " + ins.tok.String() + " on " + ins.typ.String())
	return V{}
}

// ptrArith handles the few uintptr operations done on converted pointers.
func (w *Worker) ptrArith(ins *Ins, a, b V) V {
	switch ins.tok {
	case token.XOR, token.ADD, token.OR, token.SUB:
		if b.p == nil && b.c == 0 {
			return a
		}
		if a.p == nil && a.c == 0 && ins.tok != token.SUB {
			return b
		}
	case token.EQL:
		return bv(a.p == b.p && a.c == b.c)
	case token.NEQ:
		return bv(!(a.p == b.p && a.c == b.c))
	}
	w.unsupported("pointer arithmetic")
	return V{}
}

func (w *Worker) binInt(ins *Ins, x, y uint64) V {
	width := ins.w
	m := mask(width)
	switch ins.tok {
	case token.ADD:
		return V{c: (x + y) & m}
	case token.SUB:
		return V{c: (x - y) & m}
	case token.MUL:
		return V{c: x * y & m}
	case token.QUO:
		if y == 0 {
			w.goPanicStr("runtime error: integer divide by zero")
		}
		if ins.sign {
			return V{c: sdiv(x, y, width)}
		}
		return V{c: x / y}
	case token.REM:
		if y == 0 {
			w.goPanicStr("runtime error: integer divide by zero")
		}
		if ins.sign {
			return V{c: srem(x, y, width)}
		}
		return V{c: x % y}
	case token.AND:
		return V{c: x & y}
	case token.OR:
		return V{c: x | y}
	case token.XOR:
		return V{c: x ^ y}
	case token.AND_NOT:
		return V{c: x &^ y}
	case token.SHL:
		y = w.shiftCount(ins, y)
		if y >= uint64(width) {
			return V{}
		}
		return V{c: x << y & m}
	case token.SHR:
		y = w.shiftCount(ins, y)
		if ins.sign {
			if y >= uint64(width) {
				y = uint64(width) - 1
			}
			return V{c: uint64(sext64(x, width)>>y) & m}
		}
		if y >= uint64(width) {
			return V{}
		}
		return V{c: x >> y}
	case token.EQL:
		return bv(x == y)
	case token.NEQ:
		return bv(x != y)
	case token.LSS:
		if ins.sign {
			return bv(sext64(x, width) < sext64(y, width))
		}
		return bv(x < y)
	case token.LEQ:
		if ins.sign {
			return bv(sext64(x, width) <= sext64(y, width))
		}
		return bv(x <= y)
	case token.GTR:
		if ins.sign {
			return bv(sext64(x, width) > sext64(y, width))
		}
		return bv(x > y)
	case token.GEQ:
		if ins.sign {
			return bv(sext64(x, width) >= sext64(y, width))
		}
		return bv(x >= y)
	}
	w.unsupported("binop " + ins.tok.String())
	return V{}
}

func (w *Worker) shiftCount(ins *Ins, y uint64) uint64 {
	t := ins.typ2
	if t.sign && sext64(y, t.w) < 0 {
		w.goPanicStr("runtime error: negative shift amount")
	}
	return y
}

func (w *Worker) binIntSym(ins *Ins, a, b V) V {
	tb := w.tb
	width := ins.w
	if ins.tok == token.SHL || ins.tok == token.SHR {
		t := ins.typ2
		x := w.term(a, width)
		y := w.term(b, t.w)
		if t.sign {
			if w.decide(tb.Slt(y, tb.Const(t.w, 0))) {
				w.goPanicStr("runtime error: negative shift amount")
			}
		}
		var big *Term = tb.fls
		if t.w > width {
			big = tb.Not(tb.Ult(y, tb.Const(t.w, uint64(width))))
			y = tb.Extract(y, 0, width)
		} else {
			y = tb.ZExt(y, width)
		}
		var r, over *Term
		over = tb.Const(width, 0)
		switch {
		case ins.tok == token.SHL:
			r = tb.Shl(x, y)
		case ins.sign:
			r = tb.AShr(x, y)
			over = tb.AShr(x, tb.Const(width, uint64(width)-1))
		default:
			r = tb.LShr(x, y)
		}
		return tv(tb.Ite(big, over, r))
	}
	x, y := w.term(a, width), w.term(b, width)
	switch ins.tok {
	case token.ADD:
		return tv(w.sub(tb.Add(x, y)))
	case token.SUB:
		return tv(w.sub(tb.Sub(x, y)))
	case token.MUL:
		return tv(w.sub(tb.Mul(x, y)))
	case token.QUO, token.REM:
		if w.decide(tb.Eq(y, tb.Const(width, 0))) {
			w.goPanicStr("runtime error: integer divide by zero")
		}
		switch {
		case ins.tok == token.QUO && ins.sign:
			return tv(tb.SDiv(x, y))
		case ins.tok == token.QUO:
			return tv(tb.UDiv(x, y))
		case ins.sign:
			return tv(tb.SRem(x, y))
		default:
			return tv(tb.URem(x, y))
		}
	case token.AND:
		return tv(tb.AndB(x, y))
	case token.OR:
		return tv(tb.OrB(x, y))
	case token.XOR:
		return tv(tb.XorB(x, y))
	case token.AND_NOT:
		return tv(tb.AndB(x, tb.NotB(y)))
	case token.EQL:
		return tv(tb.Eq(x, y))
	case token.NEQ:
		return tv(tb.Not(tb.Eq(x, y)))
	}
	lt := tb.Ult
	if ins.sign {
		lt = tb.Slt
	}
	switch ins.tok {
	case token.LSS:
		return tv(lt(x, y))
	case token.GTR:
		return tv(lt(y, x))
	case token.LEQ:
		return tv(tb.Not(lt(y, x)))
	case token.GEQ:
		return tv(tb.Not(lt(x, y)))
	}
	w.unsupported("symbolic binop " + ins.tok.String())
	return V{}
}

func (w *Worker) convert(v V, from, to *RType) V {
	fk, tk := from.kind, to.kind
	switch {
	case (isInt(fk) || isUint(fk)) && (isInt(tk) || isUint(tk)):
		if v.t == nil {
			if v.p != nil {
				return v
			}
			if from.sign {
				return V{c: uint64(sext64(v.c, from.w)) & mask(to.w)}
			}
			return V{c: v.c & mask(to.w)}
		}
		return tv(w.resize(v.t, from.sign, to.w))
	case (isInt(fk) || isUint(fk)) && isFloat(tk):
		if v.t == nil {
			return V{c: itof(v.c, from.w, from.sign, to.w)}
		}
		return tv(w.tb.IToF(v.t, from.sign, to.w))
	case isFloat(fk) && (isInt(tk) || isUint(tk)):
		if v.t == nil {
			return V{c: ftoi(v.c, from.w, to.sign, to.w)}
		}
		return tv(w.tb.FToI(v.t, to.sign, to.w))
	case isFloat(fk) && isFloat(tk):
		if from.w == to.w {
			return v
		}
		x := w.term(v, from.w)
		if to.w == 64 {
			return tv(w.tb.F32to64(x))
		}
		return tv(w.tb.F64to32(x))
	case fk == reflect.String && tk == reflect.String:
		return v
	case (isInt(fk) || isUint(fk)) && tk == reflect.String:
		r := rune(sext64(w.conc(v, from.w), from.w))
		if isUint(fk) {
			c := w.conc(v, from.w)
			if c > math.MaxInt32 {
				r = -1
			} else {
				r = rune(c)
			}
		}
		return sv(string(r))
	case fk == reflect.Slice && tk == reflect.String:
		switch from.elem.kind {
		case reflect.Uint8:
			return mkStr(w.sliceBytes(v))
		case reflect.Int32:
			var rs []rune
			for _, x := range w.sliceBytes(v) {
				rs = append(rs, rune(int32(w.conc(x, 32))))
			}
			return sv(string(rs))
		}
	case fk == reflect.String && tk == reflect.Slice:
		switch to.elem.kind {
		case reflect.Uint8:
			return w.bytesFromString(v)
		case reflect.Int32:
			var out []V
			for i := 0; i < strLen(v); {
				r, n := w.decodeRune(v, i)
				out = append(out, r)
				i += n
			}
			return mkByteSlice(out)
		}
	case tk == reflect.UnsafePointer || fk == reflect.UnsafePointer:
		return v
	case fk == reflect.Pointer && tk == reflect.Pointer, fk == tk:
		return v
	case fk == reflect.Slice && tk == reflect.Array:
		n := w.sliceLen(v)
		if n < to.alen {
			w.goPanicStr("runtime error: cannot convert slice to array: length too short")
		}
		if to.alen == 0 {
			return V{}
		}
		s := v.p.(*Slice)
		return w.load(s.obj, s.off, to)
	case fk == reflect.Complex64 || fk == reflect.Complex128:
		return v
	}
	w.unsupported(fmt.Sprintf("conversion %s to %s", from, to))
	return V{}
}

func (w *Worker) resize(t *Term, signed bool, to uint8) *Term {
	if t.w == to {
		return t
	}
	if t.w > to {
		return w.tb.Extract(t, 0, to)
	}
	if signed {
		return w.tb.SExt(t, to)
	}
	if t.op == OpLin && t.w == 8 && len(t.args) == 1 && t.coefs[0] == 1 && t.args[0].op == OpVar && w.path != nil {
		// x+k does not wrap for any x in the byte's domain: zero-extend x instead
		d := w.path.dom[t.args[0].vars[0]]
		lo, hi := -1, -1
		for i := 0; i < 256; i++ {
			if d[i>>6]>>(i&63)&1 == 1 {
				if lo < 0 {
					lo = i
				}
				hi = i
			}
		}
		k := int(t.k)
		x := w.tb.ZExt(t.args[0], to)
		if hi+k < 256 {
			return w.sub(w.tb.Add(x, w.tb.Const(to, uint64(k))))
		}
		if lo >= 0 && lo+k >= 256 {
			return w.sub(w.tb.Add(x, w.tb.Const(to, uint64(int64(k-256)))))
		}
	}
	return w.tb.ZExt(t, to)
}

// decodeRune decodes one UTF-8 sequence, forking on symbolic bytes.
func (w *Worker) decodeRune(s V, i int) (V, int) {
	n := strLen(s)
	b0 := w.strByte(s, i)
	if b0.t != nil {
		if w.decide(w.tb.Ult(b0.t, w.tb.Const(8, 0x80))) {
			return tv(w.tb.ZExt(b0.t, 32)), 1
		}
	}
	var buf []byte
	for k := i; k < n && k < i+4; k++ {
		b := w.strByte(s, k)
		buf = append(buf, byte(w.conc(b, 8)))
		r := []rune(string(buf))
		if buf[0] < 0x80 || len(r) == 1 && r[0] != 0xfffd {
			break
		}
		// stop early when the sequence is already invalid
		if k == i && (buf[0] < 0xc2 || buf[0] > 0xf4) {
			break
		}
	}
	for _, r := range string(buf) {
		l := 1
		if r != 0xfffd || (len(buf) >= 3 && string(buf[:3]) == "\xef\xbf\xbd") {
			l = len(string(r))
		}
		return V{c: uint64(uint32(r))}, l
	}
	return V{c: 0xfffd}, 1
}

func (w *Worker) implements(t *RType, it *types.Interface) bool {
	if it.NumMethods() == 0 {
		return true
	}
	if t == w.eng.rtypePtr {
		return types.Implements(t.T, it)
	}
	key := implKey{t, it}
	if r, ok := w.implCache[key]; ok {
		return r
	}
	r := types.Implements(t.T, it)
	w.implCache[key] = r
	return r
}

type implKey struct {
	t *RType
	i *types.Interface
}

func (w *Worker) typeAssert(ins *Ins, v V) V {
	i, _ := v.p.(*Iface)
	ok := false
	var res V
	if i != nil {
		if ins.typ.kind == reflect.Interface {
			if w.implements(i.typ, ins.typ.T.Underlying().(*types.Interface)) {
				ok = true
				res = v
			}
		} else if i.typ == ins.typ {
			ok = true
			res = i.v
		}
	}
	if ins.flag {
		return V{p: Tuple{res, bv(ok)}}
	}
	if !ok {
		dyn := "nil"
		if i != nil {
			dyn = i.typ.String()
		}
		w.goPanicStr("interface conversion: interface is " + dyn + ", not " + ins.typ.String())
	}
	return res
}

// noteAlloc records a declared container size for allocation accounting.
func (w *Worker) noteAlloc(n *Term, elem int64, what string) {
	if w.allocLimit > 0 {
		lim := uint64(w.allocLimit)
		if elem > 0 {
			lim = uint64(w.allocLimit / elem)
		}
		w.assert(w.tb.Ule(n, w.tb.Const(64, lim)), "allocation of a declared size beyond the limit: "+what)
	}
}

const maxAlloc = 1 << 48

// charge counts allocated slots as steps, so that the step limit bounds memory too.
func (w *Worker) charge(slots int) { w.steps += int64(slots >> 4) }

// maxConstLen bounds the modelled length of slices made with a constant length.
const maxConstLen = 1 << 20

// makeSlice implements make([]T, len, cap) for possibly symbolic sizes.
func (w *Worker) makeSlice(t *RType, ln, cp V, what string) V {
	tb := w.tb
	es := t.elem.Size()
	L, C := w.term(ln, 64), w.term(cp, 64)
	lim := uint64(maxAlloc)
	if es > 0 {
		lim = uint64(maxAlloc / es)
	}
	if w.decide(tb.Ult(tb.Const(64, lim), L)) {
		w.goPanicStr("runtime error: " + what + "slice: len out of range")
	}
	if w.decide(tb.Or(tb.Ult(tb.Const(64, lim), C), tb.Ult(C, L))) {
		w.goPanicStr("runtime error: " + what + "slice: cap out of range")
	}
	w.noteAlloc(C, es, what)
	// sizes beyond the engine's object limit are cut
	max := uint64(w.eng.cfg.MaxLen)
	if L.isConst() {
		max = maxConstLen
	}
	if w.decide(tb.Ult(tb.Const(64, max), L)) {
		w.hugeAlloc(L, es)
	}
	n := int(w.conc(ln, 64))
	s := &Slice{len: n}
	if cp.t != nil && C != L {
		if C.isConst() {
			s.cap = int(C.k)
		} else {
			s.capT = C
			s.cap = -1
		}
	} else if cp.t != nil {
		s.cap = n
	} else {
		s.cap = int(cp.c)
	}
	lc := s.cap
	if s.capT != nil {
		lc = w.eng.cfg.MaxLen
	}
	w.charge(n * t.elem.slots)
	s.obj = newObject0(n*t.elem.slots, lc*t.elem.slots)
	return V{p: s}
}

func newObject0(n, logical int) *Object {
	o := &Object{n: logical}
	if n <= 2 && logical <= 2 {
		o.vals = o.inl[:n]
	} else if n <= 4096 {
		o.vals = make([]V, n)
	}
	return o
}

// hugeAlloc ends paths that allocate more elements than the engine models.
func (w *Worker) hugeAlloc(n *Term, elem int64) {
	if w.allocLimit > 0 {
		w.violation("allocation size driven by input")
	}
	w.stop(stopBound, "allocation larger than the engine's object bound")
}

// boundHi ends paths that extend a slice of symbolic capacity beyond the modelled storage.
func (w *Worker) boundHi(s *Slice, hi *Term) {
	if s.capT == nil {
		return
	}
	if w.decide(w.tb.Ult(w.tb.Const(64, uint64(w.eng.cfg.MaxLen)), hi)) {
		w.stop(stopBound, "slice extended beyond the engine's object bound")
	}
}

func (w *Worker) sliceCapTerm(s *Slice) *Term {
	if s == nil {
		return w.tb.Const(64, 0)
	}
	if s.capT != nil {
		return s.capT
	}
	return w.tb.Const(64, uint64(s.cap))
}

func (w *Worker) slice(ins *Ins, fr *Frame) V {
	x := fr.get(ins.a)
	tb := w.tb
	opT := func(o int32) (V, bool) {
		if o == noOp {
			return V{}, false
		}
		v := fr.get(o)
		var t types.Type
		si := ins.in.(*ssa.Slice)
		switch o {
		case ins.b:
			t = si.Low.Type()
			if si.High != nil && o == ins.c && si.High.Type() != t { // same operand index
				t = si.High.Type()
			}
		case ins.c:
			t = si.High.Type()
		default:
			t = si.Max.Type()
		}
		return w.widen(v, rtypeOf(t)), true
	}
	lo, hasLo := opT(ins.b)
	hi, hasHi := opT(ins.c)
	mx, hasMx := opT(ins.d)
	_ = hasLo
	if ins.typ.kind == reflect.String {
		n := strLen(x)
		if !hasHi {
			hi = iv(n)
		}
		L, H := w.term(lo, 64), w.term(hi, 64)
		if w.decide(tb.Ult(tb.Const(64, uint64(n)), H)) || w.decide(tb.Ult(H, L)) {
			w.goPanicStr("runtime error: slice bounds out of range")
		}
		h := int(w.conc(hi, 64))
		l := int(w.conc(lo, 64))
		return w.substr(x, l, h)
	}
	var s *Slice
	var es int
	if ins.typ.kind == reflect.Pointer { // *array
		if x.p == nil {
			w.nilDeref()
		}
		x = w.concPtr(x)
		at := ins.typ.elem
		es = at.elem.slots
		s = &Slice{obj: x.p.(*Object), off: int(x.c), len: at.alen, cap: at.alen}
	} else {
		s, _ = x.p.(*Slice)
		es = ins.typ.elem.slots
	}
	slen := 0
	if s != nil {
		slen = s.len
	}
	capT := w.sliceCapTerm(s)
	if !hasHi {
		hi = iv(slen)
	}
	L, H := w.term(lo, 64), w.term(hi, 64)
	M := capT
	if hasMx {
		M = w.term(mx, 64)
		if w.decide(tb.Ult(capT, M)) {
			w.goPanicStr("runtime error: slice bounds out of range")
		}
	}
	if hasHi || hasMx {
		if w.decide(tb.Ult(M, H)) {
			w.goPanicStr("runtime error: slice bounds out of range")
		}
	}
	if w.decide(tb.Ult(H, L)) {
		w.goPanicStr("runtime error: slice bounds out of range")
	}
	if s == nil {
		return V{}
	}
	w.boundHi(s, H)
	h := int(w.conc(hi, 64))
	l := int(w.conc(lo, 64))
	r := &Slice{obj: s.obj, off: s.off + l*es, len: h - l}
	if hasMx {
		r.cap = int(w.conc(mx, 64)) - l
	} else if s.capT != nil {
		nt := tb.Sub(s.capT, tb.Const(64, uint64(l)))
		if nt.isConst() {
			r.cap = int(nt.k)
		} else {
			r.capT = nt
			r.cap = -1
		}
	} else {
		r.cap = s.cap - l
	}
	return V{p: r}
}

// appendVals appends slots (n elements of es slots) to slice v.
func (w *Worker) appendVals(v V, vals []V, n, es int) V {
	s, _ := v.p.(*Slice)
	if n == 0 {
		return v
	}
	tb := w.tb
	if s != nil {
		fits := false
		if s.capT == nil {
			fits = s.len+n <= s.cap
		} else {
			fits = w.decide(tb.Ule(tb.Const(64, uint64(s.len+n)), s.capT))
		}
		if fits {
			base := s.off + s.len*es
			for i, x := range vals {
				w.storeSlot(s.obj, base+i, x)
			}
			r := *s
			r.len += n
			return V{p: &r}
		}
	}
	old := 0
	if s != nil {
		old = s.len
	}
	need := old + n
	nc := need
	if s != nil && s.cap > 0 {
		if c := 2 * s.cap; c > nc && s.cap < 256 {
			nc = c
		} else if c := s.cap + s.cap/4; c > nc {
			nc = c
		}
	}
	if es == 1 && nc < 8 {
		nc = 8
	}
	o := &Object{n: nc * es}
	w.charge(nc * es)
	o.vals = make([]V, need*es, nc*es)
	for i := 0; i < old*es; i++ {
		o.vals[i] = w.loadSlot(s.obj, s.off+i)
	}
	copy(o.vals[old*es:], vals)
	return V{p: &Slice{obj: o, len: need, cap: nc}}
}

func (w *Worker) copySlots(dst *Slice, src []V) {
	for i, x := range src {
		w.storeSlot(dst.obj, dst.off+i, x)
	}
}

func (w *Worker) callBuiltin(g *G, ci *callInfo, args []V, dst int32, fr *Frame) {
	set := func(v V) {
		if dst != noOp {
			fr.regs[dst] = v
		}
	}
	tb := w.tb
	switch ci.name {
	case "len":
		t := ci.argT[0]
		switch t.kind {
		case reflect.String:
			set(iv(strLen(args[0])))
		case reflect.Slice:
			set(iv(w.sliceLen(args[0])))
		case reflect.Map:
			n := 0
			if m, ok := args[0].p.(*MapObj); ok {
				if w.mt {
					w.raceMap(m, false)
				}
				n = m.live
			}
			set(iv(n))
		case reflect.Array:
			set(iv(t.alen))
		case reflect.Pointer:
			set(iv(t.elem.alen))
		case reflect.Chan:
			n := 0
			if c, ok := args[0].p.(*Chan); ok {
				n = len(c.buf)
			}
			set(iv(n))
		}
	case "cap":
		t := ci.argT[0]
		switch t.kind {
		case reflect.Slice:
			s, _ := args[0].p.(*Slice)
			set(tv(w.sliceCapTerm(s)))
		case reflect.Array:
			set(iv(t.alen))
		case reflect.Pointer:
			set(iv(t.elem.alen))
		case reflect.Chan:
			n := 0
			if c, ok := args[0].p.(*Chan); ok {
				n = c.cap
			}
			set(iv(n))
		}
	case "append":
		t := ci.argT[0]
		es := t.elem.slots
		var vals []V
		n := 0
		if ci.argT[1].kind == reflect.String {
			vals = w.strBytes(args[1])
			n = len(vals)
		} else if s, ok := args[1].p.(*Slice); ok {
			n = s.len
			vals = make([]V, n*es)
			for i := range vals {
				vals[i] = w.loadSlot(s.obj, s.off+i)
			}
		}
		set(w.appendVals(args[0], vals, n, es))
	case "copy":
		d, _ := args[0].p.(*Slice)
		es := ci.argT[0].elem.slots
		var vals []V
		n := 0
		if ci.argT[1].kind == reflect.String {
			n = strLen(args[1])
		} else {
			n = w.sliceLen(args[1])
		}
		if d == nil {
			n = 0
		} else if d.len < n {
			n = d.len
		}
		if n > 0 {
			if ci.argT[1].kind == reflect.String {
				vals = w.strBytes(args[1])[:n]
			} else {
				s := args[1].p.(*Slice)
				vals = make([]V, n*es)
				for i := range vals {
					vals[i] = w.loadSlot(s.obj, s.off+i)
				}
			}
			w.copySlots(d, vals)
		}
		set(iv(n))
	case "delete":
		m, _ := args[0].p.(*MapObj)
		w.mapDelete(m, args[1])
	case "clear":
		switch ci.argT[0].kind {
		case reflect.Map:
			m, _ := args[0].p.(*MapObj)
			w.mapClear(m)
		case reflect.Slice:
			if s, ok := args[0].p.(*Slice); ok {
				for i := 0; i < s.len*ci.argT[0].elem.slots; i++ {
					w.storeSlot(s.obj, s.off+i, V{})
				}
			}
		}
	case "min", "max":
		t := ci.argT[0]
		r := args[0]
		for _, x := range args[1:] {
			var lt *Term // x < r
			switch classOf(t) {
			case cInt:
				a, b := w.term(x, t.w), w.term(r, t.w)
				if ci.name == "max" {
					a, b = b, a
				}
				if t.sign {
					lt = tb.Slt(a, b)
				} else {
					lt = tb.Ult(a, b)
				}
				r = tv(tb.Ite(lt, w.term(x, t.w), w.term(r, t.w)))
			case cString:
				a, b := x, r
				if ci.name == "max" {
					a, b = b, a
				}
				if w.decide(w.strLess(a, b)) {
					r = x
				}
			case cFloat:
				a, b := w.term(x, t.w), w.term(r, t.w)
				if ci.name == "max" {
					a, b = b, a
				}
				if w.decide(tb.Or(tb.FIsNaN(w.term(x, t.w)), tb.FLt(a, b))) {
					r = x
				}
			default:
				w.unsupported("min/max")
			}
		}
		set(r)
	case "panic":
		v := args[0]
		if v.p == nil {
			v = w.runtimeErr("panic called with nil argument")
		}
		panic(&goPanic{v})
	case "recover":
		var v V
		n := len(g.frames)
		if n >= 2 && g.frames[n-1].deferred {
			par := g.frames[n-2]
			if par.panicking && !par.recovered {
				par.recovered = true
				v = g.panics[len(g.panics)-1]
			}
		}
		set(v)
	case "print", "println":
	case "close":
		w.chanClose(args[0])
	case "ssa:wrapnilchk":
		if args[0].p == nil {
			w.goPanicStr("value method called using nil pointer")
		}
		set(args[0])
	case "ssa:deferstack":
		set(V{})
	case "String": // unsafe.String(ptr, len)
		n := w.widenArg(ci, args, 1)
		k := int(w.conc(n, 64))
		if k == 0 {
			set(V{})
			return
		}
		p := w.concPtr(args[0])
		set(V{p: &SStr{obj: p.p.(*Object), off: int(p.c), n: k}})
	case "StringData":
		args[0] = force(args[0])
		switch s := args[0].p.(type) {
		case nil:
			set(V{})
		case string:
			o := &Object{n: len(s)}
			w.charge(len(s))
			o.vals = make([]V, len(s))
			for i := range o.vals {
				o.vals[i] = V{c: uint64(s[i])}
			}
			set(V{p: o})
		case *SStr:
			set(V{p: s.obj, c: uint64(s.off)})
		}
	case "SliceData":
		if s, ok := args[0].p.(*Slice); ok {
			set(V{p: s.obj, c: uint64(s.off)})
		} else {
			set(V{})
		}
	case "Slice":
		n := int(w.conc(w.widenArg(ci, args, 1), 64))
		p := w.concPtr(args[0])
		if p.p == nil {
			set(V{})
			return
		}
		set(V{p: &Slice{obj: p.p.(*Object), off: int(p.c), len: n, cap: n}})
	case "Add":
		n := w.conc(w.widenArg(ci, args, 1), 64)
		if n == 0 {
			set(args[0])
		} else {
			w.unsupported("unsafe.Add")
		}
	case "Sizeof":
		if ci.argT[0] == nil {
			w.unsupported("unsafe.Sizeof")
		}
		set(iv(int(sizes.Sizeof(ci.argT[0].T))))
	case "Alignof":
		if ci.argT[0] == nil {
			w.unsupported("unsafe.Alignof")
		}
		set(iv(int(sizes.Alignof(ci.argT[0].T))))
	case "real", "imag", "complex":
		w.unsupported("complex builtin")
	default:
		w.unsupported("builtin " + ci.name)
	}
}

func (w *Worker) widenArg(ci *callInfo, args []V, i int) V {
	if t := ci.argT[i]; t != nil {
		return w.widen(args[i], t)
	}
	return args[i]
}

// ---- iteration

type rangeIter struct {
	str V
	pos int
	m   *MapObj
	ord []int
	dyn bool
}

func (w *Worker) newIter(x V, t *RType) *rangeIter {
	if t.kind == reflect.String {
		return &rangeIter{str: x}
	}
	m, _ := x.p.(*MapObj)
	return w.mapIter(m)
}

func (w *Worker) mapIter(m *MapObj) *rangeIter {
	it := &rangeIter{m: m}
	if m == nil {
		return it
	}
	if w.mt {
		w.raceMap(m, false)
	}
	if w.mapOrders && m.live > 1 && !m.base {
		var live []int
		for i := range m.ents {
			if !m.ents[i].dead {
				live = append(live, i)
			}
		}
		// all permutations up to 3 entries, otherwise forward/backward
		if len(live) <= 3 {
			for len(live) > 0 {
				k := w.choose(len(live))
				it.ord = append(it.ord, live[k])
				live = append(live[:k:k], live[k+1:]...)
			}
		} else if w.choose(2) == 1 {
			for i := len(live) - 1; i >= 0; i-- {
				it.ord = append(it.ord, live[i])
			}
		} else {
			it.ord = live
		}
		it.dyn = true
	}
	return it
}

func (w *Worker) mapIterNext(it *rangeIter) (V, V, bool) {
	m := it.m
	if m == nil {
		return V{}, V{}, false
	}
	if w.mt {
		w.raceMap(m, false)
	}
	if it.dyn {
		for it.pos < len(it.ord) {
			e := &m.ents[it.ord[it.pos]]
			it.pos++
			if !e.dead {
				return e.k, e.v, true
			}
		}
		return V{}, V{}, false
	}
	for it.pos < len(m.ents) {
		e := &m.ents[it.pos]
		it.pos++
		if !e.dead {
			return e.k, e.v, true
		}
	}
	return V{}, V{}, false
}

func (w *Worker) iterNext(it *rangeIter, isStr bool) V {
	if isStr {
		if it.pos >= strLen(it.str) {
			return V{p: Tuple{bv(false), V{}, V{}}}
		}
		i := it.pos
		r, n := w.decodeRune(it.str, i)
		it.pos += n
		return V{p: Tuple{bv(true), iv(i), r}}
	}
	k, v, ok := w.mapIterNext(it)
	return V{p: Tuple{bv(ok), k, v}}
}
