package main

import "fmt"

// ---- cooperative scheduler with bounded preemption

func (w *Worker) schedule() {
	main := w.gs[0]
	for {
		if main.done {
			return
		}
		g := w.pick()
		if g == nil {
			w.violation("deadlock: all goroutines are asleep")
		}
		g.wait = nil
		w.cur = g
		w.step(g)
		if g.done && g != main {
			if w.mt {
				// its effects are only visible through synchronisation
			}
		}
	}
}

func (g *G) runnable() bool { return !g.done && (g.wait == nil || g.wait()) }

func (w *Worker) pick() *G {
	if len(w.gs) == 1 {
		g := w.gs[0]
		if g.runnable() {
			return g
		}
		return nil
	}
	cur := w.cur
	for cur != nil && cur.nested {
		cur = w.gs[0]
	}
	curOK := cur != nil && cur.runnable()
	var others []*G
	for _, g := range w.gs {
		if g != cur && g.runnable() {
			others = append(others, g)
		}
	}
	if curOK {
		if len(others) == 0 || w.preempts >= w.preemptLim {
			return cur
		}
		k := w.choose(1 + len(others))
		if k == 0 {
			return cur
		}
		w.preempts++
		return others[k-1]
	}
	if len(others) == 0 {
		return nil
	}
	return others[w.choose(len(others))]
}

func (w *Worker) spawn(g *G, cl V, args []V) {
	if w.initing {
		w.unsupported("goroutine during init")
	}
	if g.nested {
		w.unsupported("goroutine started in a nested call")
	}
	n := &G{id: len(w.gs)}
	if len(w.gs) > 12 {
		w.unsupported("too many goroutines")
	}
	w.mt = true
	w.gs = append(w.gs, n)
	// happens-before: creation
	n.vc = make([]uint32, len(w.gs))
	copy(n.vc, g.vc)
	w.tick(n)
	w.tick(g)
	c, ok := cl.p.(*Closure)
	if !ok || c == nil {
		w.nilDeref()
	}
	if c.fn == nil {
		w.unsupported("go of native function")
	}
	f := w.getFunc(c.fn)
	if f.intr != nil {
		f.intr(w, args)
		n.done = true
		return
	}
	w.enter(n, f, c.free, args, noOp)
}

// runSync executes a call to completion on a nested goroutine.
func (w *Worker) runSync(cl V, args []V) V {
	c, ok := cl.p.(*Closure)
	if !ok || c == nil {
		w.nilDeref()
	}
	if c.intr != nil {
		w.tail = nil
		r := c.intr(w, args)
		return w.finishTail(r)
	}
	f := w.getFunc(c.fn)
	if f.intr != nil {
		w.tail = nil
		r := f.intr(w, args)
		if !w.fb {
			return w.finishTail(r)
		}
		w.fb = false
	}
	saved := w.cur
	g := &G{nested: true}
	if saved != nil {
		g.id = saved.id
		g.vc = saved.vc
	}
	w.cur = g
	w.enter(g, f, c.free, args, noOp)
	for !g.done {
		w.step(g)
		if g.wait != nil {
			if !g.wait() {
				w.unsupported("blocking operation in nested call")
			}
			g.wait = nil
		}
	}
	if saved != nil && len(g.vc) > 0 {
		saved.vc = g.vc
	}
	w.cur = saved
	return g.result
}

func (w *Worker) finishTail(r V) V {
	if w.blk != nil {
		w.blk = nil
		w.unsupported("blocking operation in nested call")
	}
	if t := w.tail; t != nil {
		w.tail = nil
		return w.runSync(t.cl, t.args)
	}
	return r
}

// callMethod calls method name of an interface value.
func (w *Worker) callMethod(recv V, name string, args ...V) (V, bool) {
	i, ok := recv.p.(*Iface)
	if !ok {
		return V{}, false
	}
	if rt, ok := i.v.p.(*RType); ok && i.typ == w.eng.rtypePtr {
		return w.typeMethod(rt, name, args), true
	}
	sel := w.eng.prog.MethodSets.MethodSet(i.typ.T).Lookup(nil, name)
	if sel == nil {
		return V{}, false
	}
	fn := w.eng.prog.MethodValue(sel)
	if fn == nil {
		return V{}, false
	}
	return w.runSync(V{p: &Closure{fn: fn}}, append([]V{i.v}, args...)), true
}

// ---- vector clocks

type cell struct {
	wg    int
	wc    uint32
	rd    []uint32
	where string
}

type shadow struct {
	path int
	m    map[int]*cell
}

func (w *Worker) clk(g *G) uint32 {
	if g.id < len(g.vc) {
		return g.vc[g.id]
	}
	return 0
}

func (w *Worker) tick(g *G) {
	for len(g.vc) <= g.id {
		g.vc = append(g.vc, 0)
	}
	v := append([]uint32(nil), g.vc...)
	v[g.id]++
	g.vc = v
}

func vget(v []uint32, i int) uint32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}

func vjoin(a, b []uint32) []uint32 {
	n := len(a)
	if len(b) > n {
		n = len(b)
	}
	out := make([]uint32, n)
	for i := range out {
		x, y := vget(a, i), vget(b, i)
		if x < y {
			x = y
		}
		out[i] = x
	}
	return out
}

func (w *Worker) shadowCell(sh **shadow, i int) *cell {
	if *sh == nil || (*sh).path != w.pathSeq {
		*sh = &shadow{path: w.pathSeq, m: map[int]*cell{}}
	}
	c := (*sh).m[i]
	if c == nil {
		c = &cell{wg: -1}
		(*sh).m[i] = c
	}
	return c
}

func (w *Worker) accRead(c *cell) {
	g := w.cur
	if c.wg >= 0 && c.wg != g.id && c.wc > vget(g.vc, c.wg) {
		w.violation("data race: read in " + w.whereFn(g) + " against write in " + c.where)
	}
	for len(c.rd) <= g.id {
		c.rd = append(c.rd, 0)
	}
	c.rd[g.id] = w.clk(g)
}

func (w *Worker) accWrite(c *cell) {
	g := w.cur
	if c.wg >= 0 && c.wg != g.id && c.wc > vget(g.vc, c.wg) {
		w.violation("data race: write in " + w.whereFn(g) + " against write in " + c.where)
	}
	for i, k := range c.rd {
		if i != g.id && k > vget(g.vc, i) {
			w.violation("data race: write in " + w.whereFn(g) + " against an earlier read")
		}
	}
	c.wg, c.wc = g.id, w.clk(g)
	c.where = w.whereFn(g)
}

func (w *Worker) whereFn(g *G) string {
	if len(g.frames) == 0 {
		return "?"
	}
	return g.top().f.name
}

func (w *Worker) raceRead(o *Object, i int) {
	if w.race && w.cur != nil {
		w.accRead(w.shadowCell(&o.sh, i))
	}
}
func (w *Worker) raceWrite(o *Object, i int) {
	if w.race && w.cur != nil {
		w.accWrite(w.shadowCell(&o.sh, i))
	}
}
func (w *Worker) raceMap(m *MapObj, wr bool) {
	if !w.race || w.cur == nil {
		return
	}
	c := w.shadowCell(&m.sh, 0)
	if wr {
		w.accWrite(c)
	} else {
		w.accRead(c)
	}
}

// syncVar carries the clock of a synchronisation object.
type syncVar struct{ vc []uint32 }

func (w *Worker) acquire(s *syncVar) {
	if w.mt {
		w.cur.vc = vjoin(w.cur.vc, s.vc)
	}
}
func (w *Worker) release(s *syncVar) {
	if w.mt {
		s.vc = vjoin(s.vc, w.cur.vc)
		w.tick(w.cur)
	}
}
func (w *Worker) releaseStore(s *syncVar) {
	if w.mt {
		s.vc = append([]uint32(nil), w.cur.vc...)
		w.tick(w.cur)
	}
}

func (w *Worker) schedPoint() {
	if w.mt && !w.cur.nested {
		w.yield = true
	}
}

func sideOf[T any](w *Worker, p V, mk func() T) T {
	p = w.concPtr(p)
	o, ok := p.p.(*Object)
	if !ok {
		w.nilDeref()
	}
	k := sideKey{o, p.c}
	if x, ok := w.side[k]; ok {
		if t, ok := x.(T); ok {
			return t
		}
		w.unsupported(fmt.Sprintf("synchronisation object used as %T", x))
	}
	t := mk()
	w.side[k] = t
	return t
}

// ---- mutexes

type mutexSt struct {
	held    bool
	readers int
	sv      syncVar
	rsv     syncVar
}

func newMutexSt() *mutexSt { return &mutexSt{} }

func mutexLock(w *Worker, args []V) V {
	m := sideOf(w, args[0], newMutexSt)
	if m.held || m.readers > 0 {
		w.blk = func() bool { return !m.held && m.readers == 0 }
		return V{}
	}
	m.held = true
	w.acquire(&m.sv)
	w.acquire(&m.rsv)
	w.schedPoint()
	return V{}
}
func mutexTryLock(w *Worker, args []V) V {
	m := sideOf(w, args[0], newMutexSt)
	w.schedPoint()
	if m.held || m.readers > 0 {
		return bv(false)
	}
	m.held = true
	w.acquire(&m.sv)
	w.acquire(&m.rsv)
	return bv(true)
}
func mutexUnlock(w *Worker, args []V) V {
	m := sideOf(w, args[0], newMutexSt)
	if !m.held {
		w.violation("fatal error: sync: unlock of unlocked mutex")
	}
	m.held = false
	w.release(&m.sv)
	w.schedPoint()
	return V{}
}
func rwRLock(w *Worker, args []V) V {
	m := sideOf(w, args[0], newMutexSt)
	if m.held {
		w.blk = func() bool { return !m.held }
		return V{}
	}
	m.readers++
	w.acquire(&m.sv)
	w.schedPoint()
	return V{}
}
func rwRUnlock(w *Worker, args []V) V {
	m := sideOf(w, args[0], newMutexSt)
	if m.readers == 0 {
		w.violation("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	w.release(&m.rsv)
	w.schedPoint()
	return V{}
}

// ---- wait groups

type wgSt struct {
	n  int
	sv syncVar
}

func wgAdd(w *Worker, args []V) V {
	s := sideOf(w, args[0], func() *wgSt { return &wgSt{} })
	s.n += int(int64(w.conc(args[1], 64)))
	if s.n < 0 {
		w.goPanicStr("sync: negative WaitGroup counter")
	}
	w.release(&s.sv)
	return V{}
}
func wgDone(w *Worker, args []V) V {
	return wgAdd(w, []V{args[0], {c: ^uint64(0)}})
}
func wgWait(w *Worker, args []V) V {
	s := sideOf(w, args[0], func() *wgSt { return &wgSt{} })
	if s.n > 0 {
		w.blk = func() bool { return s.n == 0 }
		return V{}
	}
	w.acquire(&s.sv)
	return V{}
}

// ---- pools

type poolItem struct {
	v  V
	by int // the goroutine that put it
	sv *syncVar
}

type poolSt struct{ items []poolItem }

// own decides, once per path, whether a goroutine finds what other goroutines put into a pool.
func (w *Worker) own() bool {
	if w.pools == 0 {
		w.pools = 1 + w.choose(2)
	}
	return w.pools == 2
}

func poolGet(w *Worker, args []V) V {
	p := w.concPtr(args[0])
	s := sideOf(w, p, func() *poolSt { return &poolSt{} })
	w.schedPoint()
	for i := len(s.items) - 1; i >= 0; i-- {
		it := s.items[i]
		if w.mt && it.by != w.cur.id && w.own() {
			continue
		}
		s.items = append(s.items[:i:i], s.items[i+1:]...)
		w.acquire(it.sv)
		return it.v
	}
	pt := w.eng.namedType("sync", "Pool")
	o := p.p.(*Object)
	idx := -1
	for i := 0; i < pt.st.NumFields(); i++ {
		if pt.st.Field(i).Name() == "New" {
			idx = pt.foff[i]
		}
	}
	mt := w.mt
	w.mt = false // the pool's own fields are not subject to race checking
	fn := w.loadSlot(o, int(p.c)+idx)
	w.mt = mt
	if fn.p == nil {
		return V{}
	}
	w.tail = &tailCall{cl: fn}
	return V{}
}

func poolPut(w *Worker, args []V) V {
	s := sideOf(w, args[0], func() *poolSt { return &poolSt{} })
	if args[1].p == nil {
		return V{}
	}
	it := poolItem{v: args[1], sv: &syncVar{}}
	if w.cur != nil {
		it.by = w.cur.id
	}
	w.release(it.sv)
	s.items = append(s.items, it)
	w.schedPoint()
	return V{}
}

// ---- atomics

func (w *Worker) atomicVar(p V) (*Object, int, *syncVar) {
	p = w.concPtr(p)
	o, ok := p.p.(*Object)
	if !ok {
		w.nilDeref()
	}
	sv := sideOf(w, V{p: o, c: p.c | 1<<62}, func() *syncVar { return &syncVar{} })
	return o, int(p.c), sv
}

func (w *Worker) quiet(f func()) {
	mt := w.mt
	w.mt = false
	f()
	w.mt = mt
}

func atomicLoad(w *Worker, args []V) V {
	o, i, sv := w.atomicVar(args[0])
	var v V
	w.quiet(func() { v = w.loadSlot(o, i) })
	w.acquire(sv)
	w.schedPoint()
	return v
}
func atomicStore(w *Worker, args []V) V {
	o, i, sv := w.atomicVar(args[0])
	v := args[1]
	w.quiet(func() { w.storeSlot(o, i, v) })
	w.release(sv)
	w.schedPoint()
	return V{}
}
func atomicSwap(w *Worker, args []V) V {
	o, i, sv := w.atomicVar(args[0])
	v := args[1]
	var old V
	w.quiet(func() { old = w.loadSlot(o, i); w.storeSlot(o, i, v) })
	w.acquire(sv)
	w.release(sv)
	w.schedPoint()
	return old
}
func atomicAdd(width uint8) intrinsic {
	return func(w *Worker, args []V) V {
		o, i, sv := w.atomicVar(args[0])
		d := args[1]
		var r V
		w.quiet(func() {
			old := w.loadSlot(o, i)
			if old.t == nil && d.t == nil {
				r = V{c: (old.c + d.c) & mask(width)}
			} else {
				r = tv(w.tb.Add(w.term(old, width), w.term(d, width)))
			}
			w.storeSlot(o, i, r)
		})
		w.acquire(sv)
		w.release(sv)
		w.schedPoint()
		return r
	}
}

// atomicBits is And and Or, which return the old value.
func atomicBits(width uint8, and bool) intrinsic {
	return func(w *Worker, args []V) V {
		o, i, sv := w.atomicVar(args[0])
		d := args[1]
		var old V
		w.quiet(func() {
			old = w.loadSlot(o, i)
			var r V
			switch x, y := w.term(old, width), w.term(d, width); {
			case old.t == nil && d.t == nil && and:
				r = V{c: old.c & d.c}
			case old.t == nil && d.t == nil:
				r = V{c: old.c | d.c}
			case and:
				r = tv(w.tb.AndB(x, y))
			default:
				r = tv(w.tb.OrB(x, y))
			}
			w.storeSlot(o, i, r)
		})
		w.acquire(sv)
		w.release(sv)
		w.schedPoint()
		return old
	}
}

func atomicCAS(width uint8) intrinsic {
	return func(w *Worker, args []V) V {
		o, i, sv := w.atomicVar(args[0])
		a1, a2 := args[1], args[2]
		ok := false
		w.quiet(func() {
			old := w.loadSlot(o, i)
			if width == 0 {
				ok = w.ptrEq(w.concPtr(old), w.concPtr(a1))
			} else if old.t == nil && a1.t == nil {
				ok = old.c == a1.c
			} else {
				ok = w.decide(w.tb.Eq(w.term(old, width), w.term(a1, width)))
			}
			if ok {
				w.storeSlot(o, i, a2)
			}
		})
		w.acquire(sv)
		if ok {
			w.release(sv)
		}
		w.schedPoint()
		return bv(ok)
	}
}

// ---- sync.Map

type smapSt struct {
	m  *MapObj
	sv syncVar
}

func (w *Worker) smap(p V) *smapSt {
	s := sideOf(w, p, func() *smapSt {
		it := anyType()
		return &smapSt{m: newMap(it, it)}
	})
	w.acquire(&s.sv)
	w.schedPoint()
	return s
}

func (w *Worker) smGet(s *smapSt, k V) (v V, ok bool) {
	w.quiet(func() { v, ok = w.mapGet(s.m, k) })
	return
}

func syncMapOp(name string) intrinsic {
	return func(w *Worker, args []V) V {
		s := w.smap(args[0])
		args = append([]V(nil), args...)
		set := func(v V) { w.quiet(func() { w.mapSet(s.m, args[1], v) }); w.release(&s.sv) }
		del := func() { w.quiet(func() { w.mapDelete(s.m, args[1]) }); w.release(&s.sv) }
		switch name {
		case "Load":
			v, ok := w.smGet(s, args[1])
			return V{p: Tuple{v, bv(ok)}}
		case "Store":
			set(args[2])
			return V{}
		case "LoadOrStore":
			v, ok := w.smGet(s, args[1])
			if ok {
				return V{p: Tuple{v, bv(true)}}
			}
			set(args[2])
			return V{p: Tuple{args[2], bv(false)}}
		case "LoadAndDelete":
			v, ok := w.smGet(s, args[1])
			if ok {
				del()
			}
			return V{p: Tuple{v, bv(ok)}}
		case "Delete":
			del()
			return V{}
		case "Swap":
			v, ok := w.smGet(s, args[1])
			set(args[2])
			return V{p: Tuple{v, bv(ok)}}
		case "CompareAndSwap":
			v, ok := w.smGet(s, args[1])
			if ok && w.decide(w.ifaceEq(v, args[2])) {
				set(args[3])
				return bv(true)
			}
			return bv(false)
		case "CompareAndDelete":
			v, ok := w.smGet(s, args[1])
			if ok && w.decide(w.ifaceEq(v, args[2])) {
				del()
				return bv(true)
			}
			return bv(false)
		case "Clear":
			w.quiet(func() { w.mapClear(s.m) })
			w.release(&s.sv)
			return V{}
		case "Range":
			var ents []mapEnt
			for _, e := range s.m.ents {
				if !e.dead {
					ents = append(ents, e)
				}
			}
			for _, e := range ents {
				r := w.runSync(args[1], []V{e.k, e.v})
				ok := r.c != 0
				if r.t != nil {
					ok = w.decide(r.t)
				}
				if !ok {
					break
				}
			}
			return V{}
		}
		w.unsupported("sync.Map." + name)
		return V{}
	}
}

// ---- channels

type Chan struct {
	cap    int
	buf    []V
	closed bool
	sv     syncVar
	recvq  int // waiting receivers (unbuffered)
	slot   *V
	taken  bool
}

func (w *Worker) chanSend(g *G, c, v V) bool {
	ch, ok := c.p.(*Chan)
	if !ok {
		g.wait = func() bool { return false }
		return true
	}
	if ch.closed {
		w.goPanicStr("send on closed channel")
	}
	lim := ch.cap
	if lim == 0 {
		lim = 1 // unbuffered channels are modelled with one slot of buffering
	}
	if len(ch.buf) >= lim {
		g.wait = func() bool { return len(ch.buf) < lim || ch.closed }
		return true
	}
	ch.buf = append(ch.buf, v)
	w.cur = g
	w.release(&ch.sv)
	return false
}

func (w *Worker) chanRecv(g *G, c V) (V, bool, bool) {
	ch, ok := c.p.(*Chan)
	if !ok {
		g.wait = func() bool { return false }
		return V{}, false, true
	}
	w.cur = g
	if len(ch.buf) > 0 {
		v := ch.buf[0]
		ch.buf = ch.buf[1:]
		w.acquire(&ch.sv)
		return v, true, false
	}
	if ch.closed {
		w.acquire(&ch.sv)
		return V{}, false, false
	}
	g.wait = func() bool { return len(ch.buf) > 0 || ch.closed }
	return V{}, false, true
}

func (w *Worker) chanClose(c V) {
	ch, ok := c.p.(*Chan)
	if !ok {
		w.goPanicStr("close of nil channel")
	}
	if ch.closed {
		w.goPanicStr("close of closed channel")
	}
	ch.closed = true
	w.release(&ch.sv)
}

// selectChan executes a select statement; it reports whether the goroutine blocks.
func (w *Worker) selectChan(g *G, fr *Frame, ins *Ins) bool {
	n := len(ins.args) / 2
	type st struct {
		ch   *Chan
		send bool
	}
	sts := make([]st, n)
	for i := range sts {
		ch, _ := fr.get(ins.args[2*i]).p.(*Chan)
		sts[i] = st{ch, ins.args[2*i+1] != noOp}
	}
	ready := func() (r []int) {
		for i, s := range sts {
			switch {
			case s.ch == nil:
			case s.send:
				if s.ch.closed || len(s.ch.buf) < max(s.ch.cap, 1) {
					r = append(r, i)
				}
			case len(s.ch.buf) > 0 || s.ch.closed:
				r = append(r, i)
			}
		}
		return r
	}
	r := ready()
	res := Tuple{iv(-1), bv(false)}
	for _, s := range sts {
		if !s.send {
			res = append(res, V{})
		}
	}
	if len(r) == 0 {
		if ins.flag {
			g.wait = func() bool { return len(ready()) > 0 }
			return true
		}
		fr.regs[ins.dst] = V{p: res}
		return false
	}
	i := r[0]
	if len(r) > 1 {
		i = r[w.choose(len(r))]
	}
	res[0] = iv(i)
	if sts[i].send {
		w.chanSend(g, V{p: sts[i].ch}, fr.get(ins.args[2*i+1]))
	} else {
		v, ok, _ := w.chanRecv(g, V{p: sts[i].ch})
		res[1] = bv(ok)
		k := 2
		for j := 0; j < i; j++ {
			if !sts[j].send {
				k++
			}
		}
		res[k] = v
	}
	fr.regs[ins.dst] = V{p: res}
	return false
}
