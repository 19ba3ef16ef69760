package main

import (
	"fmt"
	"os"
	"strconv"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Dec is one recorded decision of a path.
type Dec struct {
	taken  bool
	forced bool
	val    uint64 // concretisation candidate or choice
}

type Item struct {
	h      *HarnessRun
	prefix []Dec
	model  []uint64
}

type InputRec struct {
	Name string `json:"n"`
	Kind string `json:"k"`
	W    uint8  `json:"w,omitempty"`
	Val  uint64 `json:"v"`
	t    *Term
}

type Path struct {
	item    *Item
	pos     int
	decs    []Dec
	model   []uint64
	vars    []*Term
	dom     []*[4]uint64
	parent  []int32
	cons    map[int32][]*Term // by root
	members map[int32][]int32
	inputs  []InputRec
	obs     []obsRec
	steps   int64
	digits  map[digKey][]V
	defs    []*digDef
	digOf   map[int32]*digDef
	rng     map[*Term]urange // implied by comparisons with constants
	subst   map[*Term]*Term
	known   map[*Term]bool
	tokens  []floatTok
	opaque  bool // a float was parsed by the model of the general algorithm
	covers  map[string]bool
	scratch []uint64
	spawned int
	order   int // choice for map iteration order etc.
	unk     bool
	nAssert int
}

type stopKind int

const (
	stopDone stopKind = iota
	stopAssume
	stopViolation
	stopUnsupported
	stopSteps
	stopDepth
	stopBound
	stopInfeasible
)

var stopNames = []string{"done", "assume", "violation", "unsupported", "steps", "depth", "bound", "infeasible"}

type stopPath struct {
	kind  stopKind
	msg   string
	model []uint64
	cond  *Term
}

func (w *Worker) stop(k stopKind, msg string) { panic(&stopPath{kind: k, msg: msg}) }
func (w *Worker) unsupported(msg string) {
	panic(&stopPath{kind: stopUnsupported, msg: msg})
}
func (w *Worker) violation(msg string) { panic(&stopPath{kind: stopViolation, msg: msg}) }

func newPath(it *Item) *Path {
	return &Path{item: it, model: append([]uint64(nil), it.model...), cons: map[int32][]*Term{}, members: map[int32][]int32{}, digits: map[digKey][]V{}, digOf: map[int32]*digDef{}, subst: map[*Term]*Term{}, known: map[*Term]bool{}, rng: map[*Term]urange{}, covers: map[string]bool{}}
}

func (p *Path) find(i int32) int32 {
	for p.parent[i] != i {
		p.parent[i] = p.parent[p.parent[i]]
		i = p.parent[i]
	}
	return i
}

var fullDom = [4]uint64{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}

func (w *Worker) newVar(width uint8, def uint64) *Term {
	p := w.path
	idx := len(p.vars)
	t := w.tb.Var(idx, width)
	p.vars = append(p.vars, t)
	p.parent = append(p.parent, int32(idx))
	p.scratch = append(p.scratch, 0)
	if width == 8 {
		d := fullDom
		p.dom = append(p.dom, &d)
	} else {
		p.dom = append(p.dom, nil)
	}
	if len(p.model) <= idx {
		p.model = append(p.model, def&mask(width))
	}
	return t
}

func (w *Worker) isUnary8(t *Term) bool {
	return len(t.vars) == 1 && w.path.vars[t.vars[0]].w == 8
}

// digDef is a group of fresh variables defined as the decimal digits of u. Until something other than
// their definition mentions the digits, the definition is left out of queries: it can always be
// satisfied, in exactly one way, and models are completed by evaluation.
type digDef struct {
	u, con *Term
	sum    *Term
	vars   []int32 // most significant first
	active bool
}

func (w *Worker) activate(t *Term) {
	if len(w.path.defs) == 0 {
		return
	}
	for _, v := range t.vars {
		if d := w.path.digOf[v]; d != nil && !d.active {
			d.active = true
			w.activate(d.con)
			w.addCon(d.con)
		}
	}
}

func (w *Worker) inactiveDigit(v int32) bool {
	d := w.path.digOf[v]
	return d != nil && !d.active
}

// fixDefs recomputes the digits of inactive definitions in m.
func (w *Worker) fixDefs(m []uint64) []uint64 {
	for _, d := range w.path.defs {
		if d.active {
			continue
		}
		uv := w.tb.Eval(d.u, m)
		for i := len(d.vars) - 1; i >= 0; i-- {
			if int(d.vars[i]) < len(m) {
				m[d.vars[i]] = '0' + uv%10
			}
			uv /= 10
		}
	}
	return m
}

// sub replaces a sum of digits by the number it spells.
func (w *Worker) sub(t *Term) *Term {
	if t.op == OpLin && w.path != nil && len(w.path.subst) > 0 {
		if u, ok := w.path.subst[t]; ok {
			return u
		}
		for _, d := range w.path.defs {
			t = w.foldDigits(t, d)
		}
	}
	return t
}

// foldDigits replaces a multiple of all digits of a number inside a sum by that multiple of the number.
func (w *Worker) foldDigits(t *Term, d *digDef) *Term {
	if t.op != OpLin || len(t.args) < len(d.vars) {
		return t
	}
	n := len(d.vars)
	coef := func(v int32) uint64 {
		x := w.path.vars[v]
		for i, a := range t.args {
			if a == x || a.op == OpZExt && a.args[0] == x {
				return t.coefs[i]
			}
		}
		return 0
	}
	c := coef(d.vars[n-1])
	if c == 0 {
		return t
	}
	m := mask(t.w)
	for i, v := range d.vars {
		if coef(v) != c*pow10[n-1-i]&m {
			return t
		}
	}
	tb := w.tb
	diff := tb.Sub(tb.Extract(d.u, 0, t.w), tb.Extract(d.sum, 0, t.w))
	return tb.Add(t, tb.Mul(diff, tb.Const(t.w, c)))
}

func (w *Worker) addCon(t *Term) {
	p := w.path
	if t.isConst() {
		return
	}
	if len(t.vars) > 1 || t.w != 0 || !w.isUnary8(t) {
		p.known[t] = true
	}
	w.noteRange(t)
	if t.op == OpAnd {
		for _, a := range t.args {
			w.addCon(a)
		}
		return
	}
	if w.isUnary8(t) {
		ts := w.tb.truthSet(t, p.scratch)
		d := *p.dom[t.vars[0]]
		for i := range d {
			d[i] &= ts[i]
		}
		if d != *p.dom[t.vars[0]] {
			w.activate(t)
			d = *p.dom[t.vars[0]]
			for i := range d {
				d[i] &= ts[i]
			}
		}
		p.dom[t.vars[0]] = &d
		return
	}
	w.activate(t)
	var root int32 = -1
	for _, v := range t.vars {
		r := p.find(v)
		if root < 0 {
			root = r
			if p.members[r] == nil {
				p.members[r] = []int32{r}
			}
			continue
		}
		if r != root {
			if p.members[r] == nil {
				p.members[r] = []int32{r}
			}
			p.parent[r] = root
			p.cons[root] = append(p.cons[root], p.cons[r]...)
			p.members[root] = append(p.members[root], p.members[r]...)
			delete(p.cons, r)
			delete(p.members, r)
		}
	}
	p.cons[root] = append(p.cons[root], t)
}

func (w *Worker) grouped(v int32) bool {
	p := w.path
	return len(p.cons[p.find(v)]) > 0
}

// feasible decides whether the path condition together with t is satisfiable,
// returning a model.
func (w *Worker) feasible(t *Term) (SatResult, []uint64) {
	p := w.path
	if t.isConst() {
		if t.k != 0 {
			return Sat, p.model
		}
		return Unsat, nil
	}
	if w.isUnary8(t) {
		v := t.vars[0]
		ts := w.tb.truthSet(t, p.scratch)
		d := p.dom[v]
		first := -1
		for i := 0; i < 4 && first < 0; i++ {
			if x := d[i] & ts[i]; x != 0 {
				for j := 0; j < 64; j++ {
					if x>>j&1 == 1 {
						first = i*64 + j
						break
					}
				}
			}
		}
		if first < 0 {
			w.st.domUnsat++
			return Unsat, nil
		}
		covers := true
		for i := range d {
			if d[i]&^ts[i] != 0 {
				covers = false
			}
		}
		if covers {
			return Sat, p.model
		}
		if !w.grouped(v) && !w.inactiveDigit(v) {
			w.st.domSat++
			m := append([]uint64(nil), p.model...)
			m[v] = uint64(first)
			return Sat, w.fixDefs(m)
		}
	} else if t.op == OpAnd {
		// independent unary conjuncts
		ok := true
		seen := map[int32]bool{}
		for _, a := range t.args {
			if !w.isUnary8(a) || seen[a.vars[0]] || w.grouped(a.vars[0]) || w.inactiveDigit(a.vars[0]) {
				ok = false
				break
			}
			seen[a.vars[0]] = true
		}
		if ok {
			m := p.model
			for _, a := range t.args {
				save := p.model
				p.model = m
				r, m2 := w.feasible(a)
				p.model = save
				if r != Sat {
					return r, nil
				}
				m = m2
			}
			return Sat, m
		}
	}
	return w.solve(t)
}

// solve asks the SMT solver about PC and t (with constraint slicing).
func (w *Worker) solve(t *Term) (SatResult, []uint64) {
	p := w.path
	if v, ok := w.knownCon(t); ok {
		if v {
			return Sat, p.model
		}
		return Unsat, nil
	}
	if v, ok := w.implied(t); ok {
		w.st.intervals++
		if v {
			return Sat, p.model
		}
		return Unsat, nil
	}
	w.activate(t)
	roots := map[int32]bool{}
	var conds []*Term
	var doms []domCon
	var want []*Term
	addVar := func(v int32) {
		want = append(want, p.vars[v])
		if p.dom[v] != nil {
			doms = append(doms, domCon{p.vars[v], p.dom[v]})
		}
	}
	for _, v := range t.vars {
		r := p.find(v)
		if roots[r] {
			continue
		}
		roots[r] = true
		conds = append(conds, p.cons[r]...)
		if ms := p.members[r]; ms != nil {
			for _, x := range ms {
				addVar(x)
			}
		} else {
			addVar(r)
		}
	}
	conds = append(conds, t)
	t0 := time.Now()
	res, vals := w.sol.Check(conds, doms, want)
	if d := time.Since(t0); slowMS > 0 && d > time.Duration(slowMS)*time.Millisecond {
		w.logSlow(t, conds, res, d)
	}
	if res != Sat {
		return res, nil
	}
	m := append([]uint64(nil), p.model...)
	for k, v := range vals {
		m[k] = v
	}
	return Sat, w.fixDefs(m)
}

// lookup finds t or its negation among the path constraints.
func (w *Worker) knownCon(t *Term) (bool, bool) {
	if w.path.known[t] {
		return true, true
	}
	if w.path.known[w.tb.Not(t)] {
		return false, true
	}
	if t.op == OpNot && t.args[0].op == OpAnd {
		all := true
		for _, a := range t.args[0].args {
			if !w.path.known[a] {
				all = false
				break
			}
		}
		if all {
			return false, true
		}
	}
	return false, false
}

func (w *Worker) push(d Dec, model []uint64) {
	p := w.path
	pre := make([]Dec, len(p.decs)+1)
	copy(pre, p.decs)
	pre[len(p.decs)] = d
	if len(model) > len(p.vars) {
		model = model[:len(p.vars)]
	}
	w.eng.pushItem(&Item{h: p.item.h, prefix: pre, model: append([]uint64(nil), model...)})
	p.spawned++
}

// decide resolves a boolean term to a concrete truth value, forking if both are possible.
func (w *Worker) decide(t *Term) bool {
	if t.isConst() {
		return t.k != 0
	}
	p := w.path
	if p == nil {
		panic("engine: symbolic decision outside a path")
	}
	if p.pos < len(p.item.prefix) {
		d := p.item.prefix[p.pos]
		p.pos++
		p.decs = append(p.decs, d)
		if !d.forced {
			if d.taken {
				w.addCon(t)
			} else {
				w.addCon(w.tb.Not(t))
			}
		} else if !w.isUnary8(t) {
			if d.taken {
				w.noteRange(t)
			} else {
				w.noteRange(w.tb.Not(t))
			}
		}
		return d.taken
	}
	p.pos++
	cur := w.tb.Eval(t, p.model) != 0
	side, other := t, w.tb.Not(t)
	if !cur {
		side, other = other, side
	}
	r, m := w.feasible(other)
	switch r {
	case Sat:
		w.push(Dec{taken: !cur}, m)
		p.decs = append(p.decs, Dec{taken: cur})
		w.addCon(side)
	case Unsat:
		p.decs = append(p.decs, Dec{taken: cur, forced: true})
		if !w.isUnary8(t) {
			w.noteRange(side)
		}
	default:
		w.eng.noteUnknown(p.item.h)
		p.decs = append(p.decs, Dec{taken: cur})
		w.addCon(side)
	}
	return cur
}

// concretize picks a value for a symbolic scalar, forking over all others.
func (w *Worker) concretize(t *Term) uint64 {
	if t.isConst() {
		return t.k
	}
	p := w.path
	for n := 0; ; n++ {
		var val uint64
		var d Dec
		if p.pos < len(p.item.prefix) {
			d = p.item.prefix[p.pos]
			p.pos++
			val = d.val
			p.decs = append(p.decs, d)
			eq := w.tb.Eq(t, w.tb.Const(t.w, val))
			if d.taken {
				if !d.forced {
					w.addCon(eq)
				}
				return val
			}
			w.addCon(w.tb.Not(eq))
			continue
		}
		p.pos++
		val = w.tb.Eval(t, p.model)
		eq := w.tb.Eq(t, w.tb.Const(t.w, val))
		r, m := w.feasible(w.tb.Not(eq))
		switch r {
		case Sat:
			if n > w.eng.cfg.ConcLimit {
				w.eng.noteTrunc(p.item.h, "concretisation limit")
			} else {
				w.push(Dec{taken: false, val: val}, m)
			}
			p.decs = append(p.decs, Dec{taken: true, val: val})
			w.addCon(eq)
		case Unsat:
			p.decs = append(p.decs, Dec{taken: true, forced: true, val: val})
		default:
			w.eng.noteUnknown(p.item.h)
			p.decs = append(p.decs, Dec{taken: true, val: val})
			w.addCon(eq)
		}
		return val
	}
}

// choose forks over 0..n-1.
func (w *Worker) choose(n int) int {
	if n <= 1 {
		return 0
	}
	p := w.path
	if p.pos < len(p.item.prefix) {
		d := p.item.prefix[p.pos]
		p.pos++
		p.decs = append(p.decs, d)
		return int(d.val)
	}
	p.pos++
	for i := n - 1; i >= 1; i-- {
		w.push(Dec{taken: true, val: uint64(i)}, p.model)
	}
	p.decs = append(p.decs, Dec{taken: true, val: 0})
	return 0
}

// assume constrains the path.
func (w *Worker) assume(t *Term) {
	if t.isConst() {
		if t.k == 0 {
			w.stop(stopAssume, "")
		}
		return
	}
	p := w.path
	if p.pos < len(p.item.prefix) {
		d := p.item.prefix[p.pos]
		p.pos++
		p.decs = append(p.decs, d)
		if !d.forced {
			w.addCon(t)
		}
		return
	}
	if w.tb.Eval(t, p.model) != 0 {
		p.pos++
		p.decs = append(p.decs, Dec{taken: true})
		w.addCon(t)
		return
	}
	r, m := w.feasible(t)
	if r != Sat {
		if r == Unknown {
			w.eng.noteUnknown(p.item.h)
		}
		w.stop(stopAssume, "")
	}
	p.pos++
	p.model = m
	p.decs = append(p.decs, Dec{taken: true})
	w.addCon(t)
}

// assert decides PC => t with the solver.
func (w *Worker) assert(t *Term, msg string) {
	p := w.path
	if p.pos < len(p.item.prefix) {
		// decided when the prefix was first executed
		if !t.isConst() {
			d := p.item.prefix[p.pos]
			p.pos++
			p.decs = append(p.decs, d)
			w.addCon(t)
		}
		return
	}
	p.nAssert++
	if t.isConst() {
		if t.k == 0 {
			w.violation(msg)
		}
		w.st.assertTrivial++
		return
	}
	w.st.assertSolver++
	r, m := w.solve(w.tb.Not(t))
	switch r {
	case Sat:
		panic(&stopPath{kind: stopViolation, msg: msg, model: m, cond: w.tb.Not(t)})
	case Unknown:
		w.eng.noteUnknown(p.item.h)
		if m := w.extremes(w.tb.Not(t)); m != nil {
			panic(&stopPath{kind: stopViolation, msg: msg, model: m, cond: w.tb.Not(t)})
		}
	}
	p.pos++
	p.decs = append(p.decs, Dec{taken: true, forced: true})
	if w.tb.Eval(t, p.model) == 0 { // unknown result and model violates it
		panic(&stopPath{kind: stopViolation, msg: msg, model: append([]uint64(nil), p.model...), cond: w.tb.Not(t)})
	}
	w.addCon(t)
}

// extremes looks for a model of t in which an input has an extreme value, when t itself is too hard.
func (w *Worker) extremes(t *Term) []uint64 {
	p := w.path
	if atomic.LoadInt64(&p.item.h.unknown) > 40 {
		return nil
	}
	n := 0
	for _, v := range t.vars {
		x := p.vars[v]
		if x.w < 16 || n == 3 {
			continue
		}
		n++
		top := uint64(1) << (x.w - 1)
		for _, c := range []uint64{top, top - 1, top | (top - 1), 0, 10, 1000} {
			e := w.tb.Eq(x, w.tb.Const(x.w, c))
			if e.isConst() {
				continue
			}
			if r, m := w.solve(w.tb.And(t, e)); r == Sat && w.tb.Eval(t, m) != 0 {
				return m
			}
		}
	}
	return nil
}

// ---- engine-wide queue

type wstats struct {
	domSat, domUnsat            int64
	assertTrivial, assertSolver int64
	paths                       int64
	intervals                   int64
	steps                       int64
}

func (e *Engine) pushItem(it *Item) {
	e.mu.Lock()
	it.h.stack = append(it.h.stack, it)
	e.mu.Unlock()
	e.cond.Signal()
}

// popItem picks from the harness that has used the least time so far,
// mostly depth first, sometimes the oldest pending alternative.
func (e *Engine) popItem() *Item {
	e.mu.Lock()
	defer e.mu.Unlock()
	for {
		if e.stopped.Load() {
			return nil
		}
		var best *HarnessRun
		for _, h := range e.runs {
			if len(h.stack) == 0 {
				continue
			}
			if best == nil || h.cost() < best.cost() {
				best = h
			}
		}
		if best != nil {
			n := len(best.stack)
			k := n - 1
			e.seq++
			if e.seq%4 == 0 && n > 1 {
				e.rng = e.rng*6364136223846793005 + 1442695040888963407
				k = int(e.rng>>33) % n
			}
			it := best.stack[k]
			copy(best.stack[k:], best.stack[k+1:])
			best.stack[n-1] = nil
			best.stack = best.stack[:n-1]
			best.running++
			e.busy++
			return it
		}
		if e.busy == 0 {
			e.cond.Broadcast()
			return nil
		}
		e.cond.Wait()
	}
}

func (e *Engine) doneItem(it *Item) {
	e.mu.Lock()
	e.busy--
	it.h.running--
	empty := true
	for _, h := range e.runs {
		if len(h.stack) > 0 {
			empty = false
			break
		}
	}
	if e.busy == 0 && empty {
		e.cond.Broadcast()
	}
	e.mu.Unlock()
}

func (e *Engine) noteUnknown(h *HarnessRun) { atomic.AddInt64(&h.unknown, 1) }
func (e *Engine) noteTrunc(h *HarnessRun, why string) {
	h.mu.Lock()
	h.trunc[why]++
	h.mu.Unlock()
}

// HarnessRun accumulates results for one harness.
type HarnessRun struct {
	name      string
	mu        sync.Mutex
	ends      [8]int64
	unsup     map[string]int64
	trunc     map[string]int64
	covers    map[string]int64
	unknown   int64
	asserts   int64
	samples   []*PathOut
	cut       []*PathOut // cut off by something unsupported or a bound
	nOut      int
	t0        time.Time
	maxDec    int
	fn        *ssa.Function
	prop      string
	stack     []*Item
	running   int
	spent     atomic.Int64
	weight    float64
	sampleCap int
	rng       uint64
	stepsOK   bool
	cands     int
	confirmed int
	unconf    []string
}

func (h *HarnessRun) addTime(d time.Duration) { h.spent.Add(int64(d)) }
func (h *HarnessRun) cost() float64 {
	return (float64(h.spent.Load()) + float64(h.running)*2e6) / h.weight
}

// PathOut describes one completed path for native replay.
type PathOut struct {
	Harness string     `json:"h"`
	Inputs  []InputRec `json:"in"`
	Obs     []string   `json:"obs,omitempty"`
	End     string     `json:"end"`
	Msg     string     `json:"msg,omitempty"`
	Tok     bool       `json:"tok,omitempty"`
}

func (p *Path) inputsUnder(tb *TB, model []uint64) []InputRec {
	out := make([]InputRec, len(p.inputs))
	for i, r := range p.inputs {
		if r.t != nil {
			r.Val = tb.Eval(r.t, model)
			r.t = nil
		}
		out[i] = r
	}
	return out
}

var _ = fmt.Sprint

var slowMS, _ = strconv.Atoi(os.Getenv("GOSYM_SLOW"))

// logSlow reports an expensive query (GOSYM_SLOW=milliseconds).
func (w *Worker) logSlow(t *Term, conds []*Term, res SatResult, d time.Duration) {
	n := 0
	for _, c := range conds {
		n += c.size(map[*Term]bool{})
	}
	fmt.Fprintf(os.Stderr, "slow %v %v conds=%d nodes=%d t=%s at %s path=%v inputs=%s\n", d, res, len(conds), n, t.short(4), w.where(w.cur), len(w.path.decs), inputsText(w.path.inputsUnder(w.tb, w.path.model)))
}

func (t *Term) size(seen map[*Term]bool) int {
	if seen[t] {
		return 0
	}
	seen[t] = true
	n := 1
	for _, a := range t.args {
		n += a.size(seen)
	}
	return n
}

func (t *Term) short(d int) string {
	if t.op == OpConst {
		return fmt.Sprint(t.k)
	}
	if t.op == OpVar {
		return fmt.Sprintf("v%d", t.k)
	}
	if d == 0 {
		return "..."
	}
	s := "(" + fmt.Sprint(opNames[t.op])
	if opNames[t.op] == "" {
		s = fmt.Sprintf("(op%d", t.op)
	}
	for _, a := range t.args {
		s += " " + a.short(d-1)
	}
	return s + ")"
}
