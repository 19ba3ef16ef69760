package main

import (
	"fmt"
	"go/types"
	"os"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(w *Worker, args []V) V

type Config struct {
	MaxDepth  int
	MaxLen    int
	ConcLimit int
	Debug     bool
	StepLimit int64
	SolverMS  int
	Workers   int
	Preempt   int
}

type Engine struct {
	cfg       Config
	prog      *ssa.Program
	pkgs      map[string]*ssa.Package
	rtErrType *RType
	rtypePtr  *RType
	harnPath  string
	repoMod   string

	mu      sync.Mutex
	cond    *sync.Cond
	runs    []*HarnessRun
	busy    int
	stopped atomic.Bool
	workers []*Worker
	seq     int
	rng     uint64
	onViol  func(h *HarnessRun, o *PathOut, alts [][]InputRec)
	fatal   []string
}

func (e *Engine) isRepo(p string) bool {
	return p == e.repoMod || len(p) > len(e.repoMod) && p[:len(e.repoMod)+1] == e.repoMod+"/"
}

type Worker struct {
	id      int
	eng     *Engine
	tb      *TB
	sol     *Solver
	funcs   map[*ssa.Function]*Func
	globals map[*ssa.Global]*Object

	undo    []undoRec
	mapUndo []mapSave
	initing bool

	path  *Path
	cur   *G
	gs    []*G
	tail  *tailCall
	blk   func() bool
	yield bool
	mt    bool

	steps, stepLimit int64
	phiBuf           []V
	abuf             []V
	st               wstats
	methCache        map[methKey]*Closure
	implCache        map[implKey]bool
	allocLimit       int64
	mapOrders        bool
	muted            bool
	side             map[sideKey]any
	pathSeq          int
	preempts         int
	maxDepth         int
	race             bool
	pools            int // 0: undecided, 1: shared, 2: a goroutine finds only what it put
	ar0              arena
	fb               bool
	preemptLim       int
	kept             map[*ssa.Function]int64
}

type sideKey struct {
	o   *Object
	off uint64
}

func (w *Worker) pkgReady(f *Func) bool { return true }

func newWorker(e *Engine, id int) *Worker {
	w := &Worker{id: id, eng: e, tb: newTB(), sol: newSolver(e.cfg.SolverMS),
		funcs: map[*ssa.Function]*Func{}, globals: map[*ssa.Global]*Object{},
		methCache: map[methKey]*Closure{}, implCache: map[implKey]bool{}, side: map[sideKey]any{}}
	return w
}

func (w *Worker) global(g *ssa.Global) *Object {
	if o, ok := w.globals[g]; ok {
		return o
	}
	t := rtypeOf(deref(g.Type()))
	o := newObject(t.slots)
	o.base = true
	path := ""
	if g.Pkg != nil {
		path = g.Pkg.Pkg.Path()
	}
	if !w.eng.initPkg(path) && path != "internal/cpu" {
		o.tag = path + "." + g.Name()
	}
	w.globals[g] = o
	return o
}

var initList = map[string]bool{}

func init() {
	for _, p := range []string{"strconv", "unicode/utf8", "unicode/utf16", "math", "math/bits", "strings", "bytes", "errors",
		"sort", "slices", "maps", "cmp", "iter", "sync", "sync/atomic", "internal/stringslite", "internal/byteorder", "internal/itoa",
		"internal/strconv", "internal/bisect", "encoding/binary", "io", "math/rand/v2", "hash/maphash0", "container/list", "bufio"} {
		initList[p] = true
	}
}

// softList holds packages the repository does not use at present. When it does, their
// initialisers run as far as the engine can execute them; the others are left uninitialised.
var softList = map[string]bool{}

func init() {
	for _, p := range []string{"container/heap", "container/ring", "regexp", "regexp/syntax", "encoding/hex", "encoding/base64", "encoding", "math/big",
		"math/rand", "context", "encoding/json", "hash", "hash/fnv", "hash/crc32", "text/scanner", "text/tabwriter", "unique", "time", "math/cmplx",
		"encoding/base32", "encoding/ascii85", "hash/maphash", "hash/adler32", "hash/crc64", "crypto/md5", "crypto/sha1", "crypto/sha256", "html", "net/url", "path", "text/template"} {
		softList[p] = true
	}
}

// symHelper is a function of the harness API's package that stands for a library function.
func (e *Engine) symHelper(name string) *ssa.Function {
	if p := e.pkgs[symPath]; p != nil {
		return p.Func(name)
	}
	return nil
}

// probeInit finds out which of the soft packages can be initialised.
func (e *Engine) probeInit(root *ssa.Package) error {
	used := false
	for _, p := range importClosure(root) {
		if softList[p] {
			used = true
		}
	}
	for p := range softList {
		initList[p] = used
	}
	for used {
		w := newWorker(e, -1)
		err := w.initialise([]*ssa.Package{root})
		w.sol.stop()
		if err == nil {
			break
		}
		denied := ""
		for i := len(w.cur.frames) - 1; i >= 0 && denied == ""; i-- {
			if f := w.cur.frames[i].f.fn; f.Pkg != nil && softList[f.Pkg.Pkg.Path()] && initList[f.Pkg.Pkg.Path()] {
				denied = f.Pkg.Pkg.Path()
			}
		}
		if denied == "" {
			return err
		}
		if e.cfg.Debug {
			fmt.Fprintln(os.Stderr, "not initialised:", denied, err)
		}
		initList[denied] = false
	}
	return nil
}

func importClosure(root *ssa.Package) []string {
	var out []string
	seen := map[*types.Package]bool{}
	var walk func(p *types.Package)
	walk = func(p *types.Package) {
		if seen[p] {
			return
		}
		seen[p] = true
		out = append(out, p.Path())
		for _, q := range p.Imports() {
			walk(q)
		}
	}
	walk(root.Pkg)
	return out
}

func (e *Engine) initPkg(p string) bool {
	return initList[p] || e.isRepo(p) || p == e.harnPath || len(p) > len(e.harnPath) && p[:len(e.harnPath)+1] == e.harnPath+"/"
}

// initialise runs the package initialisers on the base heap.
func (w *Worker) initialise(roots []*ssa.Package) (err error) {
	w.initing = true
	w.stepLimit = 1 << 40
	w.maxDepth = w.eng.cfg.MaxDepth
	defer func() {
		w.initing = false
		if x := recover(); x != nil {
			if s, ok := x.(*stopPath); ok {
				err = fmt.Errorf("package init: %s: %s", stopNames[s.kind], s.msg)
				return
			}
			panic(x)
		}
	}()
	for _, p := range roots {
		fn := p.Func("init")
		g := &G{}
		w.cur = g
		w.enter(g, w.getFunc(fn), nil, nil, noOp).isInit = true
		for !g.done {
			w.step(g)
			if g.wait != nil {
				return fmt.Errorf("package init blocked")
			}
		}
	}
	seen := map[any]bool{}
	for _, o := range w.globals {
		markBase(V{p: o}, seen)
	}
	return nil
}

func markBase(v V, seen map[any]bool) {
	if v.p == nil {
		return
	}
	switch x := v.p.(type) {
	case *Object:
		if seen[x] {
			return
		}
		seen[x] = true
		x.base = true
		for _, e := range x.vals {
			if e.p != nil {
				markBase(e, seen)
			}
		}
	case *Slice:
		if x.obj != nil {
			markBase(V{p: x.obj}, seen)
		}
	case *SStr:
		markBase(V{p: x.obj}, seen)
	case *MapObj:
		if seen[x] {
			return
		}
		seen[x] = true
		x.base = true
		for _, e := range x.ents {
			markBase(e.k, seen)
			markBase(e.v, seen)
		}
	case *Iface:
		markBase(x.v, seen)
	case *Closure:
		if seen[x] {
			return
		}
		seen[x] = true
		for _, e := range x.free {
			markBase(e, seen)
		}
	case *Agg:
		for _, e := range x.vals {
			markBase(e, seen)
		}
	case Tuple:
		for _, e := range x {
			markBase(e, seen)
		}
	case *RV:
		markBase(x.v, seen)
		if x.o != nil {
			markBase(V{p: x.o}, seen)
		}
	}
}

func (w *Worker) restore() {
	for i := len(w.undo) - 1; i >= 0; i-- {
		u := w.undo[i]
		u.o.vals[u.i] = u.old
	}
	w.undo = w.undo[:0]
	for i := len(w.mapUndo) - 1; i >= 0; i-- {
		u := w.mapUndo[i]
		c := u.copy
		c.saved = false
		*u.m = c
	}
	w.mapUndo = w.mapUndo[:0]
	if len(w.side) > 0 {
		w.side = map[sideKey]any{}
	}
}

// runItem executes one path.
func (w *Worker) runItem(it *Item) {
	t0 := time.Now()
	if w.tb.nextID > 1500000 {
		w.tb = newTB()
		w.sol.stop()
	}
	p := newPath(it)
	w.path = p
	w.pathSeq++
	w.steps, w.stepLimit = 0, w.eng.cfg.StepLimit
	w.maxDepth = w.eng.cfg.MaxDepth
	w.allocLimit = 0
	w.mapOrders = false
	w.muted = false
	w.mt = false
	w.race = true
	w.pools = 0
	w.preempts = 0
	w.preemptLim = w.eng.cfg.Preempt
	w.fb = false
	w.blk, w.tail, w.yield = nil, nil, false
	g := &G{id: 0, ar: w.ar0}
	g.ar.ci, g.ar.off = 0, 0
	w.gs = []*G{g}
	w.cur = g
	var sp *stopPath
	func() {
		defer func() {
			if x := recover(); x != nil {
				if s, ok := x.(*stopPath); ok {
					sp = s
					return
				}
				panic(x)
			}
		}()
		w.enter(g, w.getFunc(it.h.fn), nil, nil, noOp)
		w.schedule()
		sp = &stopPath{kind: stopDone}
	}()
	w.ar0 = g.ar
	if sp.kind == stopUnsupported && w.eng.cfg.Debug {
		fmt.Fprintln(os.Stderr, "UNSUPPORTED", it.h.name, sp.msg, "at", w.where(w.cur))
	}
	if w.eng.cfg.Debug && sp.kind == stopViolation {
		fmt.Fprintln(os.Stderr, "CANDIDATE", it.h.name, sp.msg, "at", w.where(w.cur))
	}
	w.finish(it, sp)
	w.restore()
	w.path = nil
	it.h.addTime(time.Since(t0))
	w.st.paths++
	w.st.steps += w.steps
}

// finish records the outcome of a path.
func (w *Worker) finish(it *Item, sp *stopPath) {
	p := w.path
	h := it.h
	kind := sp.kind
	model := p.model
	if sp.model != nil {
		model = sp.model
	}
	var out *PathOut
	var alts [][]InputRec
	cand := kind == stopViolation || kind == stopSteps || kind == stopDepth
	if cand {
		if kind == stopSteps && h.stepsOK {
			cand = false
		}
	}
	mk := func(m []uint64) *PathOut {
		return &PathOut{Harness: h.name, Inputs: p.inputsUnder(w.tb, m), End: stopNames[kind], Msg: sp.msg, Tok: len(p.tokens) > 0 || p.opaque}
	}
	h.mu.Lock()
	h.ends[kind]++
	h.asserts += int64(p.nAssert)
	if len(p.decs) > h.maxDec {
		h.maxDec = len(p.decs)
	}
	if kind != stopAssume && kind != stopInfeasible {
		for c := range p.covers {
			h.covers[c]++
		}
	}
	if kind == stopUnsupported {
		if len(h.unsup) < 60 || h.unsup[sp.msg] > 0 {
			h.unsup[sp.msg]++
		}
	}
	if kind == stopBound {
		h.trunc[sp.msg]++
	}
	h.nOut++
	n := h.nOut
	doSample, cutOff := false, false
	if kind == stopUnsupported && h.unsup[sp.msg] <= 4 || kind == stopBound && h.trunc[sp.msg] <= 4 {
		cutOff = len(h.cut) < 40
	}
	if kind == stopDone {
		// reservoir of path models for native validation
		if len(h.samples) < h.sampleCap {
			doSample = true
		} else if h.sampleCap > 0 {
			h.rng = h.rng*6364136223846793005 + 1442695040888963407
			if int(h.rng>>33)%n < h.sampleCap {
				doSample = true
			}
		}
	}
	h.mu.Unlock()
	if cutOff {
		// the path ends early: its prefix is run natively at least
		c := mk(model)
		h.mu.Lock()
		h.cut = append(h.cut, c)
		h.mu.Unlock()
	}
	if doSample {
		out = mk(model)
		out.Obs = w.evalObs(model)
		h.mu.Lock()
		if len(h.samples) < h.sampleCap {
			h.samples = append(h.samples, out)
		} else {
			h.rng = h.rng*6364136223846793005 + 1442695040888963407
			h.samples[int(h.rng>>33)%h.sampleCap] = out
		}
		h.mu.Unlock()
	}
	if cand {
		out = mk(model)
		if kind == stopViolation {
			alts = w.alternatives(sp, model)
		}
		w.eng.onViol(h, out, alts)
	}
}

var interesting64 = []uint64{0, 1, 9, 10, 99, 100, 1 << 31, 1<<31 - 1, 1 << 32, 1<<63 - 1, 1 << 63, ^uint64(0), ^uint64(0) - 1,
	0x3ff0000000000000, 0xbff0000000000000, 0x3fb999999999999a, 0x4340000000000000, 0x4340000000000001, 0x444b1ae4d6e2ef50, 0x444b1ae4d6e2ef4f,
	0x3eb0c6f7a0b5ed8d, 0x3eb0c6f7a0b5ed8c, 0x7fefffffffffffff, 0x0000000000000001, 0x8000000000000000, 0x7ff0000000000000, 0xfff0000000000000,
	0x7ff8000000000001, 0x47efffffe0000000, 0x3810000000000000, 0x36a0000000000000, 0x4415af1d78b58c40, 0x3ff3333333333333, 0x400921fb54442d18,
	0x47f0000000000000, 0x3f1a36e2eb1c432d, 0x43e0000000000000, 0x412e848000000000}
var interesting32 = []uint64{0x3f800000, 0x3dcccccd, 0x358637bd, 0x358637bc, 0x60ad78ec, 0x60ad78eb, 0x7f7fffff, 1, 0x80000000, 0x7f800000, 0xff800000, 0x7fc00001, 0x4b800000, 0x3f9d70a4}

// alternatives produces further models of the same violated condition.
func (w *Worker) alternatives(sp *stopPath, model []uint64) [][]InputRec {
	p := w.path
	var out [][]InputRec
	neg := sp.cond
	if neg == nil {
		neg = w.tb.tru
	}
	n := 0
	for _, v := range p.vars {
		if v.w < 32 {
			continue
		}
		pool := interesting64
		if v.w == 32 {
			pool = interesting32
		}
		for _, k := range pool {
			if n >= 40 {
				return out
			}
			t := w.tb.And(neg, w.tb.Eq(v, w.tb.Const(v.w, k)))
			if t == w.tb.fls {
				continue
			}
			r, m := w.feasibleAll(t)
			n++
			if r == Sat {
				out = append(out, p.inputsUnder(w.tb, m))
			}
		}
	}
	return out
}

func (w *Worker) feasibleAll(t *Term) (SatResult, []uint64) {
	if t.isConst() {
		if t.k != 0 {
			return Sat, w.path.model
		}
		return Unsat, nil
	}
	return w.solve(t)
}

// ---- main exploration loop

func (e *Engine) run(deadline time.Time) {
	var wg sync.WaitGroup
	for _, w := range e.workers {
		w.sol.deadline = deadline.Add(2 * time.Second)
	}
	timer := time.AfterFunc(time.Until(deadline), func() {
		e.stopped.Store(true)
		e.mu.Lock()
		e.cond.Broadcast()
		e.mu.Unlock()
	})
	defer timer.Stop()
	for _, w := range e.workers {
		wg.Add(1)
		go func(w *Worker) {
			defer wg.Done()
			defer w.sol.stop()
			for {
				it := e.popItem()
				if it == nil {
					return
				}
				w.runItem(it)
				e.doneItem(it)
			}
		}(w)
	}
	wg.Wait()
}

func (e *Engine) namedType(pkg, name string) *RType {
	p := e.pkgs[pkg]
	if p == nil {
		return nil
	}
	o := p.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return rtypeOf(o.Type())
}

func (e *Engine) namedPtr(pkg, name string) *RType {
	t := e.namedType(pkg, name)
	if t == nil {
		return nil
	}
	return rtypeOf(types.NewPointer(t.T))
}
