package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const goRoot = "/opt/veriftools/go1.26.10"

func goEnv() []string {
	var env []string
	for _, e := range os.Environ() {
		k := e[:strings.IndexByte(e, '=')]
		switch k {
		case "GOFLAGS", "GOPROXY", "GOTOOLCHAIN", "GOWORK", "GOROOT", "PATH", "GOSUMDB", "GO111MODULE":
			continue
		}
		env = append(env, e)
	}
	home := os.Getenv("HOME")
	if home == "" {
		home = "/root"
		env = append(env, "HOME=/root")
	}
	return append(env, "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "GOSUMDB=off",
		"PATH="+goRoot+"/bin:"+os.Getenv("PATH"))
}

func fatalf(f string, a ...any) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(2)
}

func loadProgram(dir string) (*ssa.Program, *ssa.Package, []*ssa.Package, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Env: goEnv()}
	pkgs, err := packages.Load(cfg, "./h")
	if err != nil {
		return nil, nil, nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, nil, nil, fmt.Errorf("load errors: %s", strings.Join(errs, "; "))
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	return prog, spkgs[0], prog.AllPackages(), nil
}

func newEngine(prog *ssa.Program, hp *ssa.Package, all []*ssa.Package, cfg Config) (*Engine, error) {
	e := &Engine{cfg: cfg, prog: prog, pkgs: map[string]*ssa.Package{}, harnPath: "verif/harness", repoMod: "github.com/trim21/go-phpserialize"}
	e.cond = sync.NewCond(&e.mu)
	theEngine = e
	for _, p := range all {
		e.pkgs[p.Pkg.Path()] = p
	}
	e.rng = uint64(seed())*2654435761 + 12345
	// runtime.errorString-like type used for runtime panics
	es := e.pkgs["errors"].Pkg.Scope().Lookup("errorString").Type()
	e.rtErrType = rtypeOf(types.Typ[types.String])
	if rt := e.namedType("runtime", "errorString"); rt != nil {
		e.rtErrType = rt
	}
	_ = es
	e.rtypePtr = e.namedPtr("reflect", "rtype")
	if e.rtypePtr == nil {
		return nil, fmt.Errorf("reflect.rtype not found")
	}
	return e, nil
}

func seed() int64 {
	var s int64 = 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &s)
	return s
}

type options struct {
	root, repo, prop, tier, only string
	secs                         float64
	debug, noreplay              bool
	keep                         string
	workers                      int
	list                         bool
	samples                      int
}

func main() {
	os.Setenv("PATH", goRoot+"/bin:"+os.Getenv("PATH"))
	if len(os.Args) < 2 {
		fatalf("usage: gosym check|replay|list ...")
	}
	var o options
	fs := flag.NewFlagSet("gosym", flag.ExitOnError)
	fs.StringVar(&o.root, "root", "/verif", "")
	fs.StringVar(&o.prop, "prop", "", "property id")
	fs.StringVar(&o.tier, "tier", "", "quick or thorough")
	fs.StringVar(&o.only, "only", "", "regexp of harness names")
	fs.Float64Var(&o.secs, "time", 0, "exploration seconds")
	fs.BoolVar(&o.debug, "debug", false, "")
	fs.BoolVar(&o.noreplay, "noreplay", false, "")
	fs.IntVar(&o.workers, "workers", 0, "")
	fs.IntVar(&o.samples, "samples", 0, "")
	fs.Parse(os.Args[2:])
	switch os.Args[1] {
	case "check":
		os.Exit(check(&o))
	case "replay":
		os.Exit(replayFile(&o, fs.Arg(0)))
	}
	fatalf("unknown command %s", os.Args[1])
}

func harnessFuncs(hp *ssa.Package, prop, only string) []*ssa.Function {
	var re *regexp.Regexp
	if only != "" {
		re = regexp.MustCompile(only)
	}
	var out []*ssa.Function
	for n, m := range hp.Members {
		f, ok := m.(*ssa.Function)
		if !ok || !strings.HasPrefix(n, "H_") {
			continue
		}
		if prop != "" && !strings.HasPrefix(n, "H_"+prop+"_") {
			continue
		}
		if re != nil && !re.MatchString(n) {
			continue
		}
		out = append(out, f)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	return out
}

type known struct {
	prop, harness, match, what string
}

func loadKnown(root string) []known {
	b, err := os.ReadFile(filepath.Join(root, "known_findings.txt"))
	if err != nil {
		return nil
	}
	var out []known
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known:") {
			continue
		}
		// known: property=C01 harness=H_x match="..." what fails
		var k known
		rest := strings.TrimSpace(l[len("known:"):])
		for {
			rest = strings.TrimSpace(rest)
			switch {
			case strings.HasPrefix(rest, "property="):
				k.prop, rest = cutField(rest[len("property="):])
			case strings.HasPrefix(rest, "harness="):
				k.harness, rest = cutField(rest[len("harness="):])
			case strings.HasPrefix(rest, "match="):
				k.match, rest = cutField(rest[len("match="):])
			default:
				k.what = rest
				rest = ""
			}
			if rest == "" {
				break
			}
		}
		out = append(out, k)
	}
	return out
}

func cutField(s string) (string, string) {
	if strings.HasPrefix(s, `"`) {
		if i := strings.IndexByte(s[1:], '"'); i >= 0 {
			return s[1 : 1+i], s[2+i:]
		}
	}
	if i := strings.IndexByte(s, ' '); i >= 0 {
		return s[:i], s[i:]
	}
	return s, ""
}

type violRec struct {
	h    *HarnessRun
	out  *PathOut
	res  RunResult
	path string
}

func check(o *options) int {
	t0 := time.Now()
	if o.tier == "" {
		o.tier = os.Getenv("VERIF_TIER")
	}
	if o.tier != "thorough" {
		o.tier = "quick"
	}
	if o.secs == 0 {
		o.secs = 240
		if o.tier == "thorough" {
			o.secs = 500
		}
	}
	hdir := filepath.Join(o.root, "harness")
	tmp, err := os.MkdirTemp("", "gosym")
	if err != nil {
		fatalf("%v", err)
	}
	defer os.RemoveAll(tmp)

	prog, hp, all, err := loadProgram(hdir)
	if err != nil {
		fatalf("loading: %v", err)
	}
	tLoad := time.Since(t0)
	fns := harnessFuncs(hp, o.prop, o.only)
	if len(fns) == 0 {
		fatalf("no harness for %q %q", o.prop, o.only)
	}
	rp := &Replayer{root: o.root, tmp: tmp, names: allHarnessNames(hp)}
	buildDone := make(chan error, 1)
	if !o.noreplay {
		go func() { buildDone <- rp.build(false) }()
	} else {
		buildDone <- nil
	}

	cfg := Config{MaxDepth: 20000, MaxLen: 4096, ConcLimit: 300, Debug: o.debug, StepLimit: 4000000, SolverMS: 5000, Workers: o.workers, Preempt: 2}
	if o.tier == "thorough" {
		cfg.SolverMS = 20000
		cfg.Preempt = 3
	}
	if cfg.Workers == 0 {
		cfg.Workers = runtime.NumCPU()
	}
	e, err := newEngine(prog, hp, all, cfg)
	if err != nil {
		fatalf("%v", err)
	}
	tierGlobal = o.tier
	for _, f := range fns {
		h := &HarnessRun{name: f.Name(), fn: f, prop: o.prop, unsup: map[string]int64{}, trunc: map[string]int64{}, covers: map[string]int64{}, weight: 1, sampleCap: 60, rng: uint64(seed())}
		if o.samples > 0 {
			h.sampleCap = o.samples
		}
		h.stack = []*Item{{h: h}}
		e.runs = append(e.runs, h)
	}
	if err := e.probeInit(hp); err != nil {
		fatalf("%v", err)
	}
	var wg sync.WaitGroup
	errs := make([]error, cfg.Workers)
	e.workers = make([]*Worker, cfg.Workers)
	for i := 0; i < cfg.Workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w := newWorker(e, i)
			errs[i] = w.initialise([]*ssa.Package{hp})
			e.workers[i] = w
		}()
	}
	wg.Wait()
	for _, err := range errs {
		if err != nil {
			fatalf("%v", err)
		}
	}
	if err := <-buildDone; err != nil {
		fatalf("building the native replayer: %v", err)
	}
	tInit := time.Since(t0)

	kn := loadKnown(o.root)
	var vmu sync.Mutex
	var viols []violRec
	knownHit := map[string]bool{}
	seenMsg := map[string]int{}
	e.onViol = func(h *HarnessRun, out *PathOut, alts [][]InputRec) {
		h.mu.Lock()
		h.cands++
		h.mu.Unlock()
		if o.noreplay {
			fmt.Printf("candidate %s %s %s %s\n", h.name, out.End, out.Msg, inputsText(out.Inputs))
			return
		}
		key := h.name + "|" + out.Msg
		vmu.Lock()
		seenMsg[key]++
		n := seenMsg[key]
		nv := len(viols)
		vmu.Unlock()
		if n > 40 || nv > 0 && n > 3 {
			return
		}
		res := rp.confirm(out)
		if !res.Bad() && n <= 12 {
			for _, a := range alts {
				c := *out
				c.Inputs = a
				r := rp.confirm(&c)
				if r.Bad() {
					out, res = &c, r
					break
				}
			}
		}
		if !res.Bad() {
			h.mu.Lock()
			if len(h.unconf) < 20 {
				h.unconf = append(h.unconf, out.End+": "+out.Msg+" with "+inputsText(out.Inputs)+" -> native "+res.Status)
			}
			h.mu.Unlock()
			if o.debug {
				fmt.Fprintln(os.Stderr, "UNCONFIRMED", h.name, out.Msg, inputsText(out.Inputs), res.Status, res.Msg)
			}
			return
		}
		h.mu.Lock()
		h.confirmed++
		h.mu.Unlock()
		for _, k := range kn {
			if k.prop == o.prop && (k.harness == "" || k.harness == h.name) && (k.match == "" || strings.Contains(res.Msg, k.match)) {
				vmu.Lock()
				knownHit[k.what] = true
				vmu.Unlock()
				return
			}
		}
		vmu.Lock()
		viols = append(viols, violRec{h: h, out: out, res: res})
		vmu.Unlock()
		e.stopped.Store(true)
		e.mu.Lock()
		e.cond.Broadcast()
		e.mu.Unlock()
	}
	e.run(time.Now().Add(time.Duration(o.secs * float64(time.Second))))
	tRun := time.Since(t0)

	// translation validation: replay sampled path models natively
	val := valStats{}
	if !o.noreplay && len(viols) == 0 {
		var samples []*PathOut
		for _, h := range e.runs {
			samples = append(samples, h.samples...)
		}
		full := len(samples)
		for _, h := range e.runs {
			samples = append(samples, h.cut...)
		}
		results := rp.batch(samples)
		for i, s := range samples {
			r := results[i]
			if i >= full {
				val.cut++
				if !r.Bad() {
					continue
				}
			}
			val.total++
			switch {
			case r.Status == "ok":
				if s.Tok || obsEqual(s.Obs, r.Obs) {
					val.agree++
				} else {
					val.differ++
					if len(val.notes) < 10 {
						val.notes = append(val.notes, fmt.Sprintf("%s %s engine %v native %v", s.Harness, inputsText(s.Inputs), s.Obs, r.Obs))
					}
				}
			case r.Bad():
				// a real failing run: confirm alone
				c := rp.confirm(s)
				if c.Bad() {
					isKnown := false
					for _, k := range kn {
						if k.prop == o.prop && (k.harness == "" || k.harness == s.Harness) && (k.match == "" || strings.Contains(c.Msg, k.match)) {
							knownHit[k.what] = true
							isKnown = true
						}
					}
					if !isKnown {
						viols = append(viols, violRec{out: s, res: c})
					}
				} else {
					val.differ++
				}
			default:
				val.diverged++
				if len(val.notes) < 10 {
					val.notes = append(val.notes, fmt.Sprintf("%s %s native %s %s", s.Harness, inputsText(s.Inputs), r.Status, r.Msg))
				}
			}
		}
	}
	// report
	os.MkdirAll(filepath.Join(o.root, "evidence", "replay"), 0o755)
	for i := range viols {
		v := &viols[i]
		v.path = filepath.Join(o.root, "evidence", "replay", fmt.Sprintf("%s-%d.json", o.prop, i+1))
		b, _ := json.MarshalIndent(map[string]any{"property": o.prop, "harness": v.out.Harness, "inputs": v.out.Inputs, "end": v.out.End, "message": v.out.Msg,
			"native_status": v.res.Status, "native_message": v.res.Msg, "repeat": "bin/gosym replay -root " + o.root + " " + v.path}, "", " ")
		os.WriteFile(v.path, b, 0o644)
	}
	writeEvidence(o, e, viols, val, t0, tLoad, tInit, tRun, kn)
	for _, k := range kn {
		if k.prop == o.prop {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", o.prop, k.what)
		}
	}
	summary(o, e, val, time.Since(t0))
	if len(viols) > 0 {
		for _, v := range viols {
			fmt.Printf("violated: %s: %s (native: %s %s) inputs %s\n", v.out.Harness, v.out.Msg, v.res.Status, oneLine(v.res.Msg), inputsText(v.out.Inputs))
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", o.prop, viols[0].path)
		return 1
	}
	var done, asserts int64
	for _, h := range e.runs {
		done += h.ends[stopDone]
		asserts += h.asserts
		if h.ends[stopDone] == 0 {
			fmt.Printf("%s: no path completed, nothing is claimed for it\n", h.name)
		}
	}
	if done == 0 || asserts == 0 && !mute(o.prop) {
		fmt.Printf("%s: nothing was decided\n", o.prop)
		return 2
	}
	return 0
}

// mute: properties whose harnesses need no assertion of their own (a panic is the violation).
func mute(prop string) bool { return prop == "C01" }

func oneLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	if len(s) > 300 {
		s = s[:300]
	}
	return s
}

type valStats struct {
	total, agree, differ, diverged, cut int
	notes                               []string
}

func obsEqual(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] && !strings.HasSuffix(a[i], "=?") {
			return false
		}
	}
	return true
}

// inputsText renders the inputs compactly.
func inputsText(in []InputRec) string {
	var sb strings.Builder
	for i := 0; i < len(in); {
		r := in[i]
		if sb.Len() > 0 {
			sb.WriteByte(' ')
		}
		if r.Kind == "byte" {
			j := i
			var b []byte
			for j < len(in) && in[j].Kind == "byte" && in[j].Name == r.Name {
				b = append(b, byte(in[j].Val))
				j++
			}
			fmt.Fprintf(&sb, "%s=%q", r.Name, string(b))
			i = j
			continue
		}
		if r.Kind == "i" {
			fmt.Fprintf(&sb, "%s=%d", r.Name, sext64(r.Val, r.W))
		} else if r.Kind == "f" {
			fmt.Fprintf(&sb, "%s=bits:%#x", r.Name, r.Val)
		} else {
			fmt.Fprintf(&sb, "%s=%d", r.Name, r.Val)
		}
		i++
	}
	s := sb.String()
	if len(s) > 400 {
		s = s[:400] + "..."
	}
	return s
}

var tierGlobal string

func allHarnessNames(hp *ssa.Package) []string {
	var out []string
	for _, f := range harnessFuncs(hp, "", "") {
		out = append(out, f.Name())
	}
	return out
}

func summary(o *options, e *Engine, val valStats, d time.Duration) {
	for _, h := range e.runs {
		state := "exhausted"
		if len(h.stack) > 0 {
			state = fmt.Sprintf("open=%d", len(h.stack))
		}
		fmt.Printf("  %-34s paths=%d done=%d assume=%d %s unsup=%d bound=%d asserts=%d unknown=%d cands=%d conf=%d unconf=%d t=%.1fs\n", h.name, h.nOut, h.ends[stopDone], h.ends[stopAssume], state,
			h.ends[stopUnsupported], h.ends[stopBound]+h.ends[stopSteps]+h.ends[stopDepth], h.asserts, h.unknown, h.cands, h.confirmed, len(h.unconf), float64(h.spent.Load())/1e9)
		if o.debug || os.Getenv("GOSYM_V") != "" {
			for k, v := range h.unsup {
				fmt.Printf("      unsupported %d: %s\n", v, k)
			}
			for k, v := range h.trunc {
				fmt.Printf("      truncated %d: %s\n", v, k)
			}
			for _, u := range h.unconf {
				fmt.Printf("      unconfirmed: %s\n", u)
			}
			var cs []string
			for k := range h.covers {
				cs = append(cs, k)
			}
			sort.Strings(cs)
			fmt.Printf("      covers: %v\n", cs)
		}
	}
	fmt.Printf("%s %s: validated %d/%d native replays (differ %d, diverged %d), wall %.1fs\n", o.prop, o.tier, val.agree, val.total, val.differ, val.diverged, d.Seconds())
	if o.debug || os.Getenv("GOSYM_V") != "" {
		for _, n := range val.notes {
			fmt.Println("      ", n)
		}
	}
}

func writeEvidence(o *options, e *Engine, viols []violRec, val valStats, t0 time.Time, tLoad, tInit, tRun time.Duration, kn []known) {
	var paths, steps, asserts, queries, nsat, nunsat, nunk, triv, asol, domS, domU int64
	var stime time.Duration
	funcs := map[string]int64{}
	for _, w := range e.workers {
		steps += w.st.steps
		queries += int64(w.sol.Queries)
		nsat += int64(w.sol.NSat)
		nunsat += int64(w.sol.NUnsat)
		nunk += int64(w.sol.NUnk)
		stime += w.sol.Time
		triv += w.st.assertTrivial
		asol += w.st.assertSolver
		domS += w.st.domSat
		domU += w.st.domUnsat
		for _, f := range w.funcs {
			if f.hits > 0 && f.repo {
				funcs[f.name] += f.hits
			}
		}
	}
	var fl []string
	for n := range funcs {
		fl = append(fl, n)
	}
	sort.Strings(fl)
	type hs struct {
		Name        string           `json:"harness"`
		Paths       int              `json:"paths"`
		Ends        map[string]int64 `json:"path_ends"`
		Exhausted   bool             `json:"exhausted"`
		Open        int              `json:"open_prefixes"`
		Asserts     int64            `json:"assertions"`
		Unknown     int64            `json:"solver_unknown"`
		Covers      []string         `json:"reached"`
		Unsupported map[string]int64 `json:"unsupported,omitempty"`
		Trunc       map[string]int64 `json:"truncated,omitempty"`
		Cands       int              `json:"candidates"`
		Unconf      []string         `json:"unconfirmed,omitempty"`
		MaxDec      int              `json:"max_decisions"`
	}
	var hsl []hs
	var samples []any
	exhaustive := true
	for _, h := range e.runs {
		paths += int64(h.nOut)
		asserts += h.asserts
		ends := map[string]int64{}
		for i, n := range h.ends {
			if n > 0 {
				ends[stopNames[i]] = n
			}
		}
		var cs []string
		for c := range h.covers {
			cs = append(cs, c)
		}
		sort.Strings(cs)
		ex := len(h.stack) == 0 && len(viols) == 0 && h.unknown == 0 && len(h.trunc) == 0 && h.ends[stopUnsupported] == 0
		if !ex {
			exhaustive = false
		}
		hsl = append(hsl, hs{h.name, h.nOut, ends, ex, len(h.stack), h.asserts, h.unknown, cs, h.unsup, h.trunc, h.cands, h.unconf, h.maxDec})
		for i, s := range h.samples {
			if i < 2 {
				samples = append(samples, map[string]any{"harness": s.Harness, "inputs": inputsText(s.Inputs), "observed": s.Obs})
			}
		}
	}
	if samples == nil {
		samples = []any{}
	}
	for _, v := range viols {
		samples = append(samples, map[string]any{"harness": v.out.Harness, "inputs": inputsText(v.out.Inputs), "violation": v.out.Msg, "native": v.res.Status + ": " + oneLine(v.res.Msg)})
	}
	ev := map[string]any{
		"property": o.prop, "tier": o.tier, "seed": seed(), "level": "model_checking",
		"coverage": map[string]any{
			"states": paths, "transitions": steps, "traces_validated_against_impl": val.agree, "samples": samples,
			"exhaustive":           exhaustive,
			"what_states_mean":     "states = symbolic paths through the real code (each stands for every input satisfying its path condition); transitions = SSA instructions executed symbolically",
			"harnesses":            hsl,
			"functions_encoded":    fl,
			"assertions_checked":   asserts,
			"assertions_by_solver": asol, "assertions_by_normalisation": triv,
			"smt_queries": queries, "smt_sat": nsat, "smt_unsat": nunsat, "smt_unknown": nunk, "smt_seconds": stime.Seconds(),
			"byte_domain_decisions": domS + domU,
			"native_replays":        val.total, "native_disagreements": val.differ, "native_diverged": val.diverged, "cut_off_paths_replayed": val.cut, "native_notes": val.notes,
			"bounds": map[string]any{"steps_per_path": e.cfg.StepLimit, "call_depth": e.cfg.MaxDepth, "max_elements_per_object": e.cfg.MaxLen, "solver_ms": e.cfg.SolverMS,
				"preemptions": e.cfg.Preempt, "exploration_seconds": o.secs, "input_shapes": "as constructed in /verif/harness/h (see DESIGN.md); inputs outside those shapes are outside the claim"},
			"seconds": map[string]float64{"load": tLoad.Seconds(), "init": tInit.Seconds(), "explored_until": tRun.Seconds()},
		},
		"assumptions": []string{
			"go/ssa translation of the repository source (regenerated on this run) and this engine's semantics of it; sampled path models are replayed natively to validate both",
			"modelled, not encoded: package reflect (value/type API), fmt formatting, sync primitives and atomics (sequentially consistent), strconv float text (shortest text of a symbolic float is opaque but parses back to it), unicode tables",
			"amd64 sizes; garbage collector and memory exhaustion are not modelled except declared allocation sizes",
			"every reported violation was reproduced by running the real code",
		},
		"wall_s":     time.Since(t0).Seconds(),
		"violations": len(viols),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(o.root, "evidence")
	os.MkdirAll(dir, 0o755)
	if o.prop != "" {
		os.WriteFile(filepath.Join(dir, o.prop+".json"), append(b, '\n'), 0o644)
	}
}

// ---- native replay

type Replayer struct {
	root, tmp string
	names     []string
	bin       string
	raceBin   string
	raceOnce  sync.Once
	raceErr   error
	mu        sync.Mutex
	n         int
}

type RunResult struct {
	Status string   `json:"status"` // ok assert panic crash timeout assume diverged error
	Msg    string   `json:"msg"`
	Obs    []string `json:"obs"`
}

func (r RunResult) Bad() bool {
	switch r.Status {
	case "assert", "panic", "crash", "timeout", "race":
		return true
	}
	return false
}

func (r *Replayer) build(race bool) error {
	reg := filepath.Join(r.tmp, "registry.go")
	var sb strings.Builder
	sb.WriteString("package h\n\nfunc init() {\n")
	for _, n := range r.names {
		fmt.Fprintf(&sb, "\tRegistry[%q] = %s\n", n, n)
	}
	sb.WriteString("}\n")
	os.WriteFile(reg, []byte(sb.String()), 0o644)
	ov := filepath.Join(r.tmp, "overlay.json")
	b, _ := json.Marshal(map[string]any{"Replace": map[string]string{filepath.Join(r.root, "harness", "h", "registry_gen.go"): reg}})
	os.WriteFile(ov, b, 0o644)
	out := filepath.Join(r.tmp, "replay")
	args := []string{"build", "-overlay", ov}
	if race {
		out += "-race"
		args = append(args, "-race")
	}
	args = append(args, "-o", out, "./cmd/replay")
	cmd := exec.Command(goRoot+"/bin/go", args...)
	cmd.Dir = filepath.Join(r.root, "harness")
	cmd.Env = goEnv()
	if race {
		cmd.Env = append(cmd.Env, "CGO_ENABLED=1")
	}
	if o, err := cmd.CombinedOutput(); err != nil {
		return fmt.Errorf("%v: %s", err, o)
	}
	if race {
		r.raceBin = out
	} else {
		r.bin = out
	}
	return nil
}

func (r *Replayer) run(mode string, outs []*PathOut, timeout time.Duration) ([]RunResult, string, bool) {
	r.mu.Lock()
	r.n++
	in := filepath.Join(r.tmp, fmt.Sprintf("in%d.json", r.n))
	r.mu.Unlock()
	b, _ := json.Marshal(outs)
	os.WriteFile(in, b, 0o644)
	defer os.Remove(in)
	bin := r.bin
	limit := "ulimit -v 8000000; "
	if mode == "race" || mode == "cold" {
		bin = r.raceBin
		limit = ""
	}
	cmd := exec.Command("bash", "-c", limit+"ulimit -c 0; exec timeout -s KILL "+fmt.Sprint(int(timeout.Seconds()))+" "+bin+" "+mode+" "+in)
	cmd.Dir = r.tmp
	cmd.Env = append(os.Environ(), "GOMEMLIMIT=3GiB")
	if mode == "race" || mode == "cold" {
		cmd.Env = append(cmd.Env, "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0")
	}
	var so, se limitBuf
	cmd.Stdout, cmd.Stderr = &so, &se
	err := cmd.Run()
	var res []RunResult
	for _, l := range strings.Split(string(so.b), "\n") {
		if strings.HasPrefix(l, "RESULT ") {
			var x RunResult
			if json.Unmarshal([]byte(l[7:]), &x) == nil {
				res = append(res, x)
			}
		}
	}
	killed := false
	if ee, ok := err.(*exec.ExitError); ok && (ee.ExitCode() == 137 || ee.ExitCode() == 124 || ee.ExitCode() == -1) {
		killed = true
	}
	return res, string(se.b), killed
}

type limitBuf struct{ b []byte }

func (l *limitBuf) Write(p []byte) (int, error) {
	if len(l.b) < 1<<22 {
		l.b = append(l.b, p...)
	}
	return len(p), nil
}

// confirm runs one case natively in its own process.
func (r *Replayer) confirm(o *PathOut) RunResult {
	if strings.HasPrefix(o.Harness, "H_C20_") || strings.HasPrefix(o.Harness, "H_C28_") || strings.Contains(o.Msg, "data race") {
		r.raceOnce.Do(func() { r.raceErr = r.build(true) })
		if r.raceErr == nil {
			if x, ok := r.cold(o); ok {
				return x
			}
			for i := 0; i < 2; i++ {
				res, errTxt, killed := r.run("race", []*PathOut{o}, 40*time.Second)
				if strings.Contains(errTxt, "DATA RACE") {
					return RunResult{Status: "race", Msg: raceText(errTxt)}
				}
				if len(res) == 1 && res[0].Bad() {
					return res[0]
				}
				if len(res) == 0 {
					if killed {
						return RunResult{Status: "timeout", Msg: "native stress run did not finish"}
					}
					return RunResult{Status: "crash", Msg: crashText(errTxt)}
				}
			}
		}
	}
	res, errTxt, killed := r.run("one", []*PathOut{o}, 25*time.Second)
	if len(res) == 1 {
		return res[0]
	}
	if killed {
		return RunResult{Status: "timeout", Msg: "native run did not finish in 25 s"}
	}
	return RunResult{Status: "crash", Msg: crashText(errTxt)}
}

// cold runs the case in many fresh processes: what happens on the first use of a type can only be
// seen once in each.
func (r *Replayer) cold(o *PathOut) (bad RunResult, found bool) {
	var mu sync.Mutex
	var wg sync.WaitGroup
	end := time.Now().Add(15 * time.Second)
	for range 4 {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 80 && time.Now().Before(end); i++ {
				mu.Lock()
				stop := found
				mu.Unlock()
				if stop {
					return
				}
				res, errTxt, _ := r.run("cold", []*PathOut{o}, 30*time.Second)
				x, ok := RunResult{}, false
				if strings.Contains(errTxt, "DATA RACE") {
					x, ok = RunResult{Status: "race", Msg: raceText(errTxt)}, true
				} else if len(res) == 1 && res[0].Bad() {
					x, ok = res[0], true
				}
				if ok {
					mu.Lock()
					bad, found = x, true
					mu.Unlock()
				}
			}
		}()
	}
	wg.Wait()
	return
}

func raceText(s string) string {
	i := strings.Index(s, "DATA RACE")
	s = s[i:]
	var fr []string
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "  ") && !strings.HasPrefix(l, "   ") && len(fr) < 8 {
			fr = append(fr, strings.TrimSpace(l))
		}
	}
	return "DATA RACE " + strings.Join(fr, " <- ")
}

func crashText(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "runtime: goroutine stack exceeds") {
			return l
		}
	}
	return oneLine(s)
}

// batch validates many samples; a crash is attributed to the first sample without a result.
func (r *Replayer) batch(outs []*PathOut) []RunResult {
	res := make([]RunResult, len(outs))
	for i := 0; i < len(outs); {
		got, errTxt, killed := r.run("batch", outs[i:], 120*time.Second)
		for j := range got {
			if i+j < len(outs) {
				res[i+j] = got[j]
			}
		}
		i += len(got)
		if i < len(outs) {
			if killed {
				res[i] = RunResult{Status: "timeout", Msg: "native batch killed"}
			} else {
				res[i] = RunResult{Status: "crash", Msg: crashText(errTxt)}
			}
			i++
		}
	}
	return res
}

func replayFile(o *options, path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fatalf("%v", err)
	}
	var f struct {
		Harness string     `json:"harness"`
		Inputs  []InputRec `json:"inputs"`
		Msg     string     `json:"message"`
	}
	if err := json.Unmarshal(b, &f); err != nil {
		fatalf("%v", err)
	}
	tmp, _ := os.MkdirTemp("", "gosym")
	defer os.RemoveAll(tmp)
	r := &Replayer{root: o.root, tmp: tmp, names: []string{f.Harness}}
	if err := r.build(false); err != nil {
		fatalf("%v", err)
	}
	res := r.confirm(&PathOut{Harness: f.Harness, Inputs: f.Inputs, Msg: f.Msg})
	fmt.Printf("%s: %s %s\n", f.Harness, res.Status, res.Msg)
	if res.Bad() {
		return 1
	}
	return 0
}
