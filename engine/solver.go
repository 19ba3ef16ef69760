package main

// SMT solver back end: one z3 process per worker, driven over SMT-LIB2.

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

type SatResult int

const (
	Unsat SatResult = iota
	Sat
	Unknown
)

type Solver struct {
	bin      string
	args     []string
	cmd      *exec.Cmd
	in       *bufio.Writer
	inc      io.WriteCloser
	out      *bufio.Reader
	epoch    uint32 // definition epoch
	ndef     int
	declVar  map[string]bool
	timeout  int       // ms
	deadline time.Time // no query after this, running ones are killed

	Queries int
	NSat    int
	NUnsat  int
	NUnk    int
	Time    time.Duration
	Errors  int
	LastErr string
}

func newSolver(timeoutMS int) *Solver {
	bin := os.Getenv("VERIF_Z3")
	if bin == "" {
		for _, b := range []string{"z3-new", "z3"} {
			if p, err := exec.LookPath(b); err == nil {
				bin = p
				break
			}
		}
	}
	s := &Solver{bin: bin, args: []string{"-in"}, timeout: timeoutMS}
	return s
}

func (s *Solver) start() error {
	s.stop()
	s.cmd = exec.Command(s.bin, s.args...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.inc = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.epoch = nextSolverEpoch()
	s.ndef = 0
	s.declVar = map[string]bool{}
	fmt.Fprintf(s.in, "(set-option :print-success false)\n(set-option :produce-models true)\n(set-option :timeout %d)\n(set-logic ALL)\n", s.timeout)
	return nil
}

func (s *Solver) stop() {
	if s.cmd != nil {
		s.inc.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func sortStr(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return "(_ BitVec " + strconv.Itoa(int(w)) + ")"
}

func constStr(t *Term) string {
	if t.w == 0 {
		if t.k != 0 {
			return "true"
		}
		return "false"
	}
	return "(_ bv" + strconv.FormatUint(t.k, 10) + " " + strconv.Itoa(int(t.w)) + ")"
}

func varName(t *Term) string { return fmt.Sprintf("v%d_%d", t.k, t.w) }

// ref returns the SMT name of t, emitting declarations and definitions as needed.
func (s *Solver) ref(t *Term) string {
	switch t.op {
	case OpConst:
		return constStr(t)
	case OpVar:
		n := varName(t)
		if !s.declVar[n] {
			s.declVar[n] = true
			fmt.Fprintf(s.in, "(declare-const %s %s)\n", n, sortStr(t.w))
		}
		return n
	}
	name := "t" + strconv.Itoa(int(t.id))
	if t.def == s.epoch {
		return name
	}
	refs := make([]string, len(t.args))
	for i, a := range t.args {
		refs[i] = s.ref(a)
	}
	var b strings.Builder
	switch t.op {
	case OpLin:
		b.WriteString("(bvadd")
		n := 0
		if t.k != 0 {
			b.WriteString(" " + constStr(&Term{op: OpConst, w: t.w, k: t.k}))
			n++
		}
		for i, r := range refs {
			c := t.coefs[i]
			n++
			if c == 1 {
				b.WriteString(" " + r)
			} else if c == mask(t.w) {
				b.WriteString(" (bvneg " + r + ")")
			} else {
				b.WriteString(" (bvmul " + constStr(&Term{op: OpConst, w: t.w, k: c}) + " " + r + ")")
			}
		}
		if n == 1 { // bvadd needs two operands
			b.WriteString(" " + constStr(&Term{op: OpConst, w: t.w, k: 0}))
		}
		b.WriteString(")")
	case OpZExt, OpSExt:
		n := "zero_extend"
		if t.op == OpSExt {
			n = "sign_extend"
		}
		fmt.Fprintf(&b, "((_ %s %d) %s)", n, t.w-t.args[0].w, refs[0])
	case OpExtract:
		fmt.Fprintf(&b, "((_ extract %d %d) %s)", int(t.k)+int(t.w)-1, t.k, refs[0])
	case OpF32to64:
		fmt.Fprintf(&b, "(fp.to_ieee_bv ((_ to_fp 11 53) RNE ((_ to_fp 8 24) %s)))", refs[0])
	case OpF64to32:
		fmt.Fprintf(&b, "(fp.to_ieee_bv ((_ to_fp 8 24) RNE ((_ to_fp 11 53) %s)))", refs[0])
	case OpSToF, OpUToF:
		sfx := ""
		if t.op == OpUToF {
			sfx = "_unsigned"
		}
		fmt.Fprintf(&b, "(fp.to_ieee_bv ((_ to_fp%s %s) RNE %s))", sfx, fpSort(t.w), refs[0])
	case OpFToS:
		fmt.Fprintf(&b, "((_ fp.to_sbv %d) RTZ ((_ to_fp %s) %s))", t.w, fpSort(t.args[0].w), refs[0])
	case OpFToU:
		fmt.Fprintf(&b, "((_ fp.to_ubv %d) RTZ ((_ to_fp %s) %s))", t.w, fpSort(t.args[0].w), refs[0])
	case OpFAdd, OpFSub, OpFMul, OpFDiv:
		n := map[Op]string{OpFAdd: "fp.add", OpFSub: "fp.sub", OpFMul: "fp.mul", OpFDiv: "fp.div"}[t.op]
		fmt.Fprintf(&b, "(fp.to_ieee_bv (%s RNE ((_ to_fp %s) %s) ((_ to_fp %s) %s)))", n, fpSort(t.w), refs[0], fpSort(t.w), refs[1])
	default:
		b.WriteString("(" + opNames[t.op])
		for _, r := range refs {
			b.WriteString(" " + r)
		}
		b.WriteString(")")
	}
	fmt.Fprintf(s.in, "(define-fun %s () %s %s)\n", name, sortStr(t.w), b.String())
	t.def = s.epoch
	s.ndef++
	return name
}

func fpSort(w uint8) string {
	if w == 32 {
		return "8 24"
	}
	return "11 53"
}

// Check decides the conjunction of conds (terms) and doms (raw SMT assertions over variables),
// returning values for the variables in want on sat.
func (s *Solver) Check(conds []*Term, doms []domCon, want []*Term) (SatResult, map[uint64]uint64) {
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0) }()
	s.Queries++
	limit := time.Duration(s.timeout)*time.Millisecond + 2*time.Second
	if !s.deadline.IsZero() {
		left := time.Until(s.deadline)
		if left <= 0 {
			s.NUnk++
			return Unknown, nil
		}
		limit = min(limit, left)
	}
	for attempt := 0; attempt < 2; attempt++ {
		if s.cmd == nil || s.ndef > 40000 {
			if err := s.start(); err != nil {
				s.LastErr = err.Error()
				s.Errors++
				s.NUnk++
				return Unknown, nil
			}
		}
		cmd := s.cmd
		var killed atomic.Bool
		watch := time.AfterFunc(limit, func() {
			killed.Store(true)
			cmd.Process.Kill()
		})
		r, m, err := s.check1(conds, doms, want)
		watch.Stop()
		if killed.Load() {
			s.stop()
			s.NUnk++
			return Unknown, nil
		}
		if err == nil {
			switch r {
			case Sat:
				s.NSat++
			case Unsat:
				s.NUnsat++
			default:
				s.NUnk++
			}
			return r, m
		}
		s.LastErr = err.Error()
		s.Errors++
		s.stop()
	}
	s.NUnk++
	return Unknown, nil
}

type domCon struct {
	v *Term
	d *[4]uint64
}

func (s *Solver) check1(conds []*Term, doms []domCon, want []*Term) (SatResult, map[uint64]uint64, error) {
	names := make([]string, 0, len(conds)+len(doms))
	for _, c := range conds {
		names = append(names, s.ref(c))
	}
	for _, d := range doms {
		n := s.ref(d.v)
		var rs []string
		cnt := 0
		for i := 0; i < 256; {
			if d.d[i>>6]>>(i&63)&1 == 0 {
				i++
				continue
			}
			j := i
			for j+1 < 256 && d.d[(j+1)>>6]>>((j+1)&63)&1 == 1 {
				j++
			}
			cnt += j - i + 1
			if i == j {
				rs = append(rs, fmt.Sprintf("(= %s (_ bv%d 8))", n, i))
			} else {
				rs = append(rs, fmt.Sprintf("(and (bvule (_ bv%d 8) %s) (bvule %s (_ bv%d 8)))", i, n, n, j))
			}
			i = j + 1
		}
		if cnt == 256 {
			continue
		}
		if len(rs) == 0 {
			names = append(names, "false")
		} else if len(rs) == 1 {
			names = append(names, rs[0])
		} else {
			names = append(names, "(or "+strings.Join(rs, " ")+")")
		}
	}
	for _, v := range want {
		s.ref(v)
	}
	s.in.WriteString("(push 1)\n")
	for _, n := range names {
		s.in.WriteString("(assert " + n + ")\n")
	}
	s.in.WriteString("(check-sat)\n")
	if err := s.in.Flush(); err != nil {
		return Unknown, nil, err
	}
	line, err := s.readLine()
	if err != nil {
		return Unknown, nil, err
	}
	var res SatResult
	var model map[uint64]uint64
	switch line {
	case "sat":
		res = Sat
		if len(want) > 0 {
			s.in.WriteString("(get-value (")
			for _, v := range want {
				s.in.WriteString(varName(v) + " ")
			}
			s.in.WriteString("))\n")
			if err := s.in.Flush(); err != nil {
				return Unknown, nil, err
			}
			txt, err := s.readSexp()
			if err != nil {
				return Unknown, nil, err
			}
			model, err = parseModel(txt, want)
			if err != nil {
				return Unknown, nil, err
			}
		} else {
			model = map[uint64]uint64{}
		}
	case "unsat":
		res = Unsat
	case "unknown", "timeout":
		res = Unknown
	default:
		return Unknown, nil, fmt.Errorf("solver said %q", line)
	}
	s.in.WriteString("(pop 1)\n")
	return res, model, nil
}

func (s *Solver) readLine() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l, nil
		}
	}
}

func (s *Solver) readSexp() (string, error) {
	depth := 0
	var b strings.Builder
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			return "", err
		}
		if c == '(' {
			depth++
		}
		if depth > 0 {
			b.WriteByte(c)
		}
		if c == ')' {
			depth--
			if depth == 0 {
				return b.String(), nil
			}
		}
	}
}

func parseModel(txt string, want []*Term) (map[uint64]uint64, error) {
	txt = strings.NewReplacer("(", " ( ", ")", " ) ").Replace(txt)
	f := strings.Fields(txt)
	m := map[uint64]uint64{}
	if len(f) > 1 && f[1] == "error" {
		return nil, fmt.Errorf("solver: %s", txt)
	}
	i := 1
	for i < len(f)-1 {
		if f[i] != "(" {
			return nil, fmt.Errorf("bad model %q", txt)
		}
		name := f[i+1]
		val := f[i+2]
		i += 3
		var v uint64
		switch {
		case strings.HasPrefix(val, "#x"):
			x, err := strconv.ParseUint(val[2:], 16, 64)
			if err != nil {
				return nil, err
			}
			v = x
		case strings.HasPrefix(val, "#b"):
			x, err := strconv.ParseUint(val[2:], 2, 64)
			if err != nil {
				return nil, err
			}
			v = x
		case val == "true":
			v = 1
		case val == "false":
			v = 0
		case val == "(": // (_ bvN w)
			x, err := strconv.ParseUint(strings.TrimPrefix(f[i+1], "bv"), 10, 64)
			if err != nil {
				return nil, err
			}
			v = x
			for f[i] != ")" {
				i++
			}
			i++
		default:
			return nil, fmt.Errorf("bad model value %q in %q", val, txt)
		}
		if f[i] != ")" {
			return nil, fmt.Errorf("bad model %q", txt)
		}
		i++
		idx, err := strconv.ParseUint(name[1:strings.IndexByte(name, '_')], 10, 64)
		if err != nil {
			return nil, err
		}
		m[idx] = v
	}
	return m, nil
}
