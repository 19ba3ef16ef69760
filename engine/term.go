package main

// Hash-consed bit-vector / boolean terms with normalising constructors.
// Width 0 denotes the boolean sort.

import (
	"fmt"
	"math"
	"math/bits"
	"sort"
)

type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpLin // k + sum coefs[i]*args[i]
	OpMul
	OpUDiv
	OpURem
	OpSDiv
	OpSRem
	OpAndB
	OpOrB
	OpXorB
	OpShl
	OpLShr
	OpAShr
	OpZExt
	OpSExt
	OpExtract // low bit in k, width in w
	OpIte     // args: bool, a, b
	// booleans
	OpEq
	OpUlt
	OpSlt
	OpNot
	OpAnd
	OpOr
	// floats, on bit patterns
	OpF32to64
	OpF64to32
	OpSToF // signed int (args[0].w) to float of width w
	OpUToF
	OpFToS // float to signed int of width w, truncation
	OpFToU
	OpFAdd
	OpFSub
	OpFMul
	OpFDiv
)

var opNames = map[Op]string{OpMul: "bvmul", OpUDiv: "bvudiv", OpURem: "bvurem", OpSDiv: "bvsdiv", OpSRem: "bvsrem",
	OpAndB: "bvand", OpOrB: "bvor", OpXorB: "bvxor", OpShl: "bvshl", OpLShr: "bvlshr", OpAShr: "bvashr",
	OpUlt: "bvult", OpSlt: "bvslt", OpNot: "not", OpAnd: "and", OpOr: "or", OpEq: "=", OpIte: "ite"}

type Term struct {
	op    Op
	w     uint8
	k     uint64
	args  []*Term
	coefs []uint64
	id    int32
	vars  []int32 // sorted variable indexes
	bits  *[4]uint64
	// evaluation memo
	ep  uint32
	val uint64
	// solver definition epoch
	def uint32
}

func (t *Term) isConst() bool { return t.op == OpConst }

type termKey struct {
	op      Op
	w       uint8
	k       uint64
	a, b, c int32
	ext     string
}

// TB is a term builder; not safe for concurrent use.
type TB struct {
	tab    map[termKey]*Term
	nextID int32
	epoch  uint32
	tru    *Term
	fls    *Term
}

func newTB() *TB {
	tb := &TB{tab: map[termKey]*Term{}}
	tb.tru = tb.intern(OpConst, 0, 1, nil, nil)
	tb.fls = tb.intern(OpConst, 0, 0, nil, nil)
	return tb
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	if w == 0 {
		return 1
	}
	return 1<<w - 1
}

func sext64(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - uint(w)
	return int64(v<<s) >> s
}

func (tb *TB) intern(op Op, w uint8, k uint64, args []*Term, coefs []uint64) *Term {
	key := termKey{op: op, w: w, k: k, a: -1, b: -1, c: -1}
	if len(coefs) == 0 && len(args) <= 3 {
		if len(args) > 0 {
			key.a = args[0].id
		}
		if len(args) > 1 {
			key.b = args[1].id
		}
		if len(args) > 2 {
			key.c = args[2].id
		}
	} else {
		buf := make([]byte, 0, 12*len(args))
		for i, a := range args {
			id := a.id
			buf = append(buf, byte(id), byte(id>>8), byte(id>>16), byte(id>>24))
			if len(coefs) > 0 {
				c := coefs[i]
				for j := 0; j < 8; j++ {
					buf = append(buf, byte(c>>(8*j)))
				}
			}
		}
		key.ext = string(buf)
	}
	if t, ok := tb.tab[key]; ok {
		return t
	}
	t := &Term{op: op, w: w, k: k, args: args, coefs: coefs, id: tb.nextID}
	tb.nextID++
	switch {
	case op == OpVar:
		t.vars = []int32{int32(k)}
	case len(args) == 1:
		t.vars = args[0].vars
	case len(args) > 1:
		t.vars = mergeVars(args)
	}
	tb.tab[key] = t
	return t
}

func mergeVars(args []*Term) []int32 {
	var base []int32
	for _, a := range args {
		base = merge2(base, a.vars)
	}
	return base
}

func merge2(a, b []int32) []int32 {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	// subset checks to share storage
	i, j := 0, 0
	extra := false
	for i < len(a) && j < len(b) {
		if a[i] == b[j] {
			i++
			j++
		} else if a[i] < b[j] {
			i++
		} else {
			extra = true
			break
		}
	}
	if !extra && j == len(b) {
		return a
	}
	out := make([]int32, 0, len(a)+len(b))
	i, j = 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case i == len(a):
			out = append(out, b[j])
			j++
		case j == len(b):
			out = append(out, a[i])
			i++
		case a[i] == b[j]:
			out = append(out, a[i])
			i++
			j++
		case a[i] < b[j]:
			out = append(out, a[i])
			i++
		default:
			out = append(out, b[j])
			j++
		}
	}
	return out
}

func (tb *TB) Const(w uint8, k uint64) *Term { return tb.intern(OpConst, w, k&mask(w), nil, nil) }
func (tb *TB) Bool(b bool) *Term {
	if b {
		return tb.tru
	}
	return tb.fls
}
func (tb *TB) Var(idx int, w uint8) *Term { return tb.intern(OpVar, w, uint64(idx), nil, nil) }

// ---- linear forms

type lin struct {
	k  uint64
	ts []*Term
	cs []uint64
}

func (l *lin) addTerm(t *Term, c uint64, w uint8) {
	m := mask(w)
	c &= m
	if c == 0 {
		return
	}
	switch t.op {
	case OpConst:
		l.k = (l.k + c*t.k) & m
		return
	case OpLin:
		l.k = (l.k + c*t.k) & m
		for i, a := range t.args {
			l.addAtom(a, (c*t.coefs[i])&m, m)
		}
		return
	}
	l.addAtom(t, c, m)
}

func (l *lin) addAtom(t *Term, c uint64, m uint64) {
	i := sort.Search(len(l.ts), func(i int) bool { return l.ts[i].id >= t.id })
	if i < len(l.ts) && l.ts[i] == t {
		nc := (l.cs[i] + c) & m
		if nc == 0 {
			l.ts = append(l.ts[:i], l.ts[i+1:]...)
			l.cs = append(l.cs[:i], l.cs[i+1:]...)
			return
		}
		l.cs[i] = nc
		return
	}
	if c == 0 {
		return
	}
	l.ts = append(l.ts, nil)
	l.cs = append(l.cs, 0)
	copy(l.ts[i+1:], l.ts[i:])
	copy(l.cs[i+1:], l.cs[i:])
	l.ts[i] = t
	l.cs[i] = c
}

func (tb *TB) mkLin(w uint8, l *lin) *Term {
	if len(l.ts) == 0 {
		return tb.Const(w, l.k)
	}
	if len(l.ts) == 1 && l.k&mask(w) == 0 && l.cs[0]&mask(w) == 1 {
		return l.ts[0]
	}
	return tb.intern(OpLin, w, l.k&mask(w), l.ts, l.cs)
}

func (tb *TB) Add(a, b *Term) *Term {
	var l lin
	l.addTerm(a, 1, a.w)
	l.addTerm(b, 1, a.w)
	return tb.mkLin(a.w, &l)
}
func (tb *TB) Sub(a, b *Term) *Term {
	var l lin
	l.addTerm(a, 1, a.w)
	l.addTerm(b, ^uint64(0), a.w)
	return tb.mkLin(a.w, &l)
}
func (tb *TB) Neg(a *Term) *Term {
	var l lin
	l.addTerm(a, ^uint64(0), a.w)
	return tb.mkLin(a.w, &l)
}
func (tb *TB) NotB(a *Term) *Term {
	var l lin
	l.addTerm(a, ^uint64(0), a.w)
	l.k = (l.k - 1) & mask(a.w)
	return tb.mkLin(a.w, &l)
}
func (tb *TB) scale(a *Term, c uint64) *Term {
	var l lin
	l.addTerm(a, c, a.w)
	return tb.mkLin(a.w, &l)
}
func (tb *TB) Mul(a, b *Term) *Term {
	if a.isConst() {
		return tb.scale(b, a.k)
	}
	if b.isConst() {
		return tb.scale(a, b.k)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tb.intern(OpMul, a.w, 0, []*Term{a, b}, nil)
}

func (tb *TB) UDiv(a, b *Term) *Term {
	if a.isConst() && b.isConst() && b.k != 0 {
		return tb.Const(a.w, a.k/b.k)
	}
	if b.isConst() {
		if b.k == 1 {
			return a
		}
		if a.op == OpUDiv && a.args[1].isConst() {
			hi, lo := bits.Mul64(a.args[1].k, b.k)
			if hi == 0 && lo <= mask(a.w) {
				return tb.UDiv(a.args[0], tb.Const(a.w, lo))
			}
			return tb.Const(a.w, 0)
		}
	}
	return tb.intern(OpUDiv, a.w, 0, []*Term{a, b}, nil)
}
func (tb *TB) URem(a, b *Term) *Term {
	if a.isConst() && b.isConst() && b.k != 0 {
		return tb.Const(a.w, a.k%b.k)
	}
	if b.isConst() && b.k == 1 {
		return tb.Const(a.w, 0)
	}
	return tb.intern(OpURem, a.w, 0, []*Term{a, b}, nil)
}
func (tb *TB) SDiv(a, b *Term) *Term {
	if a.isConst() && b.isConst() && b.k != 0 {
		return tb.Const(a.w, sdiv(a.k, b.k, a.w))
	}
	if b.isConst() {
		if b.k == 1 {
			return a
		}
		if a.op == OpSDiv && a.args[1].isConst() {
			x, y := sext64(a.args[1].k, a.w), sext64(b.k, a.w)
			if x > 1 && y > 1 {
				hi, lo := bits.Mul64(uint64(x), uint64(y))
				if hi == 0 && lo <= mask(a.w)>>1 {
					return tb.SDiv(a.args[0], tb.Const(a.w, lo))
				}
				if hi != 0 || lo > 1<<(a.w-1) {
					return tb.Const(a.w, 0)
				}
			}
		}
	}
	return tb.intern(OpSDiv, a.w, 0, []*Term{a, b}, nil)
}
func sdiv(a, b uint64, w uint8) uint64 {
	x, y := sext64(a, w), sext64(b, w)
	if y == -1 {
		return uint64(-x) & mask(w)
	}
	return uint64(x/y) & mask(w)
}
func srem(a, b uint64, w uint8) uint64 {
	x, y := sext64(a, w), sext64(b, w)
	if y == -1 {
		return 0
	}
	return uint64(x%y) & mask(w)
}
func (tb *TB) SRem(a, b *Term) *Term {
	if a.isConst() && b.isConst() && b.k != 0 {
		return tb.Const(a.w, srem(a.k, b.k, a.w))
	}
	return tb.intern(OpSRem, a.w, 0, []*Term{a, b}, nil)
}

func (tb *TB) AndB(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return tb.Const(a.w, a.k&b.k)
	}
	if a.isConst() {
		a, b = b, a
	}
	if a == b {
		return a
	}
	if b.isConst() {
		if b.k == 0 {
			return b
		}
		if b.k == mask(a.w) {
			return a
		}
		if a.op == OpAndB && a.args[1].isConst() {
			return tb.AndB(a.args[0], tb.Const(a.w, a.args[1].k&b.k))
		}
		if a.op == OpZExt && b.k&mask(a.args[0].w) == mask(a.args[0].w) {
			return a
		}
		if a.op == OpZExt {
			return tb.ZExt(tb.AndB(a.args[0], tb.Const(a.args[0].w, b.k)), a.w)
		}
		// |f32to64(x)| = f32to64(|x|)
		if a.op == OpF32to64 && b.k == 1<<63-1 {
			return tb.F32to64(tb.AndB(a.args[0], tb.Const(32, 1<<31-1)))
		}
		if a.op == OpF64to32 && b.k == 1<<31-1 {
			return tb.F64to32(tb.AndB(a.args[0], tb.Const(64, 1<<63-1)))
		}
		// low masks
		if b.k&(b.k+1) == 0 {
			n := uint8(bits.Len64(b.k))
			return tb.ZExt(tb.Extract(a, 0, n), a.w)
		}
		return tb.intern(OpAndB, a.w, 0, []*Term{a, b}, nil)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tb.intern(OpAndB, a.w, 0, []*Term{a, b}, nil)
}
func (tb *TB) OrB(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return tb.Const(a.w, a.k|b.k)
	}
	if a.isConst() {
		a, b = b, a
	}
	if a == b {
		return a
	}
	if b.isConst() {
		if b.k == 0 {
			return a
		}
		if b.k == mask(a.w) {
			return b
		}
		return tb.intern(OpOrB, a.w, 0, []*Term{a, b}, nil)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tb.intern(OpOrB, a.w, 0, []*Term{a, b}, nil)
}
func (tb *TB) XorB(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return tb.Const(a.w, a.k^b.k)
	}
	if a.isConst() {
		a, b = b, a
	}
	if a == b {
		return tb.Const(a.w, 0)
	}
	if b.isConst() {
		if b.k == 0 {
			return a
		}
		if b.k == mask(a.w) {
			return tb.NotB(a)
		}
		return tb.intern(OpXorB, a.w, 0, []*Term{a, b}, nil)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tb.intern(OpXorB, a.w, 0, []*Term{a, b}, nil)
}

// shifts: Go semantics for counts >= width; b has the same width as a
func (tb *TB) Shl(a, b *Term) *Term {
	if b.isConst() {
		if b.k >= uint64(a.w) {
			return tb.Const(a.w, 0)
		}
		return tb.scale(a, 1<<b.k)
	}
	return tb.intern(OpShl, a.w, 0, []*Term{a, b}, nil)
}
func (tb *TB) LShr(a, b *Term) *Term {
	if b.isConst() {
		if b.k >= uint64(a.w) {
			return tb.Const(a.w, 0)
		}
		if b.k == 0 {
			return a
		}
		return tb.ZExt(tb.Extract(a, uint8(b.k), a.w-uint8(b.k)), a.w)
	}
	return tb.intern(OpLShr, a.w, 0, []*Term{a, b}, nil)
}
func (tb *TB) AShr(a, b *Term) *Term {
	if b.isConst() {
		n := b.k
		if n >= uint64(a.w) {
			n = uint64(a.w) - 1
		}
		if n == 0 {
			return a
		}
		return tb.SExt(tb.Extract(a, uint8(n), a.w-uint8(n)), a.w)
	}
	return tb.intern(OpAShr, a.w, 0, []*Term{a, b}, nil)
}

func (tb *TB) ZExt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return tb.Const(w, a.k)
	}
	if a.op == OpZExt {
		return tb.ZExt(a.args[0], w)
	}
	return tb.intern(OpZExt, w, 0, []*Term{a}, nil)
}
func (tb *TB) SExt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return tb.Const(w, uint64(sext64(a.k, a.w)))
	}
	if a.op == OpSExt {
		return tb.SExt(a.args[0], w)
	}
	if a.op == OpZExt {
		return tb.ZExt(a.args[0], w)
	}
	return tb.intern(OpSExt, w, 0, []*Term{a}, nil)
}

// Extract w bits of a starting at lo.
func (tb *TB) Extract(a *Term, lo, w uint8) *Term {
	if lo == 0 && w == a.w {
		return a
	}
	switch a.op {
	case OpConst:
		return tb.Const(w, a.k>>lo)
	case OpExtract:
		return tb.Extract(a.args[0], lo+uint8(a.k), w)
	case OpZExt:
		x := a.args[0]
		if lo >= x.w {
			return tb.Const(w, 0)
		}
		if lo+w <= x.w {
			return tb.Extract(x, lo, w)
		}
		return tb.ZExt(tb.Extract(x, lo, x.w-lo), w)
	case OpF32to64, OpF64to32:
		if w == 1 && lo == a.w-1 {
			return tb.Extract(a.args[0], a.args[0].w-1, 1)
		}
	case OpSExt:
		x := a.args[0]
		if lo+w <= x.w {
			return tb.Extract(x, lo, w)
		}
		if lo == 0 {
			return tb.SExt(x, w)
		}
	case OpLin:
		if lo == 0 {
			var l lin
			l.k = a.k & mask(w)
			for i, x := range a.args {
				l.addTerm(tb.Extract(x, 0, w), a.coefs[i], w)
			}
			return tb.mkLin(w, &l)
		}
	case OpIte:
		if a.args[1].isConst() || a.args[2].isConst() {
			return tb.Ite(a.args[0], tb.Extract(a.args[1], lo, w), tb.Extract(a.args[2], lo, w))
		}
	case OpAndB, OpOrB, OpXorB:
		if a.args[1].isConst() {
			x, y := tb.Extract(a.args[0], lo, w), tb.Extract(a.args[1], lo, w)
			switch a.op {
			case OpAndB:
				return tb.AndB(x, y)
			case OpOrB:
				return tb.OrB(x, y)
			default:
				return tb.XorB(x, y)
			}
		}
	}
	return tb.intern(OpExtract, w, uint64(lo), []*Term{a}, nil)
}

func (tb *TB) Ite(c, a, b *Term) *Term {
	if c.isConst() {
		if c.k != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		if a.isConst() && b.isConst() {
			if a.k != 0 {
				return c
			}
			return tb.Not(c)
		}
		if a.isConst() {
			if a.k != 0 {
				return tb.Or(c, b)
			}
			return tb.And(tb.Not(c), b)
		}
		if b.isConst() {
			if b.k != 0 {
				return tb.Or(tb.Not(c), a)
			}
			return tb.And(c, a)
		}
	}
	if c.op == OpNot {
		return tb.Ite(c.args[0], b, a)
	}
	return tb.intern(OpIte, a.w, 0, []*Term{c, a, b}, nil)
}

func inv(c uint64) uint64 { // inverse of odd c mod 2^64
	x := c
	for i := 0; i < 6; i++ {
		x *= 2 - c*x
	}
	return x
}

func (tb *TB) Eq(a, b *Term) *Term {
	if a == b {
		return tb.tru
	}
	if a.w != b.w {
		panic(fmt.Sprintf("Eq width mismatch %d %d", a.w, b.w))
	}
	if a.w == 0 {
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.k != 0 {
				return a
			}
			return tb.Not(a)
		}
		if a.id > b.id {
			a, b = b, a
		}
		return tb.intern(OpEq, 0, 0, []*Term{a, b}, nil)
	}
	if a.isConst() && b.isConst() {
		return tb.Bool(a.k == b.k)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		switch a.op {
		case OpF32to64, OpF64to32:
			x := a.args[0]
			if lo, ok := convBound(a, b.k); ok {
				if hi, ok := convBound(a, b.k+1); ok {
					if lo == hi {
						return tb.fls
					}
					if lo+1 == hi {
						return tb.Eq(x, tb.Const(x.w, lo))
					}
					return tb.And(tb.Not(tb.Ult(x, tb.Const(x.w, lo))), tb.Ult(x, tb.Const(x.w, hi)))
				}
			}
		case OpZExt:
			x := a.args[0]
			if b.k > mask(x.w) {
				return tb.fls
			}
			return tb.Eq(x, tb.Const(x.w, b.k))
		case OpSExt:
			x := a.args[0]
			if uint64(sext64(b.k&mask(x.w), x.w))&mask(a.w) != b.k {
				return tb.fls
			}
			return tb.Eq(x, tb.Const(x.w, b.k))
		case OpIte:
			if a.args[1].isConst() || a.args[2].isConst() {
				return tb.Ite(a.args[0], tb.Eq(a.args[1], b), tb.Eq(a.args[2], b))
			}
		case OpSDiv:
			if b.k == 0 && a.args[1].isConst() {
				c := sext64(a.args[1].k, a.w)
				if c > 0 {
					// |x| < c
					lo := tb.Const(a.w, uint64(-c+1))
					hi := tb.Const(a.w, uint64(c-1))
					return tb.And(tb.Sle(lo, a.args[0]), tb.Sle(a.args[0], hi))
				}
			}
		case OpUDiv:
			if b.k == 0 && a.args[1].isConst() && a.args[1].k != 0 {
				return tb.Ult(a.args[0], a.args[1])
			}
		}
	}
	// x == extend(truncate(x)): x is in range
	for _, p := range [2][2]*Term{{a, b}, {b, a}} {
		e, x := p[0], p[1]
		if e.op == OpSExt || e.op == OpZExt {
			k := e.args[0].w
			if x.isConst() || tb.Extract(x, 0, k) != e.args[0] {
				continue
			}
			if e.op == OpZExt {
				return tb.Ult(x, tb.Const(x.w, 1<<k))
			}
			return tb.Ult(tb.Add(x, tb.Const(x.w, 1<<(k-1))), tb.Const(x.w, 1<<k))
		}
	}
	if a.op == OpZExt && b.op == OpZExt {
		x, y := a.args[0], b.args[0]
		if x.w < y.w {
			x = tb.ZExt(x, y.w)
		} else if y.w < x.w {
			y = tb.ZExt(y, x.w)
		}
		return tb.Eq(x, y)
	}
	if a.op == OpSExt && b.op == OpSExt && a.args[0].w == b.args[0].w {
		return tb.Eq(a.args[0], b.args[0])
	}
	if a.op == OpLin || b.op == OpLin {
		var l lin
		l.addTerm(a, 1, a.w)
		l.addTerm(b, ^uint64(0), a.w)
		if len(l.ts) == 0 {
			return tb.Bool(l.k&mask(a.w) == 0)
		}
		if len(l.ts) == 1 && l.cs[0]&1 == 1 {
			// c*x + k = 0  ->  x = -k * c^-1
			return tb.eqRaw(l.ts[0], tb.Const(a.w, -l.k*inv(l.cs[0])))
		}
		// normalise sign: smaller of (coef, -coef) first
		m := mask(a.w)
		if l.cs[0] > (-l.cs[0])&m {
			l.k = -l.k & m
			for i := range l.cs {
				l.cs[i] = -l.cs[i] & m
			}
		}
		if len(l.ts) == 2 && l.k == 0 && l.cs[0] == 1 && l.cs[1] == m {
			return tb.eqRaw(l.ts[0], l.ts[1])
		}
		k := -l.k & m
		l.k = 0
		lhs := tb.mkLin(a.w, &l)
		return tb.intern(OpEq, 0, 0, []*Term{lhs, tb.Const(a.w, k)}, nil)
	}
	return tb.eqIntern(a, b)
}

func (tb *TB) eqRaw(a, b *Term) *Term {
	if a.op != OpLin && b.op != OpLin {
		return tb.Eq(a, b)
	}
	return tb.eqIntern(a, b)
}

func (tb *TB) eqIntern(a, b *Term) *Term {
	if a == b {
		return tb.tru
	}
	if a.isConst() {
		a, b = b, a
	}
	if !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	return tb.intern(OpEq, 0, 0, []*Term{a, b}, nil)
}

func (tb *TB) Ult(a, b *Term) *Term {
	if a == b {
		return tb.fls
	}
	if a.isConst() && b.isConst() {
		return tb.Bool(a.k < b.k)
	}
	if b.isConst() && b.k == 0 {
		return tb.fls
	}
	if a.isConst() && a.k == mask(a.w) {
		return tb.fls
	}
	if b.isConst() && b.k == 1 {
		return tb.Eq(a, tb.Const(a.w, 0))
	}
	if a.op == OpZExt && b.isConst() {
		x := a.args[0]
		if b.k > mask(x.w) {
			return tb.tru
		}
		return tb.Ult(x, tb.Const(x.w, b.k))
	}
	if b.op == OpZExt && a.isConst() {
		x := b.args[0]
		if a.k >= mask(x.w) {
			return tb.fls
		}
		return tb.Ult(tb.Const(x.w, a.k), x)
	}
	if b.isConst() {
		if k, ok := convBound(a, b.k); ok {
			return tb.Ult(a.args[0], tb.Const(a.args[0].w, k))
		}
	}
	if a.isConst() {
		if k, ok := convBound(b, a.k+1); ok {
			return tb.Not(tb.Ult(b.args[0], tb.Const(b.args[0].w, k)))
		}
	}
	if a.op == OpZExt && b.op == OpZExt && a.args[0].w == b.args[0].w {
		return tb.Ult(a.args[0], b.args[0])
	}
	return tb.intern(OpUlt, 0, 0, []*Term{a, b}, nil)
}
func (tb *TB) Ule(a, b *Term) *Term { return tb.Not(tb.Ult(b, a)) }
func (tb *TB) Slt(a, b *Term) *Term {
	if a == b {
		return tb.fls
	}
	if a.isConst() && b.isConst() {
		return tb.Bool(sext64(a.k, a.w) < sext64(b.k, b.w))
	}
	min := uint64(1) << (a.w - 1)
	if b.isConst() && b.k == min {
		return tb.fls
	}
	if a.isConst() && a.k == min-1 {
		return tb.fls
	}
	if a.op == OpZExt && b.isConst() {
		bv := sext64(b.k, a.w)
		if bv <= 0 {
			return tb.fls
		}
		return tb.Ult(a, b)
	}
	if b.op == OpZExt && a.isConst() {
		if sext64(a.k, a.w) < 0 {
			return tb.tru
		}
		return tb.Ult(a, b)
	}
	if a.op == OpZExt && b.op == OpZExt {
		return tb.Ult(a, b)
	}
	if a.op == OpSExt && b.isConst() {
		x := a.args[0]
		bv := sext64(b.k, a.w)
		xmax := int64(mask(x.w) >> 1)
		if bv > xmax {
			return tb.tru
		}
		if bv <= -xmax-1 {
			return tb.fls
		}
		return tb.Slt(x, tb.Const(x.w, uint64(bv)))
	}
	if b.op == OpSExt && a.isConst() {
		x := b.args[0]
		av := sext64(a.k, b.w)
		xmax := int64(mask(x.w) >> 1)
		if av >= xmax {
			return tb.fls
		}
		if av < -xmax-1 {
			return tb.tru
		}
		return tb.Slt(tb.Const(x.w, uint64(av)), x)
	}
	return tb.intern(OpSlt, 0, 0, []*Term{a, b}, nil)
}
func (tb *TB) Sle(a, b *Term) *Term { return tb.Not(tb.Slt(b, a)) }

func (tb *TB) Not(a *Term) *Term {
	if a.isConst() {
		return tb.Bool(a.k == 0)
	}
	if a.op == OpNot {
		return a.args[0]
	}
	return tb.intern(OpNot, 0, 0, []*Term{a}, nil)
}

func (tb *TB) nary(op Op, unit, zero *Term, ts ...*Term) *Term {
	var out []*Term
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == unit {
			return true
		}
		if t == zero {
			return false
		}
		if t.op == op {
			for _, a := range t.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		i := sort.Search(len(out), func(i int) bool { return out[i].id >= t.id })
		if i < len(out) && out[i] == t {
			return true
		}
		out = append(out, nil)
		copy(out[i+1:], out[i:])
		out[i] = t
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return zero
		}
	}
	for _, t := range out {
		if t.op == OpNot {
			x := t.args[0]
			i := sort.Search(len(out), func(i int) bool { return out[i].id >= x.id })
			if i < len(out) && out[i] == x {
				return zero
			}
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	return tb.intern(op, 0, 0, out, nil)
}
func (tb *TB) And(ts ...*Term) *Term { return tb.nary(OpAnd, tb.tru, tb.fls, ts...) }
func (tb *TB) Or(ts ...*Term) *Term  { return tb.nary(OpOr, tb.fls, tb.tru, ts...) }

// ---- floats

func (tb *TB) F32to64(a *Term) *Term {
	if a.isConst() {
		return tb.Const(64, math.Float64bits(float64(math.Float32frombits(uint32(a.k)))))
	}
	return tb.intern(OpF32to64, 64, 0, []*Term{a}, nil)
}
func (tb *TB) F64to32(a *Term) *Term {
	if a.isConst() {
		return tb.Const(32, uint64(math.Float32bits(float32(math.Float64frombits(a.k)))))
	}
	if a.op == OpF32to64 { // exact up to NaN payload
		return a.args[0]
	}
	return tb.intern(OpF64to32, 32, 0, []*Term{a}, nil)
}

// nonNeg reports that the top bit of a is known to be clear.
func nonNeg(a *Term) bool {
	return a.op == OpZExt || a.op == OpAndB && a.args[1].isConst() && a.args[1].k>>(a.w-1) == 0
}

// convBound inverts a conversion between float widths, which is monotone on the bit patterns of
// non-negative numbers: conv(x) < c exactly when x < k.
func convBound(a *Term, c uint64) (uint64, bool) {
	var f func(uint64) uint64
	switch a.op {
	case OpF32to64:
		f = func(x uint64) uint64 { return math.Float64bits(float64(math.Float32frombits(uint32(x)))) }
	case OpF64to32:
		f = func(x uint64) uint64 { return uint64(math.Float32bits(float32(math.Float64frombits(x)))) }
	default:
		return 0, false
	}
	if !nonNeg(a.args[0]) || c > fexpMask(a.w)+1 {
		return 0, false
	}
	// the first pattern, up to the first NaN, that is converted to c or more
	lo, hi := uint64(0), fexpMask(a.args[0].w)+1
	for lo < hi {
		m := lo + (hi-lo)/2
		if f(m) >= c {
			hi = m
		} else {
			lo = m + 1
		}
	}
	return lo, true
}

// notNaN reports that a float is known to be a number.
func notNaN(a *Term) bool {
	num := func(c *Term) bool {
		x := c.k & (mask(c.w) >> 1)
		return c.isConst() && x != 0 && x < fexpMask(c.w)
	}
	switch a.op {
	case OpConst:
		return a.k&(mask(a.w)>>1) <= fexpMask(a.w)
	case OpUToF, OpSToF:
		return true
	case OpF32to64, OpF64to32:
		return notNaN(a.args[0])
	case OpFMul:
		return num(a.args[0]) && notNaN(a.args[1]) || num(a.args[1]) && notNaN(a.args[0])
	case OpFDiv:
		return num(a.args[1]) && notNaN(a.args[0])
	}
	return false
}
func fexpMask(w uint8) uint64 {
	if w == 32 {
		return 0x7f800000
	}
	return 0x7ff0000000000000
}
func (tb *TB) fabs(a *Term) *Term {
	return tb.AndB(a, tb.Const(a.w, mask(a.w)>>1))
}

// ftrunc drops the fraction bits of a float64 given by its bits.
func (tb *TB) ftrunc(x *Term) *Term {
	e := tb.AndB(tb.LShr(x, tb.Const(64, 52)), tb.Const(64, 0x7ff))
	m := tb.Shl(tb.Const(64, ^uint64(0)), tb.Sub(tb.Const(64, 1075), e))
	return tb.Ite(tb.Ult(e, tb.Const(64, 1023)), tb.AndB(x, tb.Const(64, 1<<63)),
		tb.Ite(tb.Ult(e, tb.Const(64, 1075)), tb.AndB(x, m), x))
}

func (tb *TB) FIsNaN(a *Term) *Term {
	if a.op == OpF32to64 || a.op == OpF64to32 {
		return tb.FIsNaN(a.args[0])
	}
	if notNaN(a) {
		return tb.fls
	}
	return tb.Ult(tb.Const(a.w, fexpMask(a.w)), tb.fabs(a))
}
func (tb *TB) fsign(a *Term) *Term {
	return tb.Eq(tb.Extract(a, a.w-1, 1), tb.Const(1, 1))
}
func (tb *TB) FEq(a, b *Term) *Term {
	if a.isConst() {
		a, b = b, a
	}
	if a.op == OpF32to64 && b.op == OpF32to64 {
		return tb.FEq(a.args[0], b.args[0])
	}
	z := tb.Const(a.w, 0)
	bothZero := tb.And(tb.Eq(tb.fabs(a), z), tb.Eq(tb.fabs(b), z))
	eq := tb.Eq(a, b)
	if b.isConst() && (a.op == OpF32to64 || a.op == OpF64to32) {
		eq = tb.And(tb.Eq(tb.fsign(a), tb.fsign(b)), tb.Eq(tb.fabs(a), tb.fabs(b)))
	}
	return tb.And(tb.Not(tb.FIsNaN(a)), tb.Not(tb.FIsNaN(b)), tb.Or(eq, bothZero))
}
func (tb *TB) FLt(a, b *Term) *Term {
	if a.op == OpF32to64 && b.op == OpF32to64 {
		return tb.FLt(a.args[0], b.args[0])
	}
	z := tb.Const(a.w, 0)
	sa, sb := tb.fsign(a), tb.fsign(b)
	bothZero := tb.And(tb.Eq(tb.fabs(a), z), tb.Eq(tb.fabs(b), z))
	lt := tb.Or(
		tb.And(sa, tb.Not(sb), tb.Not(bothZero)),
		tb.And(tb.Not(sa), tb.Not(sb), tb.Ult(tb.fabs(a), tb.fabs(b))),
		tb.And(sa, sb, tb.Ult(tb.fabs(b), tb.fabs(a))))
	return tb.And(tb.Not(tb.FIsNaN(a)), tb.Not(tb.FIsNaN(b)), lt)
}
func (tb *TB) FLe(a, b *Term) *Term { return tb.Or(tb.FLt(a, b), tb.FEq(a, b)) }
func (tb *TB) FNeg(a *Term) *Term {
	switch a.op {
	case OpF32to64:
		return tb.F32to64(tb.FNeg(a.args[0]))
	case OpF64to32:
		return tb.F64to32(tb.FNeg(a.args[0]))
	}
	return tb.Add(a, tb.Const(a.w, 1<<(a.w-1)))
}
func (tb *TB) FBin(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return tb.Const(a.w, fbin(op, a.k, b.k, a.w))
	}
	return tb.intern(op, a.w, 0, []*Term{a, b}, nil)
}
func fbin(op Op, a, b uint64, w uint8) uint64 {
	if w == 32 {
		x, y := math.Float32frombits(uint32(a)), math.Float32frombits(uint32(b))
		var r float32
		switch op {
		case OpFAdd:
			r = x + y
		case OpFSub:
			r = x - y
		case OpFMul:
			r = x * y
		case OpFDiv:
			r = x / y
		}
		return uint64(math.Float32bits(r))
	}
	x, y := math.Float64frombits(a), math.Float64frombits(b)
	var r float64
	switch op {
	case OpFAdd:
		r = x + y
	case OpFSub:
		r = x - y
	case OpFMul:
		r = x * y
	case OpFDiv:
		r = x / y
	}
	return math.Float64bits(r)
}
func (tb *TB) IToF(a *Term, signed bool, w uint8) *Term {
	op := OpUToF
	if signed {
		op = OpSToF
	}
	if a.isConst() {
		return tb.Const(w, itof(a.k, a.w, signed, w))
	}
	return tb.intern(op, w, 0, []*Term{a}, nil)
}
func itof(k uint64, kw uint8, signed bool, w uint8) uint64 {
	if signed {
		v := sext64(k, kw)
		if w == 32 {
			return uint64(math.Float32bits(float32(v)))
		}
		return math.Float64bits(float64(v))
	}
	if w == 32 {
		return uint64(math.Float32bits(float32(k)))
	}
	return math.Float64bits(float64(k))
}
func (tb *TB) FToI(a *Term, signed bool, w uint8) *Term {
	op := OpFToU
	if signed {
		op = OpFToS
	}
	if a.isConst() {
		return tb.Const(w, ftoi(a.k, a.w, signed, w))
	}
	return tb.intern(op, w, 0, []*Term{a}, nil)
}
func ftoi(k uint64, kw uint8, signed bool, w uint8) uint64 {
	var f float64
	if kw == 32 {
		f = float64(math.Float32frombits(uint32(k)))
	} else {
		f = math.Float64frombits(k)
	}
	if signed {
		return uint64(int64(f)) & mask(w)
	}
	return uint64(f) & mask(w)
}

// ---- evaluation

// Eval evaluates t under the assignment vals (by variable index).
func (tb *TB) Eval(t *Term, vals []uint64) uint64 {
	tb.epoch++
	return tb.eval(t, vals)
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (tb *TB) eval(t *Term, vals []uint64) uint64 {
	switch t.op {
	case OpConst:
		return t.k
	case OpVar:
		return vals[t.k] & mask(t.w)
	}
	if t.ep == tb.epoch {
		return t.val
	}
	var r uint64
	m := mask(t.w)
	switch t.op {
	case OpLin:
		r = t.k
		for i, a := range t.args {
			r += t.coefs[i] * tb.eval(a, vals)
		}
		r &= m
	case OpAnd:
		r = 1
		for _, a := range t.args {
			if tb.eval(a, vals) == 0 {
				r = 0
				break
			}
		}
	case OpOr:
		for _, a := range t.args {
			if tb.eval(a, vals) != 0 {
				r = 1
				break
			}
		}
	case OpIte:
		if tb.eval(t.args[0], vals) != 0 {
			r = tb.eval(t.args[1], vals)
		} else {
			r = tb.eval(t.args[2], vals)
		}
	default:
		a := tb.eval(t.args[0], vals)
		aw := t.args[0].w
		var b uint64
		if len(t.args) > 1 {
			b = tb.eval(t.args[1], vals)
		}
		switch t.op {
		case OpMul:
			r = a * b & m
		case OpUDiv:
			if b == 0 {
				r = m
			} else {
				r = a / b
			}
		case OpURem:
			if b == 0 {
				r = a
			} else {
				r = a % b
			}
		case OpSDiv:
			if b == 0 {
				r = 0
			} else {
				r = sdiv(a, b, t.w)
			}
		case OpSRem:
			if b == 0 {
				r = a
			} else {
				r = srem(a, b, t.w)
			}
		case OpAndB:
			r = a & b
		case OpOrB:
			r = a | b
		case OpXorB:
			r = a ^ b
		case OpShl:
			if b < uint64(t.w) {
				r = a << b & m
			}
		case OpLShr:
			if b < uint64(t.w) {
				r = a >> b
			}
		case OpAShr:
			if b >= uint64(t.w) {
				b = uint64(t.w) - 1
			}
			r = uint64(sext64(a, t.w)>>b) & m
		case OpZExt:
			r = a
		case OpSExt:
			r = uint64(sext64(a, aw)) & m
		case OpExtract:
			r = a >> t.k & m
		case OpEq:
			r = b2u(a == b)
		case OpUlt:
			r = b2u(a < b)
		case OpSlt:
			r = b2u(sext64(a, aw) < sext64(b, aw))
		case OpNot:
			r = a ^ 1
		case OpF32to64:
			r = math.Float64bits(float64(math.Float32frombits(uint32(a))))
		case OpF64to32:
			r = uint64(math.Float32bits(float32(math.Float64frombits(a))))
		case OpSToF, OpUToF:
			r = itof(a, aw, t.op == OpSToF, t.w)
		case OpFToS, OpFToU:
			r = ftoi(a, aw, t.op == OpFToS, t.w)
		case OpFAdd, OpFSub, OpFMul, OpFDiv:
			r = fbin(t.op, a, b, t.w)
		default:
			panic(fmt.Sprintf("eval op %d", t.op))
		}
	}
	t.ep = tb.epoch
	t.val = r
	return r
}

// truthSet returns the set of values of the single 8-bit variable of the boolean term t that make it true.
func (tb *TB) truthSet(t *Term, scratch []uint64) *[4]uint64 {
	if t.bits != nil {
		return t.bits
	}
	var b [4]uint64
	v := t.vars[0]
	for i := 0; i < 256; i++ {
		scratch[v] = uint64(i)
		if tb.Eval(t, scratch) != 0 {
			b[i>>6] |= 1 << (i & 63)
		}
	}
	t.bits = &b
	return t.bits
}
