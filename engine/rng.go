package main

import (
	"math"
	"math/big"
)

// Interval reasoning over linear sums: decides comparisons such as "appending a digit to a number of
// fewer than 19 digits cannot wrap" without the SMT solver. Everything here is an implied fact of the
// path condition, so an answer is as good as the solver's.

type ival struct{ lo, hi *big.Int }

var (
	big0  = big.NewInt(0)
	big2p = func() (p [65]*big.Int) {
		for i := range p {
			p[i] = new(big.Int).Lsh(big.NewInt(1), uint(i))
		}
		return
	}()
)

func bu(x uint64) *big.Int { return new(big.Int).SetUint64(x) }

type urange struct{ lo, hi uint64 }

// noteRange records what a comparison with a constant says about the other side.
func (w *Worker) noteRange(t *Term) {
	neg := false
	if t.op == OpNot {
		neg = true
		t = t.args[0]
	}
	if t.op != OpUlt && t.op != OpSlt && t.op != OpEq {
		return
	}
	a, b := t.args[0], t.args[1]
	if a.w == 0 {
		return
	}
	upd := func(x *Term, lo, hi uint64) {
		if lo > hi || x.isConst() {
			return
		}
		r, ok := w.path.rng[x]
		if !ok {
			r = urange{0, mask(x.w)}
		}
		if lo > r.lo {
			r.lo = lo
		}
		if hi < r.hi {
			r.hi = hi
		}
		w.path.rng[x] = r
	}
	m := mask(a.w)
	sm := m >> 1
	switch {
	case t.op == OpEq:
		if !neg {
			if b.isConst() {
				upd(a, b.k, b.k)
			} else if a.isConst() {
				upd(b, a.k, a.k)
			}
		}
	case t.op == OpUlt && b.isConst():
		if neg {
			upd(a, b.k, m)
		} else if b.k > 0 {
			upd(a, 0, b.k-1)
		}
	case t.op == OpUlt && a.isConst():
		if neg {
			upd(b, 0, a.k)
		} else if a.k < m {
			upd(b, a.k+1, m)
		}
	case t.op == OpSlt && b.isConst() && b.k <= sm:
		if neg { // a >= b.k >= 0
			upd(a, b.k, sm)
		} else if b.k == 0 {
			upd(a, sm+1, m)
		} else if r, ok := w.path.rng[a]; ok && r.hi <= sm {
			upd(a, 0, b.k-1)
		}
	case t.op == OpSlt && a.isConst() && (a.k <= sm || a.k == m):
		if !neg { // b > a >= -1
			lo := uint64(0)
			if a.k <= sm {
				lo = a.k + 1
			}
			upd(b, lo, sm)
		} else if a.k == m {
			upd(b, sm+1, m)
		} else if r, ok := w.path.rng[b]; ok && r.hi <= sm {
			upd(b, 0, a.k)
		}
	}
}

type linform struct {
	k  *big.Int
	cs map[*Term]*big.Int
}

func (f *linform) add(t *Term, c *big.Int) {
	if x, ok := f.cs[t]; ok {
		x.Add(x, c)
		if x.Sign() == 0 {
			delete(f.cs, t)
		}
		return
	}
	f.cs[t] = new(big.Int).Set(c)
}

// defOf finds the digit definition of a number.
func (w *Worker) defOf(t *Term) *digDef {
	for _, d := range w.path.defs {
		if d.u == t {
			return d
		}
	}
	return nil
}

func (w *Worker) ubounds(t *Term, depth int) ival {
	if t.isConst() {
		return ival{bu(t.k), bu(t.k)}
	}
	lo, hi := uint64(0), mask(t.w)
	if r, ok := w.path.rng[t]; ok {
		lo, hi = r.lo, r.hi
	}
	res := ival{bu(lo), bu(hi)}
	meet := func(o ival) {
		if o.lo.Cmp(res.lo) > 0 {
			res.lo = o.lo
		}
		if o.hi.Cmp(res.hi) < 0 {
			res.hi = o.hi
		}
	}
	if depth <= 0 {
		return res
	}
	switch t.op {
	case OpVar:
		if d := w.path.dom[t.vars[0]]; d != nil {
			a, b := -1, -1
			for i := 0; i < 256; i++ {
				if d[i>>6]>>(i&63)&1 == 1 {
					if a < 0 {
						a = i
					}
					b = i
				}
			}
			if a >= 0 {
				meet(ival{bu(uint64(a)), bu(uint64(b))})
			}
		}
	case OpZExt:
		meet(w.ubounds(t.args[0], depth-1))
	case OpIte:
		x := refine(t.args[0], true, t.args[1], w.ubounds(t.args[1], depth-1))
		y := refine(t.args[0], false, t.args[2], w.ubounds(t.args[2], depth-1))
		if x.lo.Cmp(x.hi) > 0 {
			x = y
		} else if y.lo.Cmp(y.hi) > 0 {
			y = x
		}
		o := ival{x.lo, x.hi}
		if y.lo.Cmp(o.lo) < 0 {
			o.lo = y.lo
		}
		if y.hi.Cmp(o.hi) > 0 {
			o.hi = y.hi
		}
		meet(o)
	case OpExtract:
		if x := t.args[0]; t.k == 0 && t.w == x.w-1 {
			if lo, hi, _, ok := w.fbounds(x, depth-1); ok {
				meet(ival{bu(fbitsOf(lo, x.w)), bu(fbitsOf(hi, x.w))})
			}
		}
	case OpUToF, OpSToF, OpFMul, OpFDiv, OpF32to64, OpF64to32:
		if lo, hi, nn, ok := w.fbounds(t, depth); ok && nn {
			meet(ival{bu(fbitsOf(lo, t.w)), bu(fbitsOf(hi, t.w))})
		}
	case OpLin:
		f := w.linear(t, depth-1, false)
		iv := w.formBounds(f, depth-1)
		q, _ := new(big.Int).DivMod(iv.lo, big2p[t.w], new(big.Int))
		q.Mul(q, big2p[t.w])
		iv.lo.Sub(iv.lo, q)
		iv.hi.Sub(iv.hi, q)
		if iv.hi.Cmp(big2p[t.w]) < 0 {
			meet(iv)
		}
	}
	return res
}

// refine narrows the bounds of t by a comparison of t with a constant that is known to be val.
func refine(c *Term, val bool, t *Term, iv ival) ival {
	for c.op == OpNot {
		c, val = c.args[0], !val
	}
	if c.op != OpUlt && c.op != OpSlt {
		return iv
	}
	a, b := c.args[0], c.args[1]
	smax := bu(mask(t.w) >> 1)
	if c.op == OpSlt && iv.hi.Cmp(smax) > 0 {
		return iv
	}
	k := a
	if a == t {
		k = b
	} else if b != t {
		return iv
	}
	if !k.isConst() || c.op == OpSlt && bu(k.k).Cmp(smax) > 0 {
		return iv
	}
	lo, hi := iv.lo, iv.hi
	x := bu(k.k)
	one := big.NewInt(1)
	switch {
	case a == t && val: // t < k
		hi = new(big.Int).Sub(x, one)
	case a == t: // t >= k
		lo = x
	case val: // t > k
		lo = new(big.Int).Add(x, one)
	default: // t <= k
		hi = x
	}
	if lo.Cmp(iv.lo) < 0 {
		lo = iv.lo
	}
	if hi.Cmp(iv.hi) > 0 {
		hi = iv.hi
	}
	return ival{lo, hi} // empty (lo > hi) if the comparison cannot be val
}

// linear writes t as an integer linear form that equals it modulo 2^w.
func (w *Worker) linear(t *Term, depth int, expand bool) *linform {
	f := &linform{k: new(big.Int), cs: map[*Term]*big.Int{}}
	half := uint64(1) << (t.w - 1)
	sg := func(k uint64) *big.Int {
		x := bu(k)
		if k >= half {
			x.Sub(x, big2p[t.w])
		}
		return x
	}
	put := func(a *Term, c *big.Int) {
		if expand {
			if d := w.defOf(a); d != nil {
				n := len(d.vars)
				for i, v := range d.vars {
					p := new(big.Int).Mul(c, bu(pow10[n-1-i]))
					f.add(w.path.vars[v], p)
					f.k.Sub(f.k, new(big.Int).Mul(p, big.NewInt('0')))
				}
				return
			}
		}
		for a.op == OpZExt && a.args[0].w == 8 {
			a = a.args[0]
		}
		f.add(a, c)
	}
	switch {
	case t.isConst():
		f.k = bu(t.k)
	case t.op == OpLin:
		f.k = sg(t.k)
		for i, a := range t.args {
			put(a, sg(t.coefs[i]))
		}
	default:
		put(t, big.NewInt(1))
	}
	return f
}

func (w *Worker) formBounds(f *linform, depth int) ival {
	lo, hi := new(big.Int).Set(f.k), new(big.Int).Set(f.k)
	for t, c := range f.cs {
		b := w.ubounds(t, depth)
		if c.Sign() > 0 {
			lo.Add(lo, new(big.Int).Mul(c, b.lo))
			hi.Add(hi, new(big.Int).Mul(c, b.hi))
		} else {
			lo.Add(lo, new(big.Int).Mul(c, b.hi))
			hi.Add(hi, new(big.Int).Mul(c, b.lo))
		}
	}
	return ival{lo, hi}
}

// exact returns a linear form that equals t as an unsigned (or signed) integer, if one is known.
func (w *Worker) exact(t *Term, signed bool) (*linform, bool) {
	for _, expand := range []bool{true, false} {
		f := w.linear(t, 6, expand)
		iv := w.formBounds(f, 6)
		// move the interval by a multiple of 2^w so that it starts in range
		base := big0
		if signed {
			base = new(big.Int).Neg(big2p[t.w-1])
		}
		off := new(big.Int).Sub(iv.lo, base)
		q, _ := new(big.Int).DivMod(off, big2p[t.w], new(big.Int))
		q.Mul(q, big2p[t.w])
		iv.hi.Sub(iv.hi, q)
		if iv.hi.Cmp(new(big.Int).Add(base, big2p[t.w])) < 0 {
			f.k.Sub(f.k, q)
			return f, true
		}
		if expand && len(w.path.defs) == 0 {
			break
		}
		// a number as its digits is exact even if its digit bounds alone are not
		if expand && !signed && w.defOf(t) != nil {
			return f, true
		}
	}
	if t.op == OpLin && !signed && t.w == 64 && len(t.args) > 1 {
		// ten times a bounded number (the parser's n*10, or n*10+d)
		for x, r := range w.path.rng {
			if x.op != OpLin || len(x.args) != len(t.args) || r.hi > mask(64)/10 {
				continue
			}
			if w.tb.Mul(x, w.tb.Const(64, 10)) == t {
				if f, ok := w.exact(x, false); ok {
					ten := big.NewInt(10)
					f.k.Mul(f.k, ten)
					for _, c := range f.cs {
						c.Mul(c, ten)
					}
					return f, true
				}
			}
		}
	}
	return nil, false
}

// implied decides t from intervals alone.
func (w *Worker) implied(t *Term) (bool, bool) {
	switch t.op {
	case OpNot:
		v, ok := w.implied(t.args[0])
		return !v, ok
	case OpAnd, OpOr:
		all := true
		for _, a := range t.args {
			v, ok := w.implied(a)
			if ok && v == (t.op == OpOr) {
				return v, true
			}
			if !ok {
				all = false
			}
		}
		return t.op == OpAnd, all
	case OpUlt, OpSlt, OpEq:
		a, b := t.args[0], t.args[1]
		if a.w == 0 {
			return false, false
		}
		if v, ok := w.cmpImplied(t.op, a, b, t.op == OpSlt); ok {
			return v, ok
		}
		if t.op == OpEq {
			return w.cmpImplied(t.op, a, b, true)
		}
	}
	return false, false
}

func (w *Worker) cmpImplied(op Op, a, b *Term, signed bool) (bool, bool) {
	fa, ok := w.exact(a, signed)
	if !ok {
		return false, false
	}
	fb, ok := w.exact(b, signed)
	if !ok {
		return false, false
	}
	fa.k.Sub(fa.k, fb.k)
	for t, c := range fb.cs {
		fa.add(t, new(big.Int).Neg(c))
	}
	iv := w.formBounds(fa, 6)
	if iv.lo.Sign() < 0 && iv.hi.Sign() >= 0 {
		if t, ok := w.prefixBounds(fa); ok {
			iv = t
		}
	}
	if op == OpEq {
		if iv.lo.Sign() > 0 || iv.hi.Sign() < 0 {
			return false, true
		}
		if iv.lo.Sign() == 0 && iv.hi.Sign() == 0 {
			return true, true
		}
		return false, false
	}
	if iv.hi.Sign() < 0 {
		return true, true
	}
	if iv.lo.Sign() >= 0 {
		return false, true
	}
	return false, false
}

// prefixBounds bounds a form in which the leading digits of a number u occur as that prefix of u: all
// but the last k digits of u spell floor(u/10^k).
func (w *Worker) prefixBounds(f *linform) (ival, bool) {
	for _, d := range w.path.defs {
		n := len(d.vars)
		lead, ok := f.cs[w.path.vars[d.vars[0]]]
		if !ok {
			continue
		}
		m := 1
		for m < n {
			if _, ok := f.cs[w.path.vars[d.vars[m]]]; !ok {
				break
			}
			m++
		}
		// coefficients of a prefix of m digits: c*10^(m-1), ..., c
		c := new(big.Int)
		if _, r := c.DivMod(lead, bu(pow10[m-1]), new(big.Int)); r.Sign() != 0 {
			continue
		}
		g := &linform{k: new(big.Int).Set(f.k), cs: map[*Term]*big.Int{}}
		for t, x := range f.cs {
			g.cs[t] = x
		}
		good := true
		for i := 0; i < n; i++ {
			t := w.path.vars[d.vars[i]]
			if i >= m {
				if _, ok := f.cs[t]; ok {
					good = false
				}
				continue
			}
			x := new(big.Int).Mul(c, bu(pow10[m-1-i]))
			if x.Cmp(f.cs[t]) != 0 {
				good = false
				break
			}
			delete(g.cs, t)
			g.k.Add(g.k, x.Mul(x, big.NewInt('0')))
		}
		if !good {
			continue
		}
		u := w.ubounds(d.u, 3)
		k := bu(pow10[n-m])
		lo, hi := new(big.Int).Div(u.lo, k), new(big.Int).Div(u.hi, k)
		iv := w.formBounds(g, 3)
		if c.Sign() < 0 {
			lo, hi = hi, lo
		}
		return ival{iv.lo.Add(iv.lo, lo.Mul(lo, c)), iv.hi.Add(iv.hi, hi.Mul(hi, c))}, true
	}
	return ival{}, false
}

func fbitsOf(f float64, w uint8) uint64 {
	if w == 32 {
		return uint64(math.Float32bits(float32(f)))
	}
	return math.Float64bits(f)
}

// fbounds bounds the magnitude of a float term that cannot be NaN; nonneg says its sign bit is clear.
// Rounding is monotonic, so evaluating at the ends is enough.
func (w *Worker) fbounds(t *Term, depth int) (lo, hi float64, nonneg, ok bool) {
	if t.w != 32 && t.w != 64 || depth < -6 {
		return
	}
	rnd := func(f float64) float64 {
		if t.w == 32 {
			return float64(float32(f))
		}
		return f
	}
	defer func() {
		if ok && (math.IsNaN(lo) || math.IsNaN(hi) || math.IsInf(hi, 0)) {
			ok = false
		}
	}()
	switch t.op {
	case OpConst:
		f := math.Float64frombits(t.k)
		if t.w == 32 {
			f = float64(math.Float32frombits(uint32(t.k)))
		}
		return math.Abs(f), math.Abs(f), !math.Signbit(f), true
	case OpUToF, OpSToF:
		if t.w != 64 {
			return
		}
		b := w.ubounds(t.args[0], 3)
		if t.op == OpSToF && b.hi.Cmp(big2p[t.args[0].w-1]) >= 0 {
			return
		}
		return float64(b.lo.Uint64()), float64(b.hi.Uint64()), true, true
	case OpFMul, OpFDiv:
		if t.w != 64 {
			return
		}
		al, ah, an, ok1 := w.fbounds(t.args[0], depth-1)
		bl, bh, bn, ok2 := w.fbounds(t.args[1], depth-1)
		if !ok1 || !ok2 {
			return
		}
		if t.op == OpFMul {
			return al * bl, ah * bh, an && bn, true
		}
		if bl == 0 {
			return
		}
		return al / bh, ah / bl, an && bn, true
	case OpIte:
		al, ah, an, ok1 := w.fbounds(t.args[1], depth-1)
		bl, bh, bn, ok2 := w.fbounds(t.args[2], depth-1)
		return math.Min(al, bl), math.Max(ah, bh), an && bn, ok1 && ok2
	case OpF64to32, OpF32to64:
		al, ah, an, ok1 := w.fbounds(t.args[0], depth-1)
		return rnd(al), rnd(ah), an, ok1
	case OpLin:
		if len(t.args) == 1 && t.coefs[0] == 1 && t.k == 1<<(t.w-1) {
			al, ah, _, ok1 := w.fbounds(t.args[0], depth-1)
			return al, ah, false, ok1
		}
	}
	return
}
