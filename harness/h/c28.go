package h

import (
	"errors"

	php "github.com/trim21/go-phpserialize"
	"verif/harness/sym"
)

// C28: arguments are only read, so that concurrent calls may share them

// marshals checks that v encodes to text in two goroutines at once.
func marshals(v any, text []byte) {
	f := func() { sym.Assert(same(enc(v), text), "a shared value is encoded differently") }
	concurrent(f, f)
}

// shared is a pointer to the value where one is possible.
func shared(g val) any {
	if g.isPtr {
		return g.v
	}
	return g.ptr
}

func H_C28_gens() {
	sym.Preempt(sym.Scale("preempt", 0, 1))
	small = true
	g := gens[sym.Choose("gen", len(gens))]()
	switch sym.Choose("how", 4) {
	case 0:
		marshals(g.v, g.enc)
	case 1:
		marshals(shared(g), g.enc)
	case 2:
		g = g.wraps[sym.Choose("wrap", len(g.wraps))]()
		marshals(shared(g), g.enc)
	case 3:
		v, text := g.inAny("in")
		marshals(v, text)
	}
	sym.Assert(g.eq(g.ptr), "Marshal changes its argument")
}

func H_C28_tree() {
	sym.Preempt(sym.Scale("preempt", 0, 1))
	d := sym.Scale("depth", 1, 2)
	n := aTree(d, tEnd, fewLeaves...)
	rv, text := n.build(d)
	switch sym.Choose("how", 3) {
	case 0:
		f := func() { n.writes(rv, text) }
		concurrent(f, f)
	case 1:
		if n.k == tPtr {
			return
		}
		marshals(rv.Addr().Interface(), text)
	case 2:
		marshals([]any{rv.Interface()}, doc("a:1:{i:0;", string(text), "}"))
	}
	n.writes(rv, text)
}

type pShare struct{ B []byte }

func (s *pShare) MarshalPHP() ([]byte, error) { return s.B, nil }

// a slice of the caller with capacity behind it
func H_C28_bytes() {
	sym.Preempt(sym.Scale("preempt", 0, 1))
	s := sym.Bytes("s", pick("n", 0, 3, 20))
	b := spare(s)
	st := string(encS(string(s)))
	raw := spare([]byte(st))
	is := append(make([]int, 0, 4), 1, 2)
	an := append(make([]any, 0, 4), b)
	var v any
	var t string
	switch sym.Choose("place", 17) {
	case 0:
		v, t = b, st
	case 1:
		v, t = &b, st
	case 2:
		v, t = [][]byte{b, b}, "a:2:{i:0;"+st+"i:1;"+st+"}"
	case 3:
		v, t = struct {
			B []byte `php:"b,omitempty"`
			P *[]byte
		}{b, &b}, `a:2:{s:1:"b";`+st+`s:1:"P";`+st+"}"
	case 4:
		v, t = map[string][]byte{"k": b}, `a:1:{s:1:"k";`+st+"}"
	case 5:
		v, t = an, "a:1:{i:0;"+st+"}"
	case 6:
		v, t = map[int]any{1: b}, "a:1:{i:1;"+st+"}"
	case 7:
		v, t = Share{raw}, st
	case 8:
		v, t = []Share{{raw}, {raw}}, "a:2:{i:0;"+st+"i:1;"+st+"}"
	case 9:
		v, t = []any{Share{raw}, &Share{raw}, &pShare{raw}}, "a:3:{i:0;"+st+"i:1;"+st+"i:2;"+st+"}"
	case 10:
		v, t = &pShare{raw}, st
	case 11:
		v, t = struct{ M Mar }{Share{raw}}, `a:1:{s:1:"M";`+st+"}"
	case 12:
		v, t = is, "a:2:{i:0;i:1;i:1;i:2;}"
	case 13:
		v, t = &is, "a:2:{i:0;i:1;i:1;i:2;}"
	case 14:
		v, t = []any{is, is}, "a:2:{i:0;a:2:{i:0;i:1;i:1;i:2;}i:1;a:2:{i:0;i:1;i:1;i:2;}}"
	case 15:
		v, t = struct{ M map[string][]int }{map[string][]int{"k": is}}, `a:1:{s:1:"M";a:1:{s:1:"k";a:2:{i:0;i:1;i:1;i:2;}}}`
	case 16:
		v, t = [2][]byte{b, b}, "a:2:{i:0;"+st+"i:1;"+st+"}"
	}
	marshals(v, []byte(t))
	sym.Assert(same(b, s) && string(raw) == st, "Marshal changes its argument")
	for _, x := range [][]byte{b, raw} {
		for _, c := range x[len(x):cap(x)] {
			sym.Assert(c == '@', "Marshal writes behind its argument")
		}
	}
	sym.Assert(len(is) == 2 && is[0] == 1 && is[1] == 2 && is[:3][2] == 0, "Marshal changes its argument")
	sym.Assert(len(an) == 1 && an[:2][1] == nil, "Marshal writes behind its argument")
}

// failing calls leave the argument alone as well
func H_C28_failing() {
	sym.Preempt(sym.Scale("preempt", 0, 1))
	x := dig("x")
	m := map[string]any{"a": x}
	l := []any{x, m, nil}
	st := &struct {
		P *int
		L []any
		Q any `php:",omitempty"`
	}{&x, l, nil}
	bad := []any{make(chan int), EM{1}, &EM{2}, func() {}, 1i, map[float64]int{1: 1}, struct{ C []chan int }{}}[sym.Choose("bad", 7)]
	var v any
	switch sym.Choose("place", 4) {
	case 0:
		l[2] = bad
		v = l
	case 1:
		l[2] = bad
		v = st
	case 2:
		st.Q = bad
		v = []any{st, m}
	case 3:
		m["a"] = bad
		v = [1]any{m}
	}
	f := func() {
		out, err := php.Marshal(v)
		sym.Assert(out == nil && err != nil, "an unsupported value is encoded")
	}
	concurrent(f, f)
	sym.Assert(len(m) == 1 && len(l) == 3 && l[0] == any(x) && st.P == &x && len(st.L) == 3, "Marshal changes its argument")
	if bad, ok := bad.(EM); ok {
		_, err := php.Marshal(v)
		sym.Assert(errors.Is(err, errUser) && bad.X == 1, "wrong error")
	}
}

// two calls decode the same input
func H_C28_input() {
	sym.Preempt(sym.Scale("preempt", 0, 1))
	small = true
	g := gens[sym.Choose("gen", len(gens))]()
	if k := sym.Choose("wrap", 3); k > 0 {
		g = g.wraps[(k*3)%len(g.wraps)]()
	}
	in := spare(g.enc)
	typed := func() {
		p := g.dst()
		noErr(php.Unmarshal(in, p), "canonical text is rejected")
		sym.Assert(g.eq(p), "wrong value")
	}
	other := typed
	switch sym.Choose("other", 4) {
	case 1:
		other = func() {
			var v any
			_ = php.Unmarshal(in, &v)
		}
	case 2:
		other = func() {
			var r Raw
			noErr(php.Unmarshal(in, &r), "canonical text is rejected")
			sym.Assert(r.Calls == 0 || r.B == string(g.enc), "wrong bytes")
		}
	case 3:
		other = func() {
			var c chan int
			isErr(php.Unmarshal(in, &c), "unsupported destination accepted")
		}
	}
	concurrent(typed, other)
	sym.Assert(same(in, g.enc), "Unmarshal modifies its input")
	for _, c := range in[len(in):cap(in)] {
		sym.Assert(c == '@', "Unmarshal writes behind its input")
	}
}

// texts that are refused, or cut short
func H_C28_bad_input() {
	sym.Preempt(sym.Scale("preempt", 0, 1))
	d := sym.Bytes("d", 4)
	in := spare(doc(pick("head", "", "a:1:{i:0;", `O:1:"C":1:{s:1:"k";`, `a:1:{s:1:"a";s:4:"`), string(d), pick("tail", "", ";", `";}`)))
	before := string(in)
	f := func() {
		var v any
		_ = php.Unmarshal(in, &v)
	}
	h := func() {
		var v Flat
		_ = php.Unmarshal(in, &v)
	}
	r := func() {
		var v map[string]Raw
		_ = php.Unmarshal(in, &v)
	}
	if sym.Choose("same", 2) == 1 {
		concurrent(f, r)
	} else {
		concurrent(h, f)
	}
	sym.Assert(string(in) == before, "Unmarshal modifies its input")
	for _, c := range in[len(in):cap(in)] {
		sym.Assert(c == '@', "Unmarshal writes behind its input")
	}
}

// what a Marshaler returns stays its own, whatever its size, also in later calls
func H_C28_later() {
	n := pick("n", 0, 4, 40, 1020, 1030, 2100, 5000)
	raw := spare(encS(reps("x", n)))
	before := string(raw)
	x := dig("x")
	var v any
	switch sym.Choose("place", 6) {
	case 0:
		v = Share{raw}
	case 1:
		v = &pShare{raw}
	case 2:
		v = []Share{{raw}, {raw}}
	case 3:
		v = struct {
			A int
			M any
		}{x, &Share{raw}}
	case 4:
		v = map[string]Mar{"k": Share{raw}}
	case 5:
		v = ShareErr{raw}
	}
	calls := []func(){
		func() { _, _ = php.Marshal(v) },
		func() { _ = enc(x) },
		func() { _ = enc([]any{x, "abc", struct{ X int }{x}}) },
		otherCalls,
	}
	calls[0]()
	calls[sym.Choose("second", 4)]()
	calls[sym.Choose("third", 4)]()
	sym.Assert(string(raw) == before, "a call writes to the bytes of a Marshaler")
	for _, c := range raw[len(raw):cap(raw)] {
		sym.Assert(c == '@', "a call writes behind the bytes of a Marshaler")
	}
}

// the same for plain values of any size
func H_C28_later_values() {
	n := pick("n", 0, 4, 40, 1020, 1030, 2100, 5000)
	b := spare([]byte(reps("x", n)))
	x := dig("x")
	v := []any{b, []any{b, &b}, map[string][]byte{"k": b}, struct{ B []byte }{b}}[sym.Choose("place", 4)]
	_ = enc(v)
	_ = enc([]any{x, "abc"})
	otherCalls()
	_ = enc(v)
	in := spare(encS(reps("y", n)))
	var r Keep
	var y []byte
	noErr(php.Unmarshal(in, &y), "rejected")
	noErr(php.Unmarshal(in, &r), "rejected")
	otherCalls()
	sym.Assert(string(b) == reps("x", n) && same(in, encS(reps("y", n))), "an argument is written to")
	for _, s := range [][]byte{b, in} {
		for _, c := range s[len(s):cap(s)] {
			sym.Assert(c == '@', "memory behind an argument is written to")
		}
	}
}
