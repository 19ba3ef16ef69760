package h

import (
	php "github.com/trim21/go-phpserialize"
	"verif/harness/sym"
)

// ---- C22: recursive types with a single field, and field-less types used repeatedly

type (
	s1P struct{ N *s1P }
	s1L struct{ L []s1L }
	s1M struct{ M map[string]s1M }
	s1A struct{ A [1]*s1A }
	s1I struct {
		I map[int]*s1I `php:"i"`
	}
	s1X struct{ Y *s1Y }
	s1Y struct{ X []s1X }
	s1E struct{}
	s1T struct {
		A s1E
		B *s1E
		C []s1E
		D map[string]s1E
		N *s1T
	}
	s1U struct {
		A struct{ N []s1U }
		B struct{ N []s1U }
	}
)

func rtrip[T any](v T, text string) T {
	sym.Assert(string(enc(v)) == text, "wrong text")
	sym.Assert(string(enc(&v)) == text, "wrong text through a pointer")
	w := dec[T]([]byte(text))
	sym.Assert(string(enc(w)) == text, "wrong text after a round trip")
	l := dec[[]T]([]byte("a:2:{i:0;" + text + "i:1;" + text + "}"))
	sym.Assert(len(l) == 2 && string(enc(l[0])) == text && string(enc(l[1])) == text, "wrong element")
	return w
}

// H_C22_single: the recursion is the only field.
func H_C22_single() {
	n := sym.Choose("levels", 4)
	switch sym.Choose("type", 8) {
	case 0:
		v, t := s1P{}, `a:1:{s:1:"N";N;}`
		for i := 0; i < n; i++ {
			w := v
			v, t = s1P{N: &w}, `a:1:{s:1:"N";`+t+"}"
		}
		rtrip(v, t)
	case 1:
		v, t := s1L{}, `a:1:{s:1:"L";N;}`
		for i := 0; i < n; i++ {
			v, t = s1L{L: []s1L{{}, v}}, `a:1:{s:1:"L";a:2:{i:0;a:1:{s:1:"L";N;}i:1;`+t+"}}"
		}
		rtrip(v, t)
	case 2:
		k := sym.StrIn("k", 1, "ab\"0")
		v, t := s1M{}, `a:1:{s:1:"M";N;}`
		for i := 0; i < n; i++ {
			v, t = s1M{M: map[string]s1M{k: v}}, `a:1:{s:1:"M";a:1:{`+string(encS(k))+t+"}}"
		}
		rtrip(v, t)
	case 3:
		v, t := s1A{}, `a:1:{s:1:"A";a:1:{i:0;N;}}`
		for i := 0; i < n; i++ {
			w := v
			v, t = s1A{A: [1]*s1A{&w}}, `a:1:{s:1:"A";a:1:{i:0;`+t+"}}"
		}
		rtrip(v, t)
	case 4:
		k := dig("k")
		v, t := s1I{}, `a:1:{s:1:"i";N;}`
		for i := 0; i < n; i++ {
			w := v
			v, t = s1I{I: map[int]*s1I{k: &w}}, `a:1:{s:1:"i";a:1:{`+ints(k)+t+"}}"
		}
		rtrip(v, t)
	case 5:
		v, t := s1X{}, `a:1:{s:1:"Y";N;}`
		for i := 0; i < n; i++ {
			v, t = s1X{Y: &s1Y{X: []s1X{v}}}, `a:1:{s:1:"Y";a:1:{s:1:"X";a:1:{i:0;`+t+"}}}"
		}
		rtrip(v, t)
	case 6:
		e := "a:0:{}"
		v, t := s1T{}, `a:5:{s:1:"A";`+e+`s:1:"B";N;s:1:"C";N;s:1:"D";N;s:1:"N";N;}`
		for i := 0; i < n; i++ {
			w := v
			v = s1T{B: &s1E{}, C: make([]s1E, 2), D: map[string]s1E{"k": {}}, N: &w}
			t = `a:5:{s:1:"A";` + e + `s:1:"B";` + e + `s:1:"C";a:2:{i:0;` + e + `i:1;` + e + `}s:1:"D";a:1:{s:1:"k";` + e + `}s:1:"N";` + t + "}"
		}
		rtrip(v, t)
	case 7:
		sub := func(x string) string { return `a:1:{s:1:"N";` + x + "}" }
		both := func(x, y string) string { return `a:2:{s:1:"A";` + sub(x) + `s:1:"B";` + sub(y) + "}" }
		v, t := s1U{}, both("N;", "N;")
		for i := 0; i < n && i < 2; i++ {
			var w s1U
			w.A.N = []s1U{v}
			w.B.N = []s1U{v, {}}
			t = both("a:1:{i:0;"+t+"}", "a:2:{i:0;"+t+"i:1;"+both("N;", "N;")+"}")
			v = w
		}
		rtrip(v, t)
	}
}

// ---- C10: a map's keys are written by their kind, whatever methods they have

type (
	keyM  string
	keyI  int
	keyU  uint8
	keyPM int
	keySt string
)

func (keyM) MarshalPHP() ([]byte, error)   { return []byte("i:77;"), nil }
func (keyI) MarshalPHP() ([]byte, error)   { return []byte(`s:2:"kk";`), nil }
func (keyU) MarshalPHP() ([]byte, error)   { return nil, errUser }
func (*keyPM) MarshalPHP() ([]byte, error) { return []byte(`s:2:"kk";`), nil }
func (keySt) String() string               { return "other" }
func (keySt) MarshalText() ([]byte, error) { return []byte("text"), nil }

func mapText(k []byte, v int) string { return "a:1:{" + string(k) + ints(v) + "}" }

func keyCase[K comparable](k K, kt []byte, v int) {
	t := mapText(kt, v)
	m := map[K]int{k: v}
	sym.Assert(string(enc(m)) == t, "wrong map")
	sym.Assert(string(enc(&m)) == t, "wrong map behind a pointer")
	sym.Assert(string(enc([]any{m})) == "a:1:{i:0;"+t+"}", "wrong map in an interface")
	type S struct {
		M map[K]int `php:"m"`
		A any       `php:"a"`
	}
	sym.Assert(string(enc(S{m, m})) == `a:2:{s:1:"m";`+t+`s:1:"a";`+t+"}", "wrong map in a struct")
	sym.Assert(string(enc(map[string]map[K]int{"x": m})) == `a:1:{s:1:"x";`+t+"}", "wrong map in a map")
}

func H_C10_keys() {
	v := dig("v")
	switch sym.Choose("kind", 5) {
	case 0:
		s := sym.Str("s", sym.Choose("n", 3))
		keyCase(keyM(s), encS(s), v)
	case 1:
		n := sym.I16("n")
		keyCase(keyI(n), encI(int(n)), v)
	case 2:
		n := sym.Byte("n")
		keyCase(keyU(n), encI(int(n)), v)
	case 3:
		n := sym.I8("n")
		keyCase(keyPM(n), encI(int(n)), v)
	case 4:
		s := sym.Str("s", sym.Choose("n", 3))
		keyCase(keySt(s), encS(s), v)
	}
}

// ---- C12/C14: omitempty on fields that are Marshalers

type omitM struct {
	V VM       `php:"v,omitempty"`
	I IM       `php:"i,omitempty"`
	S SM       `php:"s,omitempty"`
	M MM       `php:"m,omitempty"`
	P *PM      `php:"p,omitempty"`
	Q *VM      `php:"q,omitempty"`
	A any      `php:"a,omitempty"`
	N Mar      `php:"n,omitempty"`
	R [1]VM    `php:"r,omitempty"`
	B struct { // the bytes of a Marshaler inside do not matter
		X IM
	} `php:"b,omitempty"`
	Z int `php:"z"`
}

// H_C12_marshalers: a Marshaler field that is its type's zero value is left out, and only then.
func H_C12_marshalers() {
	z := dig("z")
	var v omitM
	v.Z = z
	t, n := "", 1
	add := func(name, text string) {
		t += string(encS(name)) + text
		n++
	}
	set := sym.Choose("field", 12)
	in := func(i int) bool { return set == i || set == 11 }
	out := "i:" + itoa(z) + ";"
	if in(0) {
		v.V = VM{out}
		add("v", out)
	}
	if in(1) {
		x := int(sym.I8("x"))
		sym.Assume(x != 0)
		v.I = IM(x)
		add("i", `s:2:"im";`)
	}
	if in(2) {
		v.S = SM{}
		add("s", `s:2:"sm";`)
	}
	if in(3) {
		v.M = MM{}
		add("m", `s:2:"mm";`)
	}
	if in(4) {
		v.P = &PM{out}
		add("p", out)
	}
	if in(5) {
		v.Q = &VM{out}
		add("q", out)
	}
	if in(6) {
		v.A = VM{out}
		add("a", out)
	}
	if in(7) {
		v.N = VM{out}
		add("n", out)
	}
	if in(8) {
		v.R = [1]VM{{out}}
		add("r", "a:1:{i:0;"+out+"}")
	}
	if in(9) {
		v.B.X = 1
		add("b", `a:1:{s:1:"X";s:2:"im";}`)
	}
	t = "a:" + itoa(n) + ":{" + t + `s:1:"z";` + ints(z) + "}"
	switch sym.Choose("place", 4) {
	case 0:
		sym.Assert(string(enc(v)) == t, "wrong struct")
	case 1:
		sym.Assert(string(enc(&v)) == t, "wrong struct behind a pointer")
	case 2:
		sym.Assert(string(enc([]any{v})) == "a:1:{i:0;"+t+"}", "wrong struct in an interface")
	case 3:
		sym.Assert(string(enc(map[int]*omitM{z: &v})) == "a:1:{"+ints(z)+t+"}", "wrong struct in a map")
	}
}

// ---- C20: every generated type, both directions

// H_C20_gens: calls with two values of the same generated type.
func H_C20_gens() {
	sym.Preempt(sym.Scale("preempt", 0, 1))
	small = true
	i := sym.Choose("gen", len(gens))
	a, b := gens[i](), gens[i]()
	if k := sym.Choose("wrap", 1+len(a.wraps)); k > 0 {
		a, b = a.wraps[k-1](), b.wraps[k-1]()
	}
	work := func(g val, how int) func() {
		return func() {
			if how == 0 || how == 2 {
				sym.Assert(same(enc(g.v), g.enc), "wrong text")
			}
			if how > 0 {
				d := g.dst()
				noErr(php.Unmarshal(g.enc, d), "Unmarshal fails")
				sym.Assert(g.eq(d), "wrong value")
			}
		}
	}
	how, other := 2, 0 // both directions in both
	if sym.Scale("directions", 0, 1) == 1 {
		how, other = sym.Choose("how", 3), sym.Choose("other", 2)
	}
	if sym.Scale("warm", 0, 1) == 1 && sym.Choose("warm", 2) == 1 {
		work(a, 2)()
	}
	concurrent(work(a, how), work(b, (how+other)%3))
}
