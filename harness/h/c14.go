package h

import (
	"errors"

	php "github.com/trim21/go-phpserialize"
	"verif/harness/sym"
)

// C14: Marshaler

// CM counts its calls.
type CM struct {
	Out   string
	Calls *int
}

func (v CM) MarshalPHP() ([]byte, error) { *v.Calls++; return []byte(v.Out), nil }

// places of a Marshaler value; text is the frame around its output.
func marPlace[T any](v T) (x any, pre, post string) {
	switch sym.Choose("where", 22) {
	case 0:
		return v, "", ""
	case 1:
		return []T{v}, "a:1:{i:0;", "}"
	case 2:
		return [2]T{v, v}, "a:2:{i:0;", "|"
	case 3:
		return map[string]T{"k": v}, `a:1:{s:1:"k";`, "}"
	case 4:
		return map[int]T{3: v}, `a:1:{i:3;`, "}"
	case 5:
		return struct {
			A int
			V T `php:"v"`
			Z int
		}{1, v, 2}, `a:3:{s:1:"A";i:1;s:1:"v";`, `s:1:"Z";i:2;}`
	case 6:
		return []any{v}, "a:1:{i:0;", "}"
	case 7:
		return map[string]any{"k": v}, `a:1:{s:1:"k";`, "}"
	case 8:
		return struct{ X any }{v}, `a:1:{s:1:"X";`, "}"
	case 9:
		return [1]any{v}, `a:1:{i:0;`, "}"
	case 10:
		var a any = v
		return &a, "", ""
	case 11:
		var a any = v
		return []*any{&a}, "a:1:{i:0;", "}"
	case 12:
		return []any{[]T{v}}, "a:1:{i:0;a:1:{i:0;", "}}"
	case 13:
		return []any{map[string]T{"k": v}}, `a:1:{i:0;a:1:{s:1:"k";`, "}}"
	case 14:
		return []any{struct{ V T }{v}}, `a:1:{i:0;a:1:{s:1:"V";`, "}}"
	case 15:
		return []any{&struct{ V T }{v}}, `a:1:{i:0;a:1:{s:1:"V";`, "}}"
	case 16:
		return []any{[1]T{v}}, "a:1:{i:0;a:1:{i:0;", "}}"
	case 17:
		return map[string][]T{"k": {v}}, `a:1:{s:1:"k";a:1:{i:0;`, "}}"
	case 18:
		return struct{ S struct{ V T } }{struct{ V T }{v}}, `a:1:{s:1:"S";a:1:{s:1:"V";`, "}}"
	case 19:
		return &struct {
			P *struct{ V T }
			Z int
		}{&struct{ V T }{v}, 1}, `a:2:{s:1:"P";a:1:{s:1:"V";`, `}s:1:"Z";i:1;}`
	case 20:
		return &[]T{v}, "a:1:{i:0;", "}"
	}
	return &map[string]T{"k": v}, `a:1:{s:1:"k";`, "}"
}

// ptrPlace are places behind a typed pointer to the value.
func ptrPlace[T any](v T) (x any, pre, post string) {
	switch sym.Choose("where", 9) {
	case 0:
		return &v, "", ""
	case 1:
		return []*T{&v}, "a:1:{i:0;", "}"
	case 2:
		return map[string]*T{"k": &v}, `a:1:{s:1:"k";`, "}"
	case 3:
		return struct {
			A int
			P *T
			Z int
		}{1, &v, 2}, `a:3:{s:1:"A";i:1;s:1:"P";`, `s:1:"Z";i:2;}`
	case 4:
		return []any{&v}, "a:1:{i:0;", "}"
	case 5:
		return struct{ X any }{&v}, `a:1:{s:1:"X";`, "}"
	case 6:
		return [1]*T{&v}, "a:1:{i:0;", "}"
	case 7:
		return struct {
			P *T `php:"p,omitempty"`
		}{&v}, `a:1:{s:1:"p";`, "}"
	}
	p := &v
	return []any{&p}, "a:1:{i:0;", "}"
}

func marCheck(x any, pre, out, post string) {
	if post == "|" {
		post = "i:1;" + out + "}"
	}
	got := enc(x)
	sym.Assert(same(got, []byte(pre+out+post)), "Marshaler output is not used verbatim")
}

func H_C14_values() {
	out := sym.Str("out", pick("n", 0, 1, 5))
	switch sym.Choose("type", 14) {
	case 0:
		x, a, b := marPlace(VM{out})
		marCheck(x, a, out, b)
	case 1:
		x, a, b := ptrPlace(VM{out})
		marCheck(x, a, out, b)
	case 2:
		x, a, b := marPlace(&VM{out})
		marCheck(x, a, out, b)
	case 3:
		x, a, b := marPlace(&PM{out})
		marCheck(x, a, out, b)
	case 4:
		x, a, b := marPlace(IM(dig("i")))
		marCheck(x, a, `s:2:"im";`, b)
	case 5:
		x, a, b := ptrPlace(IM(dig("i")))
		marCheck(x, a, `s:2:"im";`, b)
	case 6:
		x, a, b := marPlace(pick("sm", SM{1}, SM(nil), SM{make(chan int)}))
		marCheck(x, a, `s:2:"sm";`, b)
	case 7:
		x, a, b := ptrPlace(SM{1})
		marCheck(x, a, `s:2:"sm";`, b)
	case 8:
		x, a, b := marPlace(pick("mm", MM{"a": 1}, MM(nil)))
		marCheck(x, a, `s:2:"mm";`, b)
	case 9:
		x, a, b := ptrPlace(MM{"a": 1})
		marCheck(x, a, `s:2:"mm";`, b)
	case 10:
		x, a, b := marPlace(Mar(VM{out}))
		marCheck(x, a, out, b)
	case 11:
		x, a, b := marPlace(Mar(&PM{out}))
		marCheck(x, a, out, b)
	case 12:
		x, a, b := ptrPlace(Mar(&PM{out}))
		marCheck(x, a, out, b)
	case 13:
		x, a, b := ptrPlace(Mar(IM(3)))
		marCheck(x, a, `s:2:"im";`, b)
	}
}

// pointer-receiver Marshalers held by value are ordinary values, their pointers are not
func H_C14_mixed() {
	out := sym.Str("out", 2)
	type T struct {
		V VM  `php:"v"`
		P *PM `php:"p"`
		Q *VM `php:"q"`
		M Mar `php:"m"`
		X any `php:"x"`
		I IM  `php:"i,omitempty"`
	}
	v := T{V: VM{out}}
	body := `s:1:"v";` + out
	part := func(name, key string, set func(), text string) {
		if sym.Choose(name, 2) == 1 {
			set()
			body += string(encS(key)) + text
		} else {
			body += string(encS(key)) + "N;"
		}
	}
	part("p", "p", func() { v.P = &PM{out + "p"} }, out+"p")
	part("q", "q", func() { v.Q = &VM{out + "q"} }, out+"q")
	part("m", "m", func() { v.M = &PM{out + "m"} }, out+"m")
	part("x", "x", func() { v.X = pick[any]("dyn", VM{out + "x"}, &PM{out + "x"}) }, out+"x")
	n := 5
	if i := dig("i"); i != 0 {
		v.I = IM(i)
		body += `s:1:"i";s:2:"im";`
		n++
	}
	placed(v, "a:"+itoa(n)+":{"+body+"}")
}

// nil pointers and interfaces are null
func H_C14_nil() {
	switch sym.Choose("type", 4) {
	case 0:
		x, a, b := marPlace((*VM)(nil))
		marCheck(x, a, "N;", b)
	case 1:
		x, a, b := marPlace((*PM)(nil))
		marCheck(x, a, "N;", b)
	case 2:
		x, a, b := marPlace(Mar(nil))
		marCheck(x, a, "N;", b)
	case 3:
		x, a, b := marPlace((*Mar)(nil))
		marCheck(x, a, "N;", b)
	}
}

// one call for each occurrence
func H_C14_calls() {
	calls := 0
	v := CM{"N;", &calls}
	x, _, post := marPlace(v)
	want := 1
	if post == "|" {
		want = 2
	}
	enc(x)
	sym.Assert(calls == want, "MarshalPHP is not called exactly once")
}

// errors come back, without bytes
func H_C14_errors() {
	var x any
	switch sym.Choose("type", 4) {
	case 0:
		x, _, _ = marPlace(EM{1})
	case 1:
		x, _, _ = ptrPlace(EM{1})
	case 2:
		x, _, _ = marPlace(&EM{1})
	case 3:
		x, _, _ = marPlace(Mar(EM{1}))
	}
	if sym.Choose("deeper", 2) == 1 {
		x = map[string]any{"k": []any{1, x, 2}}
	}
	out, err := php.Marshal(x)
	sym.Assert(err != nil && errors.Is(err, errUser), "the error of MarshalPHP is lost")
	sym.Assert(out == nil, "bytes come with the error")
	// and the next call is not affected
	sym.Assert(same(enc([]int{1}), []byte("a:1:{i:0;i:1;}")), "wrong text after an error")
}
