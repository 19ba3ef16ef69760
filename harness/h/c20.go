package h

import (
	"errors"

	php "github.com/trim21/go-phpserialize"
	"verif/harness/sym"
)

// C20: concurrent calls. Every call tests its own result; inputs are drawn before the
// goroutines start.

type cRec struct {
	V int              `php:"v"`
	N *cRec            `php:"n"`
	L []cRec           `php:"l"`
	M map[string]*cRec `php:"m"`
}
type cMix struct {
	A int             `php:"a,omitempty"`
	B *string         `php:"b"`
	C any             `php:"c"`
	D map[string]cSub `php:"d"`
	E []cSub          `php:"e"`
	Q int             `php:"q,string"`
}
type cSub struct {
	X int
	P *cSub `php:"p"`
}

var concs = []func(x int) func(){
	func(x int) func() { // recursive type
		return func() {
			ix := string(encI(x))
			leaf := `a:4:{s:1:"v";` + ix + `s:1:"n";N;s:1:"l";N;s:1:"m";N;}`
			sym.Assert(same(enc(&cRec{V: x, N: &cRec{V: x}}), doc(`a:4:{s:1:"v";`, ix, `s:1:"n";`, leaf, `s:1:"l";N;s:1:"m";N;}`)), "wrong text")
		}
	},
	func(x int) func() {
		return func() {
			ix := string(encI(x))
			sym.Assert(same(enc(map[string]*cRec{"k": {V: x}}), doc(`a:1:{s:1:"k";a:4:{s:1:"v";`, ix, `s:1:"n";N;s:1:"l";N;s:1:"m";N;}}`)), "wrong text")
		}
	},
	func(x int) func() {
		return func() {
			s := "s"
			ix := string(encI(x))
			v := cMix{B: &s, C: []any{x}, D: map[string]cSub{"k": {X: x}}, E: []cSub{{X: x}}, Q: x}
			sub := `a:2:{s:1:"X";` + ix + `s:1:"p";N;}`
			sym.Assert(same(enc(v), doc(`a:5:{s:1:"b";s:1:"s";s:1:"c";a:1:{i:0;`, ix, `}s:1:"d";a:1:{s:1:"k";`, sub, `}s:1:"e";a:1:{i:0;`, sub, `}s:1:"q";s:1:"`, itoa(x), `";}`)), "wrong text")
		}
	},
	func(x int) func() {
		return func() {
			ix := string(encI(x))
			sym.Assert(same(enc([]any{x, "abc", cSub{X: x}}), doc("a:3:{i:0;", ix, `i:1;s:3:"abc";i:2;a:2:{s:1:"X";`, ix, `s:1:"p";N;}}`)), "wrong text")
		}
	},
	func(x int) func() { // failing
		return func() {
			out, err := php.Marshal([]any{"abc", cSub{X: x}, EM{}})
			sym.Assert(out == nil && errors.Is(err, errUser), "wrong error")
		}
	},
	func(x int) func() {
		return func() {
			out, err := php.Marshal([]any{x, struct {
				A cSub
				C chan int
			}{}})
			sym.Assert(out == nil && err != nil, "unsupported value encoded")
		}
	},
	func(x int) func() { // decoding
		return func() {
			ix := string(encI(x))
			v := dec[cRec](doc(`a:2:{s:1:"n";a:1:{s:1:"v";`, ix, `}s:1:"l";a:1:{i:0;a:1:{s:1:"v";`, ix, `}}}`))
			sym.Assert(v.N.V == x && v.L[0].V == x && v.V == 0, "wrong value")
		}
	},
	func(x int) func() {
		return func() {
			ix := string(encI(x))
			v := dec[map[string]*cRec](doc(`a:1:{s:1:"k";a:1:{s:1:"v";`, ix, `}}`))
			sym.Assert(len(v) == 1 && v["k"].V == x, "wrong value")
		}
	},
	func(x int) func() {
		return func() {
			ix := string(encI(x))
			sub := `a:1:{s:1:"X";` + ix + `}`
			v := dec[cMix](doc(`a:5:{s:1:"b";s:1:"s";s:1:"u";a:1:{i:0;N;}s:1:"c";`, sub, `s:1:"d";a:1:{s:1:"k";`, sub, `}s:1:"q";s:1:"`, itoa(x), `";}`))
			sym.Assert(*v.B == "s" && v.D["k"].X == x && v.Q == x, "wrong value")
			m := v.C.(map[any]any)
			sym.Assert(len(m) == 1 && m["X"] == any(int64(x)), "wrong value")
		}
	},
	func(x int) func() {
		return func() {
			v := dec[any](doc("a:2:{i:0;", string(encI(x)), `i:1;O:1:"C":1:{s:1:"k";b:1;}}`)).(map[any]any)
			o := v[int64(1)].(map[string]any)
			sym.Assert(len(v) == 2 && v[int64(0)] == any(int64(x)) && o["k"] == any(true), "wrong value")
		}
	},
	func(x int) func() { // failing
		return func() {
			decErr[cRec](doc(`a:2:{s:1:"n";a:1:{s:1:"v";`, string(encI(x)), `}s:1:"l";a:1:{i:0;b:1;}}`), "mismatch accepted")
		}
	},
	func(x int) func() {
		return func() {
			decErr[struct {
				A *cRec
				C chan int
			}](doc(`a:2:{s:1:"A";a:1:{s:1:"v";`, string(encI(x)), `}s:1:"C";i:1;}`), "unsupported destination accepted")
		}
	},
	func(x int) func() { // raw and custom
		return func() {
			ix := string(encI(x))
			v := dec[[]Raw](doc("a:2:{i:0;", ix, "i:1;a:1:{i:0;", ix, "}}"))
			sym.Assert(len(v) == 2 && v[0].B == ix && v[1].B == "a:1:{i:0;"+ix+"}", "wrong value")
			sym.Assert(string(enc([]any{VM{ix}, &PM{ix}})) == "a:2:{i:0;"+ix+"i:1;"+ix+"}", "wrong text")
		}
	},
	func(x int) func() { // long texts
		return func() {
			sym.Assert(same(enc([]string{reps("x", 1030), itoa(x)}), doc(`a:2:{i:0;s:1030:"`, reps("x", 1030), `";i:1;s:1:"`, itoa(x), `";}`)), "wrong text")
		}
	},
}

func concurrent(fs ...func()) {
	if sym.Native() {
		gate := sym.Gate(len(fs))
		for i, f := range fs {
			fs[i] = func() { gate(); f() }
		}
	}
	done := make(chan bool, len(fs))
	for _, f := range fs[1:] {
		go func() {
			f()
			done <- true
		}()
	}
	fs[0]()
	for range fs[1:] {
		<-done
	}
}

// two calls on first use of their types
func H_C20_cold() {
	sym.Preempt(sym.Scale("preempt", 1, 2))
	a := concs[sym.Choose("a", len(concs))](dig("x"))
	b := concs[sym.Choose("b", len(concs))](dig("y"))
	concurrent(a, b)
}

// two calls with warm caches and pools
func H_C20_warm() {
	sym.Preempt(sym.Scale("preempt", 1, 2))
	x, y := dig("x"), dig("y")
	i, j := sym.Choose("a", len(concs)), sym.Choose("b", len(concs))
	concs[i](1)()
	concs[j](2)()
	concurrent(concs[i](x), concs[j](y))
}

// the same type twice, more preemptions
func H_C20_same() {
	sym.Preempt(sym.Scale("preempt", 2, 3))
	x, y := dig("x"), dig("y")
	i := sym.Choose("a", len(concs))
	if sym.Choose("warm", 2) == 1 {
		concs[i](1)()
	}
	concurrent(concs[i](x), concs[i](y))
}

// three goroutines
func H_C20_three() {
	sym.Preempt(sym.Scale("preempt", 0, 1))
	x, y := dig("x"), dig("y")
	a := concs[sym.Choose("a", len(concs))](x)
	b := concs[sym.Choose("b", len(concs))](y)
	c := concs[pick("c", 0, 4, 6, 9)](x)
	concurrent(a, b, c)
}

// a sequence in each goroutine
func H_C20_sequences() {
	sym.Preempt(sym.Scale("preempt", 1, 2))
	x, y := dig("x"), dig("y")
	i, j := sym.Choose("a", len(concs)), sym.Choose("b", len(concs))
	a1, a2 := concs[i](x), concs[j](y)
	b1, b2 := concs[j](x), concs[i](y)
	concurrent(func() { a1(); a2() }, func() { b1(); b2() })
}
