package h

import (
	"errors"

	php "github.com/trim21/go-phpserialize"
	"verif/harness/sym"
)

// C19: histories of calls. Every step tests its own result, whatever came before it.

// types of this file only, so that a first use happens within the history

type hBad struct {
	A int      `php:"a"`
	C chan int `php:"c"`
}
type hWithBad struct {
	X int    `php:"x"`
	B *hBad  `php:"b"`
	L []hBad `php:"l"`
}
type hRec struct {
	V int              `php:"v"`
	N *hRec            `php:"n"`
	L []hRec           `php:"l"`
	M map[string]*hRec `php:"m"`
}
type hRecBad struct {
	N *hRecBad  `php:"n"`
	F func(int) `php:"f"`
}
type hDup struct {
	A int `php:"a"`
	B int `php:"a"`
}
type hOmit struct {
	A int    `php:"a,omitempty"`
	B *int   `php:"b,omitempty"`
	C string `php:"c"`
	D any    `php:"d,omitempty"`
}
type hQ struct {
	A int  `php:"a,string"`
	B bool `php:"b,string"`
}

// hNest is a Marshaler and Unmarshaler that makes calls itself.
type hNest struct{ X int }

func (n hNest) MarshalPHP() ([]byte, error) {
	b, err := php.Marshal([]any{n.X, map[string]int{"k": n.X}})
	if err != nil {
		return nil, err
	}
	if _, err := php.Marshal([]any{1, make(chan int)}); err == nil {
		return nil, errors.New("channel encoded")
	}
	return b, nil
}

func (n *hNest) UnmarshalPHP(b []byte) error {
	var v []any
	if err := php.Unmarshal(b, &v); err != nil {
		return err
	}
	if len(v) != 2 {
		return errors.New("wrong length")
	}
	x, ok := v[0].(int64)
	if !ok {
		return errors.New("wrong element")
	}
	var w int
	if php.Unmarshal([]byte("i:1"), &w) == nil {
		return errors.New("truncated text accepted")
	}
	n.X = int(x)
	return nil
}

// hPanic panics.
type hPanic struct{ N *int }

func (p hPanic) MarshalPHP() ([]byte, error) { return encI(*p.N), nil }

// hist are the steps.
var hist = []func(){
	func() { // plain values
		x := dig("x")
		sym.Assert(same(enc([]any{x, "ab"}), doc("a:2:{i:0;", string(encI(x)), `i:1;s:2:"ab";}`)), "wrong text")
	},
	func() { // longer than what the pools held before
		s := sym.Str("s", 2)
		v := map[string]any{"k": struct {
			A string
			B []any `php:"b"`
		}{s, []any{s, reps("x", 1100)}}}
		sym.Assert(same(enc(v), doc(`a:1:{s:1:"k";a:2:{s:1:"A";`, string(encS(s)), `s:1:"b";a:2:{i:0;`, string(encS(s)), `i:1;s:1100:"`, reps("x", 1100), `";}}}`)), "wrong text")
	},
	func() { // a cycle
		n := &RAny{V: 1}
		n.Next = []any{n}
		out, err := php.Marshal([]any{1, n})
		sym.Assert(out == nil && err != nil, "a cycle is encoded")
	},
	func() { // a cycle through a map
		m := map[string]any{}
		m["k"] = &m
		out, err := php.Marshal(m)
		sym.Assert(out == nil && err != nil, "a cycle is encoded")
	},
	func() { // a deep value
		sym.Steps(deepSteps)
		sym.Depth(60000)
		k := 1001
		acyclic(chain(k, &RNode{V: 1}), []byte(chainText(k, `a:2:{s:1:"v";i:1;s:4:"next";N;}`)))
	},
	func() { // a failing Marshaler behind text
		out, err := php.Marshal([]any{"abcdef", struct {
			A string
			E any
		}{"zz", EM{}}})
		sym.Assert(out == nil && errors.Is(err, errUser), "wrong error")
	},
	func() { // unsupported values, at once or late
		v := []any{make(chan int), []any{1, complex(1, 2)}, struct {
			A int
			B any
		}{1, func() {}}, map[string]any{"k": map[bool]int{}}}[sym.Choose("v", 4)]
		out, err := php.Marshal(v)
		sym.Assert(out == nil && err != nil, "unsupported value encoded")
	},
	func() { // unsupported types
		v := []any{hBad{}, &hWithBad{}, []hBad{{}}, &hRecBad{}, hRecBad{N: &hRecBad{}}}[sym.Choose("v", 5)]
		out, err := php.Marshal(v)
		sym.Assert(out == nil && err != nil, "unsupported type encoded")
	},
	func() { // unsupported destinations
		i := sym.Choose("p", 5)
		p := []any{new(hBad), new(hWithBad), new([]hBad), new(hRecBad), new(hDup)}[i]
		text := []string{`a:1:{s:1:"c";i:1;}`, `a:1:{s:1:"b";a:1:{s:1:"c";i:1;}}`, `a:1:{i:0;a:1:{s:1:"c";i:1;}}`, `a:1:{s:1:"f";i:1;}`, `a:1:{s:1:"a";i:1;}`}[i]
		isErr(php.Unmarshal([]byte(text), p), "unsupported destination accepted")
	},
	func() { // recursive types, encoded
		x := dig("x")
		ix := string(encI(x))
		v := &hRec{V: x, N: &hRec{V: x}, L: []hRec{{V: x}}}
		leaf := `a:4:{s:1:"v";` + ix + `s:1:"n";N;s:1:"l";N;s:1:"m";N;}`
		want := `a:4:{s:1:"v";` + ix + `s:1:"n";` + leaf + `s:1:"l";a:1:{i:0;` + leaf + `}s:1:"m";N;}`
		switch sym.Choose("as", 4) {
		case 0:
			sym.Assert(same(enc(v), []byte(want)), "wrong text")
		case 1:
			sym.Assert(same(enc(*v), []byte(want)), "wrong text")
		case 2:
			sym.Assert(same(enc([]*hRec{v}), doc("a:1:{i:0;", want, "}")), "wrong text")
		case 3:
			sym.Assert(same(enc(map[string]hRec{"k": *v}), doc(`a:1:{s:1:"k";`, want, "}")), "wrong text")
		}
	},
	func() { // recursive types, decoded
		x := dig("x")
		leaf := `a:1:{s:1:"v";` + string(encI(x)) + "}"
		text := `a:4:{s:1:"n";` + leaf + `s:1:"l";a:1:{i:0;` + leaf + `}s:1:"m";a:1:{s:1:"k";` + leaf + `}s:1:"v";` + string(encI(x)) + "}"
		var v hRec
		switch sym.Choose("as", 4) {
		case 0:
			v = dec[hRec]([]byte(text))
		case 1:
			v = *dec[*hRec]([]byte(text))
		case 2:
			v = dec[[]hRec](doc("a:1:{i:0;", text, "}"))[0]
		case 3:
			v = *dec[map[string]*hRec](doc(`a:1:{s:1:"k";`, text, "}"))["k"]
		}
		sym.Assert(sym.And(v.V == x, v.N.V == x), "wrong value")
		sym.Assert(len(v.L) == 1 && len(v.M) == 1, "wrong value")
		sym.Assert(sym.And(v.L[0].V == x, v.M["k"].V == x), "wrong value")
	},
	func() { // omitted fields
		x := dig("x")
		v := hOmit{A: x, C: "c"}
		n, a := 1, ""
		if x != 0 {
			n, a = 2, `s:1:"a";`+string(encI(x))
		}
		out := enc([]any{v, &v})
		w := "a:" + itoa(n) + ":{" + a + `s:1:"c";s:1:"c";}`
		sym.Assert(same(out, doc("a:2:{i:0;", w, "i:1;", w, "}")), "wrong text")
	},
	func() { // quoted fields, both ways
		x := dig("x")
		v := hQ{x, x > 4}
		out := enc(v)
		t := boolText(v.B)
		sym.Assert(same(out, doc(`a:2:{s:1:"a";s:1:"`, itoa(x), `";s:1:"b";s:`, itoa(len(t)), `:"`, t, `";}`)), "wrong text")
		w := dec[hQ](out)
		sym.Assert(w == v, "wrong value")
	},
	func() { // damaged text
		text := `a:2:{s:1:"k";a:1:{i:0;s:3:"abc";}s:1:"X";i:5;}`
		n := pick("n", 10, 26, 31, 35, 44)
		p := []any{new(any), new(Inner), new(Raw)}[sym.Choose("p", 3)]
		isErr(php.Unmarshal([]byte(text[:n]), p), "truncated text accepted")
	},
	func() { // any
		x := dig("x")
		v := dec[any](doc(`a:2:{i:0;O:1:"C":1:{s:1:"k";`, string(encI(x)), "}i:1;N;}"))
		m, ok := v.(map[any]any)
		sym.Assert(ok && len(m) == 2, "wrong value")
		o, ok := m[int64(0)].(map[string]any)
		sym.Assert(ok && len(o) == 1 && o["k"] == any(int64(x)) && m[int64(1)] == nil, "wrong value")
	},
	func() { // typed values
		x := dig("x")
		ix := string(encI(x))
		v := dec[Deep](doc(`a:3:{s:1:"s";a:2:{i:1;a:1:{s:1:"X";`, ix, `}i:0;N;}s:2:"mi";a:1:{`, ix, `s:1:"z";}s:2:"pp";`, ix, "}"))
		sym.Assert(len(v.S) == 2 && v.S[1].X == x && v.S[0].X == 0 && v.Pp != nil && *v.Pp == x && v.N == nil && v.Mp == nil, "wrong value")
	},
	func() { // a failing Unmarshaler and mismatches
		switch sym.Choose("case", 4) {
		case 0:
			var v []RawErr
			sym.Assert(errors.Is(php.Unmarshal([]byte(`a:2:{i:0;s:1:"x";i:1;i:5;}`), &v), errUser), "wrong error")
		case 1:
			decErr[map[string]int]([]byte(`a:2:{s:1:"a";i:1;s:1:"b";s:1:"c";}`), "string for an int accepted")
		case 2:
			decErr[int8]([]byte("i:300;"), "out of range accepted")
		case 3:
			decErr[[]Flat]([]byte(`a:2:{i:0;a:1:{s:1:"a";i:1;}i:1;a:1:{s:1:"c";i:1;}}`), "int for a bool accepted")
		}
	},
	func() { // too deep
		sym.Steps(400_000_000)
		sym.Depth(400_000)
		var v any
		isErr(php.Unmarshal([]byte(reps("a:1:{i:0;", 10001)), &v), "too deep accepted")
	},
	func() { // calls within calls
		x := dig("x")
		ix := string(encI(x))
		t := "a:2:{i:0;" + ix + `i:1;a:1:{s:1:"k";` + ix + "}}"
		v := []any{hNest{x}, struct {
			A string
			N hNest
			P *hNest
		}{"a", hNest{x}, &hNest{x}}, map[string]hNest{"k": {x}}}
		want := doc("a:3:{i:0;", t, `i:1;a:3:{s:1:"A";s:1:"a";s:1:"N";`, t, `s:1:"P";`, t, `}i:2;a:1:{s:1:"k";`, t, "}}")
		sym.Assert(same(enc(v), want), "wrong text")
		w := dec[[]struct {
			S string
			N hNest
			P *hNest
		}](doc(`a:1:{i:0;a:3:{s:1:"N";`, t, `s:1:"P";`, t, `s:1:"S";s:2:"ab";}}`))
		sym.Assert(len(w) == 1 && w[0].N.X == x && w[0].P.X == x && w[0].S == "ab", "wrong value")
	},
	func() { // a panicking Marshaler
		func() {
			defer func() { recover() }()
			_, _ = php.Marshal([]any{"abc", struct{ A, B any }{"def", hPanic{}}})
			sym.Fail("a panic of a Marshaler is lost")
		}()
	},
	func() { // not a pointer, nil
		isErr(php.Unmarshal([]byte("i:1;"), 5), "no pointer accepted")
		isErr(php.Unmarshal([]byte("i:1;"), nil), "nil accepted")
		isErr(php.Unmarshal([]byte("i:1;"), (*int)(nil)), "nil pointer accepted")
		isErr(php.Unmarshal(nil, new(int)), "empty text accepted")
		sym.Assert(same(enc(nil), []byte("N;")), "wrong text")
	},
	func() { // maps
		x := dig("x")
		sym.Assert(same(enc(map[int]any{x: map[string]*int{"k": &x}}), doc("a:1:{", string(encI(x)), `a:1:{s:1:"k";`, string(encI(x)), "}}")), "wrong text")
	},
	func() { // shared values
		x := dig("x")
		p := &Inner{X: x}
		t := string(encInner(*p))
		sym.Assert(same(enc([]any{p, []*Inner{p, p}, p}), doc("a:3:{i:0;", t, "i:1;a:2:{i:0;", t, "i:1;", t, "}i:2;", t, "}")), "wrong text")
	},
}

// every two steps
func H_C19_pairs() {
	hist[sym.Choose("first", len(hist))]()
	hist[sym.Choose("second", len(hist))]()
}

// every three cheap steps; the last one twice
func H_C19_triples() {
	if sym.Scale("long", 0, 1) == 0 {
		return
	}
	for _, n := range []string{"first", "second", "third"} {
		i := sym.Choose(n, len(hist))
		sym.Assume(i != 4 && i != 17)
		hist[i]()
	}
}
