package h

import (
	"reflect"
	"strconv"

	php "github.com/trim21/go-phpserialize"
	"verif/harness/sym"
)

// ---- C16: cycles and shared values through every kind of named recursive type

type (
	cSlArr  [][1]cSlArr
	cSlArr2 [][2][1]cSlArr2
	cMpArr  map[string][1]cMpArr
	cMpSl   map[int][]cMpSl
	cSlMp   []map[string]cSlMp
	cSlSt   []struct {
		X int
		L cSlSt
	}
	cMpSt map[string]struct {
		L cMpSt `php:"l,omitempty"`
	}
	cArrPtr [1]*cArrPtr
	cPtrArr *[1]cPtrArr
	cSlPtr  []*cSlPtr
	cMpPtr  map[string]*cMpPtr
	cStSl   struct {
		L []cStSl `php:"l"`
	}
	cStMp struct {
		M map[string]cStMp `php:"m"`
	}
	cStArr struct {
		A [1]*cStArr `php:"a"`
	}
	cStSlArr struct {
		A [][1]cStSlArr `php:"a"`
	}
	cFace  interface{ isFace() }
	cFaceN struct {
		F cFace `php:"f"`
	}
	cFaceS    []cFace
	cFaceM    map[string]cFace
	cNAny     any
	cNAnyS    []cNAny
	cStPtrArr struct{ P *[1]cStPtrArr }
	cStPtrAny struct{ P *any }
	cStPtrFac struct{ P *cFace }
	cStPtrSl  struct{ P *[]cStPtrSl }
	cStPtrMp  struct{ P *map[string]cStPtrMp }
)

func (cStPtrFac) isFace() {}

func (*cFaceN) isFace() {}
func (cFaceS) isFace()  {}
func (cFaceM) isFace()  {}

const in0, ink, inP = "a:1:{i:0;", `a:1:{s:1:"k";`, `a:1:{s:1:"P";`

// aLoop is a value of a recursive type, k levels deep or (k < 0) cyclic with a cycle of -k levels.
func aLoop(k int) (v any, text string) {
	cyc := k < 0
	if cyc {
		k = -k
	}
	text = "N;"
	frame := func(pre, post string) {
		for i := 0; i < k; i++ {
			text = pre + text + post
		}
	}
	switch sym.Choose("loop", 32) {
	case 0:
		first := cSlArr{{}}
		last := first
		for i := 1; i < k; i++ {
			n := cSlArr{{}}
			last[0][0] = n
			last = n
		}
		if cyc {
			last[0][0] = first
		}
		v = first
		frame(in0+in0, "}}")
	case 1:
		first := cSlArr2{{}}
		last := first
		for i := 1; i < k; i++ {
			n := cSlArr2{{}}
			last[0][1][0] = n
			last = n
		}
		if cyc {
			last[0][1][0] = first
		}
		v = first
		frame(in0+"a:2:{i:0;a:1:{i:0;N;}i:1;a:1:{i:0;", "}}}")
	case 2:
		first := cMpArr{}
		last := first
		for i := 1; i < k; i++ {
			n := cMpArr{}
			last["k"] = [1]cMpArr{n}
			last = n
		}
		last["k"] = [1]cMpArr{}
		if cyc {
			last["k"] = [1]cMpArr{first}
		}
		v = first
		frame(ink+in0, "}}")
	case 3:
		first := cMpSl{}
		last := first
		for i := 1; i < k; i++ {
			n := cMpSl{}
			last[0] = []cMpSl{n}
			last = n
		}
		last[0] = []cMpSl{nil}
		if cyc {
			last[0][0] = first
		}
		v = first
		frame(in0+in0, "}}")
	case 4:
		first := cSlMp{{}}
		last := first
		for i := 1; i < k; i++ {
			n := cSlMp{{}}
			last[0]["k"] = n
			last = n
		}
		last[0]["k"] = nil
		if cyc {
			last[0]["k"] = first
		}
		v = first
		frame(in0+ink, "}}")
	case 5:
		first := make(cSlSt, 1)
		last := first
		for i := 1; i < k; i++ {
			n := make(cSlSt, 1)
			last[0].L = n
			last = n
		}
		if cyc {
			last[0].L = first
		}
		v = first
		frame(in0+`a:2:{s:1:"X";i:0;s:1:"L";`, "}}")
	case 6:
		first := cMpSt{}
		last := first
		for i := 1; i < k; i++ {
			n := cMpSt{}
			e := last["k"]
			e.L = n
			last["k"] = e
			last = n
		}
		e := last["k"]
		last["k"] = e
		if cyc {
			e.L = first
			last["k"] = e
		}
		v = first
		text = ink + "a:0:{}}"
		for i := 1; i < k; i++ {
			text = ink + `a:1:{s:1:"l";` + text + "}}"
		}
	case 7:
		first := &cArrPtr{}
		last := first
		for i := 1; i < k; i++ {
			n := &cArrPtr{}
			last[0] = n
			last = n
		}
		if cyc {
			last[0] = first
		}
		v = pick[any]("as", first, *first)
		frame(in0, "}")
	case 8:
		first := new([1]cPtrArr)
		last := first
		for i := 1; i < k; i++ {
			n := new([1]cPtrArr)
			last[0] = n
			last = n
		}
		if cyc {
			last[0] = first
		}
		v = pick[any]("as", first, cPtrArr(first), *first)
		frame(in0, "}")
	case 9:
		first := &cSlPtr{nil}
		last := first
		for i := 1; i < k; i++ {
			n := &cSlPtr{nil}
			(*last)[0] = n
			last = n
		}
		if cyc {
			(*last)[0] = first
		}
		v = pick[any]("as", first, *first)
		frame(in0, "}")
	case 10:
		first := &cMpPtr{}
		last := first
		for i := 1; i < k; i++ {
			n := &cMpPtr{}
			(*last)["k"] = n
			last = n
		}
		(*last)["k"] = nil
		if cyc {
			(*last)["k"] = first
		}
		v = pick[any]("as", first, *first)
		frame(ink, "}")
	case 11:
		first := cStSl{make([]cStSl, 1)}
		last := first.L
		for i := 1; i < k; i++ {
			last[0].L = make([]cStSl, 1)
			last = last[0].L
		}
		if cyc {
			last[0] = first
		}
		v = pick[any]("as", first, &first)
		text = `a:1:{s:1:"l";N;}`
		frame(`a:1:{s:1:"l";`+in0, "}}")
	case 12:
		first := cStMp{map[string]cStMp{}}
		last := first.M
		for i := 1; i < k; i++ {
			n := map[string]cStMp{}
			last["k"] = cStMp{n}
			last = n
		}
		last["k"] = cStMp{}
		if cyc {
			last["k"] = first
		}
		v = pick[any]("as", first, &first)
		text = `a:1:{s:1:"m";N;}`
		frame(`a:1:{s:1:"m";`+ink, "}}")
	case 13:
		first := &cStArr{}
		last := first
		for i := 1; i < k; i++ {
			n := &cStArr{}
			last.A[0] = n
			last = n
		}
		if cyc {
			last.A[0] = first
		}
		v = pick[any]("as", first, *first)
		frame(`a:1:{s:1:"a";`+in0, "}}")
	case 14:
		first := cStSlArr{make([][1]cStSlArr, 1)}
		last := first.A
		for i := 1; i < k; i++ {
			n := make([][1]cStSlArr, 1)
			last[0][0].A = n
			last = n
		}
		if cyc {
			last[0][0] = first
		}
		v = pick[any]("as", first, &first)
		text = `a:1:{s:1:"a";N;}`
		frame(`a:1:{s:1:"a";`+in0+in0, "}}}")
	case 15:
		first := &cFaceN{}
		last := first
		for i := 1; i < k; i++ {
			n := &cFaceN{}
			last.F = n
			last = n
		}
		if cyc {
			last.F = first
		}
		v = pick[any]("as", first, *first)
		frame(`a:1:{s:1:"f";`, "}")
	case 16:
		first := cFaceS{nil}
		last := first
		for i := 1; i < k; i++ {
			n := cFaceS{nil}
			last[0] = n
			last = n
		}
		if cyc {
			last[0] = first
		}
		v = first
		frame(in0, "}")
	case 17:
		first := cFaceM{}
		last := first
		for i := 1; i < k; i++ {
			n := cFaceM{}
			last["k"] = n
			last = n
		}
		last["k"] = nil
		if cyc {
			last["k"] = first
		}
		v = first
		frame(ink, "}")
	case 18:
		first := cNAnyS{nil}
		last := first
		for i := 1; i < k; i++ {
			n := cNAnyS{nil}
			last[0] = n
			last = n
		}
		if cyc {
			last[0] = first
		}
		v = first
		frame(in0, "}")
	case 19: // pointers to arrays of interfaces
		first := new([1]any)
		last := first
		for i := 1; i < k; i++ {
			n := new([1]any)
			last[0] = n
			last = n
		}
		if cyc {
			last[0] = first
		}
		v = first
		frame(in0, "}")
	case 20: // pointers to interfaces
		first := new(any)
		last := first
		for i := 1; i < k; i++ {
			n := new(any)
			*last = []any{n}
			last = n
		}
		if cyc {
			*last = []any{first}
		}
		v = first
		for i := 1; i < k; i++ {
			text = in0 + text + "}"
		}
	case 21: // maps of slices of interfaces
		first := map[int][]any{0: {nil}}
		last := first
		for i := 1; i < k; i++ {
			n := map[int][]any{0: {nil}}
			last[0][0] = n
			last = n
		}
		if cyc {
			last[0][0] = first
		}
		v = first
		frame(in0+in0, "}}")
	case 22: // pointers to arrays, slices, maps and interfaces as fields
		cells := make([][1]cStPtrArr, k)
		for i := 1; i < k; i++ {
			cells[i-1][0].P = &cells[i]
		}
		if cyc {
			cells[k-1][0].P = &cells[0]
		}
		v, text = cStPtrArr{&cells[0]}, inP+"N;}"
		frame(inP+in0, "}}")
	case 23:
		cells := make([]any, k+1)
		for i := range k {
			cells[i] = cStPtrAny{&cells[i+1]}
		}
		if cyc {
			cells[k-1] = cStPtrAny{&cells[0]}
		}
		v = cStPtrAny{&cells[0]}
		text = inP + "N;}"
		frame(inP, "}")
	case 24:
		cells := make([]cFace, k+1)
		for i := range k {
			cells[i] = cStPtrFac{&cells[i+1]}
		}
		if cyc {
			cells[k-1] = cStPtrFac{&cells[0]}
		}
		v = &cells[0]
		frame(inP, "}")
	case 25:
		cells := make([][]cStPtrSl, k)
		for i := range k {
			cells[i] = []cStPtrSl{{}}
		}
		for i := 1; i < k; i++ {
			cells[i-1][0].P = &cells[i]
		}
		if cyc {
			cells[k-1][0].P = &cells[0]
		}
		v, text = cStPtrSl{&cells[0]}, inP+"N;}"
		frame(inP+in0, "}}")
	case 26:
		cells := make([]map[string]cStPtrMp, k)
		for i := k - 1; i >= 0; i-- {
			cells[i] = map[string]cStPtrMp{"k": {}}
			if i < k-1 {
				cells[i]["k"] = cStPtrMp{&cells[i+1]}
			}
		}
		if cyc {
			cells[k-1]["k"] = cStPtrMp{&cells[0]}
		}
		v, text = cStPtrMp{&cells[0]}, inP+"N;}"
		frame(inP+ink, "}}")
	case 27: // pointers to interfaces as elements
		cells := make([]any, k+1)
		for i := range k {
			cells[i] = [1]*any{&cells[i+1]}
		}
		if cyc {
			cells[k-1] = [1]*any{&cells[0]}
		}
		v = cells[0]
		frame(in0, "}")
	case 28:
		cells := make([]any, k+1)
		for i := range k {
			cells[i] = map[string]*any{"k": &cells[i+1]}
		}
		if cyc {
			cells[k-1] = map[string]*any{"k": &cells[0]}
		}
		v = cells[0]
		frame(ink, "}")
	case 29: // pointers in interfaces
		cells := make([][1]any, k)
		for i := 1; i < k; i++ {
			cells[i-1][0] = &cells[i]
		}
		if cyc {
			cells[k-1][0] = &cells[0]
		}
		v = &cells[0]
		frame(in0, "}")
	case 30:
		cells := make([]map[string]any, k)
		for i := range k {
			cells[i] = map[string]any{"k": nil}
			if i > 0 {
				cells[i-1]["k"] = &cells[i]
			}
		}
		if cyc {
			cells[k-1]["k"] = &cells[0]
		}
		v = cells[0]
		frame(ink, "}")
	case 31:
		cells := make([]struct{ P any }, k)
		for i := 1; i < k; i++ {
			cells[i-1].P = &cells[i]
		}
		if cyc {
			cells[k-1].P = &cells[0]
		}
		v = cells[0]
		frame(inP, "}")
	}
	return
}

func H_C16_types() {
	k := pick("k", 1, 2, 3, -1, -2, -3)
	v, text := aLoop(k)
	in := sym.Choose("in", 6)
	switch in {
	case 1:
		v, text = []any{1, v}, "a:2:{i:0;i:1;i:1;"+text+"}"
	case 2:
		v, text = struct{ A, B any }{v, v}, string(fields("A", text, "B", text))
	case 3:
		v, text = map[string]any{"k": v}, ink+text+"}"
	case 4:
		w := v
		v = &w
	case 5:
		w := v
		v, text = [2]any{nil, &w}, "a:2:{i:0;N;i:1;"+text+"}"
	}
	if k < 0 {
		cyclic(v)
		acyclic([]any{1, []int{2}}, []byte("a:2:{i:0;i:1;i:1;a:1:{i:0;i:2;}}"))
		return
	}
	acyclic(v, []byte(text))
}

// the same values, deep enough to be tracked
func H_C16_types_deep() {
	v, text := aLoop(pick("k", 503, 1003))
	acyclic(v, []byte(text))
}

// ---- C19: types of the same name

func nameTypes() []func(x int) (v any, text string, dst any, check func() bool) {
	return []func(x int) (any, string, any, func() bool){
		func(x int) (any, string, any, func() bool) {
			type I struct{ X int }
			type L struct {
				A I
				N *L `php:"n,omitempty"`
			}
			d := new(L)
			return L{A: I{x}}, `a:1:{s:1:"A";a:1:{s:1:"X";` + string(encI(x)) + "}}", d, func() bool { return d.A.X == x }
		},
		func(x int) (any, string, any, func() bool) {
			type I struct {
				X string
				Y int `php:"y"`
			}
			type L struct {
				A I
				N *L `php:"n,omitempty"`
			}
			d := new(L)
			return L{A: I{"s", x}}, `a:1:{s:1:"A";a:2:{s:1:"X";s:1:"s";s:1:"y";` + string(encI(x)) + "}}", d, func() bool { return d.A == I{"s", x} }
		},
		func(x int) (any, string, any, func() bool) {
			type I struct{ X int }
			type L struct {
				A I  `php:"b"`
				N *L `php:"A,omitempty"`
			}
			d := new(L)
			return L{A: I{x}}, `a:1:{s:1:"b";a:1:{s:1:"X";` + string(encI(x)) + "}}", d, func() bool { return d.A.X == x }
		},
		func(x int) (any, string, any, func() bool) {
			type I int
			type L []I
			d := new(L)
			return L{I(x)}, in0 + string(encI(x)) + "}", d, func() bool { return len(*d) == 1 && (*d)[0] == I(x) }
		},
		func(x int) (any, string, any, func() bool) {
			type I string
			type L []I
			d := new(L)
			return L{I(itoa(x))}, in0 + string(encS(itoa(x))) + "}", d, func() bool { return len(*d) == 1 && (*d)[0] == I(itoa(x)) }
		},
		func(x int) (any, string, any, func() bool) {
			type I uint8
			type L map[I]I
			d := new(L)
			return L{1: I(x)}, "a:1:{i:1;" + string(encI(x)) + "}", d, func() bool { return len(*d) == 1 && (*d)[1] == I(x) }
		},
		func(x int) (any, string, any, func() bool) {
			type I bool
			type L map[string]I
			d := new(L)
			return L{"k": I(x > 4)}, ink + string(encB(x > 4)) + "}", d, func() bool { return len(*d) == 1 && (*d)["k"] == I(x > 4) }
		},
		func(x int) (any, string, any, func() bool) {
			type L int64
			d := new(L)
			return L(x), string(encI(x)), d, func() bool { return *d == L(x) }
		},
		func(x int) (any, string, any, func() bool) {
			type L string
			d := new(L)
			return L(itoa(x)), string(encS(itoa(x))), d, func() bool { return *d == L(itoa(x)) }
		},
		func(x int) (any, string, any, func() bool) {
			type I struct{ X, Y int }
			type L [1]I
			d := new(L)
			return L{{x, 1}}, in0 + `a:2:{s:1:"X";` + string(encI(x)) + `s:1:"Y";i:1;}}`, d, func() bool { return d[0] == I{x, 1} }
		},
		func(x int) (any, string, any, func() bool) {
			type I struct{ Y, X int }
			type L [1]I
			d := new(L)
			return L{{x, 1}}, in0 + `a:2:{s:1:"Y";` + string(encI(x)) + `s:1:"X";i:1;}}`, d, func() bool { return d[0] == I{x, 1} }
		},
		func(x int) (any, string, any, func() bool) {
			type L struct {
				A int `php:",string"`
			}
			d := new(L)
			return L{x}, `a:1:{s:1:"A";` + string(encS(itoa(x))) + "}", d, func() bool { return d.A == x }
		},
		func(x int) (any, string, any, func() bool) {
			type L struct {
				A int `php:",omitempty"`
			}
			d := new(L)
			return L{x + 1}, `a:1:{s:1:"A";` + string(encI(x+1)) + "}", d, func() bool { return d.A == x+1 }
		},
	}
}

func H_C19_names() {
	ts := nameTypes()
	for _, n := range []string{"first", "second"} {
		x := dig("x")
		v, text, dst, check := ts[sym.Choose(n, len(ts))](x)
		how := sym.Choose(n+"how", 3)
		switch how {
		case 0:
			sym.Assert(same(enc(v), []byte(text)), "the text of a type depends on another type's")
		case 1:
			noErr(php.Unmarshal([]byte(text), dst), "a text is rejected after another type's")
			sym.Assert(check(), "the value of a type depends on another type's")
		case 2:
			sym.Assert(same(enc([]any{v, &v}), doc("a:2:{i:0;", text, "i:1;", text, "}")), "the text of a type depends on another type's")
		}
	}
}

// many types, then all of them once more
func H_C19_types() {
	n := sym.Scale("types", 140, 600)
	step := pick("kind", 0, 1, 2)
	x := dig("x")
	typ := func(i int) reflect.Type {
		switch step {
		case 0:
			return reflect.ArrayOf(i+1, reflect.TypeOf(0))
		case 1:
			return reflect.StructOf([]reflect.StructField{{Name: "F" + itoa(i), Type: reflect.TypeOf(0)}})
		}
		return reflect.MapOf(reflect.TypeOf(0), reflect.ArrayOf(i+1, reflect.TypeOf("")))
	}
	each := func(i int) {
		t := typ(i)
		v := reflect.New(t)
		text := ""
		switch step {
		case 0:
			if i > 4 && i < n-4 {
				return
			}
			v.Elem().Index(i).SetInt(int64(x))
			l := make([]int, i+1)
			l[i] = x
			text = string(encSl(l, encI[int]))
		case 1:
			v.Elem().Field(0).SetInt(int64(x))
			text = string(fields("F"+itoa(i), string(encI(x))))
		case 2:
			v.Elem().Set(reflect.MakeMap(t))
			text = "a:0:{}"
		}
		sym.Assert(same(enc(v.Elem().Interface()), []byte(text)), "wrong text after many types")
		w := reflect.New(t)
		noErr(php.Unmarshal([]byte(text), w.Interface()), "rejected after many types")
		sym.Assert(same(enc(w.Interface()), []byte(text)), "wrong value after many types")
	}
	sym.Steps(deepSteps)
	for i := 0; i < n; i++ {
		each(i)
	}
	for _, i := range []int{0, 1, n / 2, n - 1} {
		each(i)
	}
}

// one call very often
func H_C19_often() {
	n := sym.Scale("times", 300, 1200)
	sym.Steps(deepSteps)
	x := dig("x")
	ix := string(encI(x))
	k := sym.Choose("call", 9)
	for i := 0; i < n; i++ {
		switch k {
		case 0:
			out, err := php.Marshal([]any{"abc", struct{ C any }{make(chan int)}})
			sym.Assert(out == nil && err != nil, "unsupported value encoded")
		case 1:
			out, err := php.Marshal(map[string]any{"k": &Inner{X: x}, "e": EM{}})
			sym.Assert(out == nil && err != nil, "a failing Marshaler is ignored")
		case 2:
			sym.Assert(string(enc(&RNode{V: 1, Next: &RNode{V: 2}})) == `a:2:{s:1:"v";i:1;s:4:"next";a:2:{s:1:"v";i:2;s:4:"next";N;}}`, "a call depends on many others")
		case 3:
			var v any
			noErr(php.Unmarshal([]byte(`a:1:{i:0;a:1:{i:0;s:1:"x";}}`), &v), "a call depends on many others")
		case 4:
			var v Inner
			isErr(php.Unmarshal([]byte(`a:1:{s:1:"u";a:1:{i:0;x}}`), &v), "malformed text accepted")
		case 5:
			var v []Raw
			noErr(php.Unmarshal([]byte(`a:1:{i:0;a:1:{i:0;s:1:"x";}}`), &v), "a call depends on many others")
		case 6:
			out, err := php.Marshal([]*hBad{{}})
			sym.Assert(out == nil && err != nil, "unsupported type encoded")
		case 7:
			isErr(php.Unmarshal([]byte(`a:1:{s:1:"c";i:1;}`), new(hBad)), "unsupported destination accepted")
		case 8:
			func() {
				defer func() { recover() }()
				_, _ = php.Marshal([]any{"abc", &struct{ A, B any }{"def", hPanic{}}})
				sym.Fail("a panic of a Marshaler is lost")
			}()
		}
	}
	sym.Assert(same(enc([]any{&Inner{X: x, Y: "y"}, []any{x}}), doc(`a:2:{i:0;a:2:{s:1:"X";`, ix, `s:1:"y";s:1:"y";}i:1;a:1:{i:0;`, ix, "}}")), "a call depends on many others")
	v := dec[[]Inner](doc(`a:1:{i:0;a:2:{s:1:"X";`, ix, `s:1:"u";a:1:{i:0;i:1;}}}`))
	sym.Assert(len(v) == 1 && v[0].X == x, "a call depends on many others")
}

// ---- C13: long quoted numbers with one wrong byte

func H_C13_long() {
	n := sym.Scale("from", 5, 1) + sym.Choose("n", sym.Scale("lens", 17, 24))
	i := sym.Choose("i", n)
	c := sym.Byte("c")
	d := pick("d", byte('1'), '0', '9')
	b := make([]byte, n)
	for j := range b {
		b[j] = d
	}
	b[i] = c
	bad := func(p any) {
		isErr(php.Unmarshal(doc(`a:1:{s:1:"v";`, string(encS(string(b))), "}"), p), "a quoted text that is no number is accepted")
	}
	sym.Assume(sym.Or(c < '0', c > '9'))
	switch sym.Choose("type", 5) {
	case 0:
		sym.Assume(sym.Or(i > 0, sym.And(c != '-', c != '+')))
		bad(new(struct {
			V int `php:"v,string"`
		}))
	case 1:
		sym.Assume(sym.Or(i > 0, c != '+'))
		bad(new(struct {
			V *uint64 `php:"v,string"`
		}))
	case 2:
		sym.Assume(sym.Or(i > 0, sym.And(c != '-', c != '+')))
		bad(new(struct {
			V int64 `php:"v,string"`
		}))
	case 3:
		sym.Assume(sym.Or(i > 0, c != '+'))
		bad(new(struct {
			V uint `php:"v,string"`
		}))
	case 4:
		for _, x := range []byte(".eE_xXpP+-bBoO") {
			sym.Assume(c != x)
		}
		bad(new(struct {
			V float64 `php:"v,string"`
		}))
	}
}

// ---- C05: large lists

func H_C05_lists() {
	n := pick("n", 1, 2, 7, 8, 9, 10, 16, 32, 50, 64, 99, 100, 101, 128, 256, 500, 1000, 1024)
	v := make([]int, n)
	x := dig("x")
	v[n/2] = x
	text := encSl(v, encI[int])
	place := sym.Choose("place", 4)
	var m any
	switch place {
	case 0:
		noErr(php.Unmarshal(text, &m), "rejected")
	case 1:
		w := dec[[]any](doc("a:2:{i:1;", string(text), "i:0;i:1;}"))
		sym.Assert(len(w) == 2, "wrong list")
		m = w[1]
	case 2:
		w := dec[any](doc(`O:1:"C":1:{s:1:"k";`, string(text), "}"))
		m = w.(map[string]any)["k"]
	case 3:
		w := dec[struct{ A any }](doc(`a:1:{s:1:"A";`, string(text), "}"))
		m = w.A
	}
	l, ok := m.(map[any]any)
	sym.Assert(ok, "an array in an interface is no map[any]any")
	sym.Assert(len(l) == n, "wrong number of entries")
	ok = true
	for i := range v {
		ok = sym.And(ok, l[int64(i)] == any(int64(v[i])))
	}
	sym.Assert(ok, "wrong entry")
}

// ---- C08: pointer keys

func ptrKeys[K comparable](a, b, c K, t func(K) []byte) {
	n := sym.Choose("n", 3) + 1
	ks := []K{a, b, c}[:n]
	d := encArr(nil, n)
	for i, k := range ks {
		d = append(append(d, t(k)...), encI(i)...)
	}
	d = append(d, '}')
	check := func(m map[*K]int) {
		sym.Assert(len(m) == n, "wrong number of entries")
		var got [3]bool
		for k, i := range m {
			sym.Assert(k != nil && i >= 0 && i < n, "wrong entry")
			sym.Assert(*k == ks[i], "wrong key")
			got[i] = true
		}
		for i := 0; i < n; i++ {
			sym.Assert(got[i], "an entry is missing")
		}
	}
	switch sym.Choose("place", 3) {
	case 0:
		check(dec[map[*K]int](d))
	case 1:
		var v struct {
			M map[*K]int `php:"m"`
		}
		noErr(php.Unmarshal(doc(`a:1:{s:1:"m";`, string(d), "}"), &v), "rejected")
		check(v.M)
	case 2:
		v := dec[[]map[*K]int](doc("a:2:{i:0;", string(d), "i:1;", string(d), "}"))
		sym.Assert(len(v) == 2, "wrong list")
		check(v[0])
		check(v[1])
	}
}

func H_C08_pointer_keys() {
	switch sym.Choose("key", 5) {
	case 0:
		ptrKeys(sym.Str("a", 1), sym.Str("b", 2), sym.Str("c", 1), encS)
	case 1:
		ptrKeys(dig("a"), -1-dig("b"), dig("c"), encI[int])
	case 2:
		ptrKeys(uint8(dig("a")), 200, 3, encU[uint8])
	case 3:
		ptrKeys(NStr(sym.Str("a", 1)), "b", "", func(s NStr) []byte { return encS(string(s)) })
	case 4:
		ptrKeys(sym.Bool("a"), true, false, encB)
	}
}

// ---- C21, C10: a value whose pointer has a MarshalPHP is encoded as a plain value, addressable or not

type (
	pmInt int
	pmSl  []int
	pmMp  map[string]int
	pmArr [1]int
	pmStr string
	pmIn  struct {
		A pmInt `php:"a"`
		B PM
		C pmSl
		D pmMp
		E pmArr
		F pmStr `php:"f,omitempty"`
		G int
	}
)

func (*pmInt) MarshalPHP() ([]byte, error) { return []byte("s:2:\"pm\";"), nil }
func (*pmSl) MarshalPHP() ([]byte, error)  { return []byte("s:2:\"pm\";"), nil }
func (*pmMp) MarshalPHP() ([]byte, error)  { return []byte("s:2:\"pm\";"), nil }
func (*pmArr) MarshalPHP() ([]byte, error) { return []byte("s:2:\"pm\";"), nil }
func (*pmStr) MarshalPHP() ([]byte, error) { return []byte("s:2:\"pm\";"), nil }

func addrCase[T any](v T, t string) {
	type S struct {
		A int
		V T
		Z [1]T
	}
	s := string(fields("A", "i:1;", "V", t, "Z", in0+t+"}"))
	x := S{1, v, [1]T{v}}
	var i any = x
	eq := func(v any, t string) {
		sym.Assert(same(enc(v), []byte(t)), "a value is encoded differently where it is addressable")
	}
	switch sym.Choose("place", 14) {
	case 0:
		eq(v, t)
	case 1:
		eq(x, s)
	case 2:
		eq(&x, s)
	case 3:
		eq([]T{v, v}, "a:2:{i:0;"+t+"i:1;"+t+"}")
	case 4:
		eq([1]T{v}, in0+t+"}")
	case 5:
		eq(&[1]T{v}, in0+t+"}")
	case 6:
		eq(&[]T{v}, in0+t+"}")
	case 7:
		eq(map[string]T{"k": v}, ink+t+"}")
	case 8:
		eq([]any{v, x, &x}, "a:3:{i:0;"+t+"i:1;"+s+"i:2;"+s+"}")
	case 9:
		eq(&i, s)
	case 10:
		eq([]S{x}, in0+s+"}")
	case 11:
		eq(map[string]*S{"k": &x}, ink+s+"}")
	case 12:
		eq(&struct{ I, J any }{v, x}, string(fields("I", t, "J", s)))
	case 13:
		eq(struct{ P *[]T }{&[]T{v}}, string(fields("P", in0+t+"}")))
	}
}

func H_C21_addr() {
	x := dig("x")
	ix := string(encI(x))
	switch sym.Choose("type", 7) {
	case 0:
		addrCase(pmInt(x), ix)
	case 1:
		addrCase(PM{itoa(x)}, string(fields("Out", string(encS(itoa(x))))))
	case 2:
		addrCase(pmSl{x}, in0+ix+"}")
	case 3:
		addrCase(pmMp{"k": x}, ink+ix+"}")
	case 4:
		addrCase(pmArr{x}, in0+ix+"}")
	case 5:
		addrCase(pmStr(itoa(x)), string(encS(itoa(x))))
	case 6:
		addrCase(pmIn{A: pmInt(x), B: PM{"o"}, C: pmSl{x}, D: pmMp{"k": x}, E: pmArr{x}, G: x},
			string(fields("a", ix, "B", string(fields("Out", `s:1:"o";`)), "C", in0+ix+"}", "D", ink+ix+"}", "E", in0+ix+"}", "G", ix)))
	}
}

func H_C10_addr() { H_C21_addr() }

// ---- C18: results of large calls

func H_C18_huge_result() {
	n := hugeSize()
	x := sym.Byte("x")
	s := []byte(reps("x", n))
	s[n-1] = x
	big := func() []byte {
		if sym.Choose("as", 2) == 0 {
			return enc(string(s))
		}
		return enc([]any{s})
	}
	var out, want []byte
	switch sym.Choose("order", 3) {
	case 0: // a large result
		out = big()
	case 1: // a small one behind a large one
		_ = big()
		out = enc([]any{"abc", int(x)})
	case 2: // a small one behind a large failing call
		o, err := php.Marshal([]any{string(s), make(chan int)})
		sym.Assert(o == nil && err != nil, "unsupported value encoded")
		out = enc([]any{"abc", int(x)})
	}
	want = append([]byte(nil), out...)
	switch sym.Choose("then", 4) {
	case 0:
		_ = enc("######")
	case 1:
		_ = enc(reps("#", n+5))
	case 2:
		_, _ = php.Marshal([]any{reps("#", n-5), make(chan int)})
	case 3:
		_ = enc(map[string]any{"#####": []any{"######", VM{"########"}}})
	}
	sym.Assert(same(out, want), "a later call changes the result of Marshal")
	scribble(out)
	sym.Assert(string(enc([]any{"ab", []int{5}})) == `a:2:{i:0;s:2:"ab";i:1;a:1:{i:0;i:5;}}`, "changing the result of Marshal changes a later call")
}

// ---- C03: float texts PHP writes

func H_C03_floats() {
	m := pick("m", "1", "3", "5", "9", "12", "25", "99", "123456", "2147483647", "4294967295", "4294967296", "9007199254740991", "9007199254740993", "18446744073709551615", "123456789012345678")
	z := sym.Choose("z", 22)
	neg := pick("neg", "", "-")
	t := neg + m
	switch sym.Choose("form", 6) {
	case 0:
		t += reps("0", z)
	case 1:
		t += reps("0", z) + ".5"
	case 2:
		t += ".0E+" + itoa(z)
	case 3:
		t += ".0E-" + itoa(z)
	case 4:
		t = neg + "0." + reps("0", z) + m
	case 5:
		t = neg + m[:1] + "." + m + "E+" + itoa(100+z)
	}
	d := "d:" + t + ";"
	f, _ := strconv.ParseFloat(t, 64)
	switch sym.Choose("dst", 6) {
	case 0:
		var v float64 = 7
		noErr(php.Unmarshal([]byte(d), &v), "a float is rejected")
		sym.Assert(sameBits(v, f), "wrong float")
	case 1:
		v := dec[any]([]byte(d))
		g, ok := v.(float64)
		sym.Assert(ok && sameBits(g, f), "wrong float")
	case 2:
		g, err := strconv.ParseFloat(t, 32)
		var v float32 = 7
		e := php.Unmarshal([]byte(d), &v)
		if err != nil {
			isErr(e, "a float out of range is accepted")
			return
		}
		noErr(e, "a float is rejected")
		sym.Assert(sameBits(v, float32(g)), "wrong float")
	case 3:
		v := dec[[]nF64]([]byte(in0 + d + "}"))
		sym.Assert(len(v) == 1 && sameBits(v[0], nF64(f)), "wrong float")
	case 4:
		v := dec[map[string]*float64]([]byte(ink + d + "}"))
		sym.Assert(len(v) == 1 && sameBits(*v["k"], f), "wrong float")
	case 5:
		v := dec[struct {
			F float64 `php:"f,string"`
		}](doc(`a:1:{s:1:"f";`, string(encS(t)), "}"))
		sym.Assert(sameBits(v.F, f), "wrong float")
	}
}

// ---- C10: maps with many entries

func H_C10_huge_maps() {
	n := pick("n", 254, 255, 256, 257, 300, 511, 999, 1000, 1025)
	m := map[int]string{}
	x := sym.Str("x", 1)
	for i := 0; i < n; i++ {
		m[i*3-7] = ""
	}
	m[n/2*3-7] = x
	switch sym.Choose("as", 3) {
	case 0:
		sym.Assert(entriesIntStr(enc(m), m), "a large map is encoded wrong")
	case 1:
		out := enc([]any{m})
		sym.Assert(len(out) > 10 && entriesIntStr(out[9:len(out)-1], m), "a large map is encoded wrong")
	case 2:
		a := map[int16]any{}
		for k, s := range m {
			a[int16(k)] = s
		}
		sym.Assert(entriesIntStr(enc(a), m), "a large map is encoded wrong")
	}
}
