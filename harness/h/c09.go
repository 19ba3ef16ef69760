package h

import (
	php "github.com/trim21/go-phpserialize"
	"verif/harness/sym"
)

// C09: null

// nullCase decodes null over old in every position; want is what the destination then holds.
func nullCase[T any](old, want T, eq func(a, b T) bool) {
	var zero T
	switch sym.Choose("place", 11) {
	case 0:
		v := old
		noErr(php.Unmarshal([]byte("N;"), &v), "null rejected")
		sym.Assert(eq(v, want), "wrong value after null")
	case 1:
		var s = struct {
			A int `php:"a"`
			V T   `php:"v"`
			Z int `php:"z"`
		}{7, old, 9}
		in := pick("in", `a:3:{s:1:"a";i:1;s:1:"v";N;s:1:"z";i:2;}`, `a:3:{s:1:"v";N;s:1:"z";i:2;s:1:"a";i:1;}`, `O:1:"C":3:{s:1:"z";i:2;s:1:"a";i:1;s:1:"v";N;}`)
		noErr(php.Unmarshal([]byte(in), &s), "null rejected")
		sym.Assert(sym.And(eq(s.V, want), s.A == 1 && s.Z == 2), "wrong value after null")
	case 2:
		v := &old
		noErr(php.Unmarshal([]byte("N;"), &v), "null rejected")
		sym.Assert(v == nil, "pointer is not nil after null")
	case 3:
		v := []T{old, old, old}
		noErr(php.Unmarshal([]byte("a:2:{i:1;N;i:0;N;}"), &v), "null rejected")
		sym.Assert(len(v) == 2 && eq(v[0], zero) && eq(v[1], zero), "wrong elements after null")
	case 4:
		v := [3]T{old, old, old}
		noErr(php.Unmarshal([]byte("a:2:{i:1;N;i:0;N;}"), &v), "null rejected")
		sym.Assert(eq(v[0], zero) && eq(v[1], zero) && eq(v[2], zero), "wrong elements after null")
	case 5:
		v := map[string]T{"k": old, "l": old}
		noErr(php.Unmarshal([]byte(`a:1:{s:1:"k";N;}`), &v), "null rejected")
		x, has := v["k"]
		sym.Assert(has && len(v) == 2, "wrong entries after null")
		sym.Assert(sym.And(eq(x, zero), eq(v["l"], old)), "wrong entries after null")
	case 6:
		s := struct {
			P *T  `php:"p"`
			Z int `php:"z"`
		}{&old, 9}
		noErr(php.Unmarshal([]byte(`a:2:{s:1:"p";N;s:1:"z";i:3;}`), &s), "null rejected")
		sym.Assert(s.P == nil && s.Z == 3, "wrong value after null")
	case 7:
		type in struct {
			V T `php:"v"`
		}
		s := struct {
			I in  `php:"i"`
			P *in `php:"p"`
			Z int `php:"z"`
		}{in{old}, &in{old}, 9}
		noErr(php.Unmarshal([]byte(`a:3:{s:1:"i";a:1:{s:1:"v";N;}s:1:"p";a:1:{s:1:"v";N;}s:1:"z";i:3;}`), &s), "null rejected")
		sym.Assert(sym.And(eq(s.I.V, want), sym.And(eq(s.P.V, want), s.Z == 3)), "wrong value after null")
	case 8:
		v := []*T{&old}
		noErr(php.Unmarshal([]byte("a:2:{i:0;N;i:1;N;}"), &v), "null rejected")
		sym.Assert(len(v) == 2 && v[0] == nil && v[1] == nil, "wrong elements after null")
	case 9:
		v := map[int]*T{1: &old}
		noErr(php.Unmarshal([]byte("a:1:{i:1;N;}"), &v), "null rejected")
		x, has := v[1]
		sym.Assert(has && len(v) == 1 && x == nil, "wrong entries after null")
	case 10: // twice, with a value between
		var s = struct {
			V T   `php:"v"`
			Z int `php:"z"`
		}{old, 9}
		noErr(php.Unmarshal([]byte(`a:3:{s:1:"v";N;s:1:"z";N;s:1:"v";N;}`), &s), "null rejected")
		sym.Assert(sym.And(eq(s.V, want), s.Z == 9), "wrong value after null")
	}
}

func keep[T any](old T, eq func(a, b T) bool) { nullCase(old, old, eq) }

func clears[T any](old T, isNil func(T) bool, eq func(a, b T) bool) {
	var zero T
	nullCase(old, zero, func(a, b T) bool {
		if isNil(b) {
			return isNil(a)
		}
		return !isNil(a) && eq(a, b)
	})
}

func H_C09_scalars() {
	switch sym.Choose("type", 16) {
	case 0:
		keep(sym.Bool("v"), eqC[bool])
	case 1:
		keep(sym.Int("v"), eqC[int])
	case 2:
		keep(sym.I8("v"), eqC[int8])
	case 3:
		keep(sym.I16("v"), eqC[int16])
	case 4:
		keep(sym.I32("v"), eqC[int32])
	case 5:
		keep(sym.I64("v"), eqC[int64])
	case 6:
		keep(sym.Uint("v"), eqC[uint])
	case 7:
		keep(sym.U8("v"), eqC[uint8])
	case 8:
		keep(sym.U16("v"), eqC[uint16])
	case 9:
		keep(sym.U32("v"), eqC[uint32])
	case 10:
		keep(sym.U64("v"), eqC[uint64])
	case 11:
		keep(sym.F64("v"), eqF64)
	case 12:
		keep(sym.F32("v"), eqF32)
	case 13:
		keep(sym.Str("v", 3), eqC[string])
	case 14:
		keep(NInt(sym.Int("v")), eqC[NInt])
	case 15:
		keep(NStr(sym.Str("v", 1)), eqC[NStr])
	}
}

func H_C09_containers() {
	x := sym.Int("x")
	switch sym.Choose("type", 14) {
	case 0:
		clears([]int{x}, func(a []int) bool { return a == nil }, eqSl(eqC[int]))
	case 1:
		clears(map[string]int{"a": x}, func(a map[string]int) bool { return a == nil }, eqMp[string](eqC[int]))
	case 2:
		clears(any(x), func(a any) bool { return a == nil }, eqC[any])
	case 3:
		keep(Inner{x, "y"}, eqInner)
	case 4:
		keep([2]int{x, 2}, eqC[[2]int])
	case 5:
		keep(Flat{A: x, B: "b", C: true, D: []int{1}}, eqFlat)
	case 6:
		clears([]Inner{{x, "y"}}, func(a []Inner) bool { return a == nil }, eqSl(eqInner))
	case 7:
		clears(map[int]Inner{x: {1, "y"}}, func(a map[int]Inner) bool { return a == nil }, eqMp[int](eqInner))
	case 8:
		clears(NSl{x}, func(a NSl) bool { return a == nil }, func(a, b NSl) bool { return eqSl(eqC[int])(a, b) })
	case 9:
		clears(NMap{"a": x}, func(a NMap) bool { return a == nil }, func(a, b NMap) bool { return eqMp[string](eqC[int])(a, b) })
	case 10: // an interface holding a pointer
		p := &x
		clears(any(p), func(a any) bool { return a == nil }, eqC[any])
	case 11:
		clears([][]int{{x}}, func(a [][]int) bool { return a == nil }, eqSl(eqSl(eqC[int])))
	case 12:
		keep(struct{}{}, eqC[struct{}])
	case 13:
		clears([]any{x}, func(a []any) bool { return a == nil }, func(a, b []any) bool { return len(a) == len(b) })
	}
}

// fields with the string option
func H_C09_quoted() {
	pi, pb := int16(3), true
	q := Quoted{I: sym.Int("i"), U: sym.U8("u"), B: sym.Bool("b"), F: sym.F64("f"), Pi: &pi, Pb: &pb}
	w := q
	k := pick("k", "i", "u", "b", "f", "pi", "pb")
	in := `a:2:{` + string(encS(k)) + `N;s:1:"u";N;}`
	noErr(php.Unmarshal([]byte(in), &q), "null rejected")
	if k == "pi" {
		w.Pi = nil
	}
	if k == "pb" {
		w.Pb = nil
	}
	ok := sym.And(q.I == w.I, sym.And(q.U == w.U, q.B == w.B))
	ok = sym.And(ok, eqF64(q.F, w.F))
	sym.Assert(sym.And(ok, q.Pi == w.Pi && q.Pb == w.Pb), "wrong value after null")
	sym.Assert(pi == 3 && pb, "the pointed-to value changed")
}

// null inside interface values
func H_C09_any() {
	var v any
	noErr(php.Unmarshal([]byte(`a:3:{i:0;N;s:1:"a";a:1:{s:1:"b";N;}i:5;O:1:"C":1:{s:1:"c";N;}}`), &v), "null rejected")
	m := v.(map[any]any)
	x, has := m[int64(0)]
	sym.Assert(has && x == nil && len(m) == 3, "wrong null")
	a := m["a"].(map[any]any)
	x, has = a["b"]
	sym.Assert(has && x == nil && len(a) == 1, "wrong null")
	c := m[int64(5)].(map[string]any)
	x, has = c["c"]
	sym.Assert(has && x == nil && len(c) == 1, "wrong null")
}
