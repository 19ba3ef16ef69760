package h

import (
	php "github.com/trim21/go-phpserialize"
	"verif/harness/sym"
)

// C27: objects

// className is a class name of any bytes.
func className() string {
	switch sym.Choose("class", 4) {
	case 0:
		return sym.Str("c", sym.Choose("n", sym.Scale("len", 4, 6)))
	case 1: // names that look like other parts of the text
		return pick("c", "stdClass", `";`, `":`, `":0:{}`, `":1:{i:0;i:5;}`, "}", "{", `"`, ";", ":", "\x00", "\\Foo\\Bar", "é", "N;", `O:1:"C":0:{}`, "0", "1", "-1")
	case 2: // lengths of several digits
		n := pick("n", 9, 10, 11, 99, 100, 101)
		return reps("x", n-2) + sym.Str("c", 2)
	}
	return string(sym.Bytes("c", 1)) + pick("tail", "", `"`, `":1:{`, "}", "a:0:{}") + string(sym.Bytes("d", 1))
}

// objectCase decodes the body into T as an object of a class and as an array: the results agree.
func objectCase[T any](class, body string, n int, eq func(a, b T) bool, old func() T) {
	o := string(encObj(nil, class, n)) + body + "}"
	a := string(encArr(nil, n)) + body + "}"
	switch sym.Choose("place", 6) {
	case 0:
		x, y := old(), old()
		e1, e2 := php.Unmarshal([]byte(o), &x), php.Unmarshal([]byte(a), &y)
		sym.Assert((e1 == nil) == (e2 == nil), "an object is accepted and the array not, or the other way round")
		if e1 == nil {
			sym.Assert(eq(x, y), "an object gives another value than the array")
		}
	case 1:
		type S struct {
			A int
			V T
			Z int
		}
		x, y := S{V: old()}, S{V: old()}
		pre, post := `:3:{s:1:"A";i:1;s:1:"V";`, `s:1:"Z";i:2;}`
		e1 := php.Unmarshal([]byte(`O:`+itoa(len(class))+`:"`+class+`"`+pre+o+post), &x)
		e2 := php.Unmarshal([]byte("a"+pre+a+post), &y)
		sym.Assert((e1 == nil) == (e2 == nil), "an object is accepted and the array not, or the other way round")
		if e1 == nil {
			sym.Assert(sym.And(eq(x.V, y.V), x.A == 1 && y.A == 1 && x.Z == 2 && y.Z == 2), "an object gives another value than the array")
		}
	case 2:
		var x, y []*T
		e1 := php.Unmarshal([]byte("a:2:{i:0;"+o+"i:1;"+a+"}"), &x)
		e2 := php.Unmarshal([]byte("a:2:{i:0;"+a+"i:1;"+o+"}"), &y)
		sym.Assert((e1 == nil) == (e2 == nil), "an object is accepted and the array not, or the other way round")
		if e1 == nil {
			sym.Assert(len(x) == 2 && len(y) == 2, "wrong length")
			sym.Assert(sym.And(eq(*x[0], *x[1]), sym.And(eq(*x[0], *y[1]), eq(*y[0], *y[1]))), "an object gives another value than the array")
		}
	case 3:
		x, y := map[string]T{"k": old()}, map[string]T{"k": old()}
		e1 := php.Unmarshal([]byte(string(encObj(nil, class, 2))+`s:1:"k";`+o+`s:1:"l";`+o+"}"), &x)
		e2 := php.Unmarshal([]byte(string(encArr(nil, 2))+`s:1:"k";`+a+`s:1:"l";`+a+"}"), &y)
		sym.Assert((e1 == nil) == (e2 == nil), "an object is accepted and the array not, or the other way round")
		if e1 == nil {
			sym.Assert(len(x) == 2 && len(y) == 2 && sym.And(eq(x["k"], y["k"]), eq(x["l"], y["l"])), "an object gives another value than the array")
		}
	case 4: // after and before other entries of a struct, one skipped
		type S struct {
			B string `php:"b"`
			V *T     `php:"v"`
			C []int  `php:"c"`
		}
		v := old()
		var x S
		y := S{V: &v}
		t1 := `a:4:{s:1:"b";s:1:"b";s:1:"u";` + o + `s:1:"v";` + o + `s:1:"c";a:1:{i:0;i:3;}}`
		t2 := `a:4:{s:1:"u";` + a + `s:1:"c";a:1:{i:0;i:3;}s:1:"v";` + a + `s:1:"b";s:1:"b";}`
		z := old()
		x.V = &z
		e1, e2 := php.Unmarshal([]byte(t1), &x), php.Unmarshal([]byte(t2), &y)
		sym.Assert((e1 == nil) == (e2 == nil), "an object is accepted and the array not, or the other way round")
		if e1 == nil {
			sym.Assert(sym.And(eq(*x.V, *y.V), x.B == "b" && y.B == "b" && len(x.C) == 1 && len(y.C) == 1 && x.C[0] == 3 && y.C[0] == 3), "an object gives another value than the array")
		}
	case 5:
		var x, y map[int]*[1]T
		e1 := php.Unmarshal([]byte("a:1:{i:7;a:1:{i:0;"+o+"}}"), &x)
		e2 := php.Unmarshal([]byte("a:1:{i:7;a:1:{i:0;"+a+"}}"), &y)
		sym.Assert((e1 == nil) == (e2 == nil), "an object is accepted and the array not, or the other way round")
		if e1 == nil {
			sym.Assert(eq(x[7][0], y[7][0]), "an object gives another value than the array")
		}
	}
}

func ofBody(name string) (string, int) {
	x := string(sym.ByteIn(name, "0123456789"))
	switch sym.Choose("body", 7) {
	case 0:
		return "", 0
	case 1:
		return `s:1:"A";i:` + x + ";", 1
	case 2:
		return `s:1:"b";s:1:"` + x + `";s:1:"A";i:` + x + ";", 2
	case 3:
		return `s:1:"u";O:2:"}{":1:{s:1:"A";i:` + x + `;}s:1:"A";i:` + x + ";", 2
	case 4:
		return `s:1:"A";i:` + x + `;s:1:"M";O:1:"` + x + `":1:{s:1:"k";i:` + x + `;}`, 2
	case 5:
		return `s:1:"A";N;`, 1
	}
	return `s:3:"` + "\x00*\x00" + `";i:` + x + `;s:1:"A";i:` + x + ";", 2
}

type obj struct {
	A int
	B string `php:"b"`
	M map[string]int
}

func eqObj(a, b obj) bool {
	return sym.And(a.A == b.A, sym.And(a.B == b.B, eqMp[string](eqC[int])(a.M, b.M)))
}

func H_C27_structs() {
	c := className()
	body, n := ofBody("x")
	objectCase(c, body, n, eqObj, func() obj { return obj{A: 9, M: map[string]int{"o": 1}} })
}

func H_C27_maps() {
	c := className()
	x := string(sym.ByteIn("x", "0123456789"))
	switch sym.Choose("kind", 4) {
	case 0:
		body, n := "", 0
		switch sym.Choose("body", 3) {
		case 1:
			body, n = `s:1:"`+x+`";i:1;`, 1
		case 2:
			body, n = `s:1:"k";i:`+x+`;s:0:"";i:2;`, 2
		}
		objectCase(c, body, n, eqMp[string](eqC[int]), func() map[string]int { return map[string]int{"o": 1} })
	case 1:
		body, n := "i:"+x+`;s:1:"a";`, 1
		if sym.Choose("body", 2) == 1 {
			body, n = "i:-1;N;i:"+x+`;s:1:"`+x+`";`, 2
		}
		objectCase(c, body, n, eqMp[int](eqC[string]), func() map[int]string { return nil })
	case 2:
		body := `s:1:"k";O:1:"` + x + `":1:{s:1:"A";i:` + x + `;}`
		objectCase(c, body, 1, eqMp[string](eqObj), func() map[string]obj { return nil })
	case 3:
		body := `s:1:"k";i:` + x + `;i:5;b:1;`
		objectCase(c, body, 2, func(a, b map[any]any) bool {
			return sym.And(len(a) == len(b) && len(a) >= 2 && a["o"] == b["o"] && a[int64(5)] == true && b[int64(5)] == true, sym.And(a["k"] == any(int64(x[0]-'0')), b["k"] == a["k"]))
		}, func() map[any]any { return map[any]any{"o": 1} })
	}
}

// into an interface an object becomes map[string]any
func H_C27_any() {
	c := className()
	x := string(sym.ByteIn("x", "0123456789"))
	v := int64(x[0] - '0')
	body, n := "", 0
	want := map[string]any{}
	switch sym.Choose("body", 4) {
	case 1:
		body, n = `s:1:"k";i:`+x+`;`, 1
		want["k"] = v
	case 2:
		body, n = `s:1:"`+x+`";s:1:"`+x+`";s:0:"";b:1;`, 2
		want[x], want[""] = x, true
	case 3:
		body, n = `s:1:"k";O:`+itoa(len(c))+`:"`+c+`":1:{s:1:"l";i:`+x+`;}s:1:"m";a:1:{s:1:"n";i:`+x+`;}`, 2
		want["k"], want["m"] = map[string]any{"l": v}, map[any]any{"n": v}
	}
	o := string(encObj(nil, c, n)) + body + "}"
	var got any
	switch sym.Choose("place", 5) {
	case 0:
		got = pick[any]("old", nil, 5, map[string]any{"o": 1}, "s")
		noErr(php.Unmarshal([]byte(o), &got), "object rejected")
	case 1:
		var s []any
		noErr(php.Unmarshal([]byte("a:2:{i:0;"+o+"i:1;N;}"), &s), "object rejected")
		got = s[0]
	case 2:
		var m map[string]any
		noErr(php.Unmarshal([]byte(`O:1:"D":2:{s:1:"p";`+o+`s:1:"q";i:1;}`), &m), "object rejected")
		sym.Assert(len(m) == 2 && m["q"] == any(int64(1)), "wrong value")
		got = m["p"]
	case 3:
		var s struct {
			A any
			B int
		}
		noErr(php.Unmarshal([]byte(`a:2:{s:1:"A";`+o+`s:1:"B";i:1;}`), &s), "object rejected")
		sym.Assert(s.B == 1, "wrong value")
		got = s.A
	case 4:
		var a any
		noErr(php.Unmarshal([]byte("a:1:{i:0;"+o+"}"), &a), "object rejected")
		got = a.(map[any]any)[int64(0)]
	}
	m, ok := got.(map[string]any)
	sym.Assert(ok, "object not decoded to map[string]any")
	sym.Assert(len(m) == len(want), "wrong number of entries")
	for k, w := range want {
		g, ok := m[k]
		sym.Assert(ok, "entry missing")
		switch w := w.(type) {
		case map[string]any:
			gm, ok := g.(map[string]any)
			sym.Assert(ok && len(gm) == 1 && gm["l"] == w["l"], "wrong nested object")
		case map[any]any:
			gm, ok := g.(map[any]any)
			sym.Assert(ok && len(gm) == 1 && gm["n"] == w["n"], "wrong nested array")
		default:
			sym.Assert(g == w, "wrong value")
		}
	}
}

// an Unmarshaler gets the whole object, whatever the class name; a skipped object is passed over
func H_C27_exact() {
	c := className()
	x := string(sym.ByteIn("x", "0123456789"))
	body, n := "", 0
	if sym.Choose("body", 2) == 1 {
		body, n = `s:1:"A";i:`+x+`;`, 1
	}
	o := string(encObj(nil, c, n)) + body + "}"
	switch sym.Choose("place", 4) {
	case 0:
		var r Raw
		noErr(php.Unmarshal([]byte(o), &r), "object rejected")
		sym.Assert(same([]byte(r.B), []byte(o)), "Unmarshaler gets other bytes")
	case 1:
		var s struct {
			R *Raw `php:"r"`
			Z int
		}
		noErr(php.Unmarshal([]byte(`a:2:{s:1:"r";`+o+`s:1:"Z";i:4;}`), &s), "object rejected")
		sym.Assert(same([]byte(s.R.B), []byte(o)) && s.Z == 4, "Unmarshaler gets other bytes")
	case 2:
		var s []Raw
		noErr(php.Unmarshal([]byte("a:2:{i:0;"+o+"i:1;i:5;}"), &s), "object rejected")
		sym.Assert(same([]byte(s[0].B), []byte(o)) && s[1].B == "i:5;", "Unmarshaler gets other bytes")
	case 3:
		var s struct{ Z int }
		noErr(php.Unmarshal([]byte(string(encObj(nil, c, 3))+`s:1:"r";`+o+`s:1:"q";a:1:{i:0;`+o+`}s:1:"Z";i:4;}`), &s), "object rejected")
		sym.Assert(s.Z == 4, "entry after a skipped object lost")
	}
}

// a class name of another length than declared, or a broken head, is an error
func H_C27_broken() {
	n := sym.Choose("n", 4)
	c := sym.Str("c", n)
	m := sym.Choose("m", 6)
	// a declared length that happens to end at a '":' reads as another class
	tail := `":0:{}`
	text := pick("head",
		"O:"+itoa(m)+`:"`+c+tail,
		"O:-"+itoa(n)+`:"`+c+tail,
		"O:"+itoa(n)+`:`+c+tail,
		"O:"+itoa(n)+`"`+c+tail,
		"O"+itoa(n)+`:"`+c+tail,
		"O::"+`"`+c+tail,
		"O:"+itoa(n)+`:"`+c+`:0:{}`,
		"O:"+itoa(n)+`:"`+c+`"0:{}`,
		"O:"+itoa(n)+`:"`+c+`"::{}`,
		"O:"+itoa(n)+`:"`+c+`":0{}`,
		"O:"+itoa(n)+`:"`+c+`":0:}`,
		"O:"+itoa(n)+`:"`+c+`":0:{`,
		"O:"+itoa(n)+`:"`+c+`":0:`,
		"O:"+itoa(n)+`:"`+c+`":`,
		"O:"+itoa(n)+`:"`+c+`"`,
		"O:"+itoa(n)+`:"`+c,
		"O:99999999999999999999:"+`"`+c+tail,
		"O:9223372036854775807:"+`"`+c+tail,
		"O:"+itoa(n)+`:'`+c+`':0:{}`)
	_, ok := wf([]byte(text), 0)
	sym.Assume(!ok)
	var s obj
	var mp map[string]int
	var i any
	var r Raw
	var sk struct{ Z int }
	switch sym.Choose("type", 6) {
	case 0:
		isErr(php.Unmarshal([]byte(text), &s), "broken object accepted")
	case 1:
		isErr(php.Unmarshal([]byte(text), &mp), "broken object accepted")
	case 2:
		isErr(php.Unmarshal([]byte(text), &i), "broken object accepted")
	case 3:
		isErr(php.Unmarshal([]byte(text), &r), "broken object accepted")
	case 4:
		isErr(php.Unmarshal([]byte(`a:1:{s:1:"r";`+text+`}`), &sk), "broken object accepted")
	case 5:
		isErr(php.Unmarshal([]byte(`a:1:{i:0;`+text+`}`), &i), "broken object accepted")
	}
}
