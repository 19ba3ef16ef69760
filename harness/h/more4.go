package h

import (
	php "github.com/trim21/go-phpserialize"
	"verif/harness/sym"
)

// ---- interfaces with methods: only null can be decoded into them, and it clears them

type Sayer interface{ Say() string }

type sayV struct{ X int }
type sayP struct{ X int }
type sayS []int

func (s sayV) Say() string  { return "v" + itoa(s.X) }
func (s *sayP) Say() string { return "p" + itoa(s.X) }
func (s sayS) Say() string  { return "s" + itoa(len(s)) }

func eqSayer(a, b Sayer) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return a.Say() == b.Say()
}

func aSayer(x int) Sayer {
	switch sym.Choose("held", 4) {
	case 0:
		return sayV{x}
	case 1:
		return &sayP{x}
	case 2:
		return sayS{x}
	}
	return nil
}

func H_C09_methods() {
	old := aSayer(dig("x"))
	var zero Sayer
	nullCase(old, zero, eqSayer)
}

func H_C09_methods_error() {
	var zero error
	nullCase(errUser, zero, func(a, b error) bool { return a == b })
}

// null for values with methods of an interface, between others
func H_C09_methods_between() {
	x := dig("x")
	s := struct {
		A int
		S Sayer
		E error
		M map[string]Sayer
		L []Sayer
		T [2]Sayer
		P *Sayer
		Z int
	}{S: aSayer(x), E: errUser}
	in := `a:8:{s:1:"E";N;s:1:"A";i:1;s:1:"S";N;s:1:"M";a:2:{s:1:"a";N;s:1:"b";N;}s:1:"L";a:2:{i:0;N;i:1;N;}s:1:"T";a:1:{i:1;N;}s:1:"P";N;s:1:"Z";` + string(encI(x)) + "}"
	noErr(php.Unmarshal([]byte(in), &s), "null rejected")
	sym.Assert(s.S == nil && s.E == nil && s.P == nil && s.A == 1 && s.Z == x, "wrong value after null")
	_, a := s.M["a"]
	_, b := s.M["b"]
	sym.Assert(len(s.M) == 2 && a && b && s.M["a"] == nil && s.M["b"] == nil, "wrong entries after null")
	sym.Assert(len(s.L) == 2 && s.L[0] == nil && s.L[1] == nil && s.T[0] == nil && s.T[1] == nil, "wrong elements after null")
}

// any other value is an error, what is held stays
func H_C24_methods() {
	x := dig("x")
	old := aSayer(x)
	body := pick("body", "b:1;", "i:5;", "d:0.5;", `s:1:"x";`, "a:0:{}", `a:1:{s:1:"X";i:1;}`, `a:1:{i:0;i:1;}`, `O:1:"C":1:{s:1:"X";i:1;}`)
	switch sym.Choose("place", 5) {
	case 0:
		v := old
		isErr(php.Unmarshal([]byte(body), &v), "decoded into an interface with methods")
		sym.Assert(eqSayer(v, old), "changed by a failing call")
	case 1:
		v := struct{ S Sayer }{old}
		isErr(php.Unmarshal(doc(`a:1:{s:1:"S";`, body, "}"), &v), "decoded into an interface with methods")
		sym.Assert(eqSayer(v.S, old), "changed by a failing call")
	case 2:
		var v []Sayer
		isErr(php.Unmarshal(doc(`a:1:{i:0;`, body, "}"), &v), "decoded into an interface with methods")
	case 3:
		v := map[string]Sayer{"k": old}
		isErr(php.Unmarshal(doc(`a:1:{s:1:"k";`, body, "}"), &v), "decoded into an interface with methods")
		sym.Assert(len(v) == 1 && eqSayer(v["k"], old), "changed by a failing call")
	case 4:
		v := struct{ S *error }{}
		isErr(php.Unmarshal(doc(`a:1:{s:1:"S";`, body, "}"), &v), "decoded into an interface with methods")
	}
}

// ---- values in interfaces with methods encode as themselves

func H_C21_methods() {
	x := dig("x")
	var s Sayer
	var text string
	switch sym.Choose("held", 5) {
	case 0:
		s, text = sayV{x}, `a:1:{s:1:"X";`+string(encI(x))+"}"
	case 1:
		s, text = &sayP{x}, `a:1:{s:1:"X";`+string(encI(x))+"}"
	case 2:
		s, text = sayS{x}, "a:1:{i:0;"+string(encI(x))+"}"
	case 3:
		text = "N;"
	case 4:
		s, text = (*sayP)(nil), "N;"
	}
	switch sym.Choose("place", 8) {
	case 0:
		sym.Assert(same(enc(&s), []byte(text)), "wrong text")
	case 1:
		sym.Assert(same(enc(struct {
			A int
			S Sayer
			Z *Sayer
		}{1, s, &s}), fields("A", "i:1;", "S", text, "Z", text)), "wrong text")
	case 2:
		sym.Assert(same(enc([]Sayer{s, nil, s}), doc("a:3:{i:0;", text, "i:1;N;i:2;", text, "}")), "wrong text")
	case 3:
		sym.Assert(same(enc([2]Sayer{1: s}), doc("a:2:{i:0;N;i:1;", text, "}")), "wrong text")
	case 4:
		sym.Assert(same(enc(map[string]Sayer{"k": s}), doc(ink, text, "}")), "wrong text")
	case 5:
		sym.Assert(same(enc([]any{[]Sayer{s}, map[int]Sayer{4: s}}), doc("a:2:{i:0;a:1:{i:0;", text, "}i:1;a:1:{i:4;", text, "}}")), "wrong text")
	case 6:
		sym.Assert(same(enc([]*Sayer{&s, nil}), doc("a:2:{i:0;", text, "i:1;N;}")), "wrong text")
	case 7:
		sym.Assert(same(enc(any(struct {
			S Sayer `php:"s,omitempty"`
			Z int   `php:"z"`
		}{s, x})), doc(map[bool]string{true: `a:1:{`, false: `a:2:{s:1:"s";` + text}[s == nil], `s:1:"z";`, string(encI(x)), "}")), "wrong text")
	}
}

// ---- the string option of fields that are no scalars has no effect on decoding

func H_C06_string_option() {
	x := dig("x")
	xs := string(encI(x))
	type T struct {
		A any            `php:"a,string"`
		B []int          `php:"b,string"`
		C map[string]int `php:"c,string"`
		D Inner          `php:"d,string"`
		E [2]int         `php:"e,string"`
		F []byte         `php:"f,string"`
		G string         `php:"g,string"`
		H Raw            `php:"h,string"`
		I *string        `php:"i,omitempty,string"`
		J RawStr         `php:"j,string"`
		K RawInt         `php:"k,string"`
		Z int            `php:"z"`
	}
	var v T
	k := pick("k", "a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k")
	body := map[string]string{"a": xs, "b": "a:1:{i:0;" + xs + "}", "c": ink + xs + "}", "d": `a:1:{s:1:"X";` + xs + "}", "e": "a:1:{i:1;" + xs + "}",
		"f": string(encS(itoa(x))), "g": string(encS(itoa(x))), "h": xs, "i": string(encS(itoa(x))), "j": xs, "k": xs}[k]
	noErr(php.Unmarshal(doc(`a:2:{s:1:"`, k, `";`, body, `s:1:"z";`, xs, "}"), &v), "a field is refused")
	ok := v.Z == x
	switch k {
	case "a":
		ok = ok && v.A == any(int64(x))
	case "b":
		ok = ok && len(v.B) == 1 && v.B[0] == x
	case "c":
		ok = ok && len(v.C) == 1 && v.C["k"] == x
	case "d":
		ok = ok && v.D.X == x
	case "e":
		ok = ok && v.E == [2]int{0, x}
	case "f":
		ok = ok && same(v.F, []byte(itoa(x)))
	case "g":
		ok = ok && v.G == itoa(x)
	case "h":
		ok = ok && v.H.B == xs
	case "i":
		ok = ok && v.I != nil && *v.I == itoa(x)
	case "j":
		ok = ok && string(v.J) == xs
	case "k":
		ok = ok && int(v.K) == len(xs)
	}
	sym.Assert(ok, "wrong value of a field with the string option")
}

// ---- the string option of a field that is an interface

func H_C13_interface() {
	var v any
	var text string
	ptr := sym.Bool("ptr")
	hold := func(a, p any) {
		v = a
		if ptr {
			v = p
		}
	}
	switch sym.Choose("type", 14) {
	case 0:
		x := sym.Bool("x")
		hold(x, &x)
		text = map[bool]string{true: `s:4:"true";`, false: `s:5:"false";`}[x]
	case 1:
		x := int(sym.I8("x"))
		hold(x, &x)
		text = string(encS(itoa(x)))
	case 2:
		x := sym.I8("x")
		hold(x, &x)
		text = string(encS(itoa(int(x))))
	case 3:
		x := int16(sym.I8("x"))
		hold(x, &x)
		text = string(encS(itoa(int(x))))
	case 4:
		x := int32(sym.I8("x"))
		hold(x, &x)
		text = string(encS(itoa(int(x))))
	case 5:
		x := int64(sym.I8("x"))
		hold(x, &x)
		text = string(encS(itoa(int(x))))
	case 6:
		x := uint(sym.U8("x"))
		hold(x, &x)
		text = string(encS(itoa(int(x))))
	case 7:
		x := sym.U8("x")
		hold(x, &x)
		text = string(encS(itoa(int(x))))
	case 8:
		x := uint16(sym.U8("x"))
		hold(x, &x)
		text = string(encS(itoa(int(x))))
	case 9:
		x := uint32(sym.U8("x"))
		hold(x, &x)
		text = string(encS(itoa(int(x))))
	case 10:
		x := uint64(sym.U8("x"))
		hold(x, &x)
		text = string(encS(itoa(int(x))))
	case 11:
		x := pick("x", 0.5, -2, 1e21, 1e-7)
		hold(x, &x)
		text = map[float64]string{0.5: `s:3:"0.5";`, -2: `s:2:"-2";`, 1e21: `s:5:"1e+21";`, 1e-7: `s:5:"1e-07";`}[x]
	case 12:
		x := pick("x", float32(0.1), -2.5)
		hold(x, &x)
		text = map[float32]string{0.1: `s:3:"0.1";`, -2.5: `s:4:"-2.5";`}[x]
	case 13:
		v, text = any(nil), "N;"
		if ptr {
			v = (*int)(nil)
		}
	}
	type T struct {
		A int `php:"a"`
		V any `php:"v,string"`
		Z int `php:"z,string"`
	}
	want := fields("a", "i:1;", "v", text, "z", `s:1:"2";`)
	switch sym.Choose("place", 3) {
	case 0:
		sym.Assert(same(enc(T{1, v, 2}), want), "wrong text of a quoted interface")
	case 1:
		sym.Assert(same(enc([]any{&T{1, v, 2}}), doc("a:1:{i:0;", string(want), "}")), "wrong text of a quoted interface")
	case 2:
		sym.Assert(same(enc(struct {
			P *any `php:",string"`
		}{&v}), fields("P", text)), "wrong text of a quoted interface")
	}
}

// ---- Unmarshalers of one byte

type rawByte byte

func (r *rawByte) UnmarshalPHP(b []byte) error {
	*r = rawByte(len(b))
	for _, c := range b {
		*r += rawByte(c)
	}
	return nil
}

func rawSum(text string) rawByte {
	var r rawByte
	_ = r.UnmarshalPHP([]byte(text))
	return r
}

func H_C15_elements() {
	text := string(encS(sym.Str("v", sym.Choose("n", 3))))
	if sym.Choose("int", 2) == 1 {
		text = string(encI(dig("i")))
	}
	w := rawSum(text)
	switch sym.Choose("place", 6) {
	case 0:
		var v []rawByte
		noErr(php.Unmarshal(doc("a:2:{i:0;", text, "i:1;N;}"), &v), "rejected")
		sym.Assert(len(v) == 2 && v[0] == w && v[1] == 0, "UnmarshalPHP gets other bytes")
	case 1:
		var v [2]rawByte
		noErr(php.Unmarshal(doc("a:1:{i:1;", text, "}"), &v), "rejected")
		sym.Assert(v == [2]rawByte{0, w}, "UnmarshalPHP gets other bytes")
	case 2:
		v := map[string][]rawByte{"l": {9}}
		noErr(php.Unmarshal(doc(`a:1:{s:1:"k";a:1:{i:0;`, text, "}}"), &v), "rejected")
		sym.Assert(len(v) == 2 && len(v["k"]) == 1 && v["k"][0] == w, "UnmarshalPHP gets other bytes")
	case 3:
		v := struct {
			A []rawByte
			B *[]rawByte
			Z int
		}{A: []rawByte{1, 2}}
		noErr(php.Unmarshal(doc(`a:3:{s:1:"A";a:1:{i:0;`, text, `}s:1:"B";a:1:{i:1;`, text, `}s:1:"Z";i:3;}`), &v), "rejected")
		sym.Assert(len(v.A) == 1 && v.A[0] == w && len(*v.B) == 2 && (*v.B)[0] == 0 && (*v.B)[1] == w && v.Z == 3, "UnmarshalPHP gets other bytes")
	case 4:
		var v map[rawByte]rawByte
		noErr(php.Unmarshal(doc("a:1:{", text, text, "}"), &v), "rejected")
		sym.Assert(len(v) == 1 && v[w] == w, "UnmarshalPHP gets other bytes")
	case 5:
		var v [][]*rawByte
		noErr(php.Unmarshal(doc("a:1:{i:0;a:1:{i:0;", text, "}}"), &v), "rejected")
		sym.Assert(len(v) == 1 && len(v[0]) == 1 && *v[0][0] == w, "UnmarshalPHP gets other bytes")
	}
}

// ---- the string option of fields it does not fit: no panic

func H_C01_string_option() {
	sym.Mute()
	bodies := []string{"N;", "b:1;", "i:5;", "d:0.5;", `s:1:"5";`, `s:0:"";`, `s:4:"true";`, "a:0:{}", "a:1:{i:0;i:5;}", `a:1:{s:1:"A";s:1:"5";}`, `O:1:"C":1:{s:1:"A";i:1;}`}
	body := bodies[sym.Choose("body", len(bodies))]
	text := doc(`a:1:{s:1:"A";`, body, "}")
	try := func(p any) {
		_ = php.Unmarshal(text, p)
		_ = php.Unmarshal(text[:len(text)-1], p)
		_, _ = php.Marshal(p)
	}
	switch sym.Choose("type", 12) {
	case 0:
		try(new(struct {
			A *[]int `php:",string"`
		}))
	case 1:
		try(new(struct {
			A *Inner `php:",string"`
		}))
	case 2:
		try(new(struct {
			A chan int `php:",string"`
		}))
	case 3:
		try(new(struct {
			A **int `php:",string"`
		}))
	case 4:
		try(new(struct {
			A *any `php:",string"`
		}))
	case 5:
		try(new(struct {
			A *Raw `php:",string"`
		}))
	case 6:
		try(new(struct {
			A *map[string]int `php:",string"`
		}))
	case 7:
		try(new(struct {
			A *[2]int `php:",string"`
		}))
	case 8:
		try(new(struct {
			A Sayer `php:",string"`
		}))
	case 9:
		try(new(struct {
			A *[]byte `php:",string"`
		}))
	case 10:
		try(new(struct {
			A uintptr `php:",string"`
		}))
	case 11:
		try(new(struct {
			A *string `php:",string"`
		}))
	}
}

// NFlt is a named float.
type NFlt float64

// an Unmarshaler held by an interface may do with its bytes what it wants
func H_C15_held() {
	s := sym.Str("s", pick("n", 0, 2))
	i := dig("i")
	a, b := string(encS(s)), string(encI(i))
	one, two := &Scrib{"old"}, &Keep{}
	v := struct {
		U Unm
		V Unm
		Z string
		P *Unm
		I int
	}{U: one, V: two}
	var p Unm = &Scrib{"old"}
	v.P = &p
	noErr(php.Unmarshal(doc(`a:5:{s:1:"U";`, a, `s:1:"V";`, b, `s:1:"Z";`, a, `s:1:"P";a:1:{i:0;`, b, `}s:1:"I";`, b, "}"), &v), "rejected")
	sym.Assert(v.U == Unm(one) && v.V == Unm(two) && v.P == &p, "the interface was replaced")
	sym.Assert(one.B == a && string(two.B) == b && p.(*Scrib).B == "a:1:{i:0;"+b+"}", "UnmarshalPHP gets other bytes")
	sym.Assert(v.Z == s && v.I == i, "a value behind is changed")
	two.B = append(two.B, "!!!!!!!!!"...)
	sym.Assert(v.Z == s && v.I == i && one.B == a, "a value behind is changed")
}

// ---- Marshalers at one address

type cInner struct{ X int }
type cOuter struct {
	In cInner
	Y  int
}

func (m *cInner) MarshalPHP() ([]byte, error) { return encI(m.X), nil }
func (m *cOuter) MarshalPHP() ([]byte, error) { return encS("o" + itoa(m.Y)), nil }

type cVal [1]cInner

func (m cVal) MarshalPHP() ([]byte, error) { return encS("v" + itoa(m[0].X)), nil }

// a pointer to a struct and one to its first field are the same address
func H_C14_alias() {
	o := &cOuter{cInner{dig("x")}, dig("y")}
	i := &o.In
	p := (*cVal)(&[1]cInner{{dig("z")}})
	ot, it, pt, zt := string(encS("o"+itoa(o.Y))), string(encI(o.In.X)), string(encS("v"+itoa(p[0].X))), string(encI(p[0].X))
	var v any
	text := "a:4:{i:0;" + ot + "i:1;" + it + "i:2;" + pt + "i:3;" + zt + "}"
	switch sym.Choose("k", 5) {
	case 0:
		v = []any{o, i, p, &p[0]}
	case 1:
		v = []php.Marshaler{o, i, p, &p[0]}
	case 2:
		v = struct {
			A *cOuter
			B *cInner
			C *cVal
			D *cInner
			E *cOuter
		}{o, i, p, &p[0], o}
		text = `a:5:{s:1:"A";` + ot + `s:1:"B";` + it + `s:1:"C";` + pt + `s:1:"D";` + zt + `s:1:"E";` + ot + "}"
	case 3:
		v = struct {
			A *cInner
			B any
			C any
			D *cVal
		}{i, o, &p[0], p}
		text = `a:4:{s:1:"A";` + it + `s:1:"B";` + ot + `s:1:"C";` + zt + `s:1:"D";` + pt + "}"
	case 4:
		v = [2][]any{{i, o}, {&p[0], p}}
		text = "a:2:{i:0;a:2:{i:0;" + it + "i:1;" + ot + "}i:1;a:2:{i:0;" + zt + "i:1;" + pt + "}}"
	}
	placed(v, text)
	// the values may change between two calls
	o.In.X, o.Y, p[0].X = 77, 88, 99
	b, err := php.Marshal([]any{i, o, p, &p[0]})
	noErr(err, "Marshal fails")
	sym.Assert(string(b) == `a:4:{i:0;i:77;i:1;s:3:"o88";i:2;s:3:"v99";i:3;i:99;}`, "wrong text")
}
