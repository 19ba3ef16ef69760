package h

import (
	php "github.com/trim21/go-phpserialize"
	"verif/harness/sym"
)

// C13: the string option

type qs[T any] struct {
	A int `php:"a"`
	V T   `php:"v,string"`
	P *T  `php:"p,string"`
	O T   `php:"o,string,omitempty"`
	Z int `php:"z"`
}

// opt is a choice that is skipped for simple cases.
func opt(simple bool, name string, k int) int {
	if simple {
		return 0
	}
	return sym.Choose(name, k)
}

func quotedCase[T comparable](v T, text string, eq func(a, b T) bool, simple bool) {
	var zero T
	q := string(encS(text))
	s := qs[T]{A: 1, V: v, Z: 2}
	want := `s:1:"a";i:1;s:1:"v";` + q
	n := 4
	if opt(simple, "p", 2) == 1 {
		s.P = &v
		want += `s:1:"p";` + q
	} else {
		want += `s:1:"p";N;`
	}
	if opt(simple, "o", 2) == 1 {
		sym.Assume(v != zero)
		s.O = v
		want += `s:1:"o";` + q
		n++
	}
	want = "a:" + itoa(n) + ":{" + want + `s:1:"z";i:2;}`
	if sym.Choose("dir", 2) == 0 {
		var x any = s
		switch opt(simple, "place", 3) {
		case 1:
			x = &s
		case 2:
			x, want = []any{s}, "a:1:{i:0;"+want+"}"
		}
		sym.Assert(same(enc(x), []byte(want)), "wrong quoted text")
		return
	}
	old := v
	d := qs[T]{}
	switch opt(simple, "old", 2) {
	case 1:
		d = qs[T]{P: &old, O: v}
	}
	noErr(php.Unmarshal([]byte(want), &d), "quoted text rejected")
	ok := sym.And(eq(d.V, v), d.A == 1 && d.Z == 2)
	if s.P != nil {
		sym.Assert(d.P != nil, "pointer not set")
		ok = sym.And(ok, eq(*d.P, v))
	} else {
		ok = sym.And(ok, d.P == nil)
	}
	if n == 5 {
		ok = sym.And(ok, eq(d.O, v))
	}
	sym.Assert(ok, "quoted value does not come back")
}

func qI[T ~int | ~int8 | ~int16 | ~int32 | ~int64](v T) {
	quotedCase(v, string(strconvI(int64(v))), eqC[T], false)
}
func qU[T ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64](v T) {
	quotedCase(v, string(strconvU(uint64(v))), eqC[T], false)
}

func H_C13_values() {
	switch sym.Choose("type", 16) {
	case 0:
		qI(sym.Int("v"))
	case 1:
		qI(sym.I8("v"))
	case 2:
		qI(sym.I16("v"))
	case 3:
		qI(sym.I32("v"))
	case 4:
		qI(sym.I64("v"))
	case 5:
		qU(sym.Uint("v"))
	case 6:
		qU(sym.U8("v"))
	case 7:
		qU(sym.U16("v"))
	case 8:
		qU(sym.U32("v"))
	case 9:
		qU(sym.U64("v"))
	case 10:
		b := sym.Bool("v")
		quotedCase(b, boolText(b), eqC[bool], false)
	case 11:
		s := sym.Str("v", pick("n", 0, 1, 2, 10))
		quotedCase(s, s, eqC[string], false)
	case 12:
		qI(NInt(sym.Int("v")))
	case 13:
		b := NBool(sym.Bool("v"))
		quotedCase(b, boolText(bool(b)), eqC[NBool], false)
	case 14:
		s := NStr(sym.Str("v", 2))
		quotedCase(s, string(s), eqC[NStr], false)
	case 15:
		qU(nU32(sym.U32("v")))
	}
}

// finite floats
func H_C13_floats() {
	if sym.Choose("type", 2) == 0 {
		f := sym.F64("v")
		sym.Assume(sym.And(f == f, f-f == 0))
		quotedCase(f, string(floatText(f, 64)), eqF64, sym.Scale("full", 0, 1) == 0)
	} else {
		f := sym.F32("v")
		sym.Assume(sym.And(f == f, f-f == 0))
		quotedCase(f, string(floatText(float64(f), 32)), eqF32, sym.Scale("full", 0, 1) == 0)
	}
}

// arbitrary quoted text for a bool
func H_C13_bool() {
	t := sym.Str("t", sym.Choose("n", 6))
	q := Quoted{B: sym.Bool("old")}
	old := q.B
	err := php.Unmarshal([]byte(`a:1:{s:1:"b";`+string(encS(t))+"}"), &q)
	isT, isF := false, false
	for _, x := range []string{"1", "t", "T", "true", "TRUE", "True"} {
		isT = sym.Or(isT, t == x)
	}
	for _, x := range []string{"0", "f", "F", "false", "FALSE", "False"} {
		isF = sym.Or(isF, t == x)
	}
	if err == nil {
		sym.Assert(sym.Or(sym.And(isT, q.B), sym.And(isF, !q.B)), "a quoted text that is no bool is accepted")
		return
	}
	sym.Assert(q.B == old, "changed by a failing call")
	sym.Assert(!(t == "true" || t == "false" || t == "1" || t == "0"), "a quoted bool is refused")
}

// arbitrary short quoted texts for a float
func H_C13_float() {
	n := sym.Choose("n", sym.Scale("len", 5, 6))
	t := sym.StrIn("t", n, "0157.eE+-x ;")
	q := Quoted{F: 9.5}
	err := php.Unmarshal([]byte(`a:1:{s:1:"f";`+string(encS(t))+"}"), &q)
	if err == nil {
		sym.Assert(decimal(t), "a quoted text that is no number is accepted")
		return
	}
	sym.Assert(q.F == 9.5, "changed by a failing call")
	if decimal(t) {
		sym.Assert(bigExp(t), "a quoted number is refused")
	}
}

// decimal recognises [+-] digits [. digits] [e [+-] digits] with a digit in the mantissa.
func decimal(t string) bool {
	i := 0
	if i < len(t) && (t[i] == '+' || t[i] == '-') {
		i++
	}
	d := 0
	for i < len(t) && isDigit(t[i]) {
		i++
		d++
	}
	if i < len(t) && t[i] == '.' {
		i++
		for i < len(t) && isDigit(t[i]) {
			i++
			d++
		}
	}
	if d == 0 {
		return false
	}
	if i < len(t) && (t[i] == 'e' || t[i] == 'E') {
		i++
		if i < len(t) && (t[i] == '+' || t[i] == '-') {
			i++
		}
		e := 0
		for i < len(t) && isDigit(t[i]) {
			i++
			e++
		}
		if e == 0 {
			return false
		}
	}
	return i == len(t)
}

// bigExp reports an exponent of three digits or more.
func bigExp(t string) bool {
	for i := range t {
		if t[i] == 'e' || t[i] == 'E' {
			return len(t)-i > 3
		}
	}
	return false
}

// quoted values of other PHP types are refused
func H_C13_types() {
	k := pick("k", "i", "u", "b", "f", "pi", "pb")
	x := dig("x")
	v := pick("v", string(encI(x)), "b:1;", "d:1.5;", "a:0:{}", `O:1:"C":0:{}`, "a:1:{i:0;i:1;}")
	q := Quoted{I: 1, U: 2, B: true, F: 3}
	isErr(php.Unmarshal([]byte(`a:1:{`+string(encS(k))+v+"}"), &q), "unquoted value accepted")
	sym.Assert(q.I == 1 && q.U == 2 && q.B && q.F == 3, "changed by a failing call")
}
