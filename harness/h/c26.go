package h

import (
	"math"
	"strconv"

	php "github.com/trim21/go-phpserialize"
	"verif/harness/sym"
)

// C26: floats

type (
	nF32 float32
	nF64 float64
)

type isFloat interface{ ~float32 | ~float64 }

// sameBits compares bit patterns; any NaN equals any NaN.
func sameBits[T isFloat](a, b T) bool {
	x, y := math.Float64bits(float64(a)), math.Float64bits(float64(b))
	return sym.Or(sym.And(a != a, b != b), sym.And(sym.And(a == a, b == b), x == y))
}

// floatPlaces encodes f somewhere and decodes it back; text is its expected text.
func floatPlaces[T isFloat](f T, text string, n int) {
	d := "d:" + text + ";"
	var old T = 7
	switch sym.Choose("place", n) {
	case 0:
		sym.Assert(same(enc(f), []byte(d)), "wrong float text")
		v := old
		noErr(php.Unmarshal([]byte(d), &v), "float rejected")
		sym.Assert(sameBits(v, f), "float changes on the way")
	case 1:
		var i any = f
		sym.Assert(same(enc(&i), []byte(d)), "wrong float text")
		v := &old
		noErr(php.Unmarshal([]byte(d), &v), "float rejected")
		sym.Assert(sameBits(*v, f), "float changes on the way")
	case 2:
		type S struct {
			A int
			F T  `php:"f"`
			P *T `php:"p,omitempty"`
			I any
		}
		t := `a:4:{s:1:"A";i:1;s:1:"f";` + d + `s:1:"p";` + d + `s:1:"I";` + d + `}`
		sym.Assert(same(enc(S{1, f, &f, f}), []byte(t)), "wrong text of a struct")
		v := S{F: old}
		noErr(php.Unmarshal([]byte(t), &v), "struct rejected")
		sym.Assert(sym.And(sameBits(v.F, f), sameBits(*v.P, f)), "float changes on the way")
		if _, wide := any(f).(float64); wide {
			sym.Assert(sameBits(v.I.(float64), float64(f)), "float changes on the way")
		}
	case 3:
		t := "a:2:{i:0;" + d + "i:1;" + d + "}"
		sym.Assert(same(enc([]T{f, f}), []byte(t)), "wrong text of a slice")
		sym.Assert(same(enc([2]any{f, f}), []byte(t)), "wrong text of an array")
		v := []T{old}
		noErr(php.Unmarshal([]byte(t), &v), "slice rejected")
		sym.Assert(len(v) == 2 && sym.And(sameBits(v[0], f), sameBits(v[1], f)), "float changes on the way")
		var w [2]T
		noErr(php.Unmarshal([]byte(t), &w), "array rejected")
		sym.Assert(sym.And(sameBits(w[0], f), sameBits(w[1], f)), "float changes on the way")
	case 4:
		t := `a:1:{s:1:"k";` + d + "}"
		sym.Assert(same(enc(map[string]T{"k": f}), []byte(t)), "wrong text of a map")
		sym.Assert(same(enc(map[string]any{"k": f}), []byte(t)), "wrong text of a map")
		v := map[string]T{"k": old}
		noErr(php.Unmarshal([]byte(t), &v), "map rejected")
		sym.Assert(len(v) == 1 && sameBits(v["k"], f), "float changes on the way")
	case 5:
		if _, wide := any(f).(float64); wide {
			var i any
			noErr(php.Unmarshal([]byte(d), &i), "float rejected")
			sym.Assert(sameBits(i.(float64), float64(f)), "float changes on the way")
			var m any
			noErr(php.Unmarshal([]byte("a:1:{i:0;"+d+"}"), &m), "float rejected")
			sym.Assert(sameBits(m.(map[any]any)[int64(0)].(float64), float64(f)), "float changes on the way")
		}
	case 6:
		type Q struct {
			F T `php:",string"`
			Z int
		}
		t := `a:2:{s:1:"F";` + string(encS(text)) + `s:1:"Z";i:2;}`
		sym.Assert(same(enc(Q{f, 2}), []byte(t)), "wrong quoted text")
		v := Q{F: old}
		noErr(php.Unmarshal([]byte(t), &v), "quoted float rejected")
		sym.Assert(sym.And(sameBits(v.F, f), v.Z == 2), "float changes on the way")
	}
}

// every float64
func H_C26_f64() {
	f := sym.F64("f")
	if sym.Choose("named", sym.Scale("names", 1, 2)) == 1 {
		floatPlaces(nF64(f), string(floatText(f, 64)), 5)
		return
	}
	floatPlaces(f, string(floatText(f, 64)), 6)
}

// every float32
func H_C26_f32() {
	f := sym.F32("f")
	if sym.Choose("named", sym.Scale("names", 1, 2)) == 1 {
		floatPlaces(nF32(f), string(floatText(float64(f), 32)), 5)
		return
	}
	floatPlaces(f, string(floatText(float64(f), 32)), 5)
}

// every finite float as quoted text
func H_C26_quoted() {
	if sym.Choose("type", 2) == 0 {
		f := sym.F64("f")
		sym.Assume(f-f == 0)
		type Q struct {
			A int
			F float64 `php:"f,string"`
		}
		t := `a:2:{s:1:"A";i:1;s:1:"f";` + string(encS(string(floatText(f, 64)))) + `}`
		sym.Assert(same(enc(Q{1, f}), []byte(t)), "wrong quoted text")
		var v Q
		noErr(php.Unmarshal([]byte(t), &v), "quoted float rejected")
		sym.Assert(sameBits(v.F, f), "float changes on the way")
	} else {
		f := sym.F32("f")
		sym.Assume(f-f == 0)
		type Q struct {
			A int
			F nF32 `php:"f,string"`
		}
		t := `a:2:{s:1:"A";i:1;s:1:"f";` + string(encS(string(floatText(float64(f), 32)))) + `}`
		sym.Assert(same(enc(Q{1, nF32(f)}), []byte(t)), "wrong quoted text")
		var v Q
		noErr(php.Unmarshal([]byte(t), &v), "quoted float rejected")
		sym.Assert(sameBits(float32(v.F), f), "float changes on the way")
	}
}

// float64 values that are stored as float32 and back: the text of one type read by the other
func H_C26_widths() {
	if sym.Choose("dir", 2) == 0 {
		// 32 bit text into 64 bits and into any: some float64 that rounds to the same float32
		// (for one value the user's own second rounding goes to its neighbour)
		f := sym.F32("f")
		sym.Assume(math.Float32bits(f)&0x7fffffff != 0x15ae43fd)
		t := enc(f)
		var v float64
		noErr(php.Unmarshal(t, &v), "float rejected")
		sym.Assert(sameBits(float32(v), f), "float changes on the way")
		return
	}
	f := sym.F64("f")
	t := enc(f)
	g := float32(f)
	var v float32
	err := php.Unmarshal(t, &v)
	if math.IsInf(float64(g), 0) && !math.IsInf(f, 0) {
		isErr(err, "float out of range accepted")
		sym.Assert(v == 0, "changed by a failing call")
		return
	}
	noErr(err, "float rejected")
	sym.Assert(sameBits(v, g), "not the nearest float")
}

// known values around every limit, against their exact texts
func H_C26_edges() {
	f := pick("f",
		0, math.Copysign(0, -1), 1, -1, 0.1, -0.1, 0.5, 1.0/3, 100, 1e6, 123456789, 1e15, 1<<53, 1<<53+2, 9007199254740993,
		999999999999999868928, 1e20, 1e21, 1e22, 1e23, -1e21, 1e-5, 1e-6, 9.999999999999999e-7, 1e-7, 1.5e-7, -1e-6,
		1e100, 1e-100, 1e99, 1e-99, 1e10, 1e-10, 1e308, 1e-308,
		math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, -math.SmallestNonzeroFloat64, 2.2250738585072014e-308,
		math.MaxFloat32, math.SmallestNonzeroFloat32, math.Pi, math.E,
		math.Inf(1), math.Inf(-1), math.NaN())
	if sym.Choose("type", 2) == 0 {
		text := string(floatText(f, 64))
		n := 7
		if f-f != 0 {
			n = 6
		}
		floatPlaces(f, text, n)
		return
	}
	g := float32(f)
	n := 7
	if g-g != 0 {
		n = 6
	}
	floatPlaces(g, string(floatText(float64(g), 32)), n)
}

// known texts with their values in both widths
func H_C26_texts() {
	t := pick("t", "0", "-0", "1", "+1", "0.5", ".5", "5.", "1e3", "1E3", "1e+3", "1e-3", "100000000000000000000000",
		"0.1000000000000000055511151231257827", "1.7976931348623157e308", "2.2250738585072011e-308", "4.9e-324", "2e-324", "1e-400",
		"9007199254740993", "9007199254740992.99999", "7.038531e-26", "7.0385306918512091208591880171403069741059913123e-26", "16777217", "16777217.00000001",
		"3.4028235e38", "3.4028235677973366e38", "3.4028234663852886e38", "1e-46", "1.4e-45", "0.30000001192092895507812500000000000000000000000001",
		"1.00000017881393421514957253748434595763683319091796875001", "1.00000017881393432617187499")
	place := sym.Choose("place", 4)
	if sym.Choose("type", 2) == 0 {
		want, _ := strconv.ParseFloat(t, 64)
		v, in := placedFloat[float64](t, place)
		noErr(in, "float rejected")
		sym.Assert(sameBits(v, want), "not the nearest float64")
		return
	}
	want, err := strconv.ParseFloat(t, 32)
	v, got := placedFloat[float32](t, place)
	if err != nil {
		isErr(got, "float out of range accepted")
		return
	}
	noErr(got, "float rejected")
	sym.Assert(sameBits(v, float32(want)), "not the nearest float32")
}

// placedFloat decodes the float text t at a place.
func placedFloat[T isFloat](t string, place int) (v T, err error) {
	d := "d:" + t + ";"
	switch place {
	case 0:
		err = php.Unmarshal([]byte(d), &v)
	case 1:
		s := []T{9}
		if err = php.Unmarshal([]byte("a:1:{i:0;"+d+"}"), &s); err == nil {
			v = s[0]
		}
	case 2:
		var s struct {
			A string
			F T
		}
		err = php.Unmarshal([]byte(`O:1:"C":2:{s:1:"A";s:1:"x";s:1:"F";`+d+`}`), &s)
		v = s.F
	case 3:
		var s struct {
			F *T `php:"f,string"`
		}
		if err = php.Unmarshal([]byte(`a:1:{s:1:"f";`+string(encS(t))+`}`), &s); err == nil {
			v = *s.F
		}
	}
	return
}

// symbolic short text
func H_C26_short() {
	n := sym.Choose("n", sym.Scale("len", 4, 6))
	t := sym.StrIn("t", n, "0159.eE+-x ;:")
	d := []byte("d:" + t + ";")
	ok := decimal(t)
	sym.Assume(!bigExp(t))
	// text after a ';' is trailing data: an error, but the value is already stored
	semi := false
	for i := 0; i < n; i++ {
		semi = sym.Or(semi, t[i] == ';')
	}
	switch sym.Choose("type", 3) {
	case 0:
		v := 7.0
		err := php.Unmarshal(d, &v)
		if ok {
			want, _ := strconv.ParseFloat(t, 64)
			noErr(err, "float rejected")
			sym.Assert(v == want, "wrong value")
		} else {
			isErr(err, "no float")
			sym.Assert(sym.Or(semi, v == 7), "changed by a failing call")
		}
	case 1:
		var v float32 = 7
		err := php.Unmarshal(d, &v)
		want, e := strconv.ParseFloat(t, 32)
		if ok && e == nil {
			noErr(err, "float rejected")
			sym.Assert(v == float32(want), "wrong value")
		} else {
			isErr(err, "no float")
			sym.Assert(sym.Or(semi, v == 7), "changed by a failing call")
		}
	case 2:
		var v any = 7
		err := php.Unmarshal(d, &v)
		if ok {
			want, _ := strconv.ParseFloat(t, 64)
			noErr(err, "float rejected")
			sym.Assert(v.(float64) == want, "wrong value")
		} else {
			isErr(err, "no float")
			sym.Assert(sym.Or(semi, v == 7), "changed by a failing call")
		}
	}
}

// any three letters or so: only the three PHP words are special
func H_C26_words() {
	n := sym.Choose("n", sym.Scale("len", 5, 6))
	t := sym.StrIn("t", n, "INFA-+infaty")
	lower := false
	for i := 0; i < n; i++ {
		lower = sym.Or(lower, t[i] >= 'a')
	}
	sym.Assume(!lower)
	// upper case INF and NAN with other signs, or INFINITY: left to strconv
	word := t == "INF" || t == "-INF" || t == "NAN"
	sym.Assume(sym.Or(word, sym.Not(sym.Or(t == "+INF", sym.Or(t == "+NAN", t == "-NAN")))))
	v := 7.0
	err := php.Unmarshal([]byte("d:"+t+";"), &v)
	if !word {
		isErr(err, "no float")
		sym.Assert(v == 7, "changed by a failing call")
		return
	}
	noErr(err, "special float rejected")
	switch t {
	case "INF":
		sym.Assert(v > math.MaxFloat64, "not +Inf")
	case "-INF":
		sym.Assert(v < -math.MaxFloat64, "not -Inf")
	default:
		sym.Assert(v != v, "not NaN")
	}
}

// out of range
func H_C26_range() {
	sign := pick("sign", "", "-", "+")
	digit := string(sym.ByteIn("x", "123456789"))
	place := sym.Choose("place", 4)
	if sym.Choose("type", 2) == 0 {
		t := sign + pick("t", digit+"e309", digit+"e999", digit+"E+400", "1.8e308", "1.7976931348623159e308", digit+"00e307", digit+reps("0", 309)+"."+digit)
		_, err := placedFloat[float64](t, place)
		isErr(err, "float out of range accepted")
		var v any
		isErr(php.Unmarshal([]byte("d:"+t+";"), &v), "float out of range accepted")
		return
	}
	t := sign + pick("t", digit+"e39", digit+"e308", digit+"e400", "3.4028236e38", "3.5e38", "3.4028235677973367e38", digit+reps("0", 39))
	_, err := placedFloat[float32](t, place)
	isErr(err, "float out of range accepted")
}

// texts cut short or with the wrong separators
func H_C26_broken() {
	t := pick("t", "d", "d:", "d:;", "d:1", "d;1;", "d1;", "d:1:", "d: 1;", "d:1 ;", "d:1;;", "d:INF", "d:NA;", "d:-NAN;", "d:--INF;", "d:1e;", "d:e1;", "d:.;", "d:-;", "d:1.2.3;", "d:1,5;", `d:"1";`, "D:1;", "d:0x;", "d:1e5.5;", "d:1\x00;")
	v, w := 7.0, float32(7)
	var i any = 7
	if t == "d:1;;" {
		return
	}
	isErr(php.Unmarshal([]byte(t), &v), "no float")
	isErr(php.Unmarshal([]byte(t), &w), "no float")
	isErr(php.Unmarshal([]byte(t), &i), "no float")
	sym.Assert(v == 7 && w == 7 && i == 7, "changed by a failing call")
}
