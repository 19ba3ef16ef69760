package h

import (
	"reflect"

	php "github.com/trim21/go-phpserialize"
	"verif/harness/sym"
)

// ---- further harnesses, by property

// hasMap reports types whose old content survives decoding.
func hasMap(t reflect.Type, depth int) bool {
	if depth == 0 {
		return false
	}
	switch t.Kind() {
	case reflect.Map:
		return true
	case reflect.Pointer, reflect.Slice, reflect.Array:
		return hasMap(t.Elem(), depth-1)
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if hasMap(t.Field(i).Type, depth-1) {
				return true
			}
		}
	}
	return false
}

const omitGen = 63 // its zero fields are not written

// a destination that already holds another value of the type
func H_C03_over() {
	small = sym.Scale("full", 0, 1) == 0
	i := sym.Choose("gen", len(gens))
	a := gens[i]()
	if hasMap(reflect.TypeOf(a.v), 6) {
		sym.Assume(false)
	}
	sym.Assume(i != omitGen)
	b := gens[i]()
	switch sym.Choose("place", 2) {
	case 1:
		w := sym.Choose("wrap", len(a.wraps))
		a, b = a.wraps[w](), b.wraps[w]()
		if hasMap(reflect.TypeOf(a.v), 6) {
			sym.Assume(false)
		}
	}
	p := a.dst()
	noErr(php.Unmarshal(a.enc, p), "canonical text is rejected")
	noErr(php.Unmarshal(b.enc, p), "canonical text is rejected by a used destination")
	sym.Assert(b.eq(p), "canonical text decodes to a different value in a used destination")
}

// strings of every length up to the bound, anywhere
func H_C03_strings() {
	n := sym.Choose("n", sym.Scale("max", 34, 300))
	s := sym.Str("s", n)
	t := string(encS(s))
	switch sym.Choose("kind", 9) {
	case 0:
		sym.Assert(dec[string]([]byte(t)) == s, "wrong string")
	case 1:
		sym.Assert(string(dec[[]byte]([]byte(t))) == s, "wrong bytes")
	case 2:
		m := dec[map[string]string]([]byte("a:1:{" + t + t + "}"))
		x, ok := m[s]
		sym.Assert(ok && len(m) == 1 && x == s, "wrong map")
	case 3:
		l := dec[[]*string]([]byte("a:2:{i:0;" + t + "i:1;" + t + "}"))
		sym.Assert(len(l) == 2 && sym.And(*l[0] == s, *l[1] == s), "wrong slice")
	case 4:
		v := dec[struct{ A, B NStr }]([]byte(`a:3:{s:1:"A";` + t + `s:2:"no";` + t + `s:1:"B";` + t + "}"))
		sym.Assert(sym.And(string(v.A) == s, string(v.B) == s), "wrong fields")
	case 5:
		v := dec[any]([]byte(t))
		x, ok := v.(string)
		sym.Assert(ok && x == s, "wrong dynamic string")
	case 6:
		v := dec[[2]string]([]byte("a:2:{i:1;" + t + "i:0;" + t + "}"))
		sym.Assert(sym.And(v[0] == s, v[1] == s), "wrong array")
	case 7:
		v := dec[map[any]any]([]byte("a:1:{" + t + t + "}"))
		x, ok := v[s].(string)
		sym.Assert(ok && len(v) == 1 && x == s, "wrong map")
	case 8:
		v := dec[map[string]any]([]byte(`O:1:"C":1:{` + t + t + "}"))
		x, ok := v[s].(string)
		sym.Assert(ok && len(v) == 1 && x == s, "wrong map")
	}
}

func H_C05_strings() {
	n := sym.Choose("n", sym.Scale("max", 34, 300))
	s := sym.Str("s", n)
	t := string(encS(s))
	if sym.Choose("key", 2) == 0 {
		anyPlace(node{t, func(x any) bool { v, ok := x.(string); return ok && v == s }})
		return
	}
	object := sym.Choose("object", 2) == 1
	anyPlace(container("c", object, []entry{{s: s, v: node{"i:1;", func(x any) bool { return x == any(int64(1)) }}}}))
}

func H_C08_strings() {
	n := sym.Choose("n", sym.Scale("max", 34, 300))
	k := sym.Str("k", n)
	t := string(encS(k))
	switch sym.Choose("kind", 4) {
	case 0:
		v := map[string]int{"old entry": 1}
		noErr(php.Unmarshal([]byte("a:1:{"+t+"i:7;}"), &v), "rejected")
		sym.Assert(v[k] == 7, "entry lost")
		sym.Assert(sym.Or(k == "old entry", len(v) == 2 && v["old entry"] == 1), "entry lost")
	case 1:
		v := dec[map[NStr]*Inner]([]byte("a:1:{" + t + `a:1:{s:1:"X";i:7;}}`))
		sym.Assert(len(v) == 1 && v[NStr(k)].X == 7, "entry lost")
	case 2:
		v := dec[map[string]map[string]int]([]byte("a:2:{" + t + "a:1:{" + t + `i:7;}s:1:"k";N;}`))
		sym.Assert(v[k][k] == 7 || k == "k", "entry lost")
	case 3:
		v := dec[map[string][]string]([]byte(`O:1:"C":1:{` + t + "a:1:{i:0;" + t + "}}"))
		sym.Assert(len(v) == 1 && len(v[k]) == 1 && v[k][0] == k, "entry lost")
	}
}

// ---- tags

type Tags struct {
	A int  `php:"-b"`
	B int  `php:"b-"`
	C int  `php:"a b"`
	D int  `php:"a.b"`
	E int  `php:"é"`
	F int  `php:"$x"`
	G int  `php:"[0]"`
	H int  `php:"1"`
	I int  `php:"i,unknown"`
	J int  `php:"j, omitempty"`
	K int  `json:"kk" php:"k2"`
	L int  `php:"日本"`
	M int  `php:" p"`
	N int  `php:",unknown,omitempty"`
	O int  `php:"--"`
	P int  `php:"-,omitempty"`
	Q int  `php:"omitempty"`
	R int  `php:"string"`
	S int  `json:"-"`
	T int  `PHP:"yy"`
	U int  `php:""`
	V int  `php:","`
	W int  `php:"a_very_long_name_that_needs_more_than_one_digit_for_its_length_and_goes_on_and_on_and_on_and_on_and_on_and_on"`
	X int  `php:"r,omitempty,string"`
	Y *int `php:"A"`
	Z int  `php:"-"`
}

type tag struct {
	name   string
	omit   bool
	quoted bool
	f      func(*Tags) *int
}

var tags = []tag{
	{"-b", false, false, func(t *Tags) *int { return &t.A }},
	{"b-", false, false, func(t *Tags) *int { return &t.B }},
	{"a b", false, false, func(t *Tags) *int { return &t.C }},
	{"a.b", false, false, func(t *Tags) *int { return &t.D }},
	{"é", false, false, func(t *Tags) *int { return &t.E }},
	{"$x", false, false, func(t *Tags) *int { return &t.F }},
	{"[0]", false, false, func(t *Tags) *int { return &t.G }},
	{"1", false, false, func(t *Tags) *int { return &t.H }},
	{"i", false, false, func(t *Tags) *int { return &t.I }},
	{"j", false, false, func(t *Tags) *int { return &t.J }},
	{"k2", false, false, func(t *Tags) *int { return &t.K }},
	{"日本", false, false, func(t *Tags) *int { return &t.L }},
	{" p", false, false, func(t *Tags) *int { return &t.M }},
	{"N", true, false, func(t *Tags) *int { return &t.N }},
	{"--", false, false, func(t *Tags) *int { return &t.O }},
	{"-", true, false, func(t *Tags) *int { return &t.P }},
	{"omitempty", false, false, func(t *Tags) *int { return &t.Q }},
	{"string", false, false, func(t *Tags) *int { return &t.R }},
	{"S", false, false, func(t *Tags) *int { return &t.S }},
	{"T", false, false, func(t *Tags) *int { return &t.T }},
	{"U", false, false, func(t *Tags) *int { return &t.U }},
	{"V", false, false, func(t *Tags) *int { return &t.V }},
	{"a_very_long_name_that_needs_more_than_one_digit_for_its_length_and_goes_on_and_on_and_on_and_on_and_on_and_on", false, false, func(t *Tags) *int { return &t.W }},
	{"r", true, true, func(t *Tags) *int { return &t.X }},
	{"A", true, false, func(t *Tags) *int { return t.Y }},
}

func (t tag) text(x int) string {
	if t.quoted {
		return string(encS(itoaSym(x)))
	}
	return string(encI(x))
}

// some texts of entries that belong to no field
var strangers = []string{"-,", "b", "", "a", "AB", "é ", "x", "0", "kk", "K", "L", "p", " ", "n", "P", "-,omitempty", "omit", "s", "yy", "u", "v", "W", "R", "X", "Y", "Z", "B", "E", "G", "H", "I", "i,unknown", "j, omitempty", "J", "php", "M", "O", "Q", "C", "D", "F"}

func H_C06_tags() {
	old := 3
	v := Tags{Y: &old, Z: 9}
	w := v
	if sym.Choose("what", 2) == 0 {
		s := pick("key", strangers...)
		noErr(php.Unmarshal([]byte("a:1:{"+string(encS(s))+"i:5;}"), &v), "rejected")
		sym.Assert(v == w && old == 3, "a key that names no field is decoded")
		return
	}
	i := sym.Choose("i", len(tags))
	x, y := dig("x"), dig("y")
	t := tags[i]
	text := string(encS(t.name)) + t.text(x)
	*t.f(&w) = x
	j := (i + 1 + sym.Choose("j", sym.Scale("pairs", 2, len(tags)-1))) % len(tags)
	u := tags[j]
	text2 := string(encS(u.name)) + u.text(y)
	*u.f(&w) = y
	wold := old
	old = 3
	if sym.Choose("order", 2) == 1 {
		text, text2 = text2, text
	}
	noErr(php.Unmarshal([]byte("a:3:{"+text+`s:1:"Z";i:1;`+text2+"}"), &v), "rejected")
	sym.Assert(sym.And(v == w, old == wold), "wrong field")
}

func H_C12_tags() {
	var v Tags
	y := 4
	if sym.Choose("y", 2) == 1 {
		v.Y = &y
	}
	i := sym.Choose("i", len(tags)-1)
	v.Z = 5
	x := dig("x")
	*tags[i].f(&v) = x
	j := sym.Choose("j", len(tags)-1)
	sym.Assume(j != i)
	*tags[j].f(&v) = 8
	n := 0
	body := ""
	for _, t := range tags {
		if t.name == "A" && v.Y == nil {
			n++
			body += string(encS(t.name)) + "N;"
			continue
		}
		p := *t.f(&v)
		if t.omit && t.name != "A" && p == 0 {
			continue
		}
		n++
		body += string(encS(t.name)) + t.text(p)
	}
	sym.Assert(same(enc(v), []byte("a:"+itoa(n)+":{"+body+"}")), "wrong struct encoding")
}

// every value behind interfaces
func H_C10_any() {
	g := gen()
	var v any
	e := string(g.enc)
	switch sym.Choose("in", 3) {
	case 0:
		v = []any{g.v}
		e = "a:1:{i:0;" + e + "}"
	case 1:
		v = map[string]any{"k": g.ptr}
		e = `a:1:{s:1:"k";` + e + "}"
	case 2:
		v = &struct {
			A int
			X any
		}{1, g.v}
		e = `a:2:{s:1:"A";i:1;s:1:"X";` + e + "}"
	}
	sym.Assert(same(enc(v), []byte(e)), "Marshal output is not the canonical text")
}

// ---- quoted integers: any text

type quotedInts[T any] struct {
	A int
	V T  `php:"v,string"`
	P *T `php:"p,string"`
	Z int
}

func quotedText[T intType](t string, isU bool) {
	old := T(7)
	v := quotedInts[T]{A: 1, V: 5, P: &old, Z: 2}
	ptr := sym.Choose("ptr", 2) == 1
	key := `s:1:"v";`
	if ptr {
		key = `s:1:"p";`
	}
	err := php.Unmarshal([]byte(`a:2:{`+key+string(encS(t))+`s:1:"Z";i:3;}`), &v)
	i, neg := 0, false
	if len(t) > 0 && t[0] == '-' {
		i, neg = 1, true
	}
	ok := i < len(t)
	var x int64
	for ; i < len(t); i++ {
		ok = sym.And(ok, isDigit(t[i]))
		x = x*10 + int64(t[i]-'0')
	}
	if neg {
		x = -x
	}
	got := v.V
	if ptr {
		got = old
	}
	if err == nil {
		sym.Assert(ok || len(t) > 0 && t[0] == '+', "a quoted text that is not an integer is accepted")
		sym.Assert(sym.Or(!ok, int64(got) == x), "a quoted integer gives another value")
		sym.Assert(v.Z == 3 && v.A == 1, "a neighbour is changed")
		return
	}
	sym.Assert(v.V == 5 && old == 7 && v.P == &old, "changed by a failing call")
	if isU && neg {
		return
	}
	sym.Assert(sym.Or(!ok, x != int64(T(x))), "a quoted integer is refused")
}

func H_C13_ints() {
	t := sym.Str("t", sym.Choose("n", sym.Scale("len", 5, 6)))
	switch sym.Choose("type", sym.Scale("types", 6, 10)) {
	case 0:
		quotedText[int](t, false)
	case 1:
		quotedText[uint](t, true)
	case 2:
		quotedText[int8](t, false)
	case 3:
		quotedText[uint8](t, true)
	case 4:
		quotedText[int64](t, false)
	case 5:
		quotedText[uint64](t, true)
	case 6:
		quotedText[int16](t, false)
	case 7:
		quotedText[uint16](t, true)
	case 8:
		quotedText[int32](t, false)
	case 9:
		quotedText[uint32](t, true)
	}
}

// ---- class names of any content

func H_C27_names() {
	c := sym.Str("c", sym.Choose("n", sym.Scale("max", 34, 130)))
	body := `s:1:"A";i:5;s:1:"M";a:1:{s:1:"k";i:6;}`
	o := string(encObj(nil, c, 2)) + body + "}"
	okObj := func(v obj) bool { return v.A == 5 && len(v.M) == 1 && v.M["k"] == 6 }
	switch sym.Choose("type", 8) {
	case 0:
		sym.Assert(okObj(dec[obj]([]byte(o))), "wrong struct")
	case 1:
		v := dec[map[string]any]([]byte(o))
		m, ok := v["M"].(map[any]any)
		sym.Assert(len(v) == 2 && v["A"] == any(int64(5)) && ok && len(m) == 1 && m["k"] == any(int64(6)), "wrong map")
	case 2:
		v, ok := dec[any]([]byte(o)).(map[string]any)
		sym.Assert(ok && len(v) == 2 && v["A"] == any(int64(5)), "wrong dynamic value")
	case 3:
		sym.Assert(dec[Raw]([]byte(o)).B == o, "Unmarshaler gets other bytes")
	case 4:
		v := dec[struct{ Z int }]([]byte(`a:2:{s:1:"q";` + o + `s:1:"Z";i:4;}`))
		sym.Assert(v.Z == 4, "entry after a skipped object lost")
	case 5:
		v := dec[[]*obj]([]byte("a:2:{i:1;" + o + "i:0;" + o + "}"))
		sym.Assert(len(v) == 2 && okObj(*v[0]) && okObj(*v[1]), "wrong slice")
	case 6:
		v := dec[map[string]obj]([]byte(string(encObj(nil, c, 1)) + `s:1:"k";` + o + "}"))
		sym.Assert(len(v) == 1 && okObj(v["k"]), "wrong map")
	case 7:
		v := dec[map[any]any]([]byte("a:1:{i:3;" + o + "}"))
		m, ok := v[int64(3)].(map[string]any)
		sym.Assert(ok && len(m) == 2 && m["A"] == any(int64(5)), "wrong dynamic value")
	}
}

// slices and arrays refuse an object
func H_C27_lists() {
	c := sym.Str("c", sym.Choose("n", 13))
	body, n := "", 0
	if sym.Choose("full", 2) == 1 {
		body, n = "i:0;i:1;", 1
	}
	o := string(encObj(nil, c, n)) + body + "}"
	switch sym.Choose("type", 5) {
	case 0:
		decErr[[]int]([]byte(o), "a slice takes an object")
	case 1:
		decErr[[2]int]([]byte(o), "an array takes an object")
	case 2:
		decErr[[]any]([]byte(o), "a slice takes an object")
	case 3:
		decErr[struct{ L []int }]([]byte(`a:1:{s:1:"L";`+o+"}"), "a slice takes an object")
	case 4:
		decErr[map[string][1]any]([]byte(`a:1:{s:1:"L";`+o+"}"), "an array takes an object")
	}
}
