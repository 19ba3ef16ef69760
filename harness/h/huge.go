package h

import (
	"reflect"

	php "github.com/trim21/go-phpserialize"
	"verif/harness/sym"
)

// ---- structs with many fields

var wideIdx = []int{0, 1, 6, 7, 8, 9, 14, 15, 16, 31, 32, 33, 58, 63, 64, 65, 69, 100, 127, 128, 129, 130, 200, 255, 256, 257, 258, 298, 299}

// wideOf picks a struct type, and two of its fields.
func wideOf() (rv reflect.Value, i, j int) {
	switch sym.Choose("type", 3) {
	case 0:
		rv = reflect.ValueOf(new(Wide300)).Elem()
	case 1:
		rv = reflect.ValueOf(new(Omit130)).Elem()
	case 2:
		rv = reflect.ValueOf(new(Mixed70)).Elem()
	}
	k := 0
	for k < len(wideIdx) && wideIdx[k] < rv.NumField() {
		k++
	}
	i = wideIdx[sym.Choose("i", k)]
	j = wideIdx[(sym.Choose("j", sym.Scale("js", 3, 8))*5+3)%k]
	return
}

// wideField is the field's entry (without the value's) and how it is written.
func wideField(rv reflect.Value, i int) (name string, omit, quoted, ignored bool) {
	name = "F" + itoa(i)
	switch rv.NumField() {
	case 130:
		return "f" + itoa(i), true, false, false
	case 70:
		switch i % 5 {
		case 1:
			return name, true, false, false
		case 2:
			return name, false, false, true
		case 3:
			return name, false, true, false
		case 4:
			return "g" + itoa(i), true, true, false
		}
	}
	return
}

func wideText(rv reflect.Value, i int, v int) string {
	name, _, quoted, _ := wideField(rv, i)
	if quoted {
		return string(encS(name)) + string(encS(itoa(v)))
	}
	return string(encS(name)) + string(encI(v))
}

// decoding: two fields and unknown entries
func H_C06_wide() {
	rv, i, j := wideOf()
	x, y := 1+sym.Choose("x", 3), 1+dig("y")
	sym.Assume(i != j)
	ti, tj := wideText(rv, i, x), wideText(rv, j, y)
	text := pick("form", "a:2:{"+ti+tj+"}", "a:3:{"+tj+`s:4:"F999";a:1:{i:0;i:7;}`+ti+"}", `O:1:"C":3:{s:1:"F";i:7;`+ti+tj+"}")
	noErr(php.Unmarshal([]byte(text), rv.Addr().Interface()), "rejected")
	ok := true
	for k := 0; k < rv.NumField(); k++ {
		want := 0
		if _, _, _, ignored := wideField(rv, k); !ignored {
			if k == i {
				want = x
			} else if k == j {
				want = y
			}
		}
		ok = sym.And(ok, rv.Field(k).Int() == int64(want))
	}
	sym.Assert(ok, "wrong fields in a struct with many fields")
}

// encoding
func H_C12_wide() {
	rv, i, j := wideOf()
	x, y := sym.Choose("x", 3), dig("y")
	rv.Field(j).SetInt(int64(y))
	rv.Field(i).SetInt(int64(x))
	if i == j {
		y = x
	}
	n := 0
	var body []byte
	for k := 0; k < rv.NumField(); k++ {
		_, omit, _, ignored := wideField(rv, k)
		v := 0
		if k == i {
			v = x
		} else if k == j {
			v = y
		}
		if ignored || omit && v == 0 {
			continue
		}
		n++
		body = append(body, wideText(rv, k, v)...)
	}
	want := append(append(encArr(nil, n), body...), '}')
	v := rv.Interface()
	switch sym.Choose("place", 3) {
	case 0:
		sym.Assert(same(enc(v), want), "wrong struct with many fields")
	case 1:
		sym.Assert(same(enc(rv.Addr().Interface()), want), "wrong struct with many fields")
	case 2:
		sym.Assert(same(enc([]any{v}), doc("a:1:{i:0;", string(want), "}")), "wrong struct with many fields")
	}
}

func H_C11_wide() {
	rv, i, j := wideOf()
	rv.Field(j).SetInt(int64(-1 - dig("y")))
	rv.Field(i).SetInt(int64(dig("x")))
	q := reflect.New(rv.Type())
	noErr(php.Unmarshal(enc(rv.Interface()), q.Interface()), "the output of Marshal is rejected")
	ok := true
	for k := 0; k < rv.NumField(); k++ {
		if _, _, _, ignored := wideField(rv, k); !ignored {
			ok = sym.And(ok, rv.Field(k).Int() == q.Elem().Field(k).Int())
		}
	}
	sym.Assert(ok, "a struct with many fields does not round-trip")
}

// ---- long strings and lists

func hugeSize() int {
	return pick("n", 4096, 32767, 32768, 65535, 65536, 65537, 70001, 99999, 100000, 131073)
}

func hugeCount() int {
	if sym.Scale("counts", 0, 1) == 1 {
		return pick("n", 999, 1000, 1001, 1024, 1025, 4095, 4097, 9999, 10001, 16385)
	}
	return pick("n", 999, 1000, 1001, 1025, 4097)
}

func hugeVal() val {
	small = true
	switch sym.Choose("huge", 9) {
	case 0:
		v := string(bigText("v", hugeSize()))
		return mk(v, encS(v), eqC[string])
	case 1:
		v := bigText("v", hugeSize())
		return mk(v, encS(string(v)), eqBytes)
	case 2:
		v := map[string]int{string(bigText("k", hugeSize())): dig("x")}
		return mk(v, encMp1(v, encS, encI[int]), eqMp[string](eqC[int]))
	case 3:
		v := struct{ A, B string }{string(bigText("v", hugeSize())), sym.Str("w", 1)}
		return mk(v, fields("A", string(encS(v.A)), "B", string(encS(v.B))), eqC[struct{ A, B string }])
	case 4:
		v := []string{"", string(bigText("v", hugeSize())), sym.Str("w", 1)}
		return mk(v, encSl(v, encS), eqSl(eqC[string]))
	case 5:
		v := make([]int, hugeCount())
		v[len(v)-1], v[len(v)/2] = dig("x"), -1
		return mk(v, encSl(v, encI[int]), eqSl(eqC[int]))
	case 6:
		v := make([]bool, hugeCount())
		v[len(v)-1] = sym.Bool("x")
		return mk(v, encSl(v, encB), eqSl(eqC[bool]))
	case 7:
		v := [1100]string{}
		v[1099], v[1000] = sym.Str("w", 1), sym.Str("w", 1)
		return mk(v, encSl(v[:], encS), eqC[[1100]string])
	}
	v := make([]*Inner, hugeCount())
	v[len(v)-1], v[1] = &Inner{X: dig("x"), Y: "a"}, &Inner{X: 3}
	return mk(v, encSl(v, func(p *Inner) []byte { return encPtr(p, encInner) }), eqSl(eqPtr(eqInner)))
}

func H_C10_huge() {
	g := hugeVal()
	if sym.Choose("any", 2) == 1 {
		sym.Assert(same(enc([]any{g.v}), doc("a:1:{i:0;", string(g.enc), "}")), "a large value is encoded wrong")
		return
	}
	sym.Assert(same(enc(g.v), g.enc), "a large value is encoded wrong")
}

func H_C03_huge() {
	g := hugeVal()
	p := g.dst()
	noErr(php.Unmarshal(g.enc, p), "large canonical text is rejected")
	sym.Assert(g.eq(p), "a large value is decoded wrong")
}

func H_C11_huge() {
	g := hugeVal()
	p := g.dst()
	noErr(php.Unmarshal(enc(g.v), p), "the output of Marshal is rejected")
	sym.Assert(g.eq(p), "a large value does not round-trip")
}

// large values into an interface, skipped, raw
func H_C02_huge() {
	n := hugeSize()
	t := bigText("v", n)
	end := pick("end", `";`, `";;`, `"`, `x;`, `";}`)
	text := "s:" + itoa(n) + `:"` + string(t) + end
	want := end == `";`
	var err error
	switch sym.Choose("dst", 4) {
	case 0:
		err = php.Unmarshal([]byte(text), new(string))
	case 1:
		err = php.Unmarshal([]byte(text), new(any))
	case 2:
		err = php.Unmarshal([]byte(`a:2:{s:1:"u";`+text+`s:1:"X";i:1;}`), new(Inner))
	case 3:
		err = php.Unmarshal([]byte("a:1:{i:0;"+text+"}"), new([]Raw))
	}
	if want {
		noErr(err, "rejected")
	} else {
		isErr(err, "malformed text is accepted")
	}
}

// ---- quoted and plain fields of the same types in one struct

type mixA[T any] struct {
	A *T `php:"a,string"`
	B *T `php:"b"`
	C T  `php:"c,string"`
	D T  `php:"d"`
}

type mixB[T any] struct {
	D  T                  `php:"d"`
	B  *T                 `php:"b"`
	L  []*T               `php:"l"`
	M  map[string]*T      `php:"m"`
	I  struct{ B *T }     `php:"i"`
	C  T                  `php:"c,string"`
	A  *T                 `php:"a,string"`
	J  *struct{ A, B *T } `php:"j"`
	B2 *T                 `php:"b2"`
}

func mixOf[T any](plain func(T) []byte, quoted func(T) string, v, w T, eq func(a, b T) bool) {
	pv, pw, qv, qw := string(plain(v)), string(plain(w)), string(encS(quoted(v))), string(encS(quoted(w)))
	switch sym.Choose("struct", 2) {
	case 0:
		x := mixA[T]{&v, &w, w, v}
		t := fields("a", qv, "b", pw, "c", qw, "d", pv)
		sym.Assert(same(enc(x), t), "wrong text of quoted and plain fields")
		y := dec[mixA[T]](t)
		sym.Assert(eq(*y.A, v) && eq(*y.B, w) && eq(y.C, w) && eq(y.D, v), "wrong quoted and plain fields")
	case 1:
		x := mixB[T]{D: v, B: &w, L: []*T{&v}, M: map[string]*T{"k": &w}, C: w, A: &v, J: &struct{ A, B *T }{&w, &v}, B2: &v}
		x.I.B = &v
		t := fields("d", pv, "b", pw, "l", "a:1:{i:0;"+pv+"}", "m", `a:1:{s:1:"k";`+pw+"}", "i", string(fields("B", pv)),
			"c", qw, "a", qv, "j", string(fields("A", pw, "B", pv)), "b2", pv)
		sym.Assert(same(enc(x), t), "wrong text of quoted and plain fields")
		y := dec[mixB[T]](t)
		sym.Assert(eq(y.D, v) && eq(*y.B, w) && eq(*y.L[0], v) && eq(*y.M["k"], w) && eq(*y.I.B, v) && eq(y.C, w) &&
			eq(*y.A, v) && eq(*y.J.A, w) && eq(*y.J.B, v) && eq(*y.B2, v), "wrong quoted and plain fields")
	}
}

func H_C13_mixed() {
	x, y := dig("x"), dig("y")
	switch sym.Choose("type", 8) {
	case 0:
		mixOf(encI[int], func(v int) string { return itoa(v) }, x, y, eqC[int])
	case 1:
		mixOf(encI[int8], func(v int8) string { return itoa(int(v)) }, int8(x), int8(y), eqC[int8])
	case 2:
		mixOf(encU[uint64], func(v uint64) string { return itoa(int(v)) }, uint64(x), uint64(y), eqC[uint64])
	case 3:
		mixOf(encU[uint16], func(v uint16) string { return itoa(int(v)) }, uint16(x), uint16(y), eqC[uint16])
	case 4:
		mixOf(encB, func(v bool) string {
			if v {
				return "true"
			}
			return "false"
		}, sym.Bool("v"), sym.Bool("w"), eqC[bool])
	case 5:
		mixOf(encF, func(v float64) string { return string(floatText(v, 64)) }, 0.5, pick("f", 1.25, -3), eqC[float64])
	case 6:
		mixOf(encS, func(v string) string { return v }, sym.Str("v", 1), sym.Str("w", 2), eqC[string])
	case 7:
		mixOf(encI[int64], func(v int64) string { return itoa(int(v)) }, int64(-1-x), int64(y), eqC[int64])
	}
}
