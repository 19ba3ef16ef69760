package h

import (
	php "github.com/trim21/go-phpserialize"
	"verif/harness/sym"
)

// C12: struct encoding

// place encodes v at several positions and compares with text.
func placed[T any](v T, text string) {
	var out []byte
	pre, post := "", ""
	switch sym.Choose("place", 9) {
	case 0:
		out = enc(v)
	case 1:
		out = enc(&v)
	case 2:
		out, pre, post = enc([]T{v}), "a:1:{i:0;", "}"
	case 3:
		out, pre, post = enc(map[string]T{"k": v}), `a:1:{s:1:"k";`, "}"
	case 4:
		out, pre, post = enc([]any{v}), "a:1:{i:0;", "}"
	case 5:
		out, pre, post = enc(struct{ P *T }{&v}), `a:1:{s:1:"P";`, "}"
	case 6:
		out, pre, post = enc(struct {
			A int
			V T
			Z int
		}{1, v, 2}), `a:3:{s:1:"A";i:1;s:1:"V";`, `s:1:"Z";i:2;}`
	case 7:
		out, pre, post = enc([]*T{&v}), "a:1:{i:0;", "}"
	case 8:
		out, pre, post = enc([1]any{&v}), "a:1:{i:0;", "}"
	}
	sym.Assert(same(out, []byte(pre+text+post)), "wrong struct encoding")
}

type Ord struct {
	Z  int `php:"z"`
	A  int
	b  int
	C  string `php:"-"`
	M  bool   `php:"first,omitempty"`
	D  int    `json:"nope"`
	E  int    `php:",omitempty"`
	e2 string
	F  string `php:"a b.c"`
	Y  int    `php:"-,"`
	G  *int   `php:"g"`
	H  *int   `php:"h,omitempty"`
	Ü  int
}

func H_C12_order() {
	g := dig("g")
	v := Ord{Z: dig("z"), A: 2, b: 3, C: "c", M: sym.Bool("m"), D: 4, E: dig("e"), e2: "q", F: sym.Str("f", 1), Y: 5, Ü: 6}
	n := 7
	body := `s:1:"z";` + string(encI(v.Z)) + `s:1:"A";i:2;`
	if v.M {
		n++
		body += `s:5:"first";b:1;`
	}
	body += `s:1:"D";i:4;`
	if v.E != 0 {
		n++
		body += `s:1:"E";` + string(encI(v.E))
	}
	body += `s:5:"a b.c";` + string(encS(v.F)) + `s:1:"-";i:5;`
	if sym.Choose("g", 2) == 1 {
		v.G = &g
		body += `s:1:"g";` + string(encI(g))
	} else {
		body += `s:1:"g";N;`
	}
	if sym.Choose("h", 2) == 1 {
		v.H = &g
		n++
		body += `s:1:"h";` + string(encI(g))
	}
	body += `s:2:"Ü";i:6;`
	placed(v, "a:"+itoa(n)+":{"+body+"}")
}

// omitField sets one field of o from inputs and returns its entry, empty when the field is zero.
func omitField(o *Omit, i int, name string) string {
	set := func(key string, zero bool, text []byte) string {
		if zero {
			return ""
		}
		return string(encS(key)) + string(text)
	}
	nonzero := sym.Choose(name+"set", 2) == 1
	switch i {
	case 0:
		o.I = sym.I8(name)
		return set("i", o.I == 0, encI(o.I))
	case 1:
		o.U = sym.U16(name)
		return set("u", o.U == 0, encU(o.U))
	case 2:
		if nonzero {
			o.S = sym.Str(name, 2)
		}
		return set("s", !nonzero, encS(o.S))
	case 3:
		o.B = sym.Bool(name)
		return set("B", !o.B, encB(true))
	case 4:
		if nonzero {
			o.F = pick(name, 0.5, -1e30, 5e-324)
		}
		return set("f", !nonzero, encF(o.F))
	case 5:
		if nonzero {
			o.L = []int{dig(name)}[:sym.Choose(name+"l", 2)]
		}
		return set("l", !nonzero, encSl(o.L, encI[int]))
	case 6:
		if nonzero {
			o.M = map[string]int{}
			if sym.Choose(name+"l", 2) == 1 {
				o.M["k"] = dig(name)
			}
		}
		return set("m", !nonzero, encMp1(o.M, encS, encI[int]))
	case 7:
		if nonzero {
			o.P = ptrTo(dig(name))
		}
		return set("p", !nonzero, encPtr(o.P, encI[int]))
	case 8:
		if nonzero {
			o.Q = &Inner{X: dig(name)}
		}
		return set("q", !nonzero, encPtr(o.Q, encInner))
	case 9:
		o.N = Inner{X: dig(name)}
		if nonzero {
			o.N.Y = sym.Str(name+"y", 1)
		}
		return set("n", o.N.X == 0 && !nonzero, encInner(o.N))
	case 10:
		o.A = [2]bool{sym.Bool(name), sym.Bool(name + "1")}
		return set("a", !o.A[0] && !o.A[1], encSl(o.A[:], encB))
	case 11:
		if nonzero {
			o.Z = pick[any](name, 0, "", false, (*int)(nil), []int(nil))
			return set("z", false, pick(name+"t", []byte("i:0;"), []byte(`s:0:"";`), []byte("b:0;"), []byte("N;"), []byte("N;")))
		}
		return ""
	case 12:
		if nonzero {
			o.By = sym.Bytes(name, sym.Choose(name+"l", 3))
			return set("by", false, encS(string(o.By)))
		}
		return ""
	case 13:
		o.W = dig(name)
		return set("w", o.W == 0, encS(itoaSym(o.W)))
	}
	return ""
}

func itoaSym(i int) string { return string(strconvI(int64(i))) }

func H_C12_omit() {
	i := sym.Choose("i", 14)
	j := i + sym.Choose("j", 14)
	sym.Assume(j < 14)
	o := Omit{K: dig("k")}
	body := `s:1:"k";` + string(encI(o.K))
	n := 1
	e := omitField(&o, i, "x")
	if i == 11 && o.Z != nil { // the two picks of Z belong together
		sym.Assume(zText(o.Z) == e[len(`s:1:"z";`):])
	}
	if e != "" {
		n++
		body += e
	}
	if j != i {
		e := omitField(&o, j, "y")
		if j == 11 && o.Z != nil {
			sym.Assume(zText(o.Z) == e[len(`s:1:"z";`):])
		}
		if e != "" {
			n++
			body += e
		}
	}
	placed(o, "a:"+itoa(n)+":{"+body+"}")
}

func zText(z any) string {
	switch z.(type) {
	case int:
		return "i:0;"
	case string:
		return `s:0:"";`
	case bool:
		return "b:0;"
	}
	return "N;"
}

// pointers to zero values are not zero
func H_C12_pointers() {
	type T struct {
		I  *int            `php:"i,omitempty"`
		S  *string         `php:"s,omitempty"`
		L  *[]int          `php:"l,omitempty"`
		M  *map[string]int `php:"m,omitempty"`
		St *Inner          `php:"st,omitempty"`
		A  *[1]int         `php:"a,omitempty"`
		An *any            `php:"an,omitempty"`
		Q  *int            `php:"q,string,omitempty"`
	}
	var v T
	body := ""
	n := 0
	add := func(name string, key string, set func(), text string) {
		if sym.Choose(name, 2) == 1 {
			set()
			n++
			body += string(encS(key)) + text
		}
	}
	add("i", "i", func() { v.I = new(int) }, "i:0;")
	add("s", "s", func() { v.S = new(string) }, `s:0:"";`)
	add("l", "l", func() { v.L = new([]int) }, "N;")
	add("m", "m", func() { v.M = new(map[string]int) }, "N;")
	add("st", "st", func() { v.St = new(Inner) }, `a:2:{s:1:"X";i:0;s:1:"y";s:0:"";}`)
	add("a", "a", func() { v.A = new([1]int) }, "a:1:{i:0;i:0;}")
	add("an", "an", func() { v.An = new(any) }, "N;")
	add("q", "q", func() { v.Q = new(int) }, `s:1:"0";`)
	out := enc(v)
	sym.Assert(same(out, []byte("a:"+itoa(n)+":{"+body+"}")), "wrong struct encoding")
}

// structs in structs each count their own entries
func H_C12_nested() {
	type L3 struct {
		A int `php:"a,omitempty"`
		B int `php:"-"`
		C string
	}
	type L2 struct {
		X *L3 `php:"x,omitempty"`
		Y L3  `php:"y"`
		Z []L3
	}
	a, b := dig("a"), dig("b")
	t3 := func(a int, c string) string {
		if a != 0 {
			return `a:2:{s:1:"a";` + string(encI(a)) + `s:1:"C";` + string(encS(c)) + "}"
		}
		return `a:1:{s:1:"C";` + string(encS(c)) + "}"
	}
	c := sym.Str("c", 1)
	v := L2{Y: L3{A: a, C: c}, Z: []L3{{A: b, B: 5}, {}}}
	text := `s:1:"y";` + t3(a, c) + `s:1:"Z";a:2:{i:0;` + t3(b, "") + "i:1;" + t3(0, "") + "}}"
	if sym.Choose("x", 2) == 1 {
		v.X = &L3{A: b, C: "x"}
		text = `a:3:{s:1:"x";` + t3(b, "x") + text
	} else {
		text = "a:2:{" + text
	}
	placed(v, text)
}

// embedded fields that are not structs are ordinary fields
func H_C12_embedded() {
	type E struct {
		A int
		NInt
		NStr `php:"s,omitempty"`
		*NFlt
		NSl `php:"-"`
		NArr
		Z int
	}
	f := NFlt(0.5)
	v := E{A: 1, NInt: NInt(dig("i")), NFlt: &f, NArr: NArr{1, 2}, Z: 2}
	text := `s:1:"A";i:1;s:4:"NInt";` + string(encI(v.NInt))
	n := 5
	if sym.Choose("s", 2) == 1 {
		v.NStr = NStr(sym.Str("s", 1))
		text += `s:1:"s";` + string(encS(string(v.NStr)))
		n++
	}
	text += `s:4:"NFlt";d:0.5;s:4:"NArr";a:2:{i:0;i:1;i:1;i:2;}`
	placed(v, "a:"+itoa(n)+":{"+text+`s:1:"Z";i:2;}`)
	var w E
	noErr(php.Unmarshal([]byte("a:"+itoa(n)+":{"+text+`s:1:"Z";i:2;}`), &w), "rejected")
	sym.Assert(w.A == 1 && w.NInt == v.NInt && w.NStr == v.NStr && *w.NFlt == f && w.NArr == v.NArr && w.NSl == nil && w.Z == 2, "wrong value")
}
