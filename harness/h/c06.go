package h

import (
	php "github.com/trim21/go-phpserialize"
	"verif/harness/sym"
)

// C06: struct fields are found by name

type Named struct {
	A    int    `php:"a"`
	Bb   string `php:"b"`
	C    bool
	D    int `php:"-"`
	e    int
	F    *int `php:"f,omitempty"`
	G    int  `php:",omitempty"`
	H    int  `json:"hh"`
	Long int  `php:"a-long name.with:punct"`
	Ü    int
	I    int `php:"A"`
	J    int `php:"-,"`
}

// skipped are values for unknown keys; sym parts make their text arbitrary.
func skipped(name string) string {
	switch sym.Choose(name, 14) {
	case 0:
		return "N;"
	case 1:
		return "b:1;"
	case 2:
		return string(encI(sym.I8(name + "i")))
	case 3:
		return "d:-1.5E+25;"
	case 4:
		return string(encS(sym.Str(name+"s", 3)))
	case 5:
		return string(encS(sym.Str(name+"s", 12)))
	case 6:
		return "a:0:{}"
	case 7:
		return "a:2:{i:0;a:1:{s:1:\"a\";i:1;}i:1;" + string(encS(sym.Str(name+"s", 2))) + "}"
	case 8:
		return `O:1:"` + sym.Str(name+"c", 1) + `":1:{s:1:"a";i:99;}`
	case 9:
		return `O:0:"":0:{}`
	case 10:
		return `a:1:{i:-5;O:2:"` + sym.Str(name+"c", 2) + `":2:{s:1:"a";d:INF;s:1:"b";a:1:{i:0;N;}}}`
	case 11:
		return "i:-123456789012345678901234567890;"
	case 12:
		return "s:0:\"\";"
	}
	return `a:1:{s:1:"a";a:1:{s:1:"a";a:1:{s:1:"a";a:0:{}}}}`
}

// want tracks what the struct must hold.
func H_C06_entries() {
	n := 1 + sym.Choose("n", sym.Scale("entries", 3, 3))
	f := 7
	v := Named{A: 1, Bb: "two", C: true, D: 3, e: 4, F: &f, G: 5, H: 6, Long: 7, Ü: 8, I: 9, J: 10}
	w := v
	wf := f
	var text []byte
	skips := 0
	for i := 0; i < n; i++ {
		is := itoa(i)
		kinds := 13
		if i > 0 {
			kinds = sym.Scale("kinds", 6, 13)
		}
		switch sym.Choose("e"+is, kinds) {
		case 0:
			x := dig("x" + is)
			text = append(text, `s:1:"a";`+string(encI(x))...)
			w.A = x
		case 1:
			s := sym.Str("x"+is, 2)
			text = append(text, `s:1:"b";`+string(encS(s))...)
			w.Bb = s
		case 2:
			if skips > 0 {
				sym.Assume(false)
			}
			skips++
			text = append(text, `s:5:"other";`+skipped("skip")...)
		case 3:
			x := dig("x" + is)
			text = append(text, `s:1:"f";`+string(encI(x))...)
			wf = x
		case 4:
			b := sym.Bool("x" + is)
			text = append(text, `s:1:"C";`+string(encB(b))...)
			w.C = b
		case 5:
			x := dig("x" + is)
			text = append(text, `s:1:"A";`+string(encI(x))...)
			w.I = x
		case 6:
			x := dig("x" + is)
			text = append(text, `s:1:"G";`+string(encI(x))...)
			w.G = x
		case 7:
			x := dig("x" + is)
			text = append(text, `s:1:"H";`+string(encI(x))...)
			w.H = x
		case 8:
			x := dig("x" + is)
			text = append(text, `s:22:"a-long name.with:punct";`+string(encI(x))...)
			w.Long = x
		case 9:
			x := dig("x" + is)
			text = append(text, string(encS("Ü"))+string(encI(x))...)
			w.Ü = x
		case 10: // "-," names a field "-" or keeps the Go name
			text = append(text, `s:1:"D";i:77;s:1:"e";i:78;`...)
		case 11:
			text = append(text, `s:2:"Bb";i:77;s:1:"B";i:78;s:1:"c";i:79;s:2:"hh";i:80;s:0:"";i:1;`...)
		case 12:
			text = append(text, `s:1:"F";i:77;s:4:"Long";i:78;s:2:"a ";i:1;s:2:" a";i:1;`...)
		}
	}
	head := pick("head", "a:", `O:1:"X":`)
	in := []byte(head + itoa(n) + ":{" + string(text) + "}")
	noErr(php.Unmarshal(in, &v), "rejected")
	ok := sym.And(v.A == w.A, v.Bb == w.Bb)
	ok = sym.And(ok, sym.And(v.C == w.C, v.D == 3))
	ok = sym.And(ok, sym.And(v.e == 4, v.G == w.G))
	ok = sym.And(ok, sym.And(v.H == w.H, v.Long == w.Long))
	ok = sym.And(ok, sym.And(v.Ü == w.Ü, v.I == w.I))
	sym.Assert(sym.And(ok, sym.And(v.J == 10, v.F != nil && *v.F == wf)), "wrong field")
}

// an arbitrary key
func H_C06_key() {
	n := sym.Choose("n", sym.Scale("max", 26, 40))
	k := sym.Str("k", n)
	x := dig("x")
	f := 7
	v := Named{A: 11, Bb: "two", C: true, D: 12, e: 13, F: &f, G: 14, H: 15, I: 16, J: 17}
	err := php.Unmarshal([]byte("a:2:{"+string(encS(k))+string(encI(x))+`s:1:"b";s:1:"!";}`), &v)
	if k == "b" || k == "C" {
		isErr(err, "type mismatch accepted")
		return
	}
	sym.Assume(k != "-") // the name of J's entry
	noErr(err, "rejected")
	w := Named{A: 11, Bb: "!", C: true, D: 12, e: 13, F: &f, G: 14, H: 15, I: 16, J: 17}
	switch k {
	case "a-long name.with:punct":
		w.Long = x
	case "a":
		w.A = x
	case "A":
		w.I = x
	case "G":
		w.G = x
	case "H":
		w.H = x
	case "f":
		sym.Assert(f == x, "wrong field")
	case "J":
		w.J = v.J
	case "Ü":
		w.Ü = x
	default:
		sym.Assert(f == 7, "wrong field")
	}
	sym.Assert(v == w, "wrong field")
}

// nested structs keep what the input does not mention
func H_C06_nested() {
	in := Inner{X: 1, Y: "y"}
	type T struct {
		P *Inner `php:"p"`
		S Inner  `php:"s"`
		Q *Inner `php:"q"`
		Z int    `php:"z"`
	}
	v := T{P: &in, S: Inner{X: 2, Y: "z"}}
	x := dig("x")
	s := sym.Str("s", 2)
	body := ""
	order := sym.Choose("order", 6)
	parts := []string{
		`s:1:"p";a:1:{s:1:"X";` + string(encI(x)) + "}",
		`s:1:"s";a:1:{s:1:"y";` + string(encS(s)) + "}",
		`s:1:"q";O:3:"Foo":2:{s:1:"y";` + string(encS(s)) + `s:4:"more";` + skipped("skip") + "}",
	}
	perm := [6][3]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}[order]
	for _, i := range perm {
		body += parts[i]
	}
	noErr(php.Unmarshal([]byte("a:4:{"+body+`s:1:"z";i:5;}`), &v), "rejected")
	sym.Assert(v.P == &in, "pointer replaced")
	sym.Assert(eqInner(in, Inner{x, "y"}), "wrong P")
	sym.Assert(eqInner(v.S, Inner{2, s}), "wrong S")
	sym.Assert(v.Q != nil && eqInner(*v.Q, Inner{0, s}), "wrong Q")
	sym.Assert(v.Z == 5, "wrong Z")
}

// skipped values in every position do not disturb what follows
func H_C06_skip() {
	sk := skipped("a")
	sk2 := ""
	if sym.Choose("two", 2) == 1 {
		sk2 = `s:2:"u2";` + pick("b", `a:2:{i:0;s:3:"a";";i:1;b:0;}`, `O:3:"A":":1:{s:1:"}";i:1;}`, `s:4:"};}{";`, "d:0;", "N;")
	}
	x := dig("x")
	type T struct {
		A int    `php:"a"`
		B int    `php:"-"`
		L [1]int `php:"l"`
	}
	switch sym.Choose("place", 5) {
	case 0:
		var v T
		noErr(php.Unmarshal([]byte(`a:3:{s:1:"u";`+sk+sk2+`s:1:"a";`+string(encI(x))+"}"), &v), "rejected")
		sym.Assert(v.A == x && v.B == 0, "value after a skipped value is wrong")
	case 1:
		var v T
		noErr(php.Unmarshal([]byte(`a:3:{s:1:"B";`+sk+sk2+`s:1:"a";`+string(encI(x))+"}"), &v), "rejected")
		sym.Assert(v.A == x && v.B == 0, "value after a skipped value is wrong")
	case 2:
		var v []T
		noErr(php.Unmarshal([]byte(`a:2:{i:0;a:1:{s:1:"u";`+sk+sk2+`}i:1;a:1:{s:1:"a";`+string(encI(x))+"}}"), &v), "rejected")
		sym.Assert(len(v) == 2 && v[0].A == 0 && v[1].A == x, "value after a skipped value is wrong")
	case 3:
		var v T
		noErr(php.Unmarshal([]byte(`a:3:{s:1:"l";a:2:{i:1;`+sk+`i:0;`+string(encI(x))+"}"+sk2+`s:1:"a";i:3;}`), &v), "rejected")
		sym.Assert(v.A == 3 && v.L[0] == x, "value after a skipped value is wrong")
	case 4:
		var v struct{}
		noErr(php.Unmarshal([]byte(`a:3:{s:1:"l";`+sk+sk2+`s:1:"a";i:3;}`), &v), "rejected")
	}
}
