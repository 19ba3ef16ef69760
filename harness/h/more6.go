package h

import (
	"math"

	php "github.com/trim21/go-phpserialize"
	"verif/harness/sym"
)

// ---- keys that differ from a field's name in one byte, somewhere

type alike struct {
	A int `php:"abcdefghijklmnopqrstuvwxyz01234567890"`
	B int `php:"abcdefgh"`
	C int `php:"k1234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890"`
	D int `php:"ABCDEFGHIJKLMNOPQ"`
}

var alikeNames = []string{"abcdefghijklmnopqrstuvwxyz01234567890", "abcdefgh",
	"k1234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890", "ABCDEFGHIJKLMNOPQ"}

func H_C06_alike() {
	f := sym.Choose("field", 4)
	name := alikeNames[f]
	p := sym.Choose("p", len(name)+1)
	c := sym.Bytes("c", 1)
	var key string
	match := false
	switch how := sym.Choose("how", 3); how {
	case 0: // another byte
		if p == len(name) {
			return
		}
		key = name[:p] + string(c) + name[p+1:]
		match = c[0] == name[p]
	case 1: // one more byte
		key = name[:p] + string(c) + name[p:]
	case 2: // one byte less
		if p == len(name) {
			return
		}
		key = name[:p] + name[p+1:]
	}
	x := dig("x")
	v := alike{11, 12, 13, 14}
	want := v
	if match {
		*[]*int{&want.A, &want.B, &want.C, &want.D}[f] = x
	}
	noErr(php.Unmarshal(doc("a:1:{", string(encS(key)), string(encI(x)), "}"), &v), "a struct is not decoded")
	sym.Assert(v == want, "a key is matched with a field of another name")
}

// ---- floats that compare equal or resemble each other, one after the other

var nearFloats = []float64{0, math.Copysign(0, -1), 1, -1, 0.1, float64(float32(0.1)), math.Inf(1), math.Inf(-1), 1e21, 5e-324, math.MaxFloat64, 100}

func nearFloat(name string) {
	f := nearFloats[sym.Choose(name, len(nearFloats))]
	text := encF(f)
	switch sym.Choose(name+" how", 6) {
	case 0:
		sym.Assert(same(enc(f), text), "wrong float text")
	case 1:
		sym.Assert(same(enc(struct{ F *float64 }{&f}), doc(`a:1:{s:1:"F";`, string(text), "}")), "wrong float text")
	case 2:
		g := float32(f)
		sym.Assert(same(enc([]any{g, f}), doc("a:2:{i:0;", string(encF32(g)), "i:1;", string(text), "}")), "wrong float text")
	case 3:
		if f-f != 0 {
			return
		}
		t := struct {
			F float64 `php:"f,string"`
			G float32 `php:"g,string"`
		}{f, float32(f)}
		if g := float64(t.G); g-g != 0 {
			return
		}
		sym.Assert(same(enc(t), doc(`a:2:{s:1:"f";`, string(encS(string(floatText(f, 64)))), `s:1:"g";`, string(encS(string(floatText(float64(t.G), 32)))), "}")), "wrong quoted float text")
	case 4:
		var g float64
		noErr(php.Unmarshal(text, &g), "a float is not decoded")
		sym.Assert(math.Float64bits(f) == math.Float64bits(g), "wrong float")
	case 5:
		var v []any
		noErr(php.Unmarshal(doc("a:1:{i:0;", string(text), "}"), &v), "a float is not decoded")
		g, ok := v[0].(float64)
		sym.Assert(ok && math.Float64bits(f) == math.Float64bits(g), "wrong float")
	}
}

func H_C19_floats() {
	nearFloat("first")
	nearFloat("second")
}

func H_C26_floats() { H_C19_floats() }

// ---- strings of a million bytes

func mega() (string, []byte) {
	b := make([]byte, pick("n", 999999, 1000000))
	n := len(b)
	c := sym.Bytes("c", 3)
	b[0], b[n/2], b[n-1] = c[0], c[1], c[2]
	s := string(b)
	return s, doc("s:", itoa(n), `:"`, s, `";`)
}

func H_C03_mega() {
	s, text := mega()
	switch sym.Choose("dst", 6) {
	case 0:
		var v string
		noErr(php.Unmarshal(text, &v), "a long string is not decoded")
		sym.Assert(v == s, "wrong long string")
	case 1:
		var v []byte
		noErr(php.Unmarshal(text, &v), "a long string is not decoded")
		sym.Assert(string(v) == s, "wrong long string")
	case 2:
		var v any
		noErr(php.Unmarshal(text, &v), "a long string is not decoded")
		t, ok := v.(string)
		sym.Assert(ok && t == s, "wrong long string")
	case 3:
		var v struct{ A int }
		noErr(php.Unmarshal(doc(`a:2:{s:1:"B";`, string(text), `s:1:"A";i:7;}`), &v), "a long string is not skipped")
		sym.Assert(v.A == 7, "wrong entry behind a long string")
	case 4:
		var v map[string]int
		noErr(php.Unmarshal(doc("a:1:{", string(text), "i:7;}"), &v), "a long key is not decoded")
		sym.Assert(len(v) == 1 && v[s] == 7, "wrong long key")
	case 5:
		var v Raw
		noErr(php.Unmarshal(text, &v), "a long string is not decoded")
		sym.Assert(v.B == string(text), "wrong bytes of a long string")
	}
}

func H_C10_mega() {
	s, text := mega()
	switch sym.Choose("v", 3) {
	case 0:
		sym.Assert(same(enc(s), text), "wrong text of a long string")
	case 1:
		sym.Assert(same(enc([]byte(s)), text), "wrong text of a long string")
	case 2:
		sym.Assert(same(enc(map[string]int{s: 7}), doc("a:1:{", string(text), "i:7;}")), "wrong text of a long key")
	}
}

// ---- two texts that differ in one byte, somewhere

// twins gives two texts of one length that differ (if at all) at one place.
func twins() (string, string) {
	n := pick("len", 3, 7, 9, 12, 17, 24, 33, 65, 140)
	if sym.Scale("twins", 0, 1) == 0 && n > 65 {
		n = 40
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('a' + i%26)
	}
	p := sym.Choose("p", n)
	s := string(b)
	b[p] = sym.Byte("c")
	return s, string(b)
}

// alikeCall decodes both texts, at once or one after the other.
func alikeCall(how int, a, b string) {
	ta, tb := string(encS(a)), string(encS(b))
	switch how {
	case 0:
		var v []string
		noErr(php.Unmarshal(doc("a:2:{i:0;", ta, "i:1;", tb, "}"), &v), "strings are not decoded")
		sym.Assert(sym.And(len(v) == 2 && v[0] == a, v[1] == b), "wrong string")
	case 1:
		var v []any
		noErr(php.Unmarshal(doc("a:2:{i:0;", ta, "i:1;", tb, "}"), &v), "strings are not decoded")
		x, ok1 := v[0].(string)
		y, ok2 := v[1].(string)
		sym.Assert(sym.And(ok1 && x == a, ok2 && y == b), "wrong string")
	case 2:
		var v map[string]int
		noErr(php.Unmarshal(doc("a:2:{", ta, "i:1;", tb, "i:2;}"), &v), "a map is not decoded")
		if a == b {
			sym.Assert(len(v) == 1 && v[b] == 2, "wrong entries")
		} else {
			sym.Assert(len(v) == 2 && v[a] == 1 && v[b] == 2, "wrong entries")
		}
	case 3:
		var v any
		noErr(php.Unmarshal(doc("a:2:{", ta, "i:1;", tb, "i:2;}"), &v), "a map is not decoded")
		m, ok := v.(map[any]any)
		if a == b {
			sym.Assert(ok && len(m) == 1 && m[b] == any(int64(2)), "wrong entries")
		} else {
			sym.Assert(ok && len(m) == 2 && m[a] == any(int64(1)) && m[b] == any(int64(2)), "wrong entries")
		}
	case 4:
		var v any
		noErr(php.Unmarshal(doc(`O:1:"C":2:{`, ta, "i:1;", tb, "i:2;}"), &v), "an object is not decoded")
		m, ok := v.(map[string]any)
		if a == b {
			sym.Assert(ok && len(m) == 1 && m[b] == any(int64(2)), "wrong entries")
		} else {
			sym.Assert(ok && len(m) == 2 && m[a] == any(int64(1)) && m[b] == any(int64(2)), "wrong entries")
		}
	case 5:
		var x, y string
		noErr(php.Unmarshal([]byte(ta), &x), "a string is not decoded")
		noErr(php.Unmarshal([]byte(tb), &y), "a string is not decoded")
		sym.Assert(sym.And(x == a, y == b), "wrong string")
	case 6:
		var x map[string]int
		var y any
		noErr(php.Unmarshal(doc("a:1:{", ta, "i:1;}"), &x), "a map is not decoded")
		noErr(php.Unmarshal([]byte(tb), &y), "a string is not decoded")
		_, ok := x[a]
		z, isStr := y.(string)
		sym.Assert(sym.And(ok, isStr && z == b), "wrong string")
	case 7:
		sym.Assert(same(enc([]string{a, b}), doc("a:2:{i:0;", ta, "i:1;", tb, "}")), "wrong text")
	case 8:
		sym.Assert(same(enc(a), []byte(ta)), "wrong text")
		sym.Assert(same(enc(any(b)), []byte(tb)), "wrong text")
	}
}

func H_C03_alike() {
	a, b := twins()
	alikeCall(sym.Choose("how", 2), a, b)
}
func H_C05_alike() {
	a, b := twins()
	alikeCall(pick("how", 1, 3, 4), a, b)
}
func H_C08_alike() {
	a, b := twins()
	alikeCall(pick("how", 2, 3, 4), a, b)
}
func H_C10_alike() {
	a, b := twins()
	alikeCall(pick("how", 7, 8), a, b)
}
func H_C19_alike() {
	a, b := twins()
	alikeCall(pick("how", 5, 6, 8), a, b)
}
