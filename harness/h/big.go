package h

import (
	"reflect"

	php "github.com/trim21/go-phpserialize"
	"verif/harness/sym"
)

// Large values: sizes around the thresholds an implementation may have (pools, buffers, length
// digits, hash maps), a few symbolic bytes inside.

var bigSizes = []int{8, 9, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 513, 1000, 1016, 1024, 1025, 2047, 2049, 4096, 4097, 10000, 16385, 32769, 65535, 65537, 100001}

// bigFew makes the functions below choose among fewer sizes.
var bigFew bool

// Reset restores the settings of the generators.
func Reset() { small, bigFew = false, false }

// bigSize picks one of the sizes.
func bigSize(name string) int {
	if bigFew {
		return pick(name, 129, 1025, 5000)
	}
	return bigSizes[sym.Choose(name, sym.Scale(name+"_sizes", 26, len(bigSizes)))]
}

// manySizes are numbers of elements.
var manySizes = []int{4, 8, 9, 13, 16, 17, 31, 33, 64, 65, 100, 129, 256, 257, 600, 1001}

func manySize(name string) int {
	if bigFew {
		return pick(name, 9, 130)
	}
	return manySizes[sym.Choose(name, sym.Scale(name+"_sizes", 13, len(manySizes)))]
}

// few is a short choice among them.
func few(name string) int {
	if bigFew {
		return 40
	}
	return pick(name, 9, 33, 300)
}

// bigText is a text of n bytes of all kinds, three of them symbolic.
func bigText(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*31 + i>>8)
	}
	if n > 0 {
		b[n-1] = sym.Byte(name)
		b[n/2] = sym.Byte(name)
		b[0] = sym.Byte(name)
	}
	return b
}

// nums are n numbers, two symbolic.
func nums(name string, n int) []int {
	v := make([]int, n)
	for i := range v {
		v[i] = i*7919 - 100*(i&1)
	}
	v[0] = dig(name)
	v[n/2] = -1 - dig(name)
	return v
}

// Wide has many fields.
type Wide struct {
	F00 int               `php:"f00"`
	F01 string            `php:"f01"`
	F02 bool              `php:"f02"`
	F03 *int              `php:"f03"`
	F04 []int             `php:"f04"`
	F05 map[string]int    `php:"f05"`
	F06 any               `php:"f06"`
	F07 Inner             `php:"f07"`
	F08 *Inner            `php:"f08"`
	F09 float64           `php:"f09"`
	F10 uint8             `php:"f10"`
	F11 int64             `php:"f11"`
	F12 []byte            `php:"f12"`
	F13 [2]int            `php:"f13"`
	F14 string            `php:"f14"`
	F15 int               `php:"f15"`
	F16 int               `php:"f16"`
	F17 int               `php:"f17,omitempty"`
	F18 string            `php:"f18,omitempty"`
	F19 []string          `php:"f19"`
	F20 map[int]string    `php:"f20"`
	F21 int               `php:"f21,string"`
	F22 bool              `php:"f22"`
	F23 int               `php:"-"`
	F24 int               `php:"f24"`
	F25 int               `php:"f25"`
	F26 int               `php:"f26"`
	F27 int               `php:"f27"`
	F28 int               `php:"f28"`
	F29 int               `php:"f29"`
	F30 int               `php:"f30"`
	F31 int               `php:"f31"`
	F32 int               `php:"f32"`
	F33 string            `php:"f33"`
	F34 string            `php:"f34"`
	F35 int               `php:"f35"`
	F36 [1]string         `php:"f36"`
	F37 map[string]string `php:"f37"`
	F38 int16             `php:"f38"`
	F39 uint64            `php:"f39"`
}

func wideVal(name string) (Wide, []string) {
	x, y, z := dig(name), dig(name), dig(name)
	s := sym.Str(name, 2)
	w := Wide{F00: x, F01: s, F02: true, F03: &y, F04: []int{1, y}, F05: map[string]int{s: x}, F07: Inner{X: z, Y: s},
		F08: &Inner{X: 1, Y: "p"}, F09: 0.5, F10: 200, F11: -5, F12: []byte(s), F13: [2]int{x, 3}, F14: s, F15: 15, F16: 16,
		F18: "o", F19: []string{s, ""}, F20: map[int]string{20: s}, F21: x, F24: 24, F25: z, F26: 26, F27: 27, F28: 28,
		F29: 29, F30: 30, F31: y, F32: 32, F33: s, F34: "34", F35: 35, F36: [1]string{s}, F37: map[string]string{"k": s}, F38: -38, F39: 1 << 63}
	es, ex := string(encS(s)), string(encI(x))
	ey, ez := string(encI(y)), string(encI(z))
	return w, []string{"f00", ex, "f01", es, "f02", "b:1;", "f03", ey, "f04", "a:2:{i:0;i:1;i:1;" + ey + "}", "f05", "a:1:{" + es + ex + "}",
		"f06", "N;", "f07", `a:2:{s:1:"X";` + ez + `s:1:"y";` + es + "}", "f08", `a:2:{s:1:"X";i:1;s:1:"y";s:1:"p";}`, "f09", "d:0.5;", "f10", "i:200;",
		"f11", "i:-5;", "f12", es, "f13", "a:2:{i:0;" + ex + "i:1;i:3;}", "f14", es, "f15", "i:15;", "f16", "i:16;", "f18", `s:1:"o";`,
		"f19", "a:2:{i:0;" + es + `i:1;s:0:"";}`, "f20", "a:1:{i:20;" + es + "}", "f21", string(encS(itoa(x))), "f22", "b:0;", "f24", "i:24;", "f25", ez, "f26", "i:26;",
		"f27", "i:27;", "f28", "i:28;", "f29", "i:29;", "f30", "i:30;", "f31", ey, "f32", "i:32;", "f33", es, "f34", `s:2:"34";`, "f35", "i:35;",
		"f36", "a:1:{i:0;" + es + "}", "f37", `a:1:{s:1:"k";` + es + "}", "f38", "i:-38;", "f39", "i:9223372036854775808;"}
}

func eqWide(a, b Wide) bool {
	ok := sym.And(a.F00 == b.F00, a.F01 == b.F01) && a.F02 == b.F02 && *a.F03 == *b.F03 && eqSl(eqC[int])(a.F04, b.F04) && eqMp[string](eqC[int])(a.F05, b.F05)
	ok = ok && a.F06 == nil && eqInner(a.F07, b.F07) && eqPtr(eqInner)(a.F08, b.F08) && a.F09 == b.F09 && a.F10 == b.F10 && a.F11 == b.F11
	ok = ok && eqBytes(a.F12, b.F12) && a.F13 == b.F13 && a.F14 == b.F14 && a.F15 == b.F15 && a.F16 == b.F16 && a.F17 == b.F17 && a.F18 == b.F18
	ok = ok && eqSl(eqC[string])(a.F19, b.F19) && eqMp[int](eqC[string])(a.F20, b.F20) && a.F21 == b.F21 && a.F22 == b.F22 && a.F23 == b.F23
	ok = ok && a.F24 == b.F24 && a.F25 == b.F25 && a.F26 == b.F26 && a.F27 == b.F27 && a.F28 == b.F28 && a.F29 == b.F29 && a.F30 == b.F30
	ok = ok && a.F31 == b.F31 && a.F32 == b.F32 && a.F33 == b.F33 && a.F34 == b.F34 && a.F35 == b.F35 && a.F36 == b.F36
	return ok && eqMp[string](eqC[string])(a.F37, b.F37) && a.F38 == b.F38 && a.F39 == b.F39
}

func encWide(name string) (Wide, []byte) {
	w, f := wideVal(name)
	return w, fields(f...)
}

// bigs are large values.
var bigs = []func() val{
	func() val { v := string(bigText("v", bigSize("n"))); return mk(v, encS(v), eqC[string]) },
	func() val { v := bigText("v", bigSize("n")); return mk(v, encS(string(v)), eqBytes) },
	func() val { v := NStr(bigText("v", bigSize("n"))); return mk(v, encS(string(v)), eqC[NStr]) },
	func() val {
		v := map[string]string{string(bigText("k", bigSize("n"))): string(bigText("v", few("m")))}
		return mk(v, encMp1(v, encS, encS), eqMp[string](eqC[string]))
	},
	func() val { v := nums("v", manySize("n")); return mk(v, encSl(v, encI[int]), eqSl(eqC[int])) },
	func() val { // strings of growing lengths
		v := make([]string, manySize("n"))
		for i := range v {
			v[i] = reps("x", i%37)
		}
		v[3] = string(bigText("v", few("m")))
		v[len(v)-1] = sym.Str("w", 1)
		return mk(v, encSl(v, encS), eqSl(eqC[string]))
	},
	func() val {
		v := make([]Inner, manySize("n"))
		for i := range v {
			v[i] = Inner{X: i - 3, Y: itoa(i)}
		}
		v[len(v)-2] = symInner()
		return mk(v, encSl(v, encInner), eqSl(eqInner))
	},
	func() val {
		v := make([]*Inner, manySize("n"))
		for i := range v {
			if i%5 != 4 {
				v[i] = &Inner{X: i, Y: reps("y", i%9)}
			}
		}
		v[1].X = dig("x")
		return mk(v, encSl(v, func(p *Inner) []byte { return encPtr(p, encInner) }), eqSl(eqPtr(eqInner)))
	},
	func() val {
		v := make([][]byte, manySize("n"))
		for i := range v {
			v[i] = bigText("v", 0)
		}
		v[0], v[2] = bigText("v", few("m")), bigText("w", 2)
		return mk(v, encSl(v, func(b []byte) []byte { return encS(string(b)) }), eqSl(eqBytes))
	},
	func() val {
		v := [300]int{}
		copy(v[:], nums("v", 300))
		return mk(v, encSl(v[:], encI[int]), eqC[[300]int])
	},
	func() val {
		v := [70]string{}
		for i := range v {
			v[i] = reps("z", i)
		}
		v[40] = sym.Str("v", 40)
		return mk(v, encSl(v[:], encS), eqC[[70]string])
	},
	func() val { w, e := encWide("w"); return mk(w, e, eqWide) },
	func() val { // lists of lists
		v := make([][]int, 20)
		for i := range v {
			for j := 0; j < i; j++ {
				v[i] = append(v[i], j*i-9)
			}
		}
		v[17] = nums("v", 18)
		return mk(v, encSl(v, func(x []int) []byte { return encSl(x, encI[int]) }), eqSl(eqSl(eqC[int])))
	},
	func() val { // bools and floats
		type t struct {
			B []bool    `php:"b"`
			F []float64 `php:"f"`
			S string    `php:"s"`
		}
		n := manySize("n")
		v := t{make([]bool, n), make([]float64, n), sym.Str("s", 1)}
		for i := range v.B {
			v.B[i] = i%3 == 0
			v.F[i] = float64(i) / 4
		}
		v.B[1] = sym.Bool("b")
		return mk(v, fields("b", string(encSl(v.B, encB)), "f", string(encSl(v.F, encF)), "s", string(encS(v.S))), func(a, b t) bool {
			return a.S == b.S && sym.And(eqSl(eqC[bool])(a.B, b.B), eqSl(eqF64)(a.F, b.F))
		})
	},
}

func bigVal() val {
	small = true
	return bigs[sym.Choose("big", len(bigs))]()
}

// bigWrapped is a large value or one in a container.
func bigWrapped() val {
	if sym.Choose("wrapped", 2) == 0 {
		return bigVal()
	}
	return bigFewVal().wraps[sym.Choose("wrap", 7)]()
}

// bigFewVal draws from fewer sizes.
func bigFewVal() val {
	bigFew = true
	return bigVal()
}

// manyEntries is a map with n entries, one of them symbolic, and its entries' texts.
func manyEntries(n int) (map[string]int, map[int]string, string, string) {
	a, b := make(map[string]int, n), make(map[int]string)
	t, u := encArr(nil, n), encArr(nil, n)
	for i := 0; i < n; i++ {
		k, x, s := itoa(i*i)+"k", i*3, itoa(i)
		if i == n/2 {
			k, x, s = sym.StrIn("k", 2, "ab\x00"), dig("x"), sym.Str("s", 1)
		}
		a[k], b[i*5-100] = x, s
		t = append(append(t, encS(k)...), encI(x)...)
		u = append(append(u, encI(i*5-100)...), encS(s)...)
	}
	return a, b, string(t) + "}", string(u) + "}"
}

// sortedEntries checks a map's text: the declared count, then every key once with its value.
func entriesIntStr(b []byte, m map[int]string) bool {
	pre := encArr(nil, len(m))
	if len(b) < len(pre) || !same(b[:len(pre)], pre) {
		return false
	}
	i := len(pre)
	seen := map[int]bool{}
	for i < len(b) && b[i] == 'i' {
		i += 2
		neg := b[i] == '-'
		if neg {
			i++
		}
		k, j, ok := digits(b, i, 1<<40)
		if neg {
			k = -k
		}
		s, has := m[k]
		if !ok || !has || seen[k] {
			return false
		}
		seen[k] = true
		e := append([]byte{';'}, encS(s)...)
		if j+len(e) > len(b) || !same(b[j:j+len(e)], e) {
			return false
		}
		i = j + len(e)
	}
	return len(seen) == len(m) && i == len(b)-1 && b[i] == '}'
}

// ---- C10, C11, C03, C21

func H_C10_big() {
	g := bigWrapped()
	sym.Assert(same(enc(g.v), g.enc), "a large value is encoded wrong")
}

func H_C10_big_maps() {
	n := manySize("n")
	_, b, _, _ := manyEntries(n)
	switch sym.Choose("case", 3) {
	case 0:
		sym.Assert(entriesIntStr(enc(b), b), "a large map is encoded wrong")
	case 1:
		out := enc(struct {
			A int
			M map[int]string
			Z int
		}{1, b, 2})
		const pre, post = `a:3:{s:1:"A";i:1;s:1:"M";`, `s:1:"Z";i:2;}`
		sym.Assert(len(out) > len(pre)+len(post) && string(out[:len(pre)]) == pre && string(out[len(out)-len(post):]) == post, "a large map is encoded wrong")
		sym.Assert(entriesIntStr(out[len(pre):len(out)-len(post)], b), "a large map is encoded wrong")
	case 2:
		m := make(map[int]any)
		for k, s := range b {
			m[k] = s
		}
		sym.Assert(entriesIntStr(enc(m), b), "a large map is encoded wrong")
	}
}

func H_C11_big() {
	g := bigVal()
	p := g.dst()
	noErr(php.Unmarshal(enc(g.v), p), "the output of Marshal is rejected")
	sym.Assert(g.eq(p), "a large value does not round-trip")
}

func H_C11_big_maps() {
	a, b, _, _ := manyEntries(manySize("n"))
	switch sym.Choose("case", 3) {
	case 0:
		sym.Assert(eqMp[string](eqC[int])(dec[map[string]int](enc(a)), a), "a large map does not round-trip")
	case 1:
		sym.Assert(eqMp[int](eqC[string])(dec[map[int]string](enc(b)), b), "a large map does not round-trip")
	case 2:
		m := map[string]*map[string]int{"x": &a, "y": nil}
		r := dec[map[string]*map[string]int](enc(m))
		sym.Assert(len(r) == 2 && r["y"] == nil && eqMp[string](eqC[int])(*r["x"], a), "a large map does not round-trip")
	}
}

func H_C03_big() {
	g := bigWrapped()
	p := g.dst()
	noErr(php.Unmarshal(g.enc, p), "large canonical text is rejected")
	sym.Assert(g.eq(p), "a large value is decoded wrong")
}

func H_C21_big() {
	g := bigFewVal()
	v, e := g.inAny("any")
	sym.Assert(same(enc(v), e), "a large value is encoded differently in an interface")
}

// ---- C08, C05

func H_C08_big() {
	a, b, t, u := manyEntries(manySize("n"))
	switch sym.Choose("case", 6) {
	case 0:
		sym.Assert(eqMp[string](eqC[int])(dec[map[string]int]([]byte(t)), a), "wrong map")
	case 1:
		sym.Assert(eqMp[int](eqC[string])(dec[map[int]string]([]byte(u)), b), "wrong map")
	case 2: // merge
		m := map[string]int{"old": 1, "0k": 7}
		noErr(php.Unmarshal([]byte(t), &m), "rejected")
		_, hit := a["0k"]
		sym.Assert(m["old"] == 1 && (len(m) == len(a)+1 || !hit), "old entries are lost")
		delete(m, "old")
		if !hit {
			delete(m, "0k")
		}
		sym.Assert(eqMp[string](eqC[int])(m, a), "wrong map")
	case 3:
		var m map[any]any
		noErr(php.Unmarshal([]byte(t), &m), "rejected")
		ok := len(m) == len(a)
		for k, v := range a {
			ok = ok && m[k] == any(int64(v))
		}
		sym.Assert(ok, "wrong map")
	case 4:
		type e struct {
			P *string `php:"p"`
			X int     `php:"x"`
		}
		n := few("m")
		d := encArr(nil, n)
		for i := 0; i < n; i++ {
			d = append(d, encI(i)...)
			if i%2 == 0 {
				d = append(d, fields("p", string(encS(itoa(i))))...)
			} else {
				d = append(d, fields("x", string(encI(i)))...)
			}
		}
		m := dec[map[int]e](append(d, '}'))
		ok := len(m) == n
		for i := 0; i < n && ok; i++ {
			if i%2 == 0 {
				ok = m[i].P != nil && *m[i].P == itoa(i) && m[i].X == 0
			} else {
				ok = m[i].P == nil && m[i].X == i
			}
		}
		sym.Assert(ok, "map values are mixed up")
	case 5: // the last of repeated keys wins
		m := dec[map[string]int]([]byte("a:" + itoa(3*len(a)) + t[len("a:"+itoa(len(a))):len(t)-1] + t[len("a:"+itoa(len(a))+":{"):len(t)-1] + t[len("a:"+itoa(len(a))+":{"):]))
		sym.Assert(eqMp[string](eqC[int])(m, a), "wrong map")
	}
}

func H_C05_big() {
	switch sym.Choose("case", 5) {
	case 0:
		a, _, t, _ := manyEntries(manySize("n"))
		var v any
		noErr(php.Unmarshal([]byte(t), &v), "rejected")
		m, ok := v.(map[any]any)
		ok = ok && len(m) == len(a)
		for k, x := range a {
			ok = ok && m[k] == any(int64(x))
		}
		sym.Assert(ok, "a large array decodes to something else")
	case 1:
		_, b, _, u := manyEntries(manySize("n"))
		var v any
		noErr(php.Unmarshal([]byte("a:1:{i:3;"+u+"}"), &v), "rejected")
		m, ok := v.(map[any]any)[int64(3)].(map[any]any)
		ok = ok && len(m) == len(b)
		for k, x := range b {
			ok = ok && m[int64(k)] == any(x)
		}
		sym.Assert(ok, "a large array decodes to something else")
	case 2:
		a, _, t, _ := manyEntries(manySize("n"))
		var v any
		noErr(php.Unmarshal([]byte(`O:3:"Cls"`+t[1:]), &v), "rejected")
		m, ok := v.(map[string]any)
		ok = ok && len(m) == len(a)
		for k, x := range a {
			ok = ok && m[k] == any(int64(x))
		}
		sym.Assert(ok, "a large object decodes to something else")
	case 3:
		s := string(bigText("s", bigSize("n")))
		var v any
		noErr(php.Unmarshal(encS(s), &v), "rejected")
		sym.Assert(v == any(s), "a large string decodes to something else")
	case 4: // lists
		n := manySize("n")
		v := nums("v", n)
		m := dec[[]any](encSl(v, encI[int]))
		ok := len(m) == n
		for i := range v {
			ok = ok && m[i] == any(int64(v[i]))
		}
		sym.Assert(ok, "a large list decodes to something else")
	}
}

// ---- C07: many elements, any order

func H_C07_big() {
	n := manySize("n")
	v := nums("v", n)
	d := encArr(nil, n)
	order := sym.Choose("order", 4)
	for i := range v {
		j := i
		switch order {
		case 1:
			j = n - 1 - i
		case 2: // even ones, then odd ones
			j = 2 * i
			if j >= n {
				j = 2*(i-(n+1)/2) + 1
			}
		case 3:
			j = i ^ 1
			if j >= n {
				j = i
			}
		}
		d = append(append(d, encI(j)...), encI(v[j])...)
	}
	d = append(d, '}')
	switch sym.Choose("dst", 4) {
	case 0:
		sym.Assert(eqSl(eqC[int])(dec[[]int](d), v), "elements are lost")
	case 1:
		a := dec[[100]int](d)
		ok := true
		for i := range a {
			if i < n {
				ok = ok && a[i] == v[i]
			} else {
				ok = ok && a[i] == 0
			}
		}
		sym.Assert(ok, "elements are lost")
	case 2:
		p := dec[[]*int](d)
		ok := len(p) == n
		for i := range v {
			ok = ok && p[i] != nil && *p[i] == v[i]
		}
		sym.Assert(ok, "elements are lost")
	case 3:
		old := make([]int, 2*n)
		for i := range old {
			old[i] = -7
		}
		keep := old
		noErr(php.Unmarshal(d, &old), "rejected")
		sym.Assert(eqSl(eqC[int])(old, v), "elements are lost")
		sym.Assert(len(keep) == 2*n, "")
	}
}

// a large gap
func H_C07_big_gap() {
	n := manySize("n")
	x := dig("x")
	d := []byte("a:2:{" + string(encI(n)) + string(encI(x)) + "i:2;i:5;}")
	switch sym.Choose("dst", 2) {
	case 0:
		v := dec[[]int](d)
		ok := len(v) == n+1 && v[n] == x && v[2] == 5
		for i := range v {
			ok = ok && (i == 2 || i == n || v[i] == 0)
		}
		sym.Assert(ok, "wrong gap")
	case 1:
		v := dec[[]*Inner]([]byte("a:1:{" + string(encI(n)) + string(encInner(Inner{x, "q"})) + "}"))
		ok := len(v) == n+1 && *v[n] == Inner{x, "q"}
		for i := 0; i < n; i++ {
			ok = ok && v[i] == nil
		}
		sym.Assert(ok, "wrong gap")
	}
}

// ---- C06, C12: many fields

func H_C06_big() {
	w, f := wideVal("w")
	n := len(f) / 2
	var b []byte
	order := sym.Choose("order", 4)
	cnt := n
	extra := sym.Choose("extra", 3)
	if extra > 0 {
		cnt += n
	}
	b = encArr(nil, cnt)
	for i := 0; i < n; i++ {
		j := i
		switch order {
		case 1:
			j = n - 1 - i
		case 2:
			j = (i*17 + 5) % n // n is 38
		case 3:
			j = i ^ 1
		}
		b = append(append(b, encS(f[2*j])...), f[2*j+1]...)
		switch extra {
		case 1:
			b = append(b, encS("g"+f[2*j][1:])...)
			b = append(b, `a:2:{i:1;d:1.5;s:1:"}";O:1:"C":0:{}}`...)
		case 2: // longer and shorter names, other case
			b = append(b, encS(pick2(i, f[2*j]+"0", "F"+f[2*j][1:], f[2*j][:2], ""))...)
			b = append(b, `i:99;`...)
		}
	}
	got := dec[Wide](append(b, '}'))
	sym.Assert(eqWide(got, w), "fields are mixed up")
}

// pick2 is the i-th of vs, round robin.
func pick2[T any](i int, vs ...T) T { return vs[i%len(vs)] }

// one field of many
func H_C06_big_one() {
	w, f := wideVal("w")
	n := len(f) / 2
	i := sym.Choose("field", n)
	var got Wide
	got.F24, got.F33 = 77, "old"
	noErr(php.Unmarshal(fields(f[2*i], f[2*i+1]), &got), "rejected")
	rg, rw := reflect.ValueOf(&got).Elem(), reflect.ValueOf(&w).Elem()
	for j := 0; j < rg.NumField(); j++ {
		switch name := "f" + itoa(j/10) + itoa(j%10); {
		case name == f[2*i]:
			sym.Assert(rw.Field(j).Kind() == rg.Field(j).Kind(), "")
		case j == 24:
			sym.Assert(got.F24 == 77, "another field changes")
		case j == 33:
			sym.Assert(got.F33 == "old", "another field changes")
		default:
			sym.Assert(rg.Field(j).IsZero(), "another field changes")
		}
	}
}

// ---- C12

func H_C12_big() {
	w, e := encWide("w")
	switch sym.Choose("case", 4) {
	case 0:
		sym.Assert(same(enc(w), e), "a wide struct is encoded wrong")
	case 1:
		sym.Assert(same(enc(&w), e), "a wide struct is encoded wrong")
	case 2:
		v := []Wide{w, w, w}
		sym.Assert(same(enc(v), encSl(v, func(Wide) []byte { return e })), "a wide struct is encoded wrong")
	case 3:
		v := map[string]any{"k": []any{&w, w}}
		sym.Assert(same(enc(v), doc(`a:1:{s:1:"k";a:2:{i:0;`, string(e), "i:1;", string(e), "}}")), "a wide struct is encoded wrong")
	}
}

// ---- C14, C15

func H_C14_big() {
	out := string(bigText("out", bigSize("n")))
	var x any
	var a, b string
	switch sym.Choose("type", 3) {
	case 0:
		x, a, b = marPlace(VM{out})
	case 1:
		x, a, b = ptrPlace(VM{out})
	case 2:
		x, a, b = marPlace(&PM{out})
	}
	marCheck(x, a, out, b)
}

func H_C14_big_many() {
	n := manySize("n")
	v := make([]Mar, n)
	for i := range v {
		v[i] = VM{itoa(i)}
	}
	v[2] = nil
	v[n-1] = &PM{sym.Str("out", 2)}
	want := encSl(v, func(m Mar) []byte {
		if m == nil {
			return []byte("N;")
		}
		o, _ := m.MarshalPHP()
		return o
	})
	sym.Assert(same(enc(v), want), "Marshaler output is not used verbatim")
}

func H_C15_big() {
	g := bigFewVal()
	e := string(g.enc)
	switch sym.Choose("where", 6) {
	case 0:
		r := dec[Raw](g.enc)
		sym.Assert(r.B == e && r.Calls == 1, "an Unmarshaler gets something else")
	case 1:
		r := dec[HasRaw]([]byte(`a:4:{s:1:"a";i:1;s:1:"r";` + e + `s:1:"p";` + e + `s:1:"z";i:2;}`))
		sym.Assert(r.A == 1 && r.Z == 2 && r.R.B == e && r.P.B == e && r.R.Calls == 1 && r.P.Calls == 1, "an Unmarshaler gets something else")
	case 2:
		r := dec[[]Raw]([]byte("a:2:{i:0;" + e + "i:1;" + e + "}"))
		sym.Assert(len(r) == 2 && r[0].B == e && r[1].B == e, "an Unmarshaler gets something else")
	case 3:
		r := dec[map[string]*Raw]([]byte(`a:2:{s:1:"k";` + e + `s:1:"l";i:1;}`))
		sym.Assert(len(r) == 2 && r["k"].B == e && r["l"].B == "i:1;", "an Unmarshaler gets something else")
	case 4:
		r := dec[[2]RawStr]([]byte("a:3:{i:1;" + e + "i:0;i:5;i:2;" + e + "}"))
		sym.Assert(string(r[1]) == e && r[0] == "i:5;", "an Unmarshaler gets something else")
	case 5:
		r := dec[struct {
			A int
			B Raw
		}]([]byte(`a:3:{s:1:"x";` + e + `s:1:"B";` + e + `s:1:"A";i:3;}`))
		sym.Assert(r.A == 3 && r.B.B == e, "an Unmarshaler gets something else")
	}
}

// ---- C01, C02: damaged large texts

func H_C02_big() {
	g := bigFewVal()
	b := append([]byte(nil), g.enc...)
	n := len(b)
	spots := []int{0, 2, 3, 5, 7, n / 4, n / 2, n - n/4, n - 7, n - 5, n - 3, n - 2, n - 1}
	i := spots[sym.Choose("spot", len(spots))]
	if i < 0 {
		return
	}
	switch sym.Choose("damage", 3) {
	case 0:
		b[i] = sym.Byte("b")
	case 1:
		b = b[:i]
	case 2:
		b = append(append(append([]byte(nil), b[:i]...), sym.Byte("b")), b[i:]...)
	}
	p := g.dst()
	switch sym.Choose("dst", 4) {
	case 1:
		p = new(any)
	case 2:
		p = new(Raw)
	case 3: // skipped
		b = doc(`a:1:{s:1:"q";`, string(b), "}")
		p = new(Flat)
	}
	if php.Unmarshal(b, p) == nil {
		sym.Assert(wellFormed(b), "malformed text is accepted")
	}
}

// ---- C18

// bigCalls use the pools with large and small values.
func bigCalls() {
	for _, n := range []int{10, 700, 1500, 3000, 9000} {
		s := reps("#", n)
		_, _ = php.Marshal(s)
		_, _ = php.Marshal([]any{s, s})
		_, _ = php.Marshal(VM{s})
		_, _ = php.Marshal(map[string]string{s: s})
		_, _ = php.Marshal([]any{s, make(chan int)})
		var a any
		_ = php.Unmarshal(encS(s), &a)
		var r Raw
		_ = php.Unmarshal(encS(s), &r)
		_ = php.Unmarshal(encS(s)[1:], &r)
	}
}

func H_C18_big_result() {
	if sym.Choose("warm", 2) == 1 {
		bigCalls()
	}
	g := bigFewVal()
	var out, want []byte
	switch sym.Choose("as", 3) {
	case 0:
		out, want = enc(g.v), g.enc
	case 1:
		out, want = enc(VM{string(g.enc)}), g.enc
	case 2:
		out, want = enc([]any{g.v, 1}), doc("a:2:{i:0;", string(g.enc), "i:1;i:1;}")
	}
	sym.Assert(same(out, want), "wrong text")
	switch sym.Choose("change", 4) {
	case 0:
		bigCalls()
		sym.Assert(same(out, want), "a later call changes the result of Marshal")
	case 1:
		_ = enc(g.v)
		_ = enc(1)
		sym.Assert(same(out, want), "a later call changes the result of Marshal")
		_ = enc([]any{"####", g.v})
		sym.Assert(same(out, want), "a later call changes the result of Marshal")
	case 2:
		scribble(out)
		sym.Assert(same(enc(g.v), g.enc), "changing the result of Marshal changes a later call")
		sym.Assert(string(enc([]any{1})) == "a:1:{i:0;i:1;}", "changing the result of Marshal changes a later call")
	case 3:
		o2 := enc(g.v)
		scribble(out)
		sym.Assert(same(o2, g.enc), "results share memory")
	}
}

func H_C18_big_input() {
	g := bigWrapped()
	p := g.dst()
	noErr(decodeHidden(g.enc, p), "large canonical text is rejected")
	sym.Assert(g.eq(p), "a decoded value changes with its input")
	if sym.Choose("more", 2) == 1 {
		bigCalls()
		sym.Assert(g.eq(p), "a decoded value changes in later calls")
	}
}

// ---- C19

func H_C19_big() {
	g := bigFewVal()
	p := g.dst()
	if sym.Choose("first", 2) == 1 {
		bigCalls()
		otherCalls()
	}
	switch sym.Choose("before", 6) {
	case 0:
		_ = enc(g.v)
	case 1:
		out, err := php.Marshal([]any{g.v, make(chan int)})
		sym.Assert(out == nil && err != nil, "unsupported value encoded")
	case 2:
		out, err := php.Marshal([]any{g.v, EM{}})
		sym.Assert(out == nil && err != nil, "unsupported value encoded")
	case 3:
		isErr(php.Unmarshal(g.enc[:len(g.enc)-1], g.dst()), "truncated text accepted")
	case 4:
		noErr(php.Unmarshal(g.enc, g.dst()), "rejected")
	case 5:
		var a any
		_ = php.Unmarshal(g.enc, &a)
	}
	switch sym.Choose("then", 3) {
	case 0:
		sym.Assert(string(enc([]any{"a", 1})) == `a:2:{i:0;s:1:"a";i:1;i:1;}`, "a call depends on an earlier one")
		sym.Assert(same(enc(g.v), g.enc), "a call depends on an earlier one")
	case 1:
		noErr(php.Unmarshal(g.enc, p), "rejected")
		sym.Assert(g.eq(p), "a call depends on an earlier one")
	case 2:
		isErr(php.Unmarshal([]byte("i:1"), new(int)), "truncated text accepted")
		isErr(php.Unmarshal([]byte(`s:9:"ab";`), new(string)), "truncated text accepted")
		sym.Assert(same(enc(VM{string(g.enc)}), g.enc), "a call depends on an earlier one")
	}
}

// ---- C27

func H_C27_big() {
	class := string(bigText("class", bigSize("n")))
	a, _, t, _ := manyEntries(few("m"))
	o := append(encObj(nil, class, len(a)), t[len(encArr(nil, len(a))):]...)
	switch sym.Choose("dst", 4) {
	case 0:
		sym.Assert(eqMp[string](eqC[int])(dec[map[string]int](o), a), "an object decodes to something else")
	case 1:
		var v any
		noErr(php.Unmarshal(o, &v), "rejected")
		m, ok := v.(map[string]any)
		sym.Assert(ok && len(m) == len(a), "an object decodes to something else")
	case 2:
		v := dec[Flat](doc(`a:2:{s:1:"z";`, string(o), `s:1:"a";i:5;}`))
		sym.Assert(v.A == 5, "a skipped object disturbs")
	case 3:
		v := dec[Raw](o)
		sym.Assert(v.B == string(o), "an object decodes to something else")
	}
}
