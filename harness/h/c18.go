package h

import (
	"errors"

	php "github.com/trim21/go-phpserialize"
	"verif/harness/sym"
)

// C18: aliasing

// scribble overwrites a slice up to its capacity.
func scribble(b []byte) {
	b = b[:cap(b)]
	for i := range b {
		b[i] = '!'
	}
}

// spare is text in a slice with capacity behind it.
func spare(text []byte) []byte {
	b := make([]byte, len(text), len(text)+16)
	copy(b, text)
	t := b[len(b):cap(b)]
	for i := range t {
		t[i] = '@'
	}
	return b
}

// decodeHidden decodes text from memory that is overwritten afterwards.
func decodeHidden(text []byte, p any) error {
	src := spare(text)
	err := php.Unmarshal(src, p)
	sym.Assert(same(src, text), "Unmarshal modifies its input")
	t := src[len(src):cap(src)]
	for i := range t {
		sym.Assert(t[i] == '@', "Unmarshal writes behind its input")
	}
	scribble(src)
	return err
}

// otherCalls exercises the pools.
func otherCalls() {
	var a any
	var r HasRaw
	_ = php.Unmarshal([]byte(`a:3:{i:0;s:8:"########";i:1;s:30:"##############################";s:3:"###";a:1:{i:0;d:1.5;}}`), &a)
	_ = php.Unmarshal([]byte(`O:1:"#":2:{s:1:"r";s:8:"########";s:1:"x`), &r)
	_, _ = php.Marshal([]any{"########################################", EM{}, map[string]any{"####": struct{ X any }{"####"}}})
	_, _ = php.Marshal([]any{"########################################", struct{ X any }{"####"}, map[string]string{"##": "###"}})
}

// a decoded value after its input is overwritten
func H_C18_input() {
	g := wrapped()
	p := g.dst()
	noErr(decodeHidden(g.enc, p), "canonical text is rejected")
	sym.Assert(g.eq(p), "a decoded value changes with its input")
	if sym.Choose("more", 2) == 1 {
		otherCalls()
		sym.Assert(g.eq(p), "a decoded value changes in later calls")
	}
}

// strings and bytes everywhere
func H_C18_strings() {
	n := pick("n", 1, 2, 12)
	s := sym.Str("s", n)
	t := string(encS(s))
	k := sym.StrIn("k", 2, "abk")
	kt := string(encS(k))
	more := sym.Choose("more", 2) == 1
	hide := func(text string, p any) {
		noErr(decodeHidden([]byte(text), p), "rejected")
		if more {
			otherCalls()
		}
	}
	switch sym.Choose("case", 14) {
	case 0:
		var v any
		hide("a:1:{"+kt+t+"}", &v)
		m := v.(map[any]any)
		sym.Assert(len(m) == 1 && m[k] == any(s), "changed")
	case 1:
		var v any
		hide(`O:1:"C":1:{`+kt+t+"}", &v)
		m := v.(map[string]any)
		sym.Assert(len(m) == 1 && m[k] == any(s), "changed")
	case 2:
		var v map[string]string
		hide("a:1:{"+kt+t+"}", &v)
		sym.Assert(len(v) == 1 && v[k] == s, "changed")
	case 3:
		var v map[NStr]NStr
		hide("a:1:{"+kt+t+"}", &v)
		sym.Assert(len(v) == 1 && v[NStr(k)] == NStr(s), "changed")
	case 4:
		var v []string
		hide("a:2:{i:1;"+t+"i:0;"+t+"}", &v)
		sym.Assert(sym.And(v[0] == s, v[1] == s), "changed")
	case 5:
		var v []byte
		hide(t, &v)
		sym.Assert(string(v) == s, "changed")
	case 6:
		var v NBytes
		hide(t, &v)
		sym.Assert(string(v) == s, "changed")
	case 7:
		var v map[string][]byte
		hide("a:1:{"+kt+t+"}", &v)
		sym.Assert(string(v[k]) == s, "changed")
	case 8:
		var v Raw
		hide("a:1:{"+kt+t+"}", &v)
		sym.Assert(v.B == "a:1:{"+kt+t+"}", "changed")
	case 9:
		var v Keep
		hide("a:1:{"+kt+t+"}", &v)
		sym.Assert(string(v.B) == "a:1:{"+kt+t+"}", "changed")
	case 10:
		var v struct {
			Q string  `php:"q,string"`
			P *string `php:"p"`
			B *[]byte `php:"b"`
			K []Keep  `php:"k"`
			A [1]any  `php:"a"`
		}
		hide(`a:4:{s:1:"p";`+t+`s:1:"b";`+t+`s:1:"k";a:2:{i:0;`+t+"i:1;"+kt+`}s:1:"a";a:1:{i:0;`+t+"}}", &v)
		sym.Assert(*v.P == s && string(*v.B) == s && v.A[0] == any(s), "changed")
		sym.Assert(string(v.K[0].B) == t && string(v.K[1].B) == kt, "changed")
	case 11:
		var v map[any]any
		hide("a:1:{"+kt+t+"}", &v)
		sym.Assert(len(v) == 1 && v[k] == any(s), "changed")
	case 12:
		var v map[Keyish]map[string]string
		hide("a:1:{i:5;a:1:{"+kt+t+"}}", &v)
		sym.Assert(v[5][k] == s, "changed")
	case 13:
		var v map[string]Keep
		hide("a:1:{"+kt+t+"}", &v)
		sym.Assert(string(v[k].B) == t, "changed")
	}
}

type Keyish int8

// Keep keeps the bytes it is given.
type Keep struct{ B []byte }

func (k *Keep) UnmarshalPHP(b []byte) error { k.B = b; return nil }

// byte slices of one input
func H_C18_bytes() {
	s := sym.Bytes("s", pick("n", 0, 1, 3))
	t := string(encS(string(s)))
	var get func() [][]byte
	hide := func(text string, p any) { noErr(decodeHidden([]byte(text), p), "rejected") }
	want := string(s)
	switch sym.Choose("case", 8) {
	case 0:
		var v [][]byte
		hide("a:2:{i:0;"+t+"i:1;"+t+"}", &v)
		get = func() [][]byte { return v }
	case 1:
		var v struct{ A, B []byte }
		hide(`a:2:{s:1:"A";`+t+`s:1:"B";`+t+"}", &v)
		get = func() [][]byte { return [][]byte{v.A, v.B} }
	case 2:
		var v map[string][]byte
		hide(`a:2:{s:1:"A";`+t+`s:1:"B";`+t+"}", &v)
		get = func() [][]byte { return [][]byte{v["A"], v["B"]} }
	case 3:
		var v [2]NBytes
		hide(`a:2:{i:0;`+t+`i:1;`+t+"}", &v)
		get = func() [][]byte { return [][]byte{v[0], v[1]} }
	case 4:
		var v []*[]byte
		hide(`a:2:{i:0;`+t+`i:1;`+t+"}", &v)
		get = func() [][]byte { return [][]byte{*v[0], *v[1]} }
	case 5:
		var a, b []byte
		hide(t, &a)
		hide(t, &b)
		get = func() [][]byte { return [][]byte{a, b} }
	case 6:
		v := struct {
			A string
			B []byte
			C []byte
		}{}
		hide(`a:3:{s:1:"B";`+t+`s:1:"A";`+t+`s:1:"C";`+t+"}", &v)
		sym.Assert(v.A == want, "wrong value")
		get = func() [][]byte { return [][]byte{v.B, v.C} }
		scribble(v.B)
		sym.Assert(v.A == want, "a decoded string changes with a byte slice")
		copy(v.B, s)
	case 7: // byte lists
		var v [][]uint8
		want = "\x05\x06"
		hide(`a:2:{i:0;a:2:{i:0;i:5;i:1;i:6;}i:1;a:2:{i:0;i:5;i:1;i:6;}}`, &v)
		get = func() [][]byte { return v }
	}
	bs := get()
	sym.Assert(string(bs[0]) == want && string(bs[1]) == want, "wrong value")
	i := sym.Choose("which", 2)
	switch sym.Choose("change", 3) {
	case 0:
		scribble(bs[i])
	case 1:
		_ = append(bs[i], "!!!!!!!!!!!!!!!!"...)
	case 2:
		_ = append(bs[i], '!')
		for j := range bs[i] {
			bs[i][j]++
		}
	}
	sym.Assert(string(bs[1-i]) == want, "a decoded byte slice changes with another")
	if sym.Choose("again", 2) == 1 {
		sym.Assert(string(dec[[]byte]([]byte(t))) == string(s), "a later call sees the change")
	}
}

// two results of decoding the same text
func H_C18_twice() {
	g := wrapped()
	p, q := g.dst(), g.dst()
	noErr(php.Unmarshal(g.enc, p), "rejected")
	noErr(php.Unmarshal(g.enc, q), "rejected")
	wipe(p)
	sym.Assert(g.eq(q), "a decoded value changes with another one")
}

// wipe changes what p points to, deeply where the type is a known one.
func wipe(p any) {
	switch x := p.(type) {
	case *[]byte:
		scribble(*x)
	case *[][]byte:
		for _, b := range *x {
			scribble(b)
		}
	case *[]string:
		for i := range *x {
			(*x)[i] = "!"
		}
	case *map[string][]byte:
		for k, b := range *x {
			scribble(b)
			(*x)[k] = nil
		}
	case *[]int:
		for i := range *x {
			(*x)[i] = -1
		}
	case *map[string]int:
		(*x)["!"] = 1
	case *map[int]string:
		(*x)[77] = "!"
	case *map[string]any:
		(*x)["!"] = 1
	case *any:
		*x = nil
	}
}

// the result of Marshal
func H_C18_result() {
	g := wrapped()
	out := enc(g.v)
	sym.Assert(same(out, g.enc), "wrong text")
	switch sym.Choose("change", 3) {
	case 0: // later calls
		otherCalls()
		_ = enc([]any{g.v, g.v})
		sym.Assert(same(out, g.enc), "a later call changes the result of Marshal")
	case 1: // the caller
		scribble(out)
		sym.Assert(same(enc(g.v), g.enc), "changing the result of Marshal changes a later call")
		p := g.dst()
		noErr(php.Unmarshal(g.enc, p), "rejected")
		sym.Assert(g.eq(p), "changing the result of Marshal changes a later call")
	case 2: // append
		x := append(out, "!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!"...)
		o2 := enc(g.v)
		_ = append(x[:len(out)], o2...)
		sym.Assert(sym.And(same(o2, g.enc), same(out, g.enc)), "results share memory")
	}
}

// Share is a Marshaler that returns a part of its own memory.
type Share struct{ B []byte }

func (s Share) MarshalPHP() ([]byte, error) { return s.B, nil }

type ShareErr struct{ B []byte }

func (s ShareErr) MarshalPHP() ([]byte, error) { return s.B, errUser }

// the bytes a Marshaler returns
func H_C18_marshaler() {
	text := encS(sym.Str("s", pick("n", 0, 2, 30)))
	b := spare(text)
	m := Share{b}
	var v any
	head, tail, e := "", "", string(text)
	switch sym.Choose("place", 9) {
	case 0:
		v = m
	case 1:
		v = &m
	case 2:
		v, head, tail = []Share{m, m}, "a:2:{i:0;", "i:1;"+e+"}"
	case 3:
		v, head, tail = struct {
			M Share
			Z int
		}{m, 1}, `a:2:{s:1:"M";`, `s:1:"Z";i:1;}`
	case 4:
		v, head, tail = map[string]Share{"k": m}, `a:1:{s:1:"k";`, "}"
	case 5:
		v, head, tail = []any{m, 5}, "a:2:{i:0;", "i:1;i:5;}"
	case 6:
		v, head, tail = []Mar{m, nil}, "a:2:{i:0;", "i:1;N;}"
	case 7:
		v, head, tail = map[string]any{"k": &m}, `a:1:{s:1:"k";`, "}"
	case 8:
		var a any = m
		v = &a
	}
	want := head + e + tail
	out := enc(v)
	sym.Assert(string(out) == want, "wrong text")
	sym.Assert(same(b, text), "Marshal modifies the bytes of a Marshaler")
	t := b[len(b):cap(b)]
	for i := range t {
		sym.Assert(t[i] == '@', "Marshal writes behind the bytes of a Marshaler")
	}
	switch sym.Choose("change", 3) {
	case 0:
		scribble(out)
		sym.Assert(same(b, text), "the result of Marshal is memory of a Marshaler")
		sym.Assert(string(enc(v)) == want, "changing the result of Marshal changes a later call")
	case 1:
		scribble(b)
		sym.Assert(string(out) == want, "the result of Marshal changes with a Marshaler's memory")
		otherCalls()
		sym.Assert(string(out) == want, "a later call changes the result of Marshal")
	case 2: // the same memory on a failing call
		o, err := php.Marshal([]any{1, m, ShareErr{b}})
		sym.Assert(o == nil && errors.Is(err, errUser), "wrong result")
		_ = enc([]any{1, 2, 3, "abc"})
		sym.Assert(same(b, text), "Marshal modifies the bytes of a Marshaler")
		sym.Assert(string(out) == want, "a later call changes the result of Marshal")
	}
}

// encoding reads its argument only
func H_C18_argument() {
	s := sym.Bytes("s", 3)
	b := spare(s)
	in := []any{b, "x", nil}
	big := append(make([]any, 0, 6), in...)
	m := map[string]any{"k": b}
	arr := [2][]byte{b, b}
	st := &struct {
		B []byte
		P *[]byte
		M map[string]any
		L []any
	}{b, &b, m, big}
	v := []any{st, arr, &arr, m, big, b, &b}[sym.Choose("v", 7)]
	o1 := enc(v)
	scribble(enc(v))
	sym.Assert(same(b, s), "Marshal modifies its argument")
	for _, c := range b[len(b):cap(b)] {
		sym.Assert(c == '@', "Marshal modifies memory of its argument")
	}
	sym.Assert(len(m) == 1 && len(big) == 3 && big[2] == nil && big[:6][4] == nil && len(st.L) == 3, "Marshal modifies its argument")
	o2 := enc(v)
	scribble(b)
	sym.Assert(same(o1, o2), "the result of Marshal changes with the argument")
}
