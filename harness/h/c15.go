package h

import (
	"errors"

	php "github.com/trim21/go-phpserialize"
	"verif/harness/sym"
)

// C15: Unmarshaler

type Unm interface{ UnmarshalPHP([]byte) error }

// Scrib overwrites its bytes and what may lie behind them.
type Scrib struct{ B string }

func (r *Scrib) UnmarshalPHP(b []byte) error {
	r.B = string(b)
	for i := range b {
		b[i] = '!'
	}
	_ = append(b, "!!!!!!!!!!!!"...)
	return nil
}

// RawMap and RawSl are containers that are Unmarshalers.
type RawMap map[string]string

func (r *RawMap) UnmarshalPHP(b []byte) error { *r = RawMap{"raw": string(b)}; return nil }

type RawInt int

func (r *RawInt) UnmarshalPHP(b []byte) error { *r = RawInt(len(b)); return nil }

// rawCase decodes text at a place; get returns what the Unmarshaler saw.
func rawCase[T any](text string, old T, check func(v *T, null bool)) {
	null := text == "N;"
	at := func(p *T) { check(p, null) }
	ptr := func(p *T) {
		if null {
			sym.Assert(p == nil, "null pointer expected")
			return
		}
		sym.Assert(p != nil, "pointer not set")
		check(p, false)
	}
	switch sym.Choose("place", 12) {
	case 0:
		v := old
		noErr(php.Unmarshal([]byte(text), &v), "rejected")
		at(&v)
	case 1:
		v := &old
		noErr(php.Unmarshal([]byte(text), &v), "rejected")
		ptr(v)
	case 2:
		var v *T
		noErr(php.Unmarshal([]byte(text), &v), "rejected")
		ptr(v)
	case 3:
		type S struct {
			A int `php:"a"`
			R T   `php:"r"`
			P *T  `php:"p"`
			Z int `php:"z"`
		}
		s := S{R: old, P: &old}
		noErr(php.Unmarshal([]byte(`a:4:{s:1:"a";i:1;s:1:"r";`+text+`s:1:"p";`+text+`s:1:"z";i:2;}`), &s), "rejected")
		at(&s.R)
		ptr(s.P)
		sym.Assert(s.A == 1 && s.Z == 2, "decoding does not continue behind the value")
	case 4:
		v := []T{old}
		noErr(php.Unmarshal([]byte("a:2:{i:1;"+text+"i:0;"+text+"}"), &v), "rejected")
		sym.Assert(len(v) == 2, "wrong length")
		at(&v[0])
		at(&v[1])
	case 5:
		v := []*T{&old}
		noErr(php.Unmarshal([]byte("a:2:{i:0;"+text+"i:1;"+text+"}"), &v), "rejected")
		sym.Assert(len(v) == 2, "wrong length")
		ptr(v[0])
		ptr(v[1])
	case 6:
		v := [2]T{old, old}
		noErr(php.Unmarshal([]byte("a:2:{i:1;"+text+"i:0;"+text+"}"), &v), "rejected")
		at(&v[0])
		at(&v[1])
	case 7:
		v := map[string]T{"k": old}
		noErr(php.Unmarshal([]byte(`a:2:{s:1:"k";`+text+`s:1:"l";`+text+"}"), &v), "rejected")
		sym.Assert(len(v) == 2, "wrong entries")
		k, l := v["k"], v["l"]
		at(&k)
		at(&l)
	case 8:
		v := map[int]*T{}
		noErr(php.Unmarshal([]byte(`a:2:{i:1;`+text+`i:2;`+text+"}"), &v), "rejected")
		sym.Assert(len(v) == 2, "wrong entries")
		ptr(v[1])
		ptr(v[2])
	case 9:
		v := map[string]map[string][]T{}
		noErr(php.Unmarshal([]byte(`a:1:{s:1:"k";a:1:{s:1:"l";a:1:{i:0;`+text+"}}}"), &v), "rejected")
		at(&v["k"]["l"][0])
	case 10:
		v := []struct{ R T }{}
		noErr(php.Unmarshal([]byte(`a:1:{i:0;O:1:"C":2:{s:1:"R";`+text+`s:1:"u";i:1;}}`), &v), "rejected")
		at(&v[0].R)
	case 11:
		var v [][1]*T
		noErr(php.Unmarshal([]byte(`a:1:{i:0;a:2:{i:0;`+text+"i:1;"+text+"}}"), &v), "rejected")
		ptr(v[0][0])
	}
}

func H_C15_values() {
	text := skipped("v")
	switch sym.Choose("type", 5) {
	case 0:
		rawCase(text, Raw{"old", 5}, func(v *Raw, null bool) {
			if null {
				sym.Assert(*v == Raw{}, "null does not give the zero value")
				return
			}
			sym.Assert(v.B == text, "UnmarshalPHP gets other bytes")
			sym.Assert(v.Calls >= 1, "not called")
		})
	case 1:
		rawCase(text, RawStr("old"), func(v *RawStr, null bool) {
			if null {
				sym.Assert(*v == "", "null does not give the zero value")
				return
			}
			sym.Assert(string(*v) == text, "UnmarshalPHP gets other bytes")
		})
	case 2:
		rawCase(text, Scrib{"old"}, func(v *Scrib, null bool) {
			if null {
				sym.Assert(v.B == "", "null does not give the zero value")
				return
			}
			sym.Assert(v.B == text, "UnmarshalPHP gets other bytes")
		})
	case 3:
		rawCase(text, RawMap{"old": "x"}, func(v *RawMap, null bool) {
			if null {
				sym.Assert(*v == nil, "null does not give the zero value")
				return
			}
			sym.Assert(len(*v) == 1 && (*v)["raw"] == text, "UnmarshalPHP gets other bytes")
		})
	case 4:
		rawCase(text, RawInt(7), func(v *RawInt, null bool) {
			if null {
				sym.Assert(*v == 0, "null does not give the zero value")
				return
			}
			sym.Assert(int(*v) == len(text), "UnmarshalPHP gets other bytes")
		})
	}
}

// every well-formed short text, and only those
func H_C15_bytes() {
	n := 1 + sym.Choose("n", sym.Scale("len", 11, 13))
	in := sym.Bytes("in", n)
	var v Raw
	err := php.Unmarshal(in, &v)
	if err != nil {
		if v.Calls > 0 { // only what follows is wrong
			end, ok := wf(in, 0)
			sym.Assert(ok && end < len(in) && v.B == string(in[:end]), "UnmarshalPHP is called for a malformed value")
		}
		return
	}
	sym.Assert(wellFormed(in), "a malformed value is accepted")
	if string(in) == "N;" {
		sym.Assert(v == Raw{}, "null does not give the zero value")
		return
	}
	sym.Assert(v.Calls == 1 && v.B == string(in), "UnmarshalPHP gets other bytes")
}

// damaged values in a container
func H_C15_damaged() {
	in := mutate()
	var s struct {
		R Raw `php:"r"`
		Z int `php:"z"`
	}
	err := php.Unmarshal([]byte(`a:2:{s:1:"r";`+string(in)+`s:1:"z";i:2;}`), &s)
	end, ok := wf(in, 0)
	if s.R.Calls > 0 {
		if ok && end == len(in) {
			noErr(err, "rejected after the Unmarshaler")
			sym.Assert(s.R.B == string(in) && s.Z == 2, "UnmarshalPHP gets other bytes")
			return
		}
		all := string(in) + `s:1:"z";i:2;}`
		e, ok := wf([]byte(all), 0)
		sym.Assert(ok && e <= len(all) && s.R.B == all[:e], "UnmarshalPHP is called for a malformed value")
	}
}

// errors come back
func H_C15_errors() {
	text := skipped("v")
	sym.Assume(text != "N;")
	var err error
	switch sym.Choose("place", 10) {
	case 0:
		var v RawErr
		err = php.Unmarshal([]byte(text), &v)
	case 1:
		var v *RawErr
		err = php.Unmarshal([]byte(text), &v)
	case 2:
		var v []RawErr
		err = php.Unmarshal([]byte("a:1:{i:0;"+text+"}"), &v)
	case 3:
		var v [1]RawErr
		err = php.Unmarshal([]byte("a:1:{i:0;"+text+"}"), &v)
	case 4:
		var v map[string]RawErr
		err = php.Unmarshal([]byte(`a:1:{s:1:"k";`+text+"}"), &v)
		sym.Assert(len(v) == 0, "entry stored")
	case 5:
		var v map[string]*RawErr
		err = php.Unmarshal([]byte(`a:1:{s:1:"k";`+text+"}"), &v)
	case 6:
		var v struct{ R RawErr }
		err = php.Unmarshal([]byte(`a:1:{s:1:"R";`+text+"}"), &v)
	case 7:
		var v struct{ R *RawErr }
		err = php.Unmarshal([]byte(`a:1:{s:1:"R";`+text+"}"), &v)
	case 8:
		v := struct{ R Unm }{&RawErr{}}
		err = php.Unmarshal([]byte(`a:1:{s:1:"R";`+text+"}"), &v)
	case 9:
		var v []map[string][]*RawErr
		err = php.Unmarshal([]byte(`a:1:{i:0;a:1:{s:1:"k";a:1:{i:0;`+text+"}}}"), &v)
	}
	sym.Assert(err != nil && errors.Is(err, errUser), "the error of UnmarshalPHP is lost")
}

// interfaces that hold an Unmarshaler
func H_C15_iface() {
	text := skipped("v")
	r := Raw{B: "old"}
	switch sym.Choose("place", 3) {
	case 0:
		var u Unm = &r
		noErr(php.Unmarshal([]byte(text), &u), "rejected")
		if text == "N;" {
			sym.Assert(u == nil && r.Calls == 0, "null does not clear the interface")
			return
		}
		sym.Assert(u == Unm(&r), "the interface was replaced")
	case 1:
		v := struct {
			U Unm
			Z int
		}{U: &r}
		noErr(php.Unmarshal([]byte(`a:2:{s:1:"U";`+text+`s:1:"Z";i:3;}`), &v), "rejected")
		sym.Assert(v.Z == 3, "decoding does not continue behind the value")
		if text == "N;" {
			sym.Assert(v.U == nil && r.Calls == 0, "null does not clear the interface")
			return
		}
	case 2:
		var u Unm = &r
		pu := &u
		noErr(php.Unmarshal([]byte(text), &pu), "rejected")
		if text == "N;" {
			sym.Assert(pu == nil && r.Calls == 0, "null does not clear the pointer")
			return
		}
	}
	sym.Assert(r.Calls == 1 && r.B == text, "UnmarshalPHP gets other bytes")
}

// map keys
func H_C15_keys() {
	s := sym.Str("s", sym.Choose("n", 3))
	i := sym.I8("i")
	var v map[RawStr]int
	noErr(php.Unmarshal([]byte("a:2:{"+string(encS(s))+"i:1;"+string(encI(i))+"i:2;}"), &v), "rejected")
	sym.Assert(len(v) == 2 && v[RawStr(encS(s))] == 1 && v[RawStr(encI(i))] == 2, "UnmarshalPHP gets other bytes")
}
