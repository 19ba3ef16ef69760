package h

import (
	php "github.com/trim21/go-phpserialize"
	"verif/harness/sym"
)

// C04: integers are stored exactly or refused

type intType interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64
}

// intsOf holds one integer kind in every field position.
type intsOf[T intType] struct {
	L int `php:"l"`
	V T   `php:"v"`
	W T   `php:"w,string"`
	P *T  `php:"p"`
	Q *T  `php:"q,string"`
	Z int `php:"z"`
}

const intPositions = 14

// intCase decodes text at a position; it reports the error, the stored value and whether the rest
// of the destination is as it was (after an error: all of it).
func intCase[T intType](pos int, text string) (err error, got T, rest bool) {
	num := "i:" + text + ";"
	quoted := string(encS(text))
	rest = true
	switch pos {
	case 0:
		v := T(5)
		err = php.Unmarshal([]byte(num), &v)
		got = v
		if err != nil {
			rest = v == 5
		}
	case 1:
		v := []T{9}
		err = php.Unmarshal([]byte("a:2:{i:0;"+num+"i:1;i:3;}"), &v)
		if err == nil {
			got = v[0]
			rest = len(v) == 2 && v[1] == 3
		}
	case 2:
		v := map[string]T{"o": 4}
		err = php.Unmarshal([]byte(`a:1:{s:1:"k";`+num+"}"), &v)
		if err == nil {
			got = v["k"]
			rest = len(v) == 2 && v["o"] == 4
		} else {
			rest = len(v) == 1 && v["o"] == 4
		}
	case 3:
		v := map[T]string{}
		err = php.Unmarshal([]byte("a:1:{"+num+`s:1:"e";}`), &v)
		if err == nil {
			rest = len(v) == 1
			for k, e := range v {
				got = k
				rest = rest && e == "e"
			}
		} else {
			rest = len(v) == 0
		}
	case 4, 5, 6, 7:
		old1, old2 := T(6), T(7)
		v := intsOf[T]{L: 1, V: 2, W: 3, P: &old1, Q: &old2, Z: 8}
		key := [...]string{"v", "w", "p", "q"}[pos-4]
		if pos == 5 || pos == 7 {
			num = quoted
		}
		err = php.Unmarshal([]byte(`a:3:{s:1:"l";i:11;s:1:"`+key+`";`+num+`s:1:"z";i:12;}`), &v)
		w := intsOf[T]{L: 11, V: 2, W: 3, P: &old1, Q: &old2, Z: 12}
		o1, o2 := T(6), T(7)
		if err == nil {
			switch pos {
			case 4:
				got, w.V = v.V, v.V
			case 5:
				got, w.W = v.W, v.W
			case 6:
				got, o1 = *v.P, old1
			case 7:
				got, o2 = *v.Q, old2
			}
		} else {
			w.Z = 8
		}
		rest = sym.And(v == w, sym.And(old1 == o1, old2 == o2))
	case 8: // pointers are allocated
		var v intsOf[T]
		err = php.Unmarshal([]byte(`a:2:{s:1:"p";`+num+`s:1:"q";`+quoted+`}`), &v)
		if err == nil {
			got = *v.P
			rest = *v.P == *v.Q
		}
	case 9:
		var v *T
		err = php.Unmarshal([]byte(num), &v)
		if err == nil {
			got = *v
		}
	case 10:
		v := [3]T{7, 8, 9}
		err = php.Unmarshal([]byte("a:1:{i:1;"+num+"}"), &v)
		if err == nil {
			got = v[1]
			rest = v[0] == 0 && v[2] == 0
		}
	case 11:
		var v []*T
		err = php.Unmarshal([]byte("a:1:{i:0;"+num+"}"), &v)
		if err == nil {
			got = *v[0]
		}
	case 12:
		var v map[string]map[string]*T
		err = php.Unmarshal([]byte(`a:1:{s:1:"k";a:1:{s:1:"l";`+num+"}}"), &v)
		if err == nil {
			got = *v["k"]["l"]
		}
	case 13:
		var v [][1]T
		err = php.Unmarshal([]byte("a:1:{i:0;a:1:{i:0;"+num+"}}"), &v)
		if err == nil {
			got = v[0][0]
		}
	}
	return
}

// asU64 is the two's complement value.
func intOne[T intType](pos int, text string, signed bool) (error, uint64, bool) {
	err, got, rest := intCase[T](pos, text)
	if signed {
		return err, uint64(int64(got)), rest
	}
	return err, uint64(got), rest
}

type intKind struct {
	signed bool
	bits   int
	run    func(pos int, text string) (error, uint64, bool)
}

func intK[T intType](signed bool, bits int) intKind {
	return intKind{signed, bits, func(pos int, text string) (error, uint64, bool) { return intOne[T](pos, text, signed) }}
}

type (
	nI16 int16
	nU32 uint32
)

var intKinds = []intKind{
	intK[int](true, 64), intK[int8](true, 8), intK[int16](true, 16), intK[int32](true, 32), intK[int64](true, 64),
	intK[uint](false, 64), intK[uint8](false, 8), intK[uint16](false, 16), intK[uint32](false, 32), intK[uint64](false, 64),
	intK[nI16](true, 16), intK[nU32](false, 32),
}

// fitsMag reports whether the number with the given sign and magnitude is representable.
func fitsMag(k intKind, neg bool, m uint64) bool {
	if k.signed {
		if neg {
			return m <= uint64(1)<<(k.bits-1)
		}
		return m <= uint64(1)<<(k.bits-1)-1
	}
	if neg {
		return m == 0
	}
	return k.bits == 64 || m <= uint64(1)<<k.bits-1
}

func checkInt(k intKind, pos int, text string, fits bool, want uint64) {
	err, got, rest := k.run(pos, text)
	if err == nil {
		sym.Assert(fits, "an integer out of range is accepted")
		sym.Assert(got == want, "a different integer is stored")
		sym.Assert(rest, "other parts of the destination changed")
	} else {
		sym.Assert(!fits, "an integer in range is refused")
		sym.Assert(rest, "the destination changed although decoding failed")
	}
}

// every 64-bit magnitude and sign
func H_C04_value() {
	k := intKinds[sym.Choose("kind", len(intKinds))]
	pos := sym.Choose("pos", intPositions)
	m := sym.U64("m")
	text := string(strconvU(m))
	neg := sym.Choose("neg", 2) == 1
	want := m
	if neg {
		sym.Assume(m != 0) // -0 is not canonical
		text = "-" + text
		want = -m
	}
	checkInt(k, pos, text, fitsMag(k, neg, m), want)
}

// leDigits reports whether digit string a is at most b, both of the same length.
func leDigits(a, b string) bool {
	le := true
	for i := len(a) - 1; i >= 0; i-- {
		le = sym.Or(a[i] < b[i], sym.And(a[i] == b[i], le))
	}
	return le
}

// long texts: leading zeros, any 64-bit number and up to 20 more digits
func H_C04_text() {
	k := intKinds[sym.Choose("kind", len(intKinds))]
	pos := pick("pos", 0, 3, 4, 5)
	neg := sym.Choose("neg", 2) == 1
	zeros := pick("zeros", 0, 1, 17, 20)
	if sym.Scale("more", 0, 1) == 0 {
		sym.Assume(pos == 0 || zeros == 0 || zeros == 20 && pos == 5)
	}
	ext := pick("ext", 0, 1, 2, 20)
	m := uint64(1)
	head := ""
	if ext == 20 {
		head = sym.StrIn("head", 1, "123456789")
	} else {
		m = sym.U64("m")
		sym.Assume(m != 0)
		head = string(strconvU(m))
	}
	var d string
	if ext < 20 {
		d = sym.StrIn("d", ext, "0123456789")
	} else {
		d = pick("long", reps("0", 20), reps("9", 20), "18446744073709551616")
	}
	text := reps("0", zeros) + head + d
	lim := limitOf(k, neg)
	fits := false
	want := m
	if ext < 20 {
		p := uint64(1)
		for i := 0; i < ext; i++ {
			p *= 10
			want = want*10 + uint64(d[i]-'0')
		}
		r := string(strconvU(lim % p))
		for len(r) < ext {
			r = "0" + r
		}
		if ext == 0 {
			fits = m <= lim
		} else {
			fits = sym.Or(m < lim/p, sym.And(m == lim/p, leDigits(d, r)))
		}
	}
	if neg {
		if !k.signed {
			fits = false
		}
		text = "-" + text
		want = -want
	}
	checkInt(k, pos, text, fits, want)
}

// limitOf is the largest magnitude with the sign.
func limitOf(k intKind, neg bool) uint64 {
	switch {
	case k.signed && neg:
		return uint64(1) << (k.bits - 1)
	case k.signed:
		return uint64(1)<<(k.bits-1) - 1
	case neg:
		return 0
	case k.bits == 64:
		return ^uint64(0)
	}
	return uint64(1)<<k.bits - 1
}

// interface destinations hold int64
func H_C04_any() {
	k := intKind{true, 64, func(pos int, text string) (error, uint64, bool) {
		num := "i:" + text + ";"
		var v any = "old"
		var err error
		get := func(x any) (uint64, bool) {
			i, ok := x.(int64)
			return uint64(i), ok
		}
		switch pos {
		case 0:
			err = php.Unmarshal([]byte(num), &v)
			if err == nil {
				i, ok := get(v)
				return err, i, ok
			}
			return err, 0, v == "old"
		case 1:
			err = php.Unmarshal([]byte(`a:1:{s:1:"k";`+num+"}"), &v)
			if err == nil {
				i, ok := get(v.(map[any]any)["k"])
				return err, i, ok
			}
		case 2:
			err = php.Unmarshal([]byte("a:1:{"+num+"N;}"), &v)
			if err == nil {
				m := v.(map[any]any)
				for x := range m {
					i, ok := get(x)
					return err, i, ok && len(m) == 1
				}
				return err, 0, false
			}
		case 3:
			err = php.Unmarshal([]byte(`O:1:"C":1:{s:1:"k";`+num+"}"), &v)
			if err == nil {
				i, ok := get(v.(map[string]any)["k"])
				return err, i, ok
			}
		case 4:
			var m map[any]bool
			err = php.Unmarshal([]byte("a:1:{"+num+"b:1;}"), &m)
			if err == nil {
				for x := range m {
					i, ok := get(x)
					return err, i, ok && len(m) == 1
				}
				return err, 0, false
			}
		case 5:
			var s []any
			err = php.Unmarshal([]byte("a:1:{i:0;"+num+"}"), &s)
			if err == nil {
				i, ok := get(s[0])
				return err, i, ok
			}
		case 6:
			var d Deep
			err = php.Unmarshal([]byte(`a:1:{s:1:"i";`+num+"}"), &d)
			if err == nil {
				i, ok := get(d.I)
				return err, i, ok
			}
		}
		return err, 0, true
	}}
	pos := sym.Choose("pos", 7)
	m := sym.U64("m")
	text := string(strconvU(m))
	neg := sym.Choose("neg", 2) == 1
	want := m
	if neg {
		sym.Assume(m != 0)
		text = "-" + text
		want = -m
	}
	checkInt(k, pos, text, fitsMag(k, neg, m), want)
}

// quoted integers: a text is accepted only if it is an optional minus and digits
func H_C04_quoted() {
	n := sym.Choose("n", 4)
	t := sym.Str("t", n)
	var v struct {
		I int16  `php:"i,string"`
		U uint16 `php:"u,string"`
	}
	v.I, v.U = -3, 3
	uns := sym.Choose("unsigned", 2) == 1
	key := "i"
	if uns {
		key = "u"
	}
	err := php.Unmarshal([]byte(`a:1:{s:1:"`+key+`";`+string(encS(t))+"}"), &v)
	ok := n > 0
	for i := 0; i < n; i++ {
		d := isDigit(t[i])
		if i == 0 {
			if n > 1 {
				d = sym.Or(d, t[0] == '-')
			}
		}
		ok = sym.And(ok, d)
	}
	if err == nil {
		sym.Assert(ok, "a quoted text that is not an integer is accepted")
	} else {
		sym.Assert(v.I == -3 && v.U == 3, "the destination changed although decoding failed")
		if uns && n > 0 && t[0] == '-' {
			return
		}
		sym.Assert(!ok, "a quoted integer is refused")
	}
}
