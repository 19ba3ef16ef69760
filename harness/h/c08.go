package h

import (
	php "github.com/trim21/go-phpserialize"
	"verif/harness/sym"
)

// C08: maps hold exactly the given entries

// mapOf checks decoding into map[K]V at several places. key and value draw one input each.
func mapOf[K comparable, V any](key func(name string) (K, []byte), value func(name string) (V, []byte), eq func(a, b V) bool, oldK K, oldV V) {
	n := sym.Choose("n", 3)
	ks := make([]K, n)
	vs := make([]V, n)
	body := ""
	for i := 0; i < n; i++ {
		k, ek := key("k" + itoa(i))
		v, ev := value("v" + itoa(i))
		ks[i], vs[i] = k, v
		body += string(ek) + string(ev)
	}
	if n == 2 && sym.Choose("again", 2) == 1 { // the first key once more
		v, ev := value("v2")
		ks, vs = append(ks, ks[0]), append(vs, v)
		body += string(keyText(any(ks[0]))) + string(ev)
	}
	in := "a:" + itoa(len(ks)) + ":{" + body + "}"
	fill := func(m map[K]V) map[K]V {
		for i, k := range ks {
			m[k] = vs[i]
		}
		return m
	}
	check := func(m map[K]V, w map[K]V) {
		sym.Assert(m != nil && len(m) == len(w), "wrong number of entries")
		ok := true
		for k, y := range w {
			x, has := m[k]
			sym.Assert(has, "an entry is missing")
			ok = sym.And(ok, eq(x, y))
		}
		sym.Assert(ok, "wrong entry")
	}
	switch sym.Choose("place", 7) {
	case 0: // nil map
		var m map[K]V
		noErr(php.Unmarshal([]byte(in), &m), "rejected")
		check(m, fill(map[K]V{}))
	case 1: // the same map is filled
		m := map[K]V{oldK: oldV}
		alias := m
		noErr(php.Unmarshal([]byte(in), &m), "rejected")
		check(m, fill(map[K]V{oldK: oldV}))
		sym.Assert(len(alias) == len(m), "the map was replaced")
	case 2:
		var s struct {
			A int     `php:"a"`
			M map[K]V `php:"m"`
			Z int     `php:"z"`
		}
		noErr(php.Unmarshal([]byte(`a:3:{s:1:"a";i:1;s:1:"m";`+in+`s:1:"z";i:2;}`), &s), "rejected")
		check(s.M, fill(map[K]V{}))
		sym.Assert(s.A == 1 && s.Z == 2, "wrong neighbour")
	case 3:
		m := map[K]V{oldK: oldV}
		p := &m
		noErr(php.Unmarshal([]byte(in), &p), "rejected")
		check(m, fill(map[K]V{oldK: oldV}))
	case 4:
		var l []map[K]V
		noErr(php.Unmarshal([]byte("a:2:{i:0;"+in+"i:1;"+in+"}"), &l), "rejected")
		sym.Assert(len(l) == 2, "wrong length")
		check(l[0], fill(map[K]V{}))
		check(l[1], fill(map[K]V{}))
	case 5: // an inner map is not merged with the entry it replaces
		m := map[string]map[K]V{"k": {oldK: oldV}, "l": {oldK: oldV}}
		inner := m["k"]
		noErr(php.Unmarshal([]byte(`a:1:{s:1:"k";`+in+"}"), &m), "rejected")
		check(m["k"], fill(map[K]V{}))
		check(m["l"], map[K]V{oldK: oldV})
		sym.Assert(len(inner) == 1 && len(m) == 2, "the replaced map changed")
	case 6: // an object
		m := map[K]V{oldK: oldV}
		noErr(php.Unmarshal([]byte(`O:3:"Foo":`+itoa(len(ks))+":{"+body+"}"), &m), "rejected")
		check(m, fill(map[K]V{oldK: oldV}))
	}
}

// keyText is the text of a map key.
func keyText(k any) []byte {
	switch x := k.(type) {
	case string:
		return encS(x)
	case NStr:
		return encS(string(x))
	case int:
		return encI(x)
	case int8:
		return encI(x)
	case int64:
		return encI(x)
	case uint8:
		return encU(x)
	case uint64:
		return encU(x)
	case bool:
		return encB(x)
	case NInt:
		return encI(x)
	}
	sym.Fail("key")
	return nil
}

func kStr(name string) (string, []byte) {
	s := sym.Str(name, sym.Choose(name+"n", 2))
	return s, encS(s)
}
func kInt(name string) (int, []byte) {
	i := dig(name)
	if sym.Choose(name+"neg", 2) == 1 {
		i = -1 - i
	}
	return i, encI(i)
}
func vInt(name string) (int, []byte)    { i := dig(name); return i, encI(i) }
func vStr(name string) (string, []byte) { s := sym.Str(name, 1); return s, encS(s) }

func H_C08_keys() {
	switch sym.Choose("type", 8) {
	case 0:
		mapOf(kStr, vInt, eqC[int], "o", 77)
	case 1:
		mapOf(kInt, vInt, eqC[int], 5, 77)
	case 2:
		mapOf(func(n string) (int8, []byte) { i, _ := kInt(n); return int8(i), encI(i) }, vInt, eqC[int], -3, 77)
	case 3:
		mapOf(func(n string) (uint8, []byte) { i := uint8(dig(n)); return i, encU(i) }, vInt, eqC[int], 200, 77)
	case 4:
		mapOf(func(n string) (bool, []byte) { b := sym.Bool(n); return b, encB(b) }, vInt, eqC[int], true, 77)
	case 5:
		mapOf(func(n string) (any, []byte) {
			if sym.Choose(n+"t", 2) == 0 {
				s, e := kStr(n)
				return s, e
			}
			i := int64(dig(n))
			return i, encI(i)
		}, vInt, eqC[int], any(int64(5)), 77)
	case 6:
		mapOf(func(n string) (NStr, []byte) { s, e := kStr(n); return NStr(s), e }, vInt, eqC[int], "o", 77)
	case 7:
		mapOf(func(n string) (NInt, []byte) { i, e := kInt(n); return NInt(i), e }, vInt, eqC[int], 5, 77)
	}
}

func kShort(name string) (string, []byte) { s := sym.StrIn(name, 1, "ok"); return s, encS(s) }

func H_C08_values() {
	switch sym.Choose("type", 10) {
	case 0:
		mapOf(kShort, vStr, eqC[string], "o", "old")
	case 1:
		mapOf(kShort, func(n string) ([]int, []byte) {
			v := []int{dig(n)}[:sym.Choose(n+"l", 2)]
			return v, encSl(v, encI[int])
		}, eqSl(eqC[int]), "o", []int{7, 7, 7})
	case 2: // only some fields
		mapOf(kShort, func(n string) (Inner, []byte) {
			x := dig(n)
			return Inner{X: x}, []byte(`a:1:{s:1:"X";` + string(encI(x)) + "}")
		}, eqInner, "o", Inner{8, "old"})
	case 3:
		mapOf(kShort, func(n string) (*int, []byte) {
			if sym.Choose(n+"nil", 2) == 1 {
				return nil, []byte("N;")
			}
			x := dig(n)
			return &x, encI(x)
		}, eqPtr(eqC[int]), "o", ptrTo(77))
	case 4:
		mapOf(kShort, func(n string) (any, []byte) {
			if sym.Choose(n+"nil", 2) == 1 {
				return nil, []byte("N;")
			}
			x := int64(dig(n))
			return x, encI(x)
		}, eqC[any], "o", any("old"))
	case 5:
		mapOf(kShort, func(n string) (map[string]int, []byte) {
			v := map[string]int{"k": dig(n)}
			return v, encMp1(v, encS, encI[int])
		}, eqMp[string](eqC[int]), "o", map[string]int{"old": 1})
	case 6:
		mapOf(kShort, func(n string) (bool, []byte) { b := sym.Bool(n); return b, encB(b) }, eqC[bool], "o", true)
	case 7:
		mapOf(kShort, func(n string) ([2]int, []byte) {
			x := dig(n)
			return [2]int{0, x}, []byte("a:1:{i:1;" + string(encI(x)) + "}")
		}, eqC[[2]int], "o", [2]int{8, 8})
	case 8:
		mapOf(kShort, func(n string) ([]byte, []byte) { v := sym.Bytes(n, 2); return v, encS(string(v)) }, eqBytes, "o", []byte("old"))
	case 9:
		mapOf(kShort, func(n string) (*Inner, []byte) {
			x := Inner{X: dig(n)}
			return &x, []byte(`a:1:{s:1:"X";` + string(encI(x.X)) + "}")
		}, eqPtr(eqInner), "o", &Inner{8, "old"})
	}
}

// null keeps scalars at zero: nothing of the entry before remains
func H_C08_null() {
	m := map[string]int{"a": 1, "b": 2}
	noErr(php.Unmarshal([]byte(`a:2:{s:1:"a";N;s:1:"c";N;}`), &m), "rejected")
	sym.Assert(len(m) == 3 && m["a"] == 0 && m["b"] == 2 && m["c"] == 0, "wrong entry")
	s := map[string]Inner{"a": {1, "x"}}
	noErr(php.Unmarshal([]byte(`a:2:{s:1:"b";a:2:{s:1:"X";i:4;s:1:"y";s:1:"q";}s:1:"a";a:1:{s:1:"X";i:3;}}`), &s), "rejected")
	sym.Assert(len(s) == 2 && s["a"] == Inner{3, ""} && s["b"] == Inner{4, "q"}, "wrong entry")
}

// entries before an error are irrelevant, but nothing else may appear
func H_C08_full() {
	k := sym.I64("k")
	e := dig("e")
	m := map[int64]int{1: 1}
	noErr(php.Unmarshal([]byte("a:1:{"+string(encI(k))+string(encI(e))+"}"), &m), "rejected")
	w := map[int64]int{1: 1}
	w[k] = e
	sym.Assert(len(m) == len(w) && m[k] == e, "wrong entry")
	sym.Assert(sym.Or(k == 1, m[1] == 1), "wrong entry")
	u := sym.U64("u")
	mu := map[uint64]string{}
	noErr(php.Unmarshal([]byte("a:1:{i:"+string(strconvU(u))+`;s:1:"x";}`), &mu), "rejected")
	sym.Assert(len(mu) == 1 && mu[u] == "x", "wrong entry")
}

// many entries with distinct keys
func H_C08_many() {
	n := pick("n", 8, 9, 10, 17, 60, 100)
	at := pick("at", 0, 7, n-1)
	x := sym.Str("x", 2)
	body := ""
	for i := 0; i < n; i++ {
		v := "v" + itoa(i)
		if i == at {
			v = x
		}
		body += string(encI(i)) + string(encS(v))
	}
	var m map[int]string
	noErr(php.Unmarshal([]byte("a:"+itoa(n)+":{"+body+"}"), &m), "rejected")
	sym.Assert(len(m) == n, "wrong number of entries")
	for i := 0; i < n; i++ {
		v := "v" + itoa(i)
		if i == at {
			v = x
		}
		sym.Assert(m[i] == v, "wrong entry")
	}
}
