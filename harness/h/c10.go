package h

import (
	php "github.com/trim21/go-phpserialize"
	"verif/harness/sym"
)

// C10: maps in any iteration order, counts and lengths

// permuted tests that out is head, the parts in some order, tail.
func permuted(out []byte, head string, parts []string, tail string) bool {
	if len(parts) == 0 {
		return string(out) == head+tail
	}
	ok := false
	for i := range parts {
		rest := make([]string, 0, len(parts)-1)
		rest = append(rest, parts[:i]...)
		rest = append(rest, parts[i+1:]...)
		ok = sym.Or(ok, permuted(out, head+parts[i], rest, tail))
	}
	return ok
}

func mapCase[K comparable, V any](ks []K, vs []V, ek func(K) []byte, ev func(V) []byte) {
	m := map[K]V{}
	var parts []string
	for i, k := range ks {
		for j := 0; j < i; j++ {
			sym.Assume(ks[j] != k)
		}
		m[k] = vs[i]
		parts = append(parts, string(ek(k))+string(ev(vs[i])))
	}
	sym.MapOrders()
	head, tail := "a:"+itoa(len(ks))+":{", "}"
	var v any = m
	switch sym.Choose("place", 6) {
	case 1:
		v = &m
	case 2:
		v, head, tail = []any{m, 7}, "a:2:{i:0;"+head, "}i:1;i:7;}"
	case 3:
		v, head, tail = struct {
			M map[K]V `php:"m"`
			Z int
		}{m, 1}, `a:2:{s:1:"m";`+head, `}s:1:"Z";i:1;}`
	case 4:
		v, head, tail = []map[K]V{m, nil}, "a:2:{i:0;"+head, "}i:1;N;}"
	case 5:
		v, head, tail = map[string]any{"k": m}, `a:1:{s:1:"k";`+head, "}}"
	}
	sym.Assert(permuted(enc(v), head, parts, tail), "Marshal output is not the canonical text of the map")
}

func H_C10_maps() {
	n := 2 + sym.Choose("n", sym.Scale("three", 1, 2))
	var ss []string
	var is []int
	for i := 0; i < n; i++ {
		ss = append(ss, sym.Str("s"+itoa(i), 1))
		is = append(is, dig("i"+itoa(i)))
	}
	switch sym.Choose("type", 8) {
	case 0:
		mapCase(ss, is, encS, encI[int])
	case 1:
		mapCase(is, ss, encI[int], encS)
	case 2:
		var vs []any
		for i := range ss {
			if i == 1 {
				vs = append(vs, is[i])
			} else {
				vs = append(vs, ss[i])
			}
		}
		mapCase(ss, vs, encS, func(x any) []byte {
			if i, ok := x.(int); ok {
				return encI(i)
			}
			return encS(x.(string))
		})
	case 3:
		var vs []Inner
		for i := range ss {
			vs = append(vs, Inner{is[i], ss[i]})
		}
		mapCase(ss, vs, encS, encInner)
	case 4:
		var ks []uint8
		var vs []*int
		for i := range is {
			ks = append(ks, uint8(is[i]))
			vs = append(vs, &is[i])
		}
		vs[1] = nil
		mapCase(ks, vs, encU[uint8], func(p *int) []byte { return encPtr(p, encI[int]) })
	case 5:
		var ks []NStr
		var vs []map[string]int
		for i := range is {
			ks = append(ks, NStr(ss[i]))
			vs = append(vs, map[string]int{"k": is[i]})
		}
		mapCase(ks, vs, func(s NStr) []byte { return encS(string(s)) }, func(m map[string]int) []byte { return encMp1(m, encS, encI[int]) })
	case 6:
		var ks []int64
		var vs [][]byte
		for i := range is {
			ks = append(ks, -int64(is[i]))
			vs = append(vs, []byte(ss[i]))
		}
		mapCase(ks, vs, encI[int64], func(b []byte) []byte { return encS(string(b)) })
	case 7:
		var vs [][]string
		for i := range is {
			vs = append(vs, []string{ss[i]}[:i%2])
		}
		mapCase(ss, vs, encS, func(x []string) []byte { return encSl(x, encS) })
	}
}

// larger maps: the count and each entry once
func H_C10_bigmap() {
	n := pick("n", 0, 1, 7, 8, 9, 10, 11, 17, 99, 100)
	m := map[int]any{}
	x := sym.Str("x", 1)
	for i := 0; i < n; i++ {
		m[i] = i
	}
	if n > 0 {
		m[n/2] = x
	}
	var v any = m
	if sym.Choose("any", 2) == 1 {
		v = any(&m)
	}
	out := enc(v)
	head := "a:" + itoa(n) + ":{"
	sym.Assert(len(out) > len(head) && string(out[:len(head)]) == head && out[len(out)-1] == '}', "wrong frame")
	b := out[len(head) : len(out)-1]
	seen := map[int]bool{}
	for len(b) > 0 {
		sym.Assert(len(b) > 4 && b[0] == 'i' && b[1] == ':', "wrong entry")
		k, end, ok := digits(b, 2, 1000)
		sym.Assert(ok && at(b, end, ';') && !seen[k] && k < n, "wrong key")
		seen[k] = true
		b = b[end+1:]
		want := string(encI(k))
		if k == n/2 {
			want = string(encS(x))
		}
		sym.Assert(len(b) >= len(want) && string(b[:len(want)]) == want, "wrong value")
		b = b[len(want):]
	}
	sym.Assert(len(seen) == n, "an entry is missing")
}

// nil and untyped values
func H_C10_nil() {
	check := func(v any, want string) {
		out, err := php.Marshal(v)
		noErr(err, "Marshal fails")
		sym.Assert(string(out) == want, "wrong text for nil")
	}
	switch sym.Choose("v", 16) {
	case 0:
		check(nil, "N;")
	case 1:
		check((*int)(nil), "N;")
	case 2:
		check((*any)(nil), "N;")
	case 3:
		check([]int(nil), "N;")
	case 4:
		check(map[string]int(nil), "N;")
	case 5:
		check((*Inner)(nil), "N;")
	case 6:
		check((*[]int)(nil), "N;")
	case 7:
		check((*map[string]int)(nil), "N;")
	case 8:
		check((*[2]int)(nil), "N;")
	case 9:
		check([]any{nil, (*int)(nil), []int(nil), map[int]int(nil), (*Inner)(nil)}, "a:5:{i:0;N;i:1;N;i:2;N;i:3;N;i:4;N;}")
	case 10:
		check(struct {
			A any
			B *int
			C []int
			D map[string]int
			E *Inner
			F *[]int
			G *any
			H *map[string]int
			I *[1]int
		}{}, `a:9:{s:1:"A";N;s:1:"B";N;s:1:"C";N;s:1:"D";N;s:1:"E";N;s:1:"F";N;s:1:"G";N;s:1:"H";N;s:1:"I";N;}`)
	case 11:
		check([]*Inner{nil}, "a:1:{i:0;N;}")
	case 12:
		check(map[string]any{"k": nil}, `a:1:{s:1:"k";N;}`)
	case 13:
		check([2]*int{}, "a:2:{i:0;N;i:1;N;}")
	case 14:
		check(&[]map[string][]int{nil, {"k": nil}}, `a:2:{i:0;N;i:1;a:1:{s:1:"k";N;}}`)
	case 15:
		var e any
		check(&e, "N;")
	}
}

// every byte of a string is written as it is, at any length up to the bound
func H_C10_strings() {
	n := sym.Choose("n", sym.Scale("max", 40, 300))
	s := sym.Str("s", n)
	switch sym.Choose("kind", 5) {
	case 0:
		sym.Assert(same(enc(s), encS(s)), "wrong text")
	case 1:
		sym.Assert(same(enc([]byte(s)), encS(s)), "wrong text")
	case 2:
		sym.Assert(same(enc(map[string]string{s: s}), []byte("a:1:{"+string(encS(s))+string(encS(s))+"}")), "wrong text")
	case 3:
		sym.Assert(same(enc([]any{s, &s}), []byte("a:2:{i:0;"+string(encS(s))+"i:1;"+string(encS(s))+"}")), "wrong text")
	case 4:
		sym.Assert(same(enc(struct{ A *string }{&s}), []byte(`a:1:{s:1:"A";`+string(encS(s))+"}")), "wrong text")
	}
}

// every count of elements up to the bound
func H_C10_counts() {
	n := sym.Choose("n", sym.Scale("max", 130, 1100))
	want := "a:" + itoa(n) + ":{"
	var v any
	switch sym.Choose("kind", 3) {
	case 0:
		l := make([]bool, n)
		for i := range l {
			want += "i:" + itoa(i) + ";b:0;"
		}
		v = l
	case 1:
		l := make([]any, n)
		for i := range l {
			want += "i:" + itoa(i) + ";N;"
		}
		v = l
	case 2:
		l := make([]struct{}, n)
		for i := range l {
			want += "i:" + itoa(i) + ";a:0:{}"
		}
		v = &l
	}
	sym.Assert(same(enc(v), []byte(want+"}")), "wrong text")
}
