package h

import (
	php "github.com/trim21/go-phpserialize"
	"verif/harness/sym"
)

// C05: dynamic types behind interfaces

// node is a PHP value with the Go value documented for it.
type node struct {
	text string
	eq   func(any) bool
}

type entry struct {
	isInt bool
	i     int64
	s     string
	v     node
}

func aKey(name string, object bool) entry {
	if object {
		return entry{s: sym.Str(name+"s", sym.Choose(name+"l", 3))}
	}
	switch sym.Choose(name, 4) {
	case 0:
		return entry{isInt: true, i: int64(dig(name + "i"))}
	case 1:
		return entry{isInt: true, i: -1 - int64(dig(name+"i"))}
	case 2:
		return entry{s: sym.Str(name+"s", 1)}
	}
	return entry{s: sym.Str(name+"s", 2)}
}

func (e entry) keyText() string {
	if e.isInt {
		return string(encI(e.i))
	}
	return string(encS(e.s))
}

// entriesEq tests that m holds exactly the entries; a later entry replaces an earlier one.
func entriesEq(m map[any]any, es []entry) bool {
	n := 0
	ok := true
	for i, e := range es {
		last := true
		for _, f := range es[i+1:] {
			if e.isInt == f.isInt && (e.isInt && e.i == f.i || !e.isInt && e.s == f.s) {
				last = false
			}
		}
		if !last {
			continue
		}
		n++
		var x any
		var has bool
		if e.isInt {
			x, has = m[e.i]
		} else {
			x, has = m[e.s]
		}
		if !has {
			return false
		}
		ok = sym.And(ok, e.v.eq(x))
	}
	return sym.And(ok, len(m) == n)
}

func leaf(name string) node {
	switch sym.Choose(name, 7) {
	case 0:
		return node{"N;", func(x any) bool { return x == nil }}
	case 1:
		b := sym.Bool(name + "b")
		return node{string(encB(b)), func(x any) bool { v, ok := x.(bool); return ok && v == b }}
	case 2:
		i := int64(dig(name + "i"))
		return node{string(encI(i)), func(x any) bool { v, ok := x.(int64); return ok && v == i }}
	case 3:
		s := sym.Str(name+"s", 2)
		return node{string(encS(s)), func(x any) bool { v, ok := x.(string); return ok && v == s }}
	case 4:
		return node{"d:-0.5;", func(x any) bool { v, ok := x.(float64); return ok && v == -0.5 }}
	case 5:
		return node{"a:0:{}", func(x any) bool { v, ok := x.(map[any]any); return ok && v != nil && len(v) == 0 }}
	}
	return node{`O:2:"Cc":0:{}`, func(x any) bool { v, ok := x.(map[string]any); return ok && v != nil && len(v) == 0 }}
}

func container(name string, object bool, es []entry) node {
	text := "a:" + itoa(len(es)) + ":{"
	if object {
		text = `O:3:"Foo":` + itoa(len(es)) + ":{"
	}
	for _, e := range es {
		text += e.keyText() + e.v.text
	}
	text += "}"
	return node{text, func(x any) bool {
		if !object {
			m, ok := x.(map[any]any)
			return ok && entriesEq(m, es)
		}
		m, ok := x.(map[string]any)
		if !ok {
			return false
		}
		c := map[any]any{}
		for k, v := range m {
			c[k] = v
		}
		return entriesEq(c, es)
	}}
}

// places decode text at several interface positions.
func anyPlace(n node) {
	in := []byte(n.text)
	switch sym.Choose("place", 9) {
	case 0:
		var v any
		noErr(php.Unmarshal(in, &v), "rejected")
		sym.Assert(n.eq(v), "wrong dynamic value")
	case 1: // an old value is replaced
		old := map[any]any{"x": 1}
		var v any = old
		noErr(php.Unmarshal(in, &v), "rejected")
		sym.Assert(sym.And(n.eq(v), len(old) == 1), "wrong dynamic value")
	case 2: // also a pointer
		p := new(int)
		var v any = p
		noErr(php.Unmarshal(in, &v), "rejected")
		sym.Assert(sym.And(n.eq(v), *p == 0), "wrong dynamic value")
	case 3:
		v := []any{1, 2}
		noErr(php.Unmarshal([]byte("a:2:{i:0;"+n.text+"i:1;"+n.text+"}"), &v), "rejected")
		sym.Assert(len(v) == 2, "wrong length")
		sym.Assert(sym.And(n.eq(v[0]), n.eq(v[1])), "wrong dynamic value")
	case 4:
		var v map[string]any
		noErr(php.Unmarshal([]byte(`a:1:{s:1:"k";`+n.text+"}"), &v), "rejected")
		sym.Assert(len(v) == 1 && n.eq(v["k"]), "wrong dynamic value")
	case 5:
		v := Deep{I: 3}
		noErr(php.Unmarshal([]byte(`a:2:{s:1:"i";`+n.text+`s:1:"f";d:2;}`), &v), "rejected")
		sym.Assert(n.eq(v.I) && v.F == 2, "wrong dynamic value")
	case 6:
		var v *any
		noErr(php.Unmarshal(in, &v), "rejected")
		if n.text == "N;" {
			sym.Assert(v == nil, "null pointer")
			return
		}
		sym.Assert(v != nil && n.eq(*v), "wrong dynamic value")
	case 7:
		var v NAny
		noErr(php.Unmarshal(in, &v), "rejected")
		sym.Assert(n.eq(any(v)), "wrong dynamic value")
	case 8:
		v := [2]any{1, 2}
		noErr(php.Unmarshal([]byte("a:1:{i:1;"+n.text+"}"), &v), "rejected")
		sym.Assert(v[0] == nil && n.eq(v[1]), "wrong dynamic value")
	}
}

func H_C05_leaf() { anyPlace(leaf("leaf")) }

// integers and strings of every size
func H_C05_scalar() {
	switch sym.Choose("kind", 3) {
	case 0:
		i := sym.I64("i")
		anyPlace(node{string(encI(i)), func(x any) bool { v, ok := x.(int64); return ok && v == i }})
	case 1:
		s := sym.Str("s", slen("n"))
		anyPlace(node{string(encS(s)), func(x any) bool { v, ok := x.(string); return ok && v == s }})
	case 2:
		f := sym.F64("f")
		anyPlace(node{string(encF(f)), func(x any) bool { v, ok := x.(float64); return ok && eqF64(v, f) }})
	}
}

// one container with up to two entries
func H_C05_container() {
	object := sym.Choose("object", 2) == 1
	n := sym.Choose("n", 3)
	var es []entry
	for i := 0; i < n; i++ {
		e := aKey("k"+itoa(i), object)
		if i == 0 {
			e.v = leaf("v0")
		} else {
			b := dig("v1")
			e.v = node{string(encI(b)), func(x any) bool { v, ok := x.(int64); return ok && v == int64(b) }}
		}
		es = append(es, e)
	}
	c := container("c", object, es)
	if n == 2 {
		var v any
		noErr(php.Unmarshal([]byte(c.text), &v), "rejected")
		sym.Assert(c.eq(v), "wrong dynamic value")
		return
	}
	anyPlace(c)
}

// containers in containers
func H_C05_nested() {
	depth := 2 + sym.Choose("depth", sym.Scale("deep", 2, 4))
	n := leaf("leaf")
	for i := 0; i < depth; i++ {
		object := sym.Choose("object"+itoa(i), 2) == 1
		k := entry{s: "key"}
		if !object && sym.Choose("int"+itoa(i), 2) == 1 {
			k = entry{isInt: true, i: int64(i)}
		}
		if i == 0 {
			if k.isInt {
				k.i = int64(dig("key"))
			} else {
				k.s = sym.Str("key", 1)
			}
		}
		k.v = n
		es := []entry{k}
		switch sym.Choose("sibling"+itoa(i), 3) {
		case 1:
			es = append([]entry{{s: "first", v: node{"i:1;", func(x any) bool { return x == any(int64(1)) }}}}, es...)
		case 2:
			es = append(es, entry{s: "after", v: node{"a:1:{i:0;b:0;}", func(x any) bool {
				m, ok := x.(map[any]any)
				return ok && len(m) == 1 && m[int64(0)] == false
			}}})
		}
		n = container("c", object, es)
	}
	var v any
	noErr(php.Unmarshal([]byte(n.text), &v), "rejected")
	sym.Assert(n.eq(v), "wrong dynamic value")
}

// array keys that are neither integers nor strings are refused
func H_C05_keys() {
	k := pick("key", "N;", "b:1;", "b:0;", "d:1;", "a:0:{}", `O:1:"C":0:{}`)
	in := "a:1:{" + k + "i:1;}"
	if sym.Choose("object", 2) == 1 {
		in = `O:1:"D":1:{` + k + "i:1;}"
		sym.Assume(k != "N;")
	}
	var v any
	var m map[any]any
	switch sym.Choose("place", 4) {
	case 0:
		isErr(php.Unmarshal([]byte(in), &v), "key accepted")
	case 1:
		isErr(php.Unmarshal([]byte(in), &m), "key accepted")
	case 2:
		isErr(php.Unmarshal([]byte("a:1:{i:0;"+in+"}"), &v), "key accepted")
	case 3:
		var d Deep
		isErr(php.Unmarshal([]byte(`a:1:{s:1:"i";`+in+"}"), &d), "key accepted")
	}
}
