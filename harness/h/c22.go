package h

import (
	"reflect"

	php "github.com/trim21/go-phpserialize"
	"verif/harness/sym"
)

// C22: recursive types

// shape is a finite tree; every type below spells it in its own way.
type shape struct {
	v    int
	kids []*shape
}

func aShape(name string, depth int) *shape {
	s := &shape{v: dig(name)}
	if depth == 0 {
		return s
	}
	n := sym.Choose(name+"n", 3)
	for i := 0; i < n; i++ {
		s.kids = append(s.kids, aShape(name+itoa(i), depth-1))
	}
	return s
}

func aList(name string, depth int) *shape {
	s := &shape{v: dig(name)}
	if depth > 0 && sym.Choose(name+"n", 2) == 1 {
		s.kids = []*shape{aList(name+"0", depth-1)}
	}
	return s
}

// rt is one recursive type.
type rt struct {
	list bool
	mk   func(s *shape) any         // value
	text func(s *shape) string      // canonical text
	dst  func() any                 // fresh destination
	ok   func(p any, s *shape) bool // *p is the value of s
}

type (
	qNode struct {
		V int    `php:"v"`
		N *qNode `php:"n"`
	}
	qTree struct {
		V int     `php:"v"`
		K []qTree `php:"k"`
	}
	qPtrs struct {
		V int      `php:"v"`
		K []*qPtrs `php:"k"`
	}
	qMap struct {
		V int             `php:"v"`
		K map[string]qMap `php:"k"`
	}
	qMapPtr struct {
		V int           `php:"v"`
		K map[int]*qMut `php:"k"`
	}
	qMut struct {
		W qMapPtr `php:"w"`
	}
	qArr struct {
		V int       `php:"v"`
		K [2]*qArr  `php:"k"`
		S **nothing `php:"-"`
	}
	nothing struct{}
	qOmit   struct {
		V int      `php:"v,omitempty"`
		K []*qOmit `php:"k,omitempty"`
	}
	qA struct {
		V int `php:"v"`
		B *qB `php:"b"`
	}
	qB struct {
		V int            `php:"v"`
		C map[string]*qC `php:"c"`
	}
	qC struct {
		V int  `php:"v"`
		A []qA `php:"a"`
	}
	qSl   []qSl
	qMp   map[string]qMp
	qSM   []map[int]qSM
	qArP  [1]*qArP
	qAny  struct{ K []any }
	qSelf struct {
		V int
		F []struct{ P *qSelf }
	}
)

func qList(s *shape) *qNode {
	if s == nil {
		return nil
	}
	return &qNode{s.v, qList(next(s))}
}

func next(s *shape) *shape {
	if len(s.kids) == 0 {
		return nil
	}
	return s.kids[0]
}

func ints(v int) string { return string(encI(v)) }

// listed is the text of a list.
func listed(n int, f func(i int) string) string {
	t := "a:" + itoa(n) + ":{"
	for i := 0; i < n; i++ {
		t += "i:" + itoa(i) + ";" + f(i)
	}
	return t + "}"
}

var rts = []rt{
	{list: true, // 0
		mk: func(s *shape) any { return *qList(s) },
		text: func(s *shape) string {
			var f func(s *shape) string
			f = func(s *shape) string {
				if s == nil {
					return "N;"
				}
				return `a:2:{s:1:"v";` + ints(s.v) + `s:1:"n";` + f(next(s)) + "}"
			}
			return f(s)
		},
		dst: func() any { return new(qNode) },
		ok: func(p any, s *shape) bool {
			ok := true
			n := p.(*qNode)
			for ; s != nil && n != nil; s, n = next(s), n.N {
				ok = sym.And(ok, n.V == s.v)
			}
			return sym.And(ok, s == nil && n == nil)
		}},
	{mk: func(s *shape) any { return qTreeOf(s) }, // 1
		text: func(s *shape) string { return treeText(s, "N;") },
		dst:  func() any { return new(qTree) },
		ok: func(p any, s *shape) bool {
			var f func(t *qTree, s *shape) bool
			f = func(t *qTree, s *shape) bool {
				if len(t.K) != len(s.kids) {
					return false
				}
				ok := t.V == s.v
				for i := range t.K {
					ok = sym.And(ok, f(&t.K[i], s.kids[i]))
				}
				return ok
			}
			return f(p.(*qTree), s)
		}},
	{mk: func(s *shape) any { return qPtrsOf(s) }, // 2
		text: func(s *shape) string { return treeText(s, "N;") },
		dst:  func() any { return new(*qPtrs) },
		ok: func(p any, s *shape) bool {
			var f func(t *qPtrs, s *shape) bool
			f = func(t *qPtrs, s *shape) bool {
				if t == nil || len(t.K) != len(s.kids) {
					return false
				}
				ok := t.V == s.v
				for i := range t.K {
					ok = sym.And(ok, f(t.K[i], s.kids[i]))
				}
				return ok
			}
			return f(*p.(**qPtrs), s)
		}},
	{list: true, // 3
		mk: func(s *shape) any {
			var f func(s *shape) qMap
			f = func(s *shape) qMap {
				m := qMap{V: s.v, K: map[string]qMap{}}
				if n := next(s); n != nil {
					m.K["k"] = f(n)
				}
				return m
			}
			return f(s)
		},
		text: func(s *shape) string {
			var f func(s *shape) string
			f = func(s *shape) string {
				if n := next(s); n != nil {
					return `a:2:{s:1:"v";` + ints(s.v) + `s:1:"k";a:1:{s:1:"k";` + f(n) + "}}"
				}
				return `a:2:{s:1:"v";` + ints(s.v) + `s:1:"k";a:0:{}}`
			}
			return f(s)
		},
		dst: func() any { return new(qMap) },
		ok: func(p any, s *shape) bool {
			m := *p.(*qMap)
			ok := true
			for {
				ok = sym.And(ok, m.V == s.v)
				if s = next(s); s == nil {
					return sym.And(ok, len(m.K) == 0)
				}
				if len(m.K) != 1 {
					return false
				}
				m = m.K["k"]
			}
		}},
	{list: true, // 4
		mk: func(s *shape) any {
			var f func(s *shape) *qMut
			f = func(s *shape) *qMut {
				m := &qMut{qMapPtr{V: s.v}}
				if n := next(s); n != nil {
					m.W.K = map[int]*qMut{7: f(n)}
				}
				return m
			}
			return f(s)
		},
		text: func(s *shape) string {
			var f func(s *shape) string
			f = func(s *shape) string {
				k := "N;"
				if n := next(s); n != nil {
					k = `a:1:{i:7;` + f(n) + "}"
				}
				return `a:1:{s:1:"w";a:2:{s:1:"v";` + ints(s.v) + `s:1:"k";` + k + "}}"
			}
			return f(s)
		},
		dst: func() any { return new(*qMut) },
		ok: func(p any, s *shape) bool {
			m := *p.(**qMut)
			ok := true
			for ; s != nil; s = next(s) {
				if m == nil {
					return false
				}
				ok = sym.And(ok, m.W.V == s.v)
				m = m.W.K[7]
			}
			return sym.And(ok, m == nil)
		}},
	{mk: func(s *shape) any { // 5
		var f func(s *shape) *qArr
		f = func(s *shape) *qArr {
			a := &qArr{V: s.v}
			for i, k := range s.kids {
				a.K[i] = f(k)
			}
			return a
		}
		return *f(s)
	},
		text: func(s *shape) string {
			var f func(s *shape) string
			f = func(s *shape) string {
				return `a:2:{s:1:"v";` + ints(s.v) + `s:1:"k";` + listed(2, func(i int) string {
					if i < len(s.kids) {
						return f(s.kids[i])
					}
					return "N;"
				}) + "}"
			}
			return f(s)
		},
		dst: func() any { return new(qArr) },
		ok: func(p any, s *shape) bool {
			var f func(a *qArr, s *shape) bool
			f = func(a *qArr, s *shape) bool {
				ok := a.V == s.v
				for i, k := range a.K {
					if (k != nil) != (i < len(s.kids)) {
						return false
					}
					if k != nil {
						ok = sym.And(ok, f(k, s.kids[i]))
					}
				}
				return ok
			}
			return f(p.(*qArr), s)
		}},
	{mk: func(s *shape) any { // 6
		var f func(s *shape) *qOmit
		f = func(s *shape) *qOmit {
			o := &qOmit{V: s.v}
			for _, k := range s.kids {
				o.K = append(o.K, f(k))
			}
			return o
		}
		return f(s)
	},
		text: func(s *shape) string {
			var f func(s *shape) string
			f = func(s *shape) string {
				n, t := 0, ""
				if s.v != 0 {
					n, t = 1, `s:1:"v";`+ints(s.v)
				}
				if len(s.kids) > 0 {
					n++
					t += `s:1:"k";` + listed(len(s.kids), func(i int) string { return f(s.kids[i]) })
				}
				return "a:" + itoa(n) + ":{" + t + "}"
			}
			return f(s)
		},
		dst: func() any { return new(qOmit) },
		ok: func(p any, s *shape) bool {
			var f func(t *qOmit, s *shape) bool
			f = func(t *qOmit, s *shape) bool {
				if t == nil || len(t.K) != len(s.kids) {
					return false
				}
				ok := t.V == s.v
				for i := range t.K {
					ok = sym.And(ok, f(t.K[i], s.kids[i]))
				}
				return ok
			}
			return f(p.(*qOmit), s)
		}},
	{list: true, // 7: three types in a ring
		mk: func(s *shape) any {
			var fa func(s *shape) qA
			fa = func(s *shape) qA {
				a := qA{V: s.v, B: &qB{V: s.v}}
				if n := next(s); n != nil {
					a.B.C = map[string]*qC{"c": {V: s.v, A: []qA{fa(n)}}}
				}
				return a
			}
			return fa(s)
		},
		text: func(s *shape) string {
			var f func(s *shape) string
			f = func(s *shape) string {
				v := `s:1:"v";` + ints(s.v)
				c := "N;"
				if n := next(s); n != nil {
					c = `a:1:{s:1:"c";a:2:{` + v + `s:1:"a";a:1:{i:0;` + f(n) + `}}}`
				}
				return `a:2:{` + v + `s:1:"b";a:2:{` + v + `s:1:"c";` + c + "}}"
			}
			return f(s)
		},
		dst: func() any { return new(qA) },
		ok: func(p any, s *shape) bool {
			a := p.(*qA)
			ok := true
			for {
				if a.B == nil {
					return false
				}
				ok = sym.And(ok, sym.And(a.V == s.v, a.B.V == s.v))
				c := a.B.C["c"]
				if next(s) == nil {
					return sym.And(ok, c == nil)
				}
				if c == nil || len(c.A) != 1 {
					return false
				}
				ok = sym.And(ok, c.V == s.v)
				a, s = &c.A[0], next(s)
			}
		}},
	{mk: func(s *shape) any { // 8
		var f func(s *shape) qSl
		f = func(s *shape) qSl {
			r := qSl{}
			for _, k := range s.kids {
				r = append(r, f(k))
			}
			return r
		}
		return f(s)
	},
		text: func(s *shape) string {
			var f func(s *shape) string
			f = func(s *shape) string {
				return listed(len(s.kids), func(i int) string { return f(s.kids[i]) })
			}
			return f(s)
		},
		dst: func() any { return new(qSl) },
		ok: func(p any, s *shape) bool {
			var f func(t qSl, s *shape) bool
			f = func(t qSl, s *shape) bool {
				if len(t) != len(s.kids) {
					return false
				}
				for i := range t {
					if !f(t[i], s.kids[i]) {
						return false
					}
				}
				return true
			}
			return f(*p.(*qSl), s)
		}},
	{list: true, // 9
		mk: func(s *shape) any {
			var f func(s *shape) qMp
			f = func(s *shape) qMp {
				if next(s) == nil {
					return nil
				}
				return qMp{"k": f(next(s))}
			}
			return f(s)
		},
		text: func(s *shape) string {
			var f func(s *shape) string
			f = func(s *shape) string {
				if next(s) == nil {
					return "N;"
				}
				return `a:1:{s:1:"k";` + f(next(s)) + "}"
			}
			return f(s)
		},
		dst: func() any { return new(qMp) },
		ok: func(p any, s *shape) bool {
			m := *p.(*qMp)
			for ; next(s) != nil; s = next(s) {
				if len(m) != 1 {
					return false
				}
				m = m["k"]
			}
			return len(m) == 0
		}},
	{mk: func(s *shape) any { // 10
		var f func(s *shape) qSM
		f = func(s *shape) qSM {
			r := qSM{}
			for _, k := range s.kids {
				r = append(r, map[int]qSM{s.v: f(k)})
			}
			return r
		}
		return f(s)
	},
		text: func(s *shape) string {
			var f func(s *shape) string
			f = func(s *shape) string {
				return listed(len(s.kids), func(i int) string { return "a:1:{" + ints(s.v) + f(s.kids[i]) + "}" })
			}
			return f(s)
		},
		dst: func() any { return new(qSM) },
		ok: func(p any, s *shape) bool {
			var f func(t qSM, s *shape) bool
			f = func(t qSM, s *shape) bool {
				if len(t) != len(s.kids) {
					return false
				}
				for i := range t {
					u, ok := t[i][s.v]
					if !ok || len(t[i]) != 1 || !f(u, s.kids[i]) {
						return false
					}
				}
				return true
			}
			return f(*p.(*qSM), s)
		}},
	{list: true, // 11
		mk: func(s *shape) any {
			var f func(s *shape) qArP
			f = func(s *shape) qArP {
				if next(s) == nil {
					return qArP{}
				}
				n := f(next(s))
				return qArP{&n}
			}
			return f(s)
		},
		text: func(s *shape) string {
			var f func(s *shape) string
			f = func(s *shape) string {
				if next(s) == nil {
					return "a:1:{i:0;N;}"
				}
				return `a:1:{i:0;` + f(next(s)) + "}"
			}
			return f(s)
		},
		dst: func() any { return new(qArP) },
		ok: func(p any, s *shape) bool {
			m := p.(*qArP)
			for ; next(s) != nil; s = next(s) {
				if m == nil {
					return false
				}
				m = m[0]
			}
			return m != nil && m[0] == nil
		}},
	{mk: func(s *shape) any { // 12
		var f func(s *shape) *qSelf
		f = func(s *shape) *qSelf {
			r := &qSelf{V: s.v, F: []struct{ P *qSelf }{}}
			for _, k := range s.kids {
				r.F = append(r.F, struct{ P *qSelf }{f(k)})
			}
			return r
		}
		return f(s)
	},
		text: func(s *shape) string {
			var f func(s *shape) string
			f = func(s *shape) string {
				return `a:2:{s:1:"V";` + ints(s.v) + `s:1:"F";` + listed(len(s.kids), func(i int) string { return `a:1:{s:1:"P";` + f(s.kids[i]) + "}" }) + "}"
			}
			return f(s)
		},
		dst: func() any { return new(*qSelf) },
		ok: func(p any, s *shape) bool {
			var f func(t *qSelf, s *shape) bool
			f = func(t *qSelf, s *shape) bool {
				if t == nil || len(t.F) != len(s.kids) {
					return false
				}
				ok := t.V == s.v
				for i := range t.F {
					ok = sym.And(ok, f(t.F[i].P, s.kids[i]))
				}
				return ok
			}
			return f(*p.(**qSelf), s)
		}},
}

func qTreeOf(s *shape) qTree {
	t := qTree{V: s.v}
	for _, k := range s.kids {
		t.K = append(t.K, qTreeOf(k))
	}
	return t
}

func qPtrsOf(s *shape) *qPtrs {
	t := &qPtrs{V: s.v}
	for _, k := range s.kids {
		t.K = append(t.K, qPtrsOf(k))
	}
	return t
}

func treeText(s *shape, empty string) string {
	k := empty
	if len(s.kids) > 0 {
		k = listed(len(s.kids), func(i int) string { return treeText(s.kids[i], empty) })
	}
	return `a:2:{s:1:"v";` + ints(s.v) + `s:1:"k";` + k + "}"
}

func (r rt) shape() *shape {
	if r.list {
		return aList("s", sym.Scale("list", 4, 7))
	}
	return aShape("s", sym.Scale("tree", 2, 3))
}

func (r rt) encode(s *shape, as int) {
	v, t := r.mk(s), r.text(s)
	switch as {
	case 1:
		v, t = []any{v, 1, v}, "a:3:{i:0;"+t+"i:1;i:1;i:2;"+t+"}"
	case 2:
		v, t = map[string]any{"k": v}, `a:1:{s:1:"k";`+t+"}"
	case 3:
		v, t = struct {
			A any
			B int
		}{v, 2}, `a:2:{s:1:"A";`+t+`s:1:"B";i:2;}`
	}
	sym.Assert(string(enc(v)) == t, "wrong text of a recursive type")
}

func (r rt) decode(s *shape) {
	p := r.dst()
	noErr(php.Unmarshal([]byte(r.text(s)), p), "text of a recursive type is rejected")
	sym.Assert(r.ok(p, s), "wrong value of a recursive type")
}

// every type in one direction after the other
func H_C22_types() {
	r := rts[sym.Choose("type", len(rts))]
	s := r.shape()
	if sym.Choose("order", 2) == 0 {
		r.encode(s, sym.Choose("as", 4))
		r.decode(s)
	} else {
		r.decode(s)
		r.encode(s, 0)
	}
}

// types compiled on their own first, or as a part of another one
func H_C22_order() {
	s := &shape{v: dig("v"), kids: []*shape{{v: 3}}}
	ix := ints(s.v)
	check := func() {
		rts[0].encode(s, 0)
		rts[1].decode(s)
		rts[7].encode(s, 0)
		rts[7].decode(s)
		rts[12].decode(s)
	}
	switch sym.Choose("first", 10) {
	case 0: // the inner types of the ring
		sym.Assert(string(enc(qC{V: s.v})) == `a:2:{s:1:"v";`+ix+`s:1:"a";N;}`, "wrong text")
		v := dec[qB](doc(`a:1:{s:1:"c";a:1:{s:1:"k";a:1:{s:1:"v";`, ix, "}}}"))
		sym.Assert(len(v.C) == 1 && v.C["k"].V == s.v, "wrong value")
	case 1:
		sym.Assert(string(enc(&qB{V: s.v, C: map[string]*qC{"k": nil}})) == `a:2:{s:1:"v";`+ix+`s:1:"c";a:1:{s:1:"k";N;}}`, "wrong text")
		v := dec[[]*qC](doc(`a:1:{i:0;a:1:{s:1:"a";a:1:{i:0;a:1:{s:1:"v";`, ix, "}}}}"))
		sym.Assert(v[0].A[0].V == s.v, "wrong value")
	case 2:
		sym.Assert(string(enc([]qNode{{V: s.v}})) == `a:1:{i:0;a:2:{s:1:"v";`+ix+`s:1:"n";N;}}`, "wrong text")
		v := dec[map[string]qNode](doc(`a:1:{s:1:"k";a:1:{s:1:"n";a:1:{s:1:"v";`, ix, "}}}"))
		sym.Assert(v["k"].N.V == s.v, "wrong value")
	case 3:
		sym.Assert(string(enc(map[string]*qNode{"k": {V: s.v}})) == `a:1:{s:1:"k";a:2:{s:1:"v";`+ix+`s:1:"n";N;}}`, "wrong text")
		v := dec[[1]qTree](doc(`a:1:{i:0;a:1:{s:1:"k";a:1:{i:0;a:1:{s:1:"v";`, ix, "}}}}"))
		sym.Assert(v[0].K[0].V == s.v, "wrong value")
	case 4: // two recursive types in one
		type both struct {
			A qNode
			B *qTree
			C *qNode
			D []qTree
			E map[string]qA
		}
		n, k := `a:2:{s:1:"v";`+ix+`s:1:"n";N;}`, `a:2:{s:1:"v";`+ix+`s:1:"k";N;}`
		a := `a:2:{s:1:"v";` + ix + `s:1:"b";N;}`
		t := `a:5:{s:1:"A";` + n + `s:1:"B";` + k + `s:1:"C";` + n + `s:1:"D";a:1:{i:0;` + k + `}s:1:"E";a:1:{s:1:"k";` + a + `}}`
		v := both{qNode{V: s.v}, &qTree{V: s.v}, &qNode{V: s.v}, []qTree{{V: s.v}}, map[string]qA{"k": {V: s.v}}}
		sym.Assert(string(enc(v)) == t, "wrong text")
		w := dec[both]([]byte(t))
		sym.Assert(w.A.V == s.v && w.B.V == s.v && w.C.V == s.v && w.D[0].V == s.v && w.E["k"].V == s.v, "wrong value")
	case 5: // the type is recursive at the second field, and unsupported later
		isErr(php.Unmarshal([]byte(`a:1:{s:1:"F";i:1;}`), new(struct {
			A *qNode
			B qTree
			F chan int
		})), "channel accepted")
		_, err := php.Marshal(struct {
			A *qNode
			B qTree
			F chan int
		}{})
		isErr(err, "channel encoded")
	case 6: // any in the middle
		sym.Assert(string(enc(qAny{[]any{qAny{}, &qAny{[]any{s.v}}}})) == `a:1:{s:1:"K";a:2:{i:0;a:1:{s:1:"K";N;}i:1;a:1:{s:1:"K";a:1:{i:0;`+ix+`}}}}`, "wrong text")
		v := dec[qAny](doc(`a:1:{s:1:"K";a:1:{i:0;a:1:{s:1:"K";`, ix, "}}}"))
		m := v.K[0].(map[any]any)
		sym.Assert(m["K"] == any(int64(s.v)), "wrong value")
	case 7: // decoders of the element types
		v := dec[map[string]qSl](doc(`a:1:{s:1:"k";a:1:{i:0;a:0:{}}}`))
		sym.Assert(len(v["k"]) == 1 && len(v["k"][0]) == 0, "wrong value")
		w := dec[[]map[int]qSM](doc(`a:1:{i:0;a:1:{`, ix, `a:0:{}}}`))
		sym.Assert(len(w) == 1 && len(w[0]) == 1, "wrong value")
	case 8: // the same local name for different types
		type qNode struct{ V string }
		sym.Assert(string(enc(qNode{"x"})) == `a:1:{s:1:"V";s:1:"x";}`, "wrong text")
		v := dec[*qNode]([]byte(`a:1:{s:1:"V";s:1:"y";}`))
		sym.Assert(v.V == "y", "wrong value")
	case 9: // a pointer type that contains itself: only has to end
		type P *P
		_ = php.Unmarshal([]byte("N;"), new(P))
		_ = php.Unmarshal([]byte("i:1;"), new(P))
		_, _ = php.Marshal(P(nil))
	}
	check()
}

// recursion through struct fields with options, custom types and interfaces
func H_C22_mixed() {
	x := dig("x")
	ix := ints(x)
	switch sym.Choose("case", 7) {
	case 0:
		type T struct {
			Q int `php:"q,string"`
			N *T  `php:"n,omitempty"`
			R Raw `php:"-"`
		}
		t := `a:2:{s:1:"q";s:1:"` + itoa(x) + `";s:1:"n";a:1:{s:1:"q";s:1:"` + itoa(x) + `";}}`
		sym.Assert(string(enc(T{Q: x, N: &T{Q: x}})) == t, "wrong text")
		v := dec[T]([]byte(t))
		sym.Assert(sym.And(v.Q == x, v.N.Q == x) && v.N.N == nil, "wrong value")
	case 1:
		type T struct {
			A any `php:"a"`
			M map[string]*T
		}
		t := `a:2:{s:1:"a";` + ix + `s:1:"M";a:1:{s:1:"k";a:2:{s:1:"a";N;s:1:"M";N;}}}`
		sym.Assert(string(enc(T{x, map[string]*T{"k": {}}})) == t, "wrong text")
		v := dec[T]([]byte(t))
		sym.Assert(v.A == any(int64(x)) && v.M["k"] != nil && v.M["k"].M == nil, "wrong value")
	case 2:
		type T struct {
			R HasRaw2[T] `php:"r"`
			V int        `php:"v"`
		}
		t := `a:2:{s:1:"r";a:1:{s:1:"P";a:2:{s:1:"r";a:1:{s:1:"P";N;}s:1:"v";` + ix + `}}s:1:"v";i:1;}`
		sym.Assert(string(enc(T{HasRaw2[T]{&T{V: x}}, 1})) == t, "wrong text")
		v := dec[T]([]byte(t))
		sym.Assert(v.R.P.V == x && v.V == 1 && v.R.P.R.P == nil, "wrong value")
	case 3:
		type T map[string][]T
		t := `a:1:{s:1:"k";a:2:{i:0;a:0:{}i:1;N;}}`
		sym.Assert(string(enc(T{"k": {T{}, nil}})) == t, "wrong text")
		v := dec[T]([]byte(t))
		sym.Assert(len(v["k"]) == 2 && v["k"][1] == nil && len(v["k"][0]) == 0, "wrong value")
	case 4:
		type T []struct {
			K T
			V int
		}
		t := `a:1:{i:0;a:2:{s:1:"K";a:1:{i:0;a:2:{s:1:"K";N;s:1:"V";` + ix + `}}s:1:"V";i:2;}}`
		in := T{{V: 2, K: T{{V: x}}}}
		sym.Assert(string(enc(in)) == t, "wrong text")
		v := dec[T]([]byte(t))
		sym.Assert(reflect.DeepEqual(v, in), "wrong value")
	case 5:
		type T struct {
			P *[]T
			M *map[int]T
			A *[1]*T
		}
		t := `a:3:{s:1:"P";a:1:{i:0;a:3:{s:1:"P";N;s:1:"M";N;s:1:"A";N;}}s:1:"M";a:1:{` + ix + `a:3:{s:1:"P";N;s:1:"M";N;s:1:"A";N;}}s:1:"A";a:1:{i:0;N;}}`
		in := T{P: &[]T{{}}, M: &map[int]T{x: {}}, A: &[1]*T{}}
		sym.Assert(string(enc(in)) == t, "wrong text")
		v := dec[T]([]byte(t))
		_, has := (*v.M)[x]
		sym.Assert(len(*v.P) == 1 && has && v.A != nil && v.A[0] == nil, "wrong value")
	case 6: // custom codecs inside
		type T struct {
			C *CustT `php:"c"`
			N []T    `php:"n"`
		}
		sym.Assert(string(enc(T{&CustT{}, []T{{}}})) == `a:2:{s:1:"c";i:42;s:1:"n";a:1:{i:0;a:2:{s:1:"c";N;s:1:"n";N;}}}`, "wrong text")
		v := dec[T](doc(`a:2:{s:1:"c";a:1:{i:0;`, ix, `}s:1:"n";a:1:{i:0;a:1:{s:1:"c";`, ix, `}}}`))
		sym.Assert(v.C.S == "a:1:{i:0;"+ix+"}" && v.N[0].C.S == ix, "wrong value")
	}
}

type HasRaw2[T any] struct{ P *T }

// CustT is a recursive type with custom codecs.
type CustT struct {
	N *CustT
	S string
}

func (c CustT) MarshalPHP() ([]byte, error)  { return []byte("i:42;"), nil }
func (c *CustT) UnmarshalPHP(b []byte) error { c.S = string(b); return nil }
