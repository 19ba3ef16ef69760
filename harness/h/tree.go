package h

import (
	"reflect"

	php "github.com/trim21/go-phpserialize"
	"verif/harness/sym"
)

// ---- generated types: trees of containers over a leaf, built with package reflect

type tnode struct {
	k int
	e *tnode // element
	t reflect.Type
}

const (
	tInt8 = iota
	tInt64
	tUint16
	tUint64
	tString
	tBool
	tFloat
	tBytes
	tEmpty
	tNamed
	tIface // any that holds an int64
	nLeaves
)

const (
	tPtr = nLeaves + iota
	tSlice
	tArray
	tMapS
	tMapI
	tStruct
	tOmit
	tTwo
	tAny // any that holds the element
	tEnd
)

// unsupported leaves
const (
	tChan = tEnd + iota
	tFunc
	tComplex
	tFloatMap
	tHidden
)

type tInner struct {
	A int8 `php:"a"`
	b int
}

var leafTypes = []reflect.Type{
	tInt8: reflect.TypeOf(int8(0)), tInt64: reflect.TypeOf(int64(0)), tUint16: reflect.TypeOf(uint16(0)), tUint64: reflect.TypeOf(uint64(0)),
	tString: reflect.TypeOf(""), tBool: reflect.TypeOf(false), tFloat: reflect.TypeOf(0.0), tBytes: reflect.TypeOf([]byte{}),
	tEmpty: reflect.TypeOf(struct{}{}), tNamed: reflect.TypeOf(tInner{}), tIface: reflect.TypeOf([]any{}).Elem(),
	tChan: reflect.TypeOf(make(chan int)), tFunc: reflect.TypeOf(func() {}), tComplex: reflect.TypeOf(1i), tFloatMap: reflect.TypeOf(map[float64]int{}),
	tHidden: reflect.TypeOf(struct{ C []chan int }{}),
}

var (
	tyString = reflect.TypeOf("")
	tyInt16  = reflect.TypeOf(int16(0))
	tyInt8   = reflect.TypeOf(int8(0))
	tyAny    = reflect.TypeOf([]any{}).Elem()
)

func leafNode(k int) *tnode { return &tnode{k: k, t: leafTypes[k]} }

func (n *tnode) in(k int) *tnode {
	c := &tnode{k: k, e: n}
	switch k {
	case tPtr:
		c.t = reflect.PointerTo(n.t)
	case tSlice:
		c.t = reflect.SliceOf(n.t)
	case tArray:
		c.t = reflect.ArrayOf(2, n.t)
	case tMapS:
		c.t = reflect.MapOf(tyString, n.t)
	case tMapI:
		c.t = reflect.MapOf(tyInt16, n.t)
	case tStruct:
		c.t = reflect.StructOf([]reflect.StructField{{Name: "X", Type: n.t}})
	case tOmit:
		c.t = reflect.StructOf([]reflect.StructField{{Name: "X", Type: n.t, Tag: `php:"x,omitempty"`}, {Name: "Z", Type: tyInt8, Tag: `php:"z"`}})
	case tTwo:
		c.t = reflect.StructOf([]reflect.StructField{{Name: "A", Type: n.t, Tag: `php:"a"`}, {Name: "B", Type: n.t, Tag: `php:"b"`}})
	case tAny:
		c.t = tyAny
	}
	return c
}

// aTree draws a type: depth containers over a leaf. last is the number of container kinds.
func aTree(depth, last int, leaves ...int) *tnode {
	n := leafNode(leaves[sym.Choose("leaf", len(leaves))])
	for i := 0; i < depth; i++ {
		k := tPtr + sym.Choose("in"+itoa(i), last-tPtr)
		sym.Assume(k != tPtr || n.k != tPtr) // pointers to pointers are not supported
		n = n.in(k)
	}
	return n
}

var allLeaves = []int{tInt8, tInt64, tUint16, tUint64, tString, tBool, tFloat, tBytes, tEmpty, tNamed, tIface}
var fewLeaves = []int{tInt8, tString, tBytes, tNamed, tIface}

// filled is a value of a tree: its text and whether it is the zero value.
type filled struct {
	text string
	zero func() bool
}

func always() bool { return true }
func never() bool  { return false }

// leafFill stores v (a digit) into a leaf.
func (n *tnode) leafFill(rv reflect.Value, v int) filled {
	zero := func() bool { return v == 0 }
	switch n.k {
	case tInt8, tInt64:
		rv.SetInt(int64(v) - 5)
		return filled{string(encI(v - 5)), func() bool { return v == 5 }}
	case tUint16, tUint64:
		rv.SetUint(uint64(v))
		return filled{ints(v), zero}
	case tString:
		s := "s" + itoa(v)
		rv.SetString(s)
		return filled{string(encS(s)), never}
	case tBool:
		rv.SetBool(true)
		return filled{"b:1;", never}
	case tFloat:
		rv.SetFloat(-0.5)
		return filled{"d:-0.5;", never}
	case tBytes:
		s := itoa(v) + "\""
		rv.SetBytes([]byte(s))
		return filled{string(encS(s)), never}
	case tNamed:
		rv.Field(0).SetInt(int64(v))
		return filled{`a:1:{s:1:"a";` + ints(v) + "}", zero}
	case tIface:
		rv.Set(reflect.ValueOf(int64(v)))
		return filled{ints(v), never}
	}
	return filled{"a:0:{}", always}
}

func (n *tnode) zeroText() string {
	switch n.k {
	case tInt8, tInt64, tUint16, tUint64:
		return "i:0;"
	case tString, tBytes:
		return `s:0:"";`
	case tBool:
		return "b:0;"
	case tFloat:
		return "d:0;"
	case tEmpty:
		return "a:0:{}"
	case tNamed:
		return `a:1:{s:1:"a";i:0;}`
	case tArray:
		z := n.e.zeroText()
		return "a:2:{i:0;" + z + "i:1;" + z + "}"
	case tStruct:
		return `a:1:{s:1:"X";` + n.e.zeroText() + "}"
	case tOmit:
		return `a:1:{s:1:"z";i:0;}`
	case tTwo:
		z := n.e.zeroText()
		return `a:2:{s:1:"a";` + z + `s:1:"b";` + z + "}"
	}
	return "N;"
}

// fill stores a value with the digit v at its leaf; the nil-th container from outside is left zero.
func (n *tnode) fill(rv reflect.Value, v, nilAt int) filled {
	if nilAt == 1 {
		return filled{n.zeroText(), always}
	}
	if n.e == nil {
		return n.leafFill(rv, v)
	}
	nilAt--
	switch n.k {
	case tPtr:
		rv.Set(reflect.New(n.e.t))
		return filled{n.e.fill(rv.Elem(), v, nilAt).text, never}
	case tSlice:
		rv.Set(reflect.MakeSlice(n.t, 2, 2))
		return filled{"a:2:{i:0;" + n.e.fill(rv.Index(0), v, nilAt).text + "i:1;" + n.e.zeroText() + "}", never}
	case tArray:
		f := n.e.fill(rv.Index(1), v, nilAt)
		return filled{"a:2:{i:0;" + n.e.zeroText() + "i:1;" + f.text + "}", f.zero}
	case tMapS, tMapI:
		rv.Set(reflect.MakeMap(n.t))
		x := reflect.New(n.e.t).Elem()
		f := n.e.fill(x, v, nilAt)
		if n.k == tMapS {
			rv.SetMapIndex(reflect.ValueOf("k\""), x)
			return filled{`a:1:{s:2:"k"";` + f.text + "}", never}
		}
		rv.SetMapIndex(reflect.ValueOf(int16(-300)), x)
		return filled{"a:1:{i:-300;" + f.text + "}", never}
	case tStruct:
		f := n.e.fill(rv.Field(0), v, nilAt)
		return filled{`a:1:{s:1:"X";` + f.text + "}", f.zero}
	case tOmit:
		f := n.e.fill(rv.Field(0), v, nilAt)
		if f.zero() {
			return filled{n.zeroText(), always}
		}
		return filled{`a:2:{s:1:"x";` + f.text + `s:1:"z";i:0;}`, never}
	case tTwo:
		f := n.e.fill(rv.Field(1), v, nilAt)
		return filled{`a:2:{s:1:"a";` + n.e.zeroText() + `s:1:"b";` + f.text + "}", f.zero}
	}
	x := reflect.New(n.e.t).Elem() // tAny
	f := n.e.fill(x, v, nilAt)
	rv.Set(x)
	if n.e.k == tIface || n.e.k == tAny { // an interface in an interface is its value
		return f
	}
	return filled{f.text, never}
}

// same reports that a and b are the same value.
func (n *tnode) same(a, b reflect.Value) bool {
	switch n.k {
	case tInt8, tInt64:
		return a.Int() == b.Int()
	case tUint16, tUint64:
		return a.Uint() == b.Uint()
	case tString:
		return a.String() == b.String()
	case tBool:
		return a.Bool() == b.Bool()
	case tFloat:
		return a.Float() == b.Float()
	case tBytes:
		return string(a.Bytes()) == string(b.Bytes())
	case tNamed:
		return a.Field(0).Int() == b.Field(0).Int()
	case tIface:
		return a.Interface() == b.Interface()
	case tEmpty:
		return true
	case tPtr:
		if a.IsNil() { // a pointer to a nil map, slice or interface is null as well
			return b.IsNil() || n.e.zeroText() == "N;" && b.Elem().IsZero()
		}
		if b.IsNil() {
			return false
		}
		return n.e.same(a.Elem(), b.Elem())
	case tSlice, tArray:
		if a.Len() != b.Len() || n.k == tSlice && a.IsNil() != b.IsNil() {
			return false
		}
		ok := true
		for i := 0; i < a.Len(); i++ {
			ok = sym.And(ok, n.e.same(a.Index(i), b.Index(i)))
		}
		return ok
	case tMapS, tMapI:
		if a.Len() != b.Len() || a.IsNil() != b.IsNil() {
			return false
		}
		ok := true
		for _, k := range a.MapKeys() {
			x := b.MapIndex(k)
			if !x.IsValid() {
				return false
			}
			ok = sym.And(ok, n.e.same(a.MapIndex(k), x))
		}
		return ok
	case tStruct, tOmit:
		return n.e.same(a.Field(0), b.Field(0))
	case tTwo:
		return sym.And(n.e.same(a.Field(0), b.Field(0)), n.e.same(a.Field(1), b.Field(1)))
	}
	return false
}

// build draws a value of the type: the value and its text.
func (n *tnode) build(depth int) (reflect.Value, []byte) {
	return n.buildWith(dig("v"), sym.Choose("nil", depth+2))
}

func (n *tnode) buildWith(v, nilAt int) (reflect.Value, []byte) {
	rv := reflect.New(n.t).Elem()
	f := n.fill(rv, v, nilAt)
	return rv, []byte(f.text)
}

func (n *tnode) reads(text []byte, want reflect.Value) {
	p := reflect.New(n.t)
	noErr(php.Unmarshal(text, p.Interface()), "a generated value is refused")
	sym.Assert(n.same(p.Elem(), want), "a generated value is decoded differently")
}

func (n *tnode) writes(rv reflect.Value, text []byte) {
	sym.Assert(same(enc(rv.Interface()), text), "a generated value is encoded differently")
}

func treeDepth() int { return sym.Scale("depth", 2, 3) }

func H_C10_tree() {
	d := treeDepth()
	n := aTree(d, tEnd, allLeaves...)
	rv, text := n.build(d)
	n.writes(rv, text)
}

func H_C21_tree() {
	d := treeDepth()
	n := aTree(d, tEnd, fewLeaves...)
	rv, text := n.build(d)
	switch sym.Choose("how", 3) {
	case 0:
		if n.k != tPtr {
			sym.Assert(same(enc(rv.Addr().Interface()), text), "a pointer is encoded differently")
		}
	case 1:
		sym.Assert(same(enc([]any{rv.Interface()}), doc("a:1:{i:0;", string(text), "}")), "an interface is encoded differently")
	case 2:
		sym.Assert(same(enc(map[string]any{"k": rv.Addr().Interface()}), doc(`a:1:{s:1:"k";`, string(text), "}")), "an interface is encoded differently")
	}
}

func H_C12_tree() {
	n := leafNode(pick("leaf", allLeaves...))
	for i := sym.Choose("inner", 2); i > 0; i-- {
		n = n.in(tPtr + sym.Choose("in", tEnd-tPtr))
	}
	n = n.in(pick("struct", tStruct, tOmit, tTwo)).in(pick("out", tSlice, tMapS, tOmit, tTwo, tAny))
	rv, text := n.build(3)
	n.writes(rv, text)
}

func H_C03_tree() {
	d := treeDepth()
	n := aTree(d, tAny, allLeaves...)
	rv, text := n.build(d)
	n.reads(text, rv)
}

func H_C11_tree() {
	d := treeDepth()
	n := aTree(d, tAny, allLeaves...)
	rv, _ := n.build(d)
	n.reads(enc(rv.Interface()), rv)
}

// cut, longer and altered texts
func H_C02_tree() {
	d := sym.Scale("depth", 1, 2)
	n := aTree(d, tAny, fewLeaves...)
	_, text := n.build(d)
	p := reflect.New(n.t).Interface()
	if sym.Choose("how", 2) == 0 {
		isErr(php.Unmarshal(text[:sym.Choose("cut", len(text))], p), "cut text accepted")
	} else {
		isErr(php.Unmarshal(append(text, sym.Byte("x")), p), "trailing byte accepted")
	}
}

func H_C01_tree() {
	d := sym.Scale("depth", 1, 2)
	n := aTree(d, tAny, fewLeaves...)
	_, text := n.build(d)
	text[sym.Choose("at", len(text))] = sym.Byte("x")
	p := reflect.New(n.t).Interface()
	if php.Unmarshal(text, p) == nil {
		sym.Assert(wellFormed(text), "malformed text accepted")
	}
}

var badLeaves = []int{tChan, tFunc, tComplex, tFloatMap, tHidden}

func H_C25_tree() {
	d := treeDepth()
	n := aTree(d, tEnd, badLeaves...)
	rv := reflect.New(n.t).Elem()
	switch sym.Choose("value", 2) {
	case 0:
		n.fill(rv, 1, 0)
	case 1: // of an unsupported type, though the value is zero
		for m := n; m.e != nil; m = m.e {
			sym.Assume(m.k != tAny)
		}
	}
	out, err := php.Marshal(rv.Interface())
	sym.Assert(err != nil && out == nil, "an unsupported type is encoded")
}

func H_C24_tree() {
	d := treeDepth()
	n := aTree(d, tAny, append([]int{tChan, tFunc, tComplex}, allLeaves...)...)
	leaf := n
	for leaf.e != nil {
		leaf = leaf.e
	}
	// a text of the right shape with a wrong leaf
	bad := pick("bad", "b:1;", "i:1;", `s:1:"1";`, "d:1;", "a:0:{}", `O:1:"c":0:{}`)
	switch leaf.k {
	case tInt8, tInt64, tUint16, tUint64:
		sym.Assume(bad[0] != 'i')
	case tString:
		sym.Assume(bad[0] != 's')
	case tBytes:
		sym.Assume(bad[0] != 's' && bad[0] != 'a')
	case tBool:
		sym.Assume(bad[0] != 'b')
	case tFloat:
		sym.Assume(bad[0] != 'd')
	case tEmpty, tNamed:
		sym.Assume(bad[0] != 'a' && bad[0] != 'O')
	case tIface:
		sym.Assume(false)
	}
	isErr(php.Unmarshal([]byte(n.around(bad)), reflect.New(n.t).Interface()), "a mismatch is accepted")
}

// around is a text of the tree with the given text at its leaf.
func (n *tnode) around(leaf string) string {
	if n.e == nil {
		return leaf
	}
	in := n.e.around(leaf)
	switch n.k {
	case tSlice, tArray:
		return "a:1:{i:0;" + in + "}"
	case tMapS:
		return `a:1:{s:1:"k";` + in + "}"
	case tMapI:
		return "a:1:{i:1;" + in + "}"
	case tStruct:
		return `a:1:{s:1:"X";` + in + "}"
	case tOmit:
		return `a:1:{s:1:"x";` + in + "}"
	case tTwo:
		return `a:1:{s:1:"b";` + in + "}"
	}
	return in
}

// the same type in two forms, one call after the other
func H_C19_tree() {
	n := aTree(sym.Scale("depth", 1, 2), tAny, fewLeaves...)
	v, w := dig("v"), dig("w")
	n.form(sym.Choose("first", 6), v, 0)()
	n.form(sym.Choose("second", 6), w, 0)()
}

// form is one way to use the type.
func (n *tnode) form(how, v, nilAt int) func() {
	rv, text := n.buildWith(v, nilAt)
	t := string(text)
	switch how {
	case 0:
		return func() { n.writes(rv, text) }
	case 1:
		return func() { n.reads(text, rv) }
	case 2:
		m := n.in(tSlice)
		return func() {
			m.writes(reflect.Append(reflect.Zero(m.t), rv), doc("a:1:{i:0;", t, "}"))
		}
	case 3:
		m := n.in(tStruct)
		x := reflect.New(m.t).Elem()
		x.Field(0).Set(rv)
		return func() { m.reads(doc(`a:1:{s:1:"X";`, t, "}"), x) }
	case 4:
		return func() {
			sym.Assert(same(enc(map[string]any{"k": rv.Interface()}), doc(`a:1:{s:1:"k";`, t, "}")), "an interface is encoded differently")
		}
	}
	if n.k == tPtr {
		return func() {}
	}
	m := n.in(tPtr)
	return func() {
		m.writes(rv.Addr(), text)
		m.reads(text, rv.Addr())
	}
}

// the same generated type used by two goroutines
func H_C20_tree() {
	sym.Preempt(sym.Scale("preempt", 0, 1))
	n := aTree(sym.Scale("depth", 1, 2), tAny, fewLeaves...)
	v, w := dig("v"), dig("w")
	concurrent(n.form(sym.Choose("first", 6), v, 0), n.form(sym.Choose("second", 6), w, 0))
}
