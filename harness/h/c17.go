package h

import (
	php "github.com/trim21/go-phpserialize"
	"verif/harness/sym"
)

// C17: nesting depth

const maxNesting = 10000

// tower is a kind of nesting: each unit opens per containers.
type tower struct {
	open, close string
	per         int
	dst         func() any
	depth       func(v any) int // units in the decoded value
	leaf        string
	leafDepth   int // containers in the leaf
	base        int // containers around the units
}

func (t tower) text(n int) []byte {
	return doc(reps(t.open, n), t.leaf, reps(t.close, n))
}

func anyDepth(v any) int {
	n := 0
	for {
		switch x := v.(type) {
		case map[any]any:
			n++
			v = x[int64(0)]
		case map[string]any:
			n++
			v = x["k"]
		default:
			return n
		}
	}
}

type RSM []map[string]RSM

type RO struct {
	K *RO
	X any
}

var towers = []tower{
	{open: "a:1:{i:0;", close: "}", per: 1, leaf: "i:7;", dst: func() any { return new(any) }, depth: func(v any) int { return anyDepth(*v.(*any)) }},
	{open: `O:1:"C":1:{s:1:"k";`, close: "}", per: 1, leaf: "N;", dst: func() any { return new(any) }, depth: func(v any) int { return anyDepth(*v.(*any)) }},
	{open: `a:1:{i:0;O:0:"":1:{s:1:"k";`, close: "}}", per: 2, leaf: "i:7;", dst: func() any { return new(any) }, depth: func(v any) int { return anyDepth(*v.(*any)) / 2 }},
	{open: "a:1:{i:0;", close: "}", per: 1, leaf: "a:0:{}", leafDepth: 1, dst: func() any { return new(RSl) }, depth: func(v any) int {
		n := 0
		for s := *v.(*RSl); len(s) == 1; s = s[0] {
			n++
		}
		return n
	}},
	{open: `a:1:{s:1:"k";`, close: "}", per: 1, leaf: "N;", dst: func() any { return new(RMp) }, depth: func(v any) int {
		n := 0
		for s := *v.(*RMp); len(s) == 1; s = s["k"] {
			n++
		}
		return n
	}},
	{open: `O:3:"Foo":1:{s:1:"k";`, close: "}", per: 1, leaf: "a:0:{}", leafDepth: 1, dst: func() any { return new(RMp) }, depth: func(v any) int {
		n := 0
		for s := *v.(*RMp); len(s) == 1; s = s["k"] {
			n++
		}
		return n
	}},
	{open: `a:2:{s:1:"v";i:1;s:4:"next";`, close: "}", per: 1, leaf: "N;", dst: func() any { return new(RNode) }, depth: func(v any) int {
		n := 0
		for p := v.(*RNode); p != nil && p.V == 1; p = p.Next {
			n++
		}
		return n
	}},
	{open: `O:1:"N":1:{s:1:"K";`, close: `}`, per: 1, leaf: "N;", dst: func() any { return new(*RO) }, depth: func(v any) int {
		n := 0
		for p := *v.(**RO); p != nil; p = p.K {
			n++
		}
		return n
	}},
	{open: `a:1:{s:4:"kids";a:1:{i:0;`, close: "}}", per: 2, leaf: "N;", dst: func() any { return new(RTree) }, depth: func(v any) int {
		n := 0
		for p := v.(*RTree); len(p.Kids) == 1; n++ {
			if p = p.Kids[0]; p == nil {
				return n + 1
			}
		}
		return n
	}},
	{open: `a:1:{s:1:"a";a:1:{i:0;`, close: "}}", per: 2, leaf: "N;", dst: func() any { return new(RArr) }, depth: func(v any) int {
		n := 0
		for p := v.(*RArr); p != nil; p = p.A[0] {
			n++
		}
		return n
	}},
	{open: `a:1:{s:1:"m";a:1:{s:1:"k";`, close: "}}", per: 2, leaf: "a:0:{}", leafDepth: 1, dst: func() any { return new(RMapT) }, depth: func(v any) int {
		n := 0
		for p := *v.(*RMapT); len(p.M) == 1; p = p.M["k"] {
			n++
		}
		return n
	}},
	{open: `a:1:{i:0;O:1:"C":1:{s:1:"k";`, close: "}}", per: 2, leaf: "N;", dst: func() any { return new(RSM) }, depth: func(v any) int {
		n := 0
		for p := *v.(*RSM); len(p) == 1; p = p[0]["k"] {
			n++
		}
		return n
	}},
	// skipped and raw parts
	{open: "a:1:{i:0;", close: "}", per: 1, leaf: "b:1;", dst: func() any { return new(Raw) }},
	{open: `O:1:"C":1:{i:5;`, close: "}", per: 1, leaf: "a:0:{}", leafDepth: 1, dst: func() any { return new(Raw) }},
	{open: `a:1:{s:1:"u";`, close: "}", per: 1, leaf: "d:1;", dst: func() any { return new(Inner) }},
	{open: `O:1:"u":1:{s:1:"u";`, close: "}", per: 1, leaf: "a:0:{}", leafDepth: 1, dst: func() any { return new(struct{}) }},
	{open: `a:1:{i:3;`, close: "}", per: 1, leaf: "N;", dst: func() any { return new([2]int) }},
}

var overs = []int{maxNesting - 1, maxNesting, maxNesting + 1, maxNesting + 2}

// every kind of nesting around the limit
func H_C17_towers() {
	deepRun()
	t := towers[sym.Choose("tower", len(towers))]
	total := overs[sym.Choose("total", 4)] // containers nested
	n := (total - t.leafDepth) / t.per
	total = n*t.per + t.leafDepth
	limitCase(t, n, total)
}

func deepRun() {
	sym.Steps(400_000_000)
	sym.Depth(400_000)
}

func limitCase(t tower, n, total int) {
	v := t.dst()
	err := php.Unmarshal(t.text(n), v)
	if total > maxNesting {
		sym.Assert(err != nil, "nesting beyond the limit is accepted")
		return
	}
	sym.Assert(err == nil, "nesting within the limit is refused")
	if t.depth != nil {
		sym.Assert(t.depth(v) == n, "wrong value")
	}
}

// a deep part inside a place of another destination
func H_C17_places() {
	deepRun()
	total := overs[sym.Choose("total", 3)]
	x := dig("x")
	ix := string(encI(x))
	// inner text of k containers
	inner := func(k int) string {
		switch sym.Choose("inner", 3) {
		case 0:
			return reps("a:1:{i:1;", k) + ix + reps("}", k)
		case 1:
			return reps(`O:2:"ab":1:{s:1:"q";`, k) + ix + reps("}", k)
		default:
			return reps("a:1:{i:0;", k-1) + "a:0:{}" + reps("}", k-1)
		}
	}
	var text string
	var v any
	check := func() bool { return true }
	switch sym.Choose("place", 12) {
	case 0: // unknown field between others
		s := new(Flat)
		v, text = s, `a:3:{s:1:"a";`+ix+`s:1:"u";`+inner(total-1)+`s:1:"b";s:1:"z";}`
		check = func() bool { return sym.And(s.A == x, s.B == "z") }
	case 1: // array element without a place
		a := new([1]int)
		v, text = a, "a:2:{i:4;"+inner(total-1)+"i:0;"+ix+"}"
		check = func() bool { return a[0] == x }
	case 2: // raw parts
		s := new(HasRaw)
		in := inner(total - 1)
		v, text = s, `a:2:{s:1:"r";`+in+`s:1:"z";`+ix+"}"
		check = func() bool { return sym.And(len(s.R.B) == len(in), s.Z == x) }
	case 3:
		s := new(HasRaw)
		v, text = s, `a:2:{s:1:"p";`+inner(total-1)+`s:1:"z";`+ix+"}"
		check = func() bool { return s.P != nil && s.Z == x }
	case 4:
		s := new(HasRaw)
		v, text = s, `a:2:{s:1:"l";a:1:{i:0;`+inner(total-2)+`}s:1:"z";`+ix+"}"
		check = func() bool { return len(s.L) == 1 && s.Z == x }
	case 5:
		m := new(map[string]Raw)
		v, text = m, `a:1:{s:1:"k";`+inner(total-1)+`}`
	case 6: // any in typed containers
		m := new(map[string][]any)
		v, text = m, `a:1:{s:1:"k";a:2:{i:0;`+inner(total-2)+`i:1;`+ix+`}}`
		check = func() bool { y, ok := (*m)["k"][1].(int64); return ok && y == int64(x) }
	case 7:
		s := new(Deep)
		v, text = s, `a:2:{s:1:"i";`+inner(total-1)+`s:2:"pp";`+ix+`}`
		check = func() bool { return s.I != nil && s.Pp != nil && *s.Pp == x }
	case 8:
		s := new([][1]struct{ A any })
		v, text = s, `a:1:{i:0;a:1:{i:0;a:1:{s:1:"A";`+inner(total-3)+`}}}`
	case 9: // unknown field of a nested struct
		s := new(Deep)
		v, text = s, `a:2:{s:1:"m";a:1:{s:1:"k";a:2:{s:1:"u";`+inner(total-3)+`s:1:"X";`+ix+`}}s:2:"pp";`+ix+`}`
		check = func() bool { return s.M["k"].X == x && *s.Pp == x }
	case 10: // pointers do not count
		s := new(map[string]*map[string]*any)
		v, text = s, `a:1:{s:1:"k";a:1:{s:1:"k";`+inner(total-2)+`}}`
	case 11: // keys of an any map
		s := new(any)
		v, text = s, `a:2:{s:1:"k";`+inner(total-1)+`i:-3;`+ix+`}`
		check = func() bool {
			m, ok := (*s).(map[any]any)
			return ok && len(m) == 2 && m[int64(-3)] == any(int64(x))
		}
	}
	err := php.Unmarshal([]byte(text), v)
	if total > maxNesting {
		sym.Assert(err != nil, "nesting beyond the limit is accepted")
		return
	}
	sym.Assert(err == nil, "nesting within the limit is refused")
	sym.Assert(check(), "wrong value")
}

// many containers beside each other
func H_C17_siblings() {
	deepRun()
	n := maxNesting + 5
	elem := ""
	empty := sym.Choose("elem", 3)
	elem = []string{"a:0:{}", "a:1:{i:0;a:0:{}}", `O:1:"C":1:{s:1:"k";a:0:{}}`}[empty]
	kind := sym.Choose("kind", 9)
	if kind == 4 || kind == 5 {
		sym.Assume(empty != 2)
	}
	if kind == 8 {
		sym.Assume(empty != 1)
	}
	var v any
	check := func() bool { return true }
	key := func(i int) string { return "i:" + itoa(i) + ";" }
	head, tail := "a:"+itoa(n)+":{", "}"
	switch kind {
	case 0:
		p := new(any)
		v, check = p, func() bool { return len((*p).(map[any]any)) == n }
	case 1: // surplus elements
		p := new([1]any)
		v, check = p, func() bool { return p[0] != nil }
	case 2:
		p := new(map[int]any)
		v, check = p, func() bool { return len(*p) == n }
	case 3:
		p := new([]any)
		v, check = p, func() bool { return len(*p) == n && (*p)[n-1] != nil }
	case 4:
		p := new(RSl)
		v, check = p, func() bool { return len(*p) == n }
	case 5:
		p := new([][1]any)
		v, check = p, func() bool { return len(*p) == n }
	case 6: // unknown field
		p := new(Inner)
		head, tail = `a:2:{s:1:"u";`+head, tail+`s:1:"X";i:4;}`
		v, check = p, func() bool { return p.X == 4 }
	case 7: // raw
		p := new(Raw)
		v, check = p, func() bool { return p.Calls == 1 }
	case 8: // structs
		p := new([]struct{ K any })
		v, check = p, func() bool { return len(*p) == n }
	}
	b := []byte(head)
	for i := 0; i < n; i++ {
		b = append(b, key(i)...)
		b = append(b, elem...)
	}
	b = append(b, tail...)
	noErr(php.Unmarshal(b, v), "containers beside each other count against the limit")
	sym.Assert(check(), "wrong value")
}

// the depth a failed or successful part reached does not count later
func H_C17_sequence() {
	deepRun()
	k := maxNesting - 2
	one := reps("a:1:{i:0;", k) + "N;" + reps("}", k)
	obj := reps(`O:1:"C":1:{s:1:"k";`, k) + "i:1;" + reps("}", k)
	first := []string{one, obj}[sym.Choose("first", 2)]
	second := []string{one, obj}[sym.Choose("second", 2)]
	switch sym.Choose("kind", 5) {
	case 0:
		var v any
		noErr(php.Unmarshal([]byte("a:2:{i:0;"+first+"i:1;"+second+"}"), &v), "refused")
	case 1:
		var v struct{ A, B any }
		noErr(php.Unmarshal([]byte(`a:3:{s:1:"u";`+first+`s:1:"A";`+first+`s:1:"B";`+second+"}"), &v), "refused")
		sym.Assert(anyDepth(v.A) == k && anyDepth(v.B) == k, "wrong value")
	case 2:
		var v HasRaw
		noErr(php.Unmarshal([]byte(`a:3:{s:1:"r";`+first+`s:1:"u";`+second+`s:1:"p";`+second+"}"), &v), "refused")
	case 3:
		var v [1]any
		noErr(php.Unmarshal([]byte(`a:3:{i:1;`+first+`i:0;`+second+`i:3;`+second+"}"), &v), "refused")
		sym.Assert(anyDepth(v[0]) == k, "wrong value")
	case 4: // after an error
		var v any
		isErr(php.Unmarshal([]byte("a:1:{i:0;a:1:{i:0;a:1:{i:0;"+first+"}}}"), &v), "accepted")
		noErr(php.Unmarshal([]byte("a:2:{i:0;"+first+"i:1;"+second+"}"), &v), "refused after an error")
	}
}
