package h

import (
	php "github.com/trim21/go-phpserialize"
	"verif/harness/sym"
)

// C16: cycles

const deepSteps = 40_000_000

// cyclic tests that Marshal refuses v and still works afterwards.
func cyclic(v any) {
	sym.Steps(deepSteps)
	sym.Depth(60000)
	out, err := php.Marshal(v)
	sym.Assert(err != nil && out == nil, "a cyclic value is encoded")
}

func acyclic(v any, want []byte) {
	sym.Steps(deepSteps)
	sym.Depth(60000)
	out, err := php.Marshal(v)
	sym.Assert(err == nil, "a value without a cycle is refused")
	sym.Assert(same(out, want), "wrong text")
}

// loops reports whether following next from i leads to a cycle.
func loops(next []int, i int) bool {
	for n := 0; n <= len(next); n++ {
		if i < 0 {
			return false
		}
		i = next[i]
	}
	return true
}

// every graph of n nodes with one edge each
func H_C16_graphs() {
	n := 1 + sym.Choose("n", sym.Scale("nodes", 3, 4))
	next := make([]int, n)
	for i := range next {
		next[i] = sym.Choose("next"+itoa(i), n+1) - 1
	}
	x := dig("x")
	text := "N;"
	frame := func(text string) string { return text }
	var v any
	switch sym.Choose("kind", 10) {
	case 0:
		nodes := make([]RNode, n)
		for i := range nodes {
			nodes[i].V = x
			if next[i] >= 0 {
				nodes[i].Next = &nodes[next[i]]
			}
		}
		v = &nodes[0]
		frame = func(t string) string { return `a:2:{s:1:"v";` + string(encI(x)) + `s:4:"next";` + t + "}" }
	case 1:
		nodes := make([]RAny, n)
		for i := range nodes {
			nodes[i].V = x
			if next[i] >= 0 {
				nodes[i].Next = &nodes[next[i]]
			}
		}
		v = &nodes[0]
		frame = func(t string) string { return `a:2:{s:1:"v";` + string(encI(x)) + `s:4:"next";` + t + "}" }
	case 2:
		nodes := make([]map[string]any, n)
		for i := range nodes {
			nodes[i] = map[string]any{}
		}
		for i := range nodes {
			nodes[i]["k"] = nil
			if next[i] >= 0 {
				nodes[i]["k"] = nodes[next[i]]
			}
		}
		v = nodes[0]
		frame = func(t string) string { return `a:1:{s:1:"k";` + t + "}" }
	case 3:
		nodes := make([][]any, n)
		for i := range nodes {
			nodes[i] = []any{nil}
		}
		for i := range nodes {
			if next[i] >= 0 {
				nodes[i][0] = nodes[next[i]]
			}
		}
		v = nodes[0]
		frame = func(t string) string { return `a:1:{i:0;` + t + "}" }
	case 4:
		nodes := make([]any, n)
		for i := range nodes {
			if next[i] >= 0 {
				nodes[i] = &nodes[next[i]]
			}
		}
		v = &nodes[0]
	case 5:
		nodes := make([]RTree, n)
		for i := range nodes {
			nodes[i].V = x
			nodes[i].Kids = []*RTree{nil}
			if next[i] >= 0 {
				nodes[i].Kids[0] = &nodes[next[i]]
			}
		}
		v = &nodes[0]
		frame = func(t string) string {
			return `a:2:{s:1:"v";` + string(encI(x)) + `s:4:"kids";a:1:{i:0;` + t + "}}"
		}
	case 6:
		nodes := make([]RArr, n)
		for i := range nodes {
			nodes[i].V = x
			if next[i] >= 0 {
				nodes[i].A[0] = &nodes[next[i]]
			}
		}
		v = nodes[0]
		frame = func(t string) string {
			return `a:2:{s:1:"v";` + string(encI(x)) + `s:1:"a";a:1:{i:0;` + t + "}}"
		}
	case 7:
		nodes := make([]RSl, n)
		for i := range nodes {
			nodes[i] = RSl{nil}
		}
		for i := range nodes {
			if next[i] >= 0 {
				nodes[i][0] = nodes[next[i]]
			}
		}
		v = nodes[0]
		frame = func(t string) string { return `a:1:{i:0;` + t + "}" }
	case 8:
		nodes := make([]RMp, n)
		for i := range nodes {
			nodes[i] = RMp{"k": nil}
		}
		for i := range nodes {
			if next[i] >= 0 {
				nodes[i]["k"] = nodes[next[i]]
			}
		}
		v = nodes[0]
		frame = func(t string) string { return `a:1:{s:1:"k";` + t + "}" }
	case 9: // alternating kinds
		nodes := make([]any, n)
		for i := range nodes {
			switch i % 3 {
			case 0:
				nodes[i] = map[int]any{5: nil}
			case 1:
				nodes[i] = []any{nil}
			case 2:
				nodes[i] = &RAny{}
			}
		}
		for i := range nodes {
			if next[i] >= 0 {
				switch i % 3 {
				case 0:
					nodes[i].(map[int]any)[5] = nodes[next[i]]
				case 1:
					nodes[i].([]any)[0] = nodes[next[i]]
				case 2:
					nodes[i].(*RAny).Next = nodes[next[i]]
				}
			}
		}
		if loops(next, 0) {
			cyclic(nodes[0])
			return
		}
		var path []int
		for i := 0; i >= 0; i = next[i] {
			path = append(path, i)
		}
		for i := len(path) - 1; i >= 0; i-- {
			switch path[i] % 3 {
			case 0:
				text = "a:1:{i:5;" + text + "}"
			case 1:
				text = "a:1:{i:0;" + text + "}"
			case 2:
				text = `a:2:{s:1:"v";i:0;s:4:"next";` + text + "}"
			}
		}
		acyclic(nodes[0], []byte(text))
		return
	}
	if loops(next, 0) {
		cyclic(v)
		return
	}
	for i := 0; i >= 0; i = next[i] {
		text = frame(text)
	}
	acyclic(v, []byte(text))
}

// every graph of n nodes with two edges each
func H_C16_branches() {
	n := 2 + sym.Choose("n", sym.Scale("nodes", 1, 2))
	var next [4][2]int
	for i := 0; i < n; i++ {
		for j := range next[i] {
			next[i][j] = sym.Choose("next"+itoa(i)+itoa(j), n+1) - 1
		}
	}
	var cycle func(i, depth int) bool
	cycle = func(i, depth int) bool {
		if i < 0 {
			return false
		}
		if depth > n {
			return true
		}
		return cycle(next[i][0], depth+1) || cycle(next[i][1], depth+1)
	}
	var v any
	head, mid, tail := "", "", "}"
	switch sym.Choose("kind", 4) {
	case 0:
		nodes := make([]RTree, n)
		for i := range nodes {
			nodes[i].Kids = []*RTree{nil, nil}
			for j := range next[i] {
				if next[i][j] >= 0 {
					nodes[i].Kids[j] = &nodes[next[i][j]]
				}
			}
		}
		v = &nodes[0]
		head, mid, tail = `a:2:{s:1:"v";i:0;s:4:"kids";a:2:{i:0;`, "i:1;", "}}"
	case 1:
		nodes := make([][]any, n)
		for i := range nodes {
			nodes[i] = []any{nil, nil}
		}
		for i := range nodes {
			for j := range next[i] {
				if next[i][j] >= 0 {
					nodes[i][j] = nodes[next[i][j]]
				}
			}
		}
		v = nodes[0]
		head, mid = `a:2:{i:0;`, "i:1;"
	case 2:
		type N struct{ L, R any }
		nodes := make([]N, n)
		for i := range nodes {
			if k := next[i][0]; k >= 0 {
				nodes[i].L = &nodes[k]
			}
			if k := next[i][1]; k >= 0 {
				nodes[i].R = &nodes[k]
			}
		}
		v = &nodes[0]
		head, mid = `a:2:{s:1:"L";`, `s:1:"R";`
	case 3:
		nodes := make([]RPair, n)
		for i := range nodes {
			if k := next[i][0]; k >= 0 {
				nodes[i].L = &nodes[k]
			}
			if k := next[i][1]; k >= 0 {
				nodes[i].M = map[string]*RPair{"k": &nodes[k]}
			}
		}
		v = &nodes[0]
		head, mid, tail = `a:2:{s:1:"l";`, `s:1:"m";`, "}"
	}
	if cycle(0, 0) {
		cyclic(v)
		return
	}
	var text func(i int) string
	text = func(i int) string {
		if i < 0 {
			return "N;"
		}
		r := text(next[i][1])
		if mid == `s:1:"m";` && next[i][1] >= 0 {
			r = `a:1:{s:1:"k";` + r + "}"
		}
		return head + text(next[i][0]) + mid + r + tail
	}
	acyclic(v, []byte(text(0)))
}

type RPair struct {
	L *RPair            `php:"l"`
	M map[string]*RPair `php:"m"`
}

// nest wraps v into k containers of a kind.
func nest(kind, k int, v any, text string) (any, string) {
	head, tail := "", reps("}", k)
	switch kind {
	case 0:
		for i := 0; i < k; i++ {
			v = []any{v}
		}
		head = reps("a:1:{i:0;", k)
	case 1:
		for i := 0; i < k; i++ {
			v = map[string]any{"k": v}
		}
		head = reps(`a:1:{s:1:"k";`, k)
	case 2:
		for i := 0; i < k; i++ {
			v = &RAny{Next: v}
		}
		head = reps(`a:2:{s:1:"v";i:0;s:4:"next";`, k)
	case 3:
		for i := 0; i < k; i++ {
			p := new(any)
			*p = v
			v = p
		}
		tail = ""
	}
	return v, head + text + tail
}

// chain is a list of k nodes.
func chain(k int, end *RNode) *RNode {
	for i := 0; i < k; i++ {
		end = &RNode{Next: end}
	}
	return end
}

func chainText(k int, end string) string {
	return reps(`a:2:{s:1:"v";i:0;s:4:"next";`, k) + end + reps("}", k)
}

// deep values without a cycle, around and beyond the depth where tracking begins
func H_C16_deep() {
	k := pick("k", 0, 998, 999, 1000, 1001, 1002, sym.Scale("deep", 1500, 2500))
	x := dig("x")
	if sym.Choose("typed", 2) == 1 {
		switch sym.Choose("kind", 2) {
		case 0:
			acyclic(chain(k, &RNode{V: x}), []byte(chainText(k, `a:2:{s:1:"v";`+string(encI(x))+`s:4:"next";N;}`)))
		case 1:
			end := &RPair{}
			text := `a:2:{s:1:"l";N;s:1:"m";N;}`
			for i := 0; i < k; i++ {
				end = &RPair{L: end}
			}
			acyclic(end, []byte(reps(`a:2:{s:1:"l";`, k)+text+reps(`s:1:"m";N;}`, k)))
		}
		return
	}
	v, text := nest(sym.Choose("kind", 4), k, x, string(encI(x)))
	acyclic(v, []byte(text))
}

type First struct {
	F Inner  `php:"f"`
	P *Inner `php:"p"`
	I *int   `php:"i"`
	A any    `php:"a"`
}

// the same address or value more than once, but never inside itself
func H_C16_alias() {
	k := pick("k", 0, 999, 1000, 1001, 1010)
	x := dig("x")
	var v any
	text := ""
	ix := string(encI(x))
	inner := `a:2:{s:1:"X";` + ix + `s:1:"y";s:0:"";}`
	switch sym.Choose("shape", 14) {
	case 0: // a pointer to the struct's own first field
		f := &First{F: Inner{X: x}}
		f.P, f.I = &f.F, &f.F.X
		f.A = &f.F.X
		v, text = f, `a:4:{s:1:"f";`+inner+`s:1:"p";`+inner+`s:1:"i";`+ix+`s:1:"a";`+ix+"}"
	case 1: // a shorter slice of the same memory
		s := []any{x, nil}
		s[1] = s[:1]
		v, text = s, "a:2:{i:0;"+ix+"i:1;a:1:{i:0;"+ix+"}}"
	case 2:
		s := []any{nil, x}
		s[0] = s[1:]
		v, text = s, "a:2:{i:0;a:1:{i:0;"+ix+"}i:1;"+ix+"}"
	case 3: // the same values side by side
		p := &Inner{X: x}
		v, text = []*Inner{p, p, p}, "a:3:{i:0;"+inner+"i:1;"+inner+"i:2;"+inner+"}"
	case 4:
		m := map[string]int{"k": x}
		v, text = []any{m, m, &m, &m}, "a:4:{"+rep4(`a:1:{s:1:"k";`+ix+"}")+"}"
	case 5:
		s := []int{x}
		v, text = []any{s, s, &s, s}, "a:4:{"+rep4(`a:1:{i:0;`+ix+"}")+"}"
	case 6:
		var a any = x
		p := &a
		v, text = []any{p, p, &p, p}, "a:4:{"+rep4(ix)+"}"
	case 7: // an array and its first element
		ar := [1]*Inner{{X: x}}
		e := ar[0]
		v, text = []any{&ar, e, ar, &e}, "a:4:{i:0;a:1:{i:0;"+inner+"}i:1;"+inner+"i:2;a:1:{i:0;"+inner+"}i:3;"+inner+"}"
	case 8: // pointers to values without size
		z := &struct{}{}
		v, text = []any{z, []any{z, &[0]int{}}, map[string]any{"k": z}, z}, `a:4:{i:0;a:0:{}i:1;a:2:{i:0;a:0:{}i:1;a:0:{}}i:2;a:1:{s:1:"k";a:0:{}}i:3;a:0:{}}`
	case 9:
		e := []any{}
		v, text = []any{e, []any{e, []any{e}}, 1, e[:0]}, "a:4:{i:0;a:0:{}i:1;a:2:{i:0;a:0:{}i:1;a:1:{i:0;a:0:{}}}i:2;i:1;i:3;a:0:{}}"
	case 10:
		n := &RNode{V: x}
		v, text = &RTree{V: 1, Kids: []*RTree{{V: x}, nil}}, `a:2:{s:1:"v";i:1;s:4:"kids";a:2:{i:0;a:2:{s:1:"v";`+ix+`s:4:"kids";N;}i:1;N;}}`
		v, text = []any{v, n, n, 0}, "a:4:{i:0;"+text+`i:1;a:2:{s:1:"v";`+ix+`s:4:"next";N;}i:2;a:2:{s:1:"v";`+ix+`s:4:"next";N;}i:3;i:0;}`
	case 11: // nested shared
		p := &RPair{}
		q := &RPair{L: p, M: map[string]*RPair{"k": p}}
		v = &RPair{L: q, M: map[string]*RPair{"k": q}}
		t := `a:2:{s:1:"l";N;s:1:"m";N;}`
		t = `a:2:{s:1:"l";` + t + `s:1:"m";a:1:{s:1:"k";` + t + "}}"
		text = `a:2:{s:1:"l";` + t + `s:1:"m";a:1:{s:1:"k";` + t + "}}"
	case 12: // equal but different pointers
		v, text = &RNode{V: x, Next: &RNode{V: x, Next: &RNode{V: x}}}, `a:2:{s:1:"v";`+ix+`s:4:"next";a:2:{s:1:"v";`+ix+`s:4:"next";a:2:{s:1:"v";`+ix+`s:4:"next";N;}}}`
	case 13: // a struct whose first field is a slice that starts where an array does
		ar := [2]any{x, x}
		v, text = []any{&ar, ar[:], ar[:1], &ar[0]}, "a:4:{i:0;a:2:{i:0;"+ix+"i:1;"+ix+"}i:1;a:2:{i:0;"+ix+"i:1;"+ix+"}i:2;a:1:{i:0;"+ix+"}i:3;"+ix+"}"
	}
	v, text = nest(sym.Choose("kind", 4), k, v, text)
	acyclic(v, []byte(text))
}

func rep4(e string) string {
	return "i:0;" + e + "i:1;" + e + "i:2;" + e + "i:3;" + e
}

// long cycles and cycles behind long chains
func H_C16_long() {
	k := pick("k", 1, 2, 999, 1000, 1001, sym.Scale("deep", 2000, 3000))
	pre := pick("pre", 0, 1, 998, 1001)
	var v any
	switch sym.Choose("kind", 4) {
	case 0:
		n := chain(k, nil)
		l := n
		for l.Next != nil {
			l = l.Next
		}
		l.Next = n
		v = chain(pre, n)
	case 1:
		s := []any{nil}
		v, _ = nest(0, k-1, s, "")
		s[0] = v
		v, _ = nest(1, pre, v, "")
	case 2:
		m := map[string]any{}
		v, _ = nest(1, k-1, m, "")
		m["k"] = v
		v, _ = nest(2, pre, v, "")
	case 3:
		var a any
		v, _ = nest(3, k-1, &a, "")
		a = v
		v, _ = nest(3, pre, v, "")
	}
	cyclic(v)
	sym.Assert(same(enc([]any{1, map[string]int{"k": 2}}), []byte(`a:2:{i:0;i:1;i:1;a:1:{s:1:"k";i:2;}}`)), "wrong text after an error")
}
