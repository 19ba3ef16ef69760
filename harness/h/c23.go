package h

import (
	php "github.com/trim21/go-phpserialize"
	"verif/harness/sym"
)

// C23: declared counts and lengths

// declared is a count of any size, as text.
func declared(name string) string {
	n := pick(name+"len", 1, 2, 5, 9, 10, 18, 19, 20)
	if sym.Scale("zeros", 0, 1) == 1 {
		return sym.StrIn(name, n, "0123456789")
	}
	if n > 18 { // symbolic at both ends
		return sym.StrIn(name, 1, "123456789") + sym.StrIn(name+"2", 1, "0123456789") + reps("2", n-3) + sym.StrIn(name+"r", 1, "0123456789")
	}
	return sym.StrIn(name, 1, "123456789") + sym.StrIn(name+"r", n-1, "0123456789")
}

type big struct {
	A [64]int
	S string
}

// counted are texts in which a container declares n elements and has a few.
func counted(n string) string {
	elem := []string{"", "i:0;i:1;", `i:0;i:1;i:1;i:2;`, `s:1:"a";N;`, `i:0;a:0:{}`, `s:1:"A";b:1;s:1:"B";N;`, `i:0;a:` + n + `:{i:0;N;}`, "i:0;N;}"}[sym.Choose("elems", 8)]
	end := []string{"}", ""}[sym.Choose("end", 2)]
	switch sym.Choose("kind", 4) {
	case 0:
		return "a:" + n + ":{" + elem + end
	case 1:
		return `O:1:"C":` + n + ":{" + elem + end
	case 2:
		return "a:1:{i:0;a:" + n + ":{" + elem + end + "}"
	default:
		return `a:2:{s:1:"A";a:` + n + ":{" + elem + end + `s:1:"k";O:1:"C":` + n + ":{" + elem + end + "}"
	}
}

var counters = []struct {
	dst  func() any
	size int
}{
	{func() any { return new(any) }, 16},
	{func() any { return new([]int) }, 8},
	{func() any { return new([]any) }, 16},
	{func() any { return new([]big) }, 528},
	{func() any { return new([]struct{}) }, 1},
	{func() any { return new([][]string) }, 24},
	{func() any { return new([][]big) }, 528},
	{func() any { return new([]byte) }, 1},
	{func() any { return new(NBytes) }, 1},
	{func() any { return new([3]int) }, 8},
	{func() any { return new([1][]int) }, 24},
	{func() any { return new(map[string]int) }, 64},
	{func() any { return new(map[int]any) }, 64},
	{func() any { return new(map[any]any) }, 64},
	{func() any { return new(map[string][]int) }, 64},
	{func() any { return new(map[string]big) }, 600},
	{func() any { return new(map[int]map[int]string) }, 64},
	{func() any { return new(Inner) }, 16},
	{func() any { return new(struct{ A []int }) }, 8},
	{func() any { return new(struct{ A map[string]int }) }, 64},
	{func() any { return new(struct{ A any }) }, 16},
	{func() any { return new(Raw) }, 1},
	{func() any { return new(struct{ A Raw }) }, 1},
	{func() any { return new(*[]*int) }, 8},
	{func() any { return new(RSl) }, 24},
	{func() any { return new(RMp) }, 64},
}

func H_C23_counts() {
	c := counters[sym.Choose("dst", len(counters))]
	text := []byte(counted(declared("n")))
	p := c.dst()
	sym.AllocLimit(1<<16 + len(text)*c.size)
	_ = php.Unmarshal(text, p)
	sym.AllocEnd()
}

// lengths of strings and class names
func H_C23_lengths() {
	n := declared("n")
	c := counters[sym.Choose("dst", len(counters))]
	text := []byte([]string{
		"s:" + n + `:"ab";`, "O:" + n + `:"C":1:{s:1:"a";N;}`, "a:1:{s:" + n + `:"a";i:1;}`, "a:1:{i:0;s:" + n + `:"a";}`,
		"a:1:{i:0;O:" + n + `:"C":0:{}}`,
		`a:1:{s:1:"A";s:` + n + `:"a";}`,
	}[sym.Choose("text", 6)])
	p := c.dst()
	if sym.Choose("string", 2) == 1 {
		p = new(string)
		sym.Assume(c.size == 24)
	}
	sym.AllocLimit(1<<16 + len(text)*c.size)
	_ = php.Unmarshal(text, p)
	sym.AllocEnd()
}

// a count that is right, however large the input: memory stays in proportion
func H_C23_honest() {
	n := pick("n", 1, 10, 100)
	x := dig("x")
	b := []byte("a:" + itoa(n) + ":{")
	for i := 0; i < n; i++ {
		b = append(b, "i:"+itoa(i)+";i:"+itoa(x)+";"...)
	}
	b = append(b, '}')
	switch sym.Choose("dst", 4) {
	case 0:
		var v []int
		noErr(php.Unmarshal(b, &v), "rejected")
		sym.Assert(len(v) == n && v[n-1] == x, "wrong value")
	case 1:
		var v map[int]int8
		noErr(php.Unmarshal(b, &v), "rejected")
		sym.Assert(len(v) == n && int(v[n-1]) == x, "wrong value")
	case 2:
		var v any
		noErr(php.Unmarshal(b, &v), "rejected")
		m := v.(map[any]any)
		sym.Assert(len(m) == n && m[int64(n-1)] == any(int64(x)), "wrong value")
	case 3:
		var v [100]int
		noErr(php.Unmarshal(b, &v), "rejected")
		sym.Assert(v[n-1] == x, "wrong value")
	}
}
