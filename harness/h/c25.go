package h

import (
	"unsafe"

	php "github.com/trim21/go-phpserialize"
	"verif/harness/sym"
)

// C25: unsupported values

type badKey struct{ A int }

// bads are values that cannot be encoded.
var bads = []func() any{
	func() any { return make(chan int) },
	func() any { return (chan int)(nil) },
	func() any { return func() {} },
	func() any { return (func(int) int)(nil) },
	func() any { return complex64(1) },
	func() any { return complex(1, 2) },
	func() any { return uintptr(5) },
	func() any { return unsafe.Pointer(nil) },
	func() any { return map[bool]int{true: 1} },
	func() any { return map[float64]int{1: 1} },
	func() any { return map[badKey]int{{1}: 1} },
	func() any { return map[[1]int]string{{1}: "x"} },
	func() any { return map[complex64]int{} },
	func() any { return []chan int{nil} },
	func() any { return [1]func(){} },
	func() any { return map[string]chan int{"k": nil} },
	func() any { return struct{ C chan int }{} },
	func() any {
		return struct {
			A int
			F func() `php:"f"`
		}{}
	},
	func() any { return &hBad{} },
	func() any { return hRecBad{} },
	func() any { return new(complex128) },
	func() any { return EM{1} },
	func() any { return &EM{} },
	func() any { return []EM{{}} },
	func() any { return struct{ E EM }{} },
	func() any { return map[string]EM{"k": {}} },
	func() any { n := &RNode{}; n.Next = n; return n },
	func() any { m := map[string]any{}; m["k"] = m; return m },
	func() any { s := []any{nil}; s[0] = s; return s },
}

// buried puts v into something that can be encoded.
func buried(name string, v any) any {
	x := dig(name + "x")
	switch sym.Choose(name, 15) {
	case 0:
		return v
	case 1:
		return &v
	case 2:
		return []any{x, v, "abc"}
	case 3:
		return [2]any{v, x}
	case 4:
		return map[string]any{"k": v}
	case 5:
		return map[int]any{x: v}
	case 6:
		return struct {
			A int
			B any `php:"b"`
			C string
		}{x, v, "c"}
	case 7:
		return &struct {
			A string `php:"a,omitempty"`
			B any    `php:"b,omitempty"`
		}{"", v}
	case 8:
		return []*any{nil, &v}
	case 9:
		return map[string][]any{"k": {v}}
	case 10:
		return []any{map[string]any{"l": []any{&v}}}
	case 11:
		return &RAny{V: x, Next: &RAny{Next: v}}
	case 12:
		return []struct{ L []map[string]any }{{[]map[string]any{{"k": v}}}}
	case 13:
		return [1][]NAny{{v}}
	}
	p := &v
	return &p
}

func fails(v any) {
	out, err := php.Marshal(v)
	sym.Assert(err != nil, "an unsupported value is encoded")
	sym.Assert(out == nil, "bytes are returned with an error")
}

// every unsupported value at every place, twice
func H_C25_values() {
	v := bads[sym.Choose("bad", len(bads))]()
	d := sym.Scale("depth", 2, 3)
	for i := 0; i < d; i++ {
		v = buried("place"+itoa(i), v)
	}
	fails(v)
}

func badType[T any](z T) []func() any {
	return []func() any{
		func() any { return z },
		func() any { return &z },
		func() any { return []T{z} },
		func() any { return [1]*T{&z} },
		func() any { return map[string]T{"k": z} },
		func() any { return map[int]*T{1: &z} },
		func() any { return struct{ A T }{z} },
		func() any {
			return struct {
				A string
				B *T `php:"b"`
			}{"a", &z}
		},
		func() any { return [][]T{{z}} },
		func() any { return []map[string][]*T{{"k": {&z}}} },
		func() any { return &struct{ A struct{ B []T } }{struct{ B []T }{[]T{z}}} },
	}
}

// unsupported types that the compiler sees
var badTypes = [][]func() any{
	badType(make(chan int)),
	badType(func() {}),
	badType(complex64(1)),
	badType(complex(1, 1)),
	badType(uintptr(1)),
	badType(unsafe.Pointer(new(int))),
	badType(map[bool]string{true: "x"}),
	badType(map[float32]int{1: 1}),
	badType(map[badKey]int{{1}: 1}),
	badType([]chan int{nil}),
	badType(struct {
		A int
		C chan int
	}{}),
	badType(EM{}),
}

func H_C25_types() {
	t := badTypes[sym.Choose("type", len(badTypes))]
	v := t[sym.Choose("place", len(t))]()
	if sym.Choose("buried", 2) == 1 {
		v = buried("in", v)
	}
	fails(v)
	if sym.Choose("again", 2) == 1 {
		fails(v)
	}
}
