package h

import (
	"math"
	"reflect"
	"strconv"

	"verif/harness/sym"

	php "github.com/trim21/go-phpserialize"
)

// ---- generated values: a Go value, its canonical text and the test for a decoded copy

type val struct {
	v     any              // value of type T
	enc   []byte           // canonical text
	dst   func() any       // new(T)
	eq    func(p any) bool // *p is v
	ptr   any              // pointer to v
	isPtr bool             // T is a pointer type
	wraps []func() val     // the value in containers of T
}

func mk0[T any](v T, enc []byte, eq func(a, b T) bool) val {
	return val{v: v, enc: enc, dst: func() any { return new(T) }, eq: func(p any) bool { return eq(*p.(*T), v) }, ptr: &v,
		isPtr: reflect.TypeOf(v).Kind() == reflect.Pointer}
}

func mk[T any](v T, enc []byte, eq func(a, b T) bool) val {
	g := mk0(v, enc, eq)
	e := string(enc)
	type one struct {
		X T `php:"x"`
	}
	type ptr struct {
		A int `php:"a"`
		X *T  `php:"x"`
		Z int `php:"z"`
	}
	g.wraps = []func() val{
		func() val {
			return mk0([1]T{v}, []byte("a:1:{i:0;"+e+"}"), func(a, b [1]T) bool { return eq(a[0], b[0]) })
		},
		func() val {
			return mk0(map[string]T{"k": v}, []byte(`a:1:{s:1:"k";`+e+"}"), eqMp[string](eq))
		},
		func() val {
			return mk0(one{v}, []byte(`a:1:{s:1:"x";`+e+"}"), func(a, b one) bool { return eq(a.X, b.X) })
		},
		func() val {
			return mk0([]one{{v}}, []byte(`a:1:{i:0;a:1:{s:1:"x";`+e+"}}"), eqSl(func(a, b one) bool { return eq(a.X, b.X) }))
		},
		func() val {
			return mk0(map[int]*one{-7: {v}}, []byte(`a:1:{i:-7;a:1:{s:1:"x";`+e+"}}"), eqMp[int](eqPtr(func(a, b one) bool { return eq(a.X, b.X) })))
		},
	}
	if reflect.TypeOf(v).Kind() != reflect.Uint8 {
		g.wraps = append(g.wraps, func() val {
			return mk0([]T{v, v}, []byte("a:2:{i:0;"+e+"i:1;"+e+"}"), eqSl(eq))
		}, func() val {
			return mk0([][]T{nil, {v}}, []byte("a:2:{i:0;N;i:1;a:1:{i:0;"+e+"}}"), eqSl(eqSl(eq)))
		})
	}
	if !g.isPtr {
		g.wraps = append(g.wraps, func() val {
			return mk0(&v, enc, eqNN(eq))
		}, func() val {
			return mk0(ptr{1, &v, 2}, []byte(`a:3:{s:1:"a";i:1;s:1:"x";`+e+`s:1:"z";i:2;}`), func(a, b ptr) bool {
				return a.A == 1 && a.Z == 2 && eqNN(eq)(a.X, b.X)
			})
		}, func() val {
			return mk0([]*T{&v, nil, &v}, []byte("a:3:{i:0;"+e+"i:1;N;i:2;"+e+"}"), func(a, b []*T) bool {
				return len(a) == 3 && a[1] == nil && sym.And(eqNN(eq)(a[0], b[0]), eqNN(eq)(a[2], b[2]))
			})
		}, func() val {
			return mk0(map[string]*T{"k": &v}, []byte(`a:1:{s:1:"k";`+e+"}"), func(a, b map[string]*T) bool {
				return len(a) == 1 && eqNN(eq)(a["k"], b["k"])
			})
		}, func() val {
			return mk0([1]*T{&v}, []byte("a:1:{i:0;"+e+"}"), func(a, b [1]*T) bool { return eqNN(eq)(a[0], b[0]) })
		})
	}
	return g
}

// eqNN compares pointed-to values; null text leaves a nil pointer.
func eqNN[T any](eq func(a, b T) bool) func(a, b *T) bool {
	return func(a, b *T) bool {
		var zero T
		if a == nil {
			a = &zero
		}
		return eq(*a, *b)
	}
}

func eqC[T comparable](a, b T) bool { return a == b }
func eqF64(a, b float64) bool {
	return sym.Or(math.Float64bits(a) == math.Float64bits(b), sym.And(a != a, b != b))
}
func eqF32(a, b float32) bool {
	return sym.Or(math.Float32bits(a) == math.Float32bits(b), sym.And(a != a, b != b))
}

func eqSl[T any](eq func(a, b T) bool) func(a, b []T) bool {
	return func(a, b []T) bool {
		if (a == nil) != (b == nil) || len(a) != len(b) {
			return len(a) == 0 && len(b) == 0 && b != nil
		}
		ok := true
		for i := range a {
			ok = sym.And(ok, eq(a[i], b[i]))
		}
		return ok
	}
}

func eqMp[K comparable, T any](eq func(a, b T) bool) func(a, b map[K]T) bool {
	return func(a, b map[K]T) bool {
		if (a == nil) != (b == nil) || len(a) != len(b) {
			return false
		}
		ok := true
		for k, y := range b {
			x, has := a[k]
			if !has {
				return false
			}
			ok = sym.And(ok, eq(x, y))
		}
		return ok
	}
}

func eqPtr[T any](eq func(a, b T) bool) func(a, b *T) bool {
	return func(a, b *T) bool {
		if (a == nil) != (b == nil) {
			return false
		}
		return a == nil || eq(*a, *b)
	}
}

func eqBytes(a, b []byte) bool {
	if len(a) != len(b) {
		return false
	}
	return string(a) == string(b)
}

// ints
func encI[T ~int | ~int8 | ~int16 | ~int32 | ~int64](v T) []byte { return encInt(nil, int64(v)) }
func encU[T ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64](v T) []byte {
	return encUint(nil, uint64(v))
}
func encS(s string) []byte { return encStr(nil, s) }
func encB(v bool) []byte   { return encBool(nil, v) }
func encF(f float64) []byte {
	return encFloat(nil, f)
}
func encF32(f float32) []byte {
	b := append([]byte("d:"), floatText(float64(f), 32)...)
	return append(b, ';')
}

func encSl[T any](vs []T, enc func(T) []byte) []byte {
	if vs == nil {
		return []byte("N;")
	}
	b := encArr(nil, len(vs))
	for i, v := range vs {
		b = append(b, "i:"...)
		b = strconv.AppendInt(b, int64(i), 10)
		b = append(b, ';')
		b = append(b, enc(v)...)
	}
	return append(b, '}')
}

// encMp1 encodes a map of at most one entry.
func encMp1[K comparable, T any](m map[K]T, ek func(K) []byte, ev func(T) []byte) []byte {
	if m == nil {
		return []byte("N;")
	}
	b := encArr(nil, len(m))
	for k, v := range m {
		b = append(b, ek(k)...)
		b = append(b, ev(v)...)
	}
	return append(b, '}')
}

func encPtr[T any](p *T, enc func(T) []byte) []byte {
	if p == nil {
		return []byte("N;")
	}
	return enc(*p)
}

func encInner(v Inner) []byte {
	b := []byte(`a:2:{s:1:"X";`)
	b = append(b, encI(v.X)...)
	b = append(b, `s:1:"y";`...)
	b = append(b, encS(v.Y)...)
	return append(b, '}')
}
func eqInner(a, b Inner) bool { return sym.And(a.X == b.X, a.Y == b.Y) }

// fields builds a struct encoding from name, text pairs.
func fields(kv ...string) []byte {
	b := encArr(nil, len(kv)/2)
	for i := 0; i < len(kv); i += 2 {
		b = append(b, encS(kv[i])...)
		b = append(b, kv[i+1]...)
	}
	return append(b, '}')
}

func encFlat(v Flat) []byte {
	return fields("a", string(encI(v.A)), "b", string(encS(v.B)), "c", string(encB(v.C)), "d", string(encSl(v.D, encI[int])))
}
func eqFlat(a, b Flat) bool {
	return sym.And(sym.And(a.A == b.A, a.B == b.B), sym.And(a.C == b.C, eqSl(eqC[int])(a.D, b.D)))
}

func encDeep(v Deep) []byte {
	return fields(
		"n", string(encPtr(v.N, encInner)),
		"m", string(encMp1(v.M, encS, encInner)),
		"s", string(encSl(v.S, encInner)),
		"p", string(encSl(v.P, func(p *Inner) []byte { return encPtr(p, encInner) })),
		"a", string(encSl(v.A[:], encInner)),
		"i", "N;",
		"by", string(encS(string(v.By))),
		"f", string(encF(v.F)),
		"mi", string(encMp1(v.Mi, encI[int], encS)),
		"pp", string(encPtr(v.Pp, encI[int])),
		"mp", string(encMp1(v.Mp, encS, func(p *Inner) []byte { return encPtr(p, encInner) })),
	)
}
func eqDeep(a, b Deep) bool {
	ok := eqPtr(eqInner)(a.N, b.N)
	ok = sym.And(ok, eqMp[string](eqInner)(a.M, b.M))
	ok = sym.And(ok, eqSl(eqInner)(a.S, b.S))
	ok = sym.And(ok, eqSl(eqPtr(eqInner))(a.P, b.P))
	ok = sym.And(ok, sym.And(eqInner(a.A[0], b.A[0]), eqInner(a.A[1], b.A[1])))
	ok = sym.And(ok, sym.And(a.I == nil, eqBytes(a.By, b.By)))
	ok = sym.And(ok, eqF64(a.F, b.F))
	ok = sym.And(ok, eqMp[int](eqC[string])(a.Mi, b.Mi))
	ok = sym.And(ok, eqPtr(eqC[int])(a.Pp, b.Pp))
	return sym.And(ok, eqMp[string](eqPtr(eqInner))(a.Mp, b.Mp))
}

// Omit has every omitempty kind.
type Omit struct {
	K  int            `php:"k"`
	I  int8           `php:"i,omitempty"`
	U  uint16         `php:"u,omitempty"`
	S  string         `php:"s,omitempty"`
	B  bool           `php:",omitempty"`
	F  float64        `php:"f,omitempty"`
	L  []int          `php:"l,omitempty"`
	M  map[string]int `php:"m,omitempty"`
	P  *int           `php:"p,omitempty"`
	Q  *Inner         `php:"q,omitempty"`
	N  Inner          `php:"n,omitempty"`
	A  [2]bool        `php:"a,omitempty"`
	Z  any            `php:"z,omitempty"`
	By []byte         `php:"by,omitempty"`
	W  int            `php:"w,string,omitempty"`
}

func encQuotedText(s string) string { return string(encS(s)) }

// symbolic values
func symStr(name string, n int) string { return sym.Str(name, n) }

func symInner() Inner { return Inner{X: dig("x"), Y: sym.Str("y", 2)} }

// dig is a symbolic one-digit number, cheap to print and parse.
func dig(name string) int { return int(sym.ByteIn(name, "0123456789") - '0') }

// small makes the generators draw short numbers, strings and counts.
var small bool

func num[T intType](name string, full func(string) T) T {
	if small {
		return T(dig(name))
	}
	return full(name)
}

func flt[T float32 | float64](name string, full func(string) T) T {
	if small {
		return pick[T](name, 0, -1.5, 1e21, 1e-7)
	}
	return full(name)
}

// count picks a number of elements.
func count(name string) int {
	if small {
		return pick(name, 0, 1, 11)
	}
	return pick(name, 0, 1, 2, 3, 9, 10, 11, 12, 99, 100, 101)
}

// slen picks a string length.
func slen(name string) int {
	if small {
		return pick(name, 0, 1, 12)
	}
	return pick(name, 0, 1, 2, 9, 10, 11, 99, 100, 101, 1020, 1023)
}

func ptrTo[T any](v T) *T { return &v }

// gens produce one value each; every call draws fresh inputs.
var gens0 = []func() val{
	func() val { v := sym.Bool("v"); return mk(v, encB(v), eqC[bool]) },
	func() val { v := num("v", sym.Int); return mk(v, encI(v), eqC[int]) },
	func() val { v := num("v", sym.I8); return mk(v, encI(v), eqC[int8]) },
	func() val { v := num("v", sym.I16); return mk(v, encI(v), eqC[int16]) },
	func() val { v := num("v", sym.I32); return mk(v, encI(v), eqC[int32]) },
	func() val { v := num("v", sym.I64); return mk(v, encI(v), eqC[int64]) },
	func() val { v := num("v", sym.Uint); return mk(v, encU(v), eqC[uint]) },
	func() val { v := num("v", sym.U8); return mk(v, encU(v), eqC[uint8]) },
	func() val { v := num("v", sym.U16); return mk(v, encU(v), eqC[uint16]) },
	func() val { v := num("v", sym.U32); return mk(v, encU(v), eqC[uint32]) },
	func() val { v := num("v", sym.U64); return mk(v, encU(v), eqC[uint64]) },
	func() val { v := flt("v", sym.F64); return mk(v, encF(v), eqF64) },
	func() val { v := flt("v", sym.F32); return mk(v, encF32(v), eqF32) },
	func() val { v := sym.Str("v", slen("n")); return mk(v, encS(v), eqC[string]) },
	func() val { v := sym.Bytes("v", slen("n")); return mk(v, encS(string(v)), eqBytes) },
	func() val { v := NInt(num("v", sym.Int)); return mk(v, encI(v), eqC[NInt]) },
	func() val { v := NStr(sym.Str("v", 3)); return mk(v, encS(string(v)), eqC[NStr]) },
	func() val { v := NBool(sym.Bool("v")); return mk(v, encB(bool(v)), eqC[NBool]) },
	func() val {
		v := NF64(flt("v", sym.F64))
		return mk(v, encF(float64(v)), func(a, b NF64) bool { return eqF64(float64(a), float64(b)) })
	},
	func() val { // 19: []int
		n := count("n")
		v := make([]int, n)
		for i := range v {
			if i == n/2 {
				v[i] = num("e", sym.Int)
			} else if i < 2 || i == n-1 {
				v[i] = dig("d")
			}
		}
		return mk(v, encSl(v, encI[int]), eqSl(eqC[int]))
	},
	func() val { var v []int; return mk(v, []byte("N;"), eqSl(eqC[int])) },
	func() val {
		v := []string{sym.Str("a", 1), "", sym.Str("b", 12)}
		return mk(v, encSl(v, encS), eqSl(eqC[string]))
	},
	func() val {
		v := []bool{sym.Bool("a"), sym.Bool("b")}
		return mk(v, encSl(v, encB), eqSl(eqC[bool]))
	},
	func() val {
		v := [][]int{{dig("a")}, nil, {}, {1, 2}}
		return mk(v, encSl(v, func(x []int) []byte { return encSl(x, encI[int]) }), eqSl(eqSl(eqC[int])))
	},
	func() val {
		v := []float64{flt("a", sym.F64), -0.5}
		return mk(v, encSl(v, encF), eqSl(eqF64))
	},
	func() val {
		v := [][]byte{sym.Bytes("a", 2), {}, []byte("zz")}
		return mk(v, encSl(v, func(x []byte) []byte { return encS(string(x)) }), eqSl(eqBytes))
	},
	func() val {
		v := [3]int{dig("a"), dig("b"), -1}
		return mk(v, encSl(v[:], encI[int]), eqC[[3]int])
	},
	func() val {
		v := [2]string{sym.Str("a", 1), "x"}
		return mk(v, encSl(v[:], encS), eqC[[2]string])
	},
	func() val { v := [0]int{}; return mk(v, []byte("a:0:{}"), eqC[[0]int]) },
	func() val {
		v := [12]uint8{0: num("a", sym.U8), 11: uint8(dig("b"))}
		return mk(v, encSl(v[:], encU[uint8]), eqC[[12]uint8])
	},
	func() val {
		v := map[string]int{sym.Str("k", slen("n")): dig("e")}
		return mk(v, encMp1(v, encS, encI[int]), eqMp[string](eqC[int]))
	},
	func() val {
		v := map[int]string{num("k", sym.Int): sym.Str("e", 2)}
		return mk(v, encMp1(v, encI[int], encS), eqMp[int](eqC[string]))
	},
	func() val {
		v := map[uint8]bool{num("k", sym.U8): sym.Bool("e")}
		return mk(v, encMp1(v, encU[uint8], encB), eqMp[uint8](eqC[bool]))
	},
	func() val {
		v := map[uint64]int64{num("k", sym.U64): int64(dig("e"))}
		return mk(v, encMp1(v, encU[uint64], encI[int64]), eqMp[uint64](eqC[int64]))
	},
	func() val {
		v := map[int8]float32{num("k", sym.I8): 0.25}
		return mk(v, encMp1(v, encI[int8], encF32), eqMp[int8](eqF32))
	},
	func() val { v := map[string]int{}; return mk(v, []byte("a:0:{}"), eqMp[string](eqC[int])) },
	func() val { var v map[string]int; return mk(v, []byte("N;"), eqMp[string](eqC[int])) },
	func() val {
		v := map[NStr]NInt{NStr(sym.Str("k", 1)): NInt(dig("e"))}
		return mk(v, encMp1(v, func(k NStr) []byte { return encS(string(k)) }, encI[NInt]), eqMp[NStr](eqC[NInt]))
	},
	func() val {
		v := map[string]map[int]int{sym.Str("k", 1): {dig("i"): dig("e")}}
		return mk(v, encMp1(v, encS, func(m map[int]int) []byte { return encMp1(m, encI[int], encI[int]) }), eqMp[string](eqMp[int](eqC[int])))
	},
	func() val {
		v := map[string]map[int]int{sym.Str("k", 1): nil}
		return mk(v, encMp1(v, encS, func(m map[int]int) []byte { return encMp1(m, encI[int], encI[int]) }), eqMp[string](eqMp[int](eqC[int])))
	},
	func() val {
		v := map[string][]byte{sym.Str("k", 2): sym.Bytes("e", 3)}
		return mk(v, encMp1(v, encS, func(x []byte) []byte { return encS(string(x)) }), eqMp[string](eqBytes))
	},
	func() val { v := symInner(); return mk(v, encInner(v), eqInner) },
	func() val {
		v := Flat{A: dig("a"), B: sym.Str("b", 3), C: sym.Bool("c"), D: []int{dig("d"), 5}}
		return mk(v, encFlat(v), eqFlat)
	},
	func() val { v := Flat{}; return mk(v, encFlat(v), eqFlat) },
	func() val { v := Deep{}; return mk(v, encDeep(v), eqDeep) },
	func() val {
		x := dig("x")
		in := Inner{X: x, Y: "q"}
		v := Deep{N: &in, M: map[string]Inner{"k": in}, S: []Inner{in, {}}, P: []*Inner{nil, &in}, A: [2]Inner{{}, in},
			By: sym.Bytes("by", 2), F: 1.5, Mi: map[int]string{x: sym.Str("s", 1)}, Pp: ptrTo(dig("pp")), Mp: map[string]*Inner{"z": &in}}
		return mk(v, encDeep(v), eqDeep)
	},
	func() val {
		v := []Inner{symInner(), symInner()}
		return mk(v, encSl(v, encInner), eqSl(eqInner))
	},
	func() val {
		i := symInner()
		v := []*Inner{&i, nil, &i}
		return mk(v, encSl(v, func(p *Inner) []byte { return encPtr(p, encInner) }), eqSl(eqPtr(eqInner)))
	},
	func() val {
		i := symInner()
		v := map[string]*Inner{sym.Str("k", 1): &i}
		return mk(v, encMp1(v, encS, func(p *Inner) []byte { return encPtr(p, encInner) }), eqMp[string](eqPtr(eqInner)))
	},
	func() val {
		x := dig("a")
		v := [2]*int{&x, nil}
		return mk(v, encSl(v[:], func(p *int) []byte { return encPtr(p, encI[int]) }), func(a, b [2]*int) bool {
			return sym.And(eqPtr(eqC[int])(a[0], b[0]), eqPtr(eqC[int])(a[1], b[1]))
		})
	},
	func() val { x := dig("a"); v := &x; return mk(v, encI(x), eqPtr(eqC[int])) },
	func() val { var v *int; return mk(v, []byte("N;"), eqPtr(eqC[int])) },
	func() val { x := sym.Str("a", 2); v := &x; return mk(v, encS(x), eqPtr(eqC[string])) },
	func() val { x := symInner(); v := &x; return mk(v, encInner(x), eqPtr(eqInner)) },
	func() val { x := []int{dig("a")}; v := &x; return mk(v, encSl(x, encI[int]), eqPtr(eqSl(eqC[int]))) },
	func() val {
		x := map[string]int{"k": dig("a")}
		v := &x
		return mk(v, encMp1(x, encS, encI[int]), eqPtr(eqMp[string](eqC[int])))
	},
	func() val { x := [1]int{dig("a")}; v := &x; return mk(v, encSl(x[:], encI[int]), eqPtr(eqC[[1]int])) },
	func() val { // 57: named containers
		v := NSl{dig("a"), 2}
		return mk(v, encSl(v, encI[int]), func(a, b NSl) bool { return eqSl(eqC[int])(a, b) })
	},
	func() val {
		v := NMap{"k": dig("a")}
		return mk(v, encMp1(v, encS, encI[int]), func(a, b NMap) bool { return eqMp[string](eqC[int])(a, b) })
	},
	func() val { // quoted
		i, u, bo := num("i", sym.Int), uint8(dig("u")), sym.Bool("b")
		pi, pb := int16(dig("pi")), sym.Bool("pb")
		v := Quoted{I: i, U: u, B: bo, F: 2.5, Pi: &pi, Pb: &pb}
		return mk(v, encQuoted(v), eqQuoted)
	},
	func() val { v := Quoted{F: -1e22}; return mk(v, encQuoted(v), eqQuoted) },
	func() val { // recursive
		v := RNode{V: dig("a"), Next: &RNode{V: dig("b"), Next: &RNode{V: 3}}}
		return mk(v, encRNode(&v), func(a, b RNode) bool { return eqRNode(&a, &b) })
	},
	func() val {
		v := RTree{V: dig("a"), Kids: []*RTree{{V: 1}, nil, {V: dig("b"), Kids: []*RTree{}}}}
		return mk(v, encRTree(&v), func(a, b RTree) bool { return eqRTree(&a, &b) })
	},
	func() val { // omitted fields leave the rest
		v := Omit{K: dig("k"), U: 7}
		return mk(v, fields("k", string(encI(v.K)), "u", "i:7;"), func(a, b Omit) bool {
			return a.K == b.K && a.U == 7 && a.S == "" && a.L == nil && a.P == nil && a.Z == nil && a.By == nil
		})
	},
	func() val {
		v := struct{}{}
		return mk(v, []byte("a:0:{}"), eqC[struct{}])
	},
	func() val {
		v := map[string][]Inner{"p": {symInner()}}
		return mk(v, encMp1(v, encS, func(x []Inner) []byte { return encSl(x, encInner) }), eqMp[string](eqSl(eqInner)))
	},
	func() val {
		v := []map[string]int{{"a": dig("a")}, nil, {}}
		return mk(v, encSl(v, func(m map[string]int) []byte { return encMp1(m, encS, encI[int]) }), eqSl(eqMp[string](eqC[int])))
	},
	func() val {
		v := [][2]int{{dig("a"), 2}, {}}
		return mk(v, encSl(v, func(x [2]int) []byte { return encSl(x[:], encI[int]) }), eqSl(eqC[[2]int]))
	},
	func() val {
		v := map[int][3]bool{dig("a"): {true, sym.Bool("b"), false}}
		return mk(v, encMp1(v, encI[int], func(x [3]bool) []byte { return encSl(x[:], encB) }), eqMp[int](eqC[[3]bool]))
	},
}

func encQuoted(v Quoted) []byte {
	pi, pb := "N;", "N;"
	if v.Pi != nil {
		pi = encQuotedText(string(strconvI(int64(*v.Pi))))
	}
	if v.Pb != nil {
		pb = encQuotedText(boolText(*v.Pb))
	}
	return fields("i", encQuotedText(string(strconvI(int64(v.I)))), "u", encQuotedText(string(strconvU(uint64(v.U)))),
		"b", encQuotedText(boolText(v.B)), "f", encQuotedText(string(floatText(v.F, 64))), "pi", pi, "pb", pb)
}

func boolText(b bool) string {
	if b {
		return "true"
	}
	return "false"
}

func eqQuoted(a, b Quoted) bool {
	ok := sym.And(a.I == b.I, sym.And(a.U == b.U, a.B == b.B))
	ok = sym.And(ok, eqF64(a.F, b.F))
	return sym.And(ok, sym.And(eqPtr(eqC[int16])(a.Pi, b.Pi), eqPtr(eqC[bool])(a.Pb, b.Pb)))
}

func encRNode(v *RNode) []byte {
	if v == nil {
		return []byte("N;")
	}
	return fields("v", string(encI(v.V)), "next", string(encRNode(v.Next)))
}
func eqRNode(a, b *RNode) bool {
	if (a == nil) != (b == nil) {
		return false
	}
	return a == nil || sym.And(a.V == b.V, eqRNode(a.Next, b.Next))
}
func encRTree(v *RTree) []byte {
	if v == nil {
		return []byte("N;")
	}
	return fields("v", string(encI(v.V)), "kids", string(encSl(v.Kids, encRTree)))
}
func eqRTree(a, b *RTree) bool {
	if (a == nil) != (b == nil) {
		return false
	}
	return a == nil || sym.And(a.V == b.V, eqSl(eqRTree)(a.Kids, b.Kids))
}

func gen() val {
	small = false
	return aGen()
}

// smallGen draws short inputs in the quick tier.
func smallGen() val {
	small = sym.Scale("full", 0, 1) == 0
	return aGen()
}

func aGen() val { return gens[sym.Choose("gen", len(gens))]() }

// wrapped is a generated value in a container of its type.
func wrapped() val {
	g := smallGen()
	return g.wraps[sym.Choose("wrap", len(g.wraps))]()
}

// inAny puts the value (or a pointer to it) into interfaces: the container and its text.
func (g val) inAny(name string) (any, []byte) {
	x := g.v
	if sym.Choose(name+"ptr", 2) == 1 {
		x = g.ptr
	}
	e := string(g.enc)
	switch sym.Choose(name, 12) {
	case 0:
		return &x, g.enc
	case 1:
		return []any{x}, []byte("a:1:{i:0;" + e + "}")
	case 2:
		return [2]any{nil, x}, []byte("a:2:{i:0;N;i:1;" + e + "}")
	case 3:
		return map[string]any{"k": x}, []byte(`a:1:{s:1:"k";` + e + "}")
	case 4:
		return struct {
			A int
			X any `php:"x"`
			Z int
		}{1, x, 2}, []byte(`a:3:{s:1:"A";i:1;s:1:"x";` + e + `s:1:"Z";i:2;}`)
	case 5:
		return struct{ X *any }{&x}, []byte(`a:1:{s:1:"X";` + e + "}")
	case 6:
		return []*any{&x, nil}, []byte("a:2:{i:0;" + e + "i:1;N;}")
	case 7:
		return map[int]any{3: map[string]any{"k": x}}, []byte(`a:1:{i:3;a:1:{s:1:"k";` + e + "}}")
	case 8:
		return []any{[]any{1, x}}, []byte("a:1:{i:0;a:2:{i:0;i:1;i:1;" + e + "}}")
	case 9:
		return []any{struct{ X any }{x}}, []byte(`a:1:{i:0;a:1:{s:1:"X";` + e + "}}")
	case 10:
		return []any{&struct{ X any }{x}}, []byte(`a:1:{i:0;a:1:{s:1:"X";` + e + "}}")
	}
	return map[NStr]NAny{"k": [1]any{x}}, []byte(`a:1:{s:1:"k";a:1:{i:0;` + e + "}}")
}

// enc marshals; the error is a failure.
func enc(v any) []byte {
	b, err := php.Marshal(v)
	noErr(err, "Marshal fails")
	return b
}

// dec unmarshals into a fresh T; the error is a failure.
func dec[T any](in []byte) T {
	var v T
	noErr(php.Unmarshal(in, &v), "Unmarshal fails")
	return v
}

// decErr unmarshals into a fresh T; success is a failure.
func decErr[T any](in []byte, msg string) {
	var v T
	isErr(php.Unmarshal(in, &v), msg)
}
