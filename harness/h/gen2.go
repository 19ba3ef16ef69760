package h

import "verif/harness/sym"

// ---- further generated types

type (
	NU8   uint8
	NU64  uint64
	NI8   int8
	NF32  float32
	NArr  [2]int
	NSS   []NStr
	NStru Inner
	NPtr  *int
)

func encN[T ~string](s T) []byte { return encS(string(s)) }

var gens = append(gens0, gens2...)

var gens2 = []func() val{
	// named bytes are no strings: arrays of integers
	func() val {
		n := slen("n") % 100
		v := make(NBytes, n)
		for i := range v {
			if i == n/2 {
				v[i] = num("e", sym.U8)
			} else if i < 2 {
				v[i] = uint8(dig("d"))
			}
		}
		return mk(v, encSl([]byte(v), encU[uint8]), func(a, b NBytes) bool { return eqBytes(a, b) })
	},
	func() val {
		v := []NU8{NU8(num("a", sym.U8)), NU8(dig("b"))}
		return mk(v, encSl(v, encU[NU8]), eqSl(eqC[NU8]))
	},
	func() val {
		v := [2]NU8{NU8(num("a", sym.U8)), NU8(dig("b"))}
		return mk(v, encSl(v[:], encU[NU8]), eqC[[2]NU8])
	},
	func() val {
		v := []NStr{NStr(sym.Str("a", 1)), ""}
		return mk(v, encSl(v, encN[NStr]), eqSl(eqC[NStr]))
	},
	func() val {
		v := []NBool{NBool(sym.Bool("a")), NBool(sym.Bool("b"))}
		return mk(v, encSl(v, func(b NBool) []byte { return encB(bool(b)) }), eqSl(eqC[NBool]))
	},
	func() val {
		v := []NF64{NF64(flt("a", sym.F64)), 2}
		return mk(v, encSl(v, func(f NF64) []byte { return encF(float64(f)) }), eqSl(func(a, b NF64) bool { return eqF64(float64(a), float64(b)) }))
	},
	func() val {
		v := map[NStr]NStr{NStr(sym.Str("k", 1)): NStr(sym.Str("e", 2))}
		return mk(v, encMp1(v, encN[NStr], encN[NStr]), eqMp[NStr](eqC[NStr]))
	},
	func() val {
		v := map[NInt]NBool{NInt(num("k", sym.Int)): NBool(sym.Bool("e"))}
		return mk(v, encMp1(v, encI[NInt], func(b NBool) []byte { return encB(bool(b)) }), eqMp[NInt](eqC[NBool]))
	},
	func() val {
		v := map[NU8]NU64{NU8(num("k", sym.U8)): NU64(dig("e"))}
		return mk(v, encMp1(v, encU[NU8], encU[NU64]), eqMp[NU8](eqC[NU64]))
	},
	func() val {
		v := map[NI8]NSl{NI8(num("k", sym.I8)): {dig("e"), 3}}
		return mk(v, encMp1(v, encI[NI8], func(s NSl) []byte { return encSl(s, encI[int]) }), eqMp[NI8](func(a, b NSl) bool { return eqSl(eqC[int])(a, b) }))
	},
	func() val {
		v := map[string]NBytes{sym.Str("k", 1): {uint8(dig("a")), 200}}
		return mk(v, encMp1(v, encS, func(b NBytes) []byte { return encSl([]byte(b), encU[uint8]) }), eqMp[string](func(a, b NBytes) bool { return eqBytes(a, b) }))
	},
	func() val {
		v := []NBytes{{uint8(dig("a"))}, nil, {3, 255}}
		return mk(v, encSl(v, func(b NBytes) []byte { return encSl([]byte(b), encU[uint8]) }), eqSl(func(a, b NBytes) bool { return eqSl(eqC[byte])(a, b) }))
	},
	func() val {
		v := []NSl{{dig("a")}, nil, {}}
		return mk(v, encSl(v, func(b NSl) []byte { return encSl(b, encI[int]) }), eqSl(func(a, b NSl) bool { return eqSl(eqC[int])(a, b) }))
	},
	func() val {
		v := map[string]NMap{sym.Str("k", 1): {"x": dig("a")}}
		return mk(v, encMp1(v, encS, func(m NMap) []byte { return encMp1(m, encS, encI[int]) }), eqMp[string](func(a, b NMap) bool { return eqMp[string](eqC[int])(a, b) }))
	},
	func() val {
		v := [1]NSl{{dig("a")}}
		return mk(v, encSl(v[:], func(b NSl) []byte { return encSl(b, encI[int]) }), func(a, b [1]NSl) bool { return eqSl(eqC[int])(a[0], b[0]) })
	},
	func() val {
		v := [1]NMap{{"k": dig("a")}}
		return mk(v, encSl(v[:], func(m NMap) []byte { return encMp1(m, encS, encI[int]) }), func(a, b [1]NMap) bool { return eqMp[string](eqC[int])(a[0], b[0]) })
	},
	func() val {
		v := NArr{dig("a"), -3}
		return mk(v, encSl(v[:], encI[int]), eqC[NArr])
	},
	func() val {
		v := NStru{X: dig("a"), Y: sym.Str("s", 1)}
		return mk(v, encInner(Inner(v)), func(a, b NStru) bool { return eqInner(Inner(a), Inner(b)) })
	},
	func() val {
		v := NSS{NStr(sym.Str("a", 1)), "b"}
		return mk(v, encSl(v, encN[NStr]), func(a, b NSS) bool { return eqSl(eqC[NStr])(a, b) })
	},
	func() val {
		v := NF32(flt("v", sym.F32))
		return mk(v, encF32(float32(v)), func(a, b NF32) bool { return eqF32(float32(a), float32(b)) })
	},
	func() val { v := NU64(num("v", sym.U64)); return mk(v, encU(v), eqC[NU64]) },
	func() val { v := NI8(num("v", sym.I8)); return mk(v, encI(v), eqC[NI8]) },
	// slices and arrays of every scalar
	func() val {
		v := []uint64{num("a", sym.U64), 18446744073709551615}
		return mk(v, encSl(v, encU[uint64]), eqSl(eqC[uint64]))
	},
	func() val {
		v := []int8{num("a", sym.I8), -128}
		return mk(v, encSl(v, encI[int8]), eqSl(eqC[int8]))
	},
	func() val {
		v := []int64{num("a", sym.I64), -9223372036854775808}
		return mk(v, encSl(v, encI[int64]), eqSl(eqC[int64]))
	},
	func() val {
		v := []uint32{num("a", sym.U32), 4294967295}
		return mk(v, encSl(v, encU[uint32]), eqSl(eqC[uint32]))
	},
	func() val {
		v := [3]uint16{num("a", sym.U16), 0, 65535}
		return mk(v, encSl(v[:], encU[uint16]), eqC[[3]uint16])
	},
	func() val {
		v := [2]int32{num("a", sym.I32), -2147483648}
		return mk(v, encSl(v[:], encI[int32]), eqC[[2]int32])
	},
	func() val {
		v := []float32{flt("a", sym.F32), 0.1}
		return mk(v, encSl(v, encF32), eqSl(eqF32))
	},
	func() val {
		v := [1]float64{flt("a", sym.F64)}
		return mk(v, encSl(v[:], encF), func(a, b [1]float64) bool { return eqF64(a[0], b[0]) })
	},
	func() val {
		v := [1]bool{sym.Bool("a")}
		return mk(v, encSl(v[:], encB), eqC[[1]bool])
	},
	func() val {
		v := [1][]byte{sym.Bytes("a", 2)}
		return mk(v, encSl(v[:], func(b []byte) []byte { return encS(string(b)) }), func(a, b [1][]byte) bool { return eqBytes(a[0], b[0]) })
	},
	func() val {
		v := [2][2]int{{dig("a"), 1}, {2, dig("b")}}
		return mk(v, encSl(v[:], func(x [2]int) []byte { return encSl(x[:], encI[int]) }), eqC[[2][2]int])
	},
	func() val {
		v := [][]string{{sym.Str("a", 1)}, nil, {"", "b"}}
		return mk(v, encSl(v, func(x []string) []byte { return encSl(x, encS) }), eqSl(eqSl(eqC[string])))
	},
	func() val {
		v := [][][]int{{{dig("a")}, nil}, nil, {}}
		return mk(v, encSl(v, func(x [][]int) []byte { return encSl(x, func(y []int) []byte { return encSl(y, encI[int]) }) }), eqSl(eqSl(eqSl(eqC[int]))))
	},
	// maps of every key and value
	func() val {
		v := map[string]float64{sym.Str("k", 1): flt("e", sym.F64)}
		return mk(v, encMp1(v, encS, encF), eqMp[string](eqF64))
	},
	func() val {
		v := map[string]bool{sym.Str("k", 1): sym.Bool("e")}
		return mk(v, encMp1(v, encS, encB), eqMp[string](eqC[bool]))
	},
	func() val {
		v := map[string]string{sym.Str("k", 1): sym.Str("e", 1)}
		return mk(v, encMp1(v, encS, encS), eqMp[string](eqC[string]))
	},
	func() val {
		v := map[string]uint64{sym.Str("k", 1): num("e", sym.U64)}
		return mk(v, encMp1(v, encS, encU[uint64]), eqMp[string](eqC[uint64]))
	},
	func() val {
		v := map[int64]int16{num("k", sym.I64): int16(dig("e"))}
		return mk(v, encMp1(v, encI[int64], encI[int16]), eqMp[int64](eqC[int16]))
	},
	func() val {
		v := map[int32]uint16{num("k", sym.I32): uint16(dig("e"))}
		return mk(v, encMp1(v, encI[int32], encU[uint16]), eqMp[int32](eqC[uint16]))
	},
	func() val {
		v := map[int16]uint{num("k", sym.I16): uint(dig("e"))}
		return mk(v, encMp1(v, encI[int16], encU[uint]), eqMp[int16](eqC[uint]))
	},
	func() val {
		v := map[uint]int8{num("k", sym.Uint): int8(dig("e"))}
		return mk(v, encMp1(v, encU[uint], encI[int8]), eqMp[uint](eqC[int8]))
	},
	func() val {
		v := map[uint16]int32{num("k", sym.U16): int32(dig("e"))}
		return mk(v, encMp1(v, encU[uint16], encI[int32]), eqMp[uint16](eqC[int32]))
	},
	func() val {
		v := map[uint32]uint32{num("k", sym.U32): uint32(dig("e"))}
		return mk(v, encMp1(v, encU[uint32], encU[uint32]), eqMp[uint32](eqC[uint32]))
	},
	func() val {
		v := map[int]*string{dig("k"): ptrTo(sym.Str("e", 1))}
		return mk(v, encMp1(v, encI[int], func(p *string) []byte { return encPtr(p, encS) }), eqMp[int](eqPtr(eqC[string])))
	},
	func() val {
		v := map[string][2]uint8{sym.Str("k", 1): {uint8(dig("a")), 9}}
		return mk(v, encMp1(v, encS, func(a [2]uint8) []byte { return encSl(a[:], encU[uint8]) }), eqMp[string](eqC[[2]uint8]))
	},
	func() val {
		v := map[string]struct{}{sym.Str("k", 2): {}}
		return mk(v, encMp1(v, encS, func(struct{}) []byte { return []byte("a:0:{}") }), eqMp[string](eqC[struct{}]))
	},
	// pointers
	func() val { x := sym.Bool("a"); v := &x; return mk(v, encB(x), eqPtr(eqC[bool])) },
	func() val { x := flt("a", sym.F64); v := &x; return mk(v, encF(x), eqPtr(eqF64)) },
	func() val { x := flt("a", sym.F32); v := &x; return mk(v, encF32(x), eqPtr(eqF32)) },
	func() val { x := num("a", sym.U8); v := &x; return mk(v, encU(x), eqPtr(eqC[uint8])) },
	func() val { x := num("a", sym.I64); v := &x; return mk(v, encI(x), eqPtr(eqC[int64])) },
	func() val {
		x := sym.Bytes("a", 2)
		v := &x
		return mk(v, encS(string(x)), eqPtr(eqBytes))
	},
	func() val { x := NStr(sym.Str("a", 2)); v := &x; return mk(v, encN(x), eqPtr(eqC[NStr])) },
	func() val {
		x := NMap{"k": dig("a")}
		v := &x
		return mk(v, encMp1(x, encS, encI[int]), eqPtr(func(a, b NMap) bool { return eqMp[string](eqC[int])(a, b) }))
	},
	func() val { var v *Inner; return mk(v, []byte("N;"), eqPtr(eqInner)) },
	func() val { var v *string; return mk(v, []byte("N;"), eqPtr(eqC[string])) },
	func() val { var v *[]int; return mk(v, []byte("N;"), eqPtr(eqSl(eqC[int]))) },
	// recursive types
	func() val {
		v := RSl{{}, nil, {{}, nil}}
		return mk(v, []byte("a:3:{i:0;a:0:{}i:1;N;i:2;a:2:{i:0;a:0:{}i:1;N;}}"), eqRSl)
	},
	func() val {
		v := RMp{sym.Str("k", 1): {"x": nil}}
		return mk(v, encRMp(v), eqRMp)
	},
	func() val {
		v := RArr{V: dig("a"), A: [1]*RArr{{V: dig("b")}}}
		return mk(v, encRArr(v), eqRArr)
	},
	func() val {
		v := RMapT{V: dig("a"), M: map[string]RMapT{sym.Str("k", 1): {V: dig("b")}}}
		return mk(v, encRMapT(v), eqRMapT)
	},
	func() val {
		v := RA1{V: dig("a"), B: &RB1{W: dig("b"), A: []RA1{{V: 1}, {V: dig("c"), B: &RB1{}}}}}
		return mk(v, encRA1(v), eqRA1)
	},
}

func eqRSl(a, b RSl) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !eqRSl(a[i], b[i]) {
			return false
		}
	}
	return true
}
func encRMp(m RMp) []byte { return encMp1(m, encS, encRMp) }
func eqRMp(a, b RMp) bool { return eqMp[string](eqRMp)(a, b) }
func encRMapT(v RMapT) []byte {
	return fields("v", string(encI(v.V)), "m", string(encMp1(v.M, encS, encRMapT)))
}
func eqRMapT(a, b RMapT) bool { return sym.And(a.V == b.V, eqMp[string](eqRMapT)(a.M, b.M)) }
func encRArr(v RArr) []byte {
	return fields("v", string(encI(v.V)), "a", string(encSl(v.A[:], func(p *RArr) []byte { return encPtr(p, encRArr) })))
}
func eqRArr(a, b RArr) bool { return sym.And(a.V == b.V, eqPtr(eqRArr)(a.A[0], b.A[0])) }
func encRA1(v RA1) []byte {
	return fields("v", string(encI(v.V)), "b", string(encPtr(v.B, func(b RB1) []byte {
		return fields("w", string(encI(b.W)), "a", string(encSl(b.A, encRA1)))
	})))
}
func eqRA1(a, b RA1) bool {
	return sym.And(a.V == b.V, eqPtr(func(a, b RB1) bool { return sym.And(a.W == b.W, eqSl(eqRA1)(a.A, b.A)) })(a.B, b.B))
}
