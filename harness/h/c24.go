package h

import (
	"reflect"
	"unsafe"

	php "github.com/trim21/go-phpserialize"
	"verif/harness/sym"
)

// C24: mismatches

// source is a well-formed value of the PHP type tag.
func source(tag byte) string {
	switch tag {
	case 'b':
		return "b:" + string(sym.ByteIn("v", "01")) + ";"
	case 'i':
		return "i:" + pick("sign", "", "-", "1") + string(sym.ByteIn("v", "123456789")) + ";"
	case 'd':
		return "d:" + pick("f", "", "1", "-0", "0.", "1.5E+") + string(sym.ByteIn("v", "0123456789")) + ";"
	case 's':
		n := sym.Choose("n", sym.Scale("len", 3, 5))
		return "s:" + itoa(n) + `:"` + sym.Str("v", n) + `";`
	case 'a':
		x := string(sym.ByteIn("v", "0123456789"))
		return pick("a", "a:0:{}", "a:1:{i:0;i:"+x+";}", `a:1:{s:1:"A";i:`+x+`;}`, `a:2:{i:1;s:1:"`+x+`";i:0;N;}`, `a:1:{i:0;a:0:{}}`)
	}
	x := string(sym.ByteIn("v", "0123456789"))
	return pick("o", `O:1:"C":0:{}`, `O:8:"stdClass":1:{s:1:"A";i:`+x+`;}`, `O:0:"":1:{i:0;s:1:"`+x+`";}`)
}

// target is a destination type that takes values of some PHP types.
type target struct {
	place  func(text string) // decodes text at a chosen place; must fail
	accept string
}

func targetOf[T any](accept string) target {
	return target{accept: accept, place: func(text string) {
		msg := "a value of a wrong type is accepted"
		switch sym.Choose("place", 14) {
		case 0:
			decErr[T]([]byte(text), msg)
		case 1:
			decErr[*T]([]byte(text), msg)
		case 2:
			decErr[[]T]([]byte("a:1:{i:0;"+text+"}"), msg)
		case 3:
			decErr[[]T]([]byte("a:2:{i:0;N;i:1;"+text+"}"), msg)
		case 4:
			decErr[[2]T]([]byte("a:2:{i:1;"+text+"i:0;N;}"), msg)
		case 5:
			decErr[map[string]T]([]byte(`a:1:{s:1:"k";`+text+"}"), msg)
		case 6:
			decErr[map[int]*T]([]byte(`O:1:"C":1:{i:5;`+text+"}"), msg)
		case 7:
			decErr[struct {
				A T   `php:"a"`
				Z int `php:"z"`
			}]([]byte(`a:2:{s:1:"a";`+text+`s:1:"z";i:1;}`), msg)
		case 8:
			decErr[struct {
				Z int `php:"z"`
				P *T  `php:"p"`
			}]([]byte(`O:1:"C":2:{s:1:"z";i:1;s:1:"p";`+text+"}"), msg)
		case 9:
			decErr[map[string][]struct{ A map[int]T }]([]byte(`a:1:{s:1:"k";a:1:{i:0;a:1:{s:1:"A";a:1:{i:0;`+text+"}}}}"), msg)
		case 10: // a destination with a value
			var v T
			p := &v
			isErr(php.Unmarshal([]byte(text), &p), msg)
		case 11:
			v := map[string]*T{"k": new(T)}
			isErr(php.Unmarshal([]byte(`a:1:{s:1:"k";`+text+"}"), &v), msg)
		case 12:
			v := []*T{new(T), new(T)}
			isErr(php.Unmarshal([]byte(`a:2:{i:0;N;i:1;`+text+"}"), &v), msg)
		case 13: // unknown entries before it
			decErr[struct{ A T }]([]byte(`a:3:{s:1:"u";`+text+`s:1:"w";a:1:{i:0;`+text+`}s:1:"A";`+text+"}"), msg)
		}
	}}
}

type onlyInt struct {
	A int
}

var targets = []target{
	targetOf[bool]("b"),
	targetOf[NBool]("b"),
	targetOf[int]("i"),
	targetOf[int8]("i"),
	targetOf[int16]("i"),
	targetOf[int32]("i"),
	targetOf[int64]("i"),
	targetOf[NInt]("i"),
	targetOf[uint]("i"),
	targetOf[uint8]("i"),
	targetOf[uint16]("i"),
	targetOf[uint32]("i"),
	targetOf[uint64]("i"),
	targetOf[float32]("d"),
	targetOf[float64]("d"),
	targetOf[NF64]("d"),
	targetOf[string]("s"),
	targetOf[NStr]("s"),
	targetOf[[]byte]("sa"),
	targetOf[NBytes]("sa"),
	targetOf[[]int]("a"),
	targetOf[[]any]("a"),
	targetOf[[]string]("a"),
	targetOf[NSl]("a"),
	targetOf[[2]int]("a"),
	targetOf[[1]any]("a"),
	targetOf[[2]byte]("a"),
	targetOf[[0]int]("a"),
	targetOf[map[string]int]("aO"),
	targetOf[map[int]any]("aO"),
	targetOf[map[any]any]("aO"),
	targetOf[map[string]any]("aO"),
	targetOf[NMap]("aO"),
	targetOf[onlyInt]("aO"),
	targetOf[struct{}]("aO"),
	targetOf[Quoted]("aO"),
}

func H_C24_types() {
	t := targets[sym.Choose("type", len(targets))]
	tag := "bidsaO"[sym.Choose("tag", 6)]
	for i := range len(t.accept) {
		sym.Assume(t.accept[i] != tag)
	}
	t.place(source(tag))
}

// elements of containers that fit
func H_C24_elements() {
	tag := "bidsaO"[sym.Choose("tag", 6)]
	text := source(tag)
	msg := "a value of a wrong type is accepted"
	no := func(accept string) {
		for i := range len(accept) {
			sym.Assume(accept[i] != tag)
		}
	}
	n := sym.Choose("case", 18)
	switch n {
	case 0: // bytes as a list of numbers
		no("i")
		decErr[[]byte]([]byte("a:1:{i:0;"+text+"}"), msg)
	case 1:
		no("i")
		decErr[[]uint8]([]byte("a:2:{i:0;i:1;i:1;"+text+"}"), msg)
	case 2: // quoted fields take strings only
		no("s")
		decErr[struct {
			A int `php:",string"`
		}]([]byte(`a:1:{s:1:"A";`+text+"}"), msg)
	case 3:
		no("s")
		decErr[struct {
			A *bool `php:",string"`
		}]([]byte(`a:1:{s:1:"A";`+text+"}"), msg)
	case 4:
		no("s")
		decErr[struct {
			A uint16 `php:"q,string"`
		}]([]byte(`a:1:{s:1:"q";`+text+"}"), msg)
	case 5:
		no("s")
		decErr[struct {
			A float64 `php:"q,string"`
		}]([]byte(`a:1:{s:1:"q";`+text+"}"), msg)
	case 6: // keys
		no("s")
		decErr[map[string]int]([]byte("a:1:{"+text+"i:1;}"), msg)
	case 7:
		no("is")
		decErr[any]([]byte("a:1:{"+text+"i:1;}"), msg)
	case 8:
		no("is")
		decErr[map[any]any]([]byte("a:1:{"+text+"i:1;}"), msg)
	case 9:
		no("s")
		decErr[onlyInt]([]byte("a:1:{"+text+"i:1;}"), msg)
	case 10:
		no("i")
		decErr[[]int]([]byte("a:1:{"+text+"i:1;}"), msg)
	case 11:
		no("i")
		decErr[[2]int]([]byte("a:1:{"+text+"i:1;}"), msg)
	case 12:
		no("i")
		decErr[map[int]int]([]byte("a:1:{"+text+"i:1;}"), msg)
	case 13:
		no("i")
		decErr[map[uint8]any]([]byte(`O:1:"C":1:{`+text+"i:1;}"), msg)
	case 14:
		no("s")
		decErr[map[NStr]*int]([]byte("a:1:{"+text+"i:1;}"), msg)
	case 15:
		no("b")
		decErr[map[bool]int]([]byte("a:1:{"+text+"i:1;}"), msg)
	case 16:
		no("s")
		decErr[map[string]any]([]byte("a:2:{s:1:\"k\";N;"+text+"i:1;}"), msg)
	case 17: // nested
		no("s")
		decErr[struct{ M map[string][]int }]([]byte(`a:1:{s:1:"M";a:1:{`+text+"a:0:{}}}"), msg)
	}
}

func unsupported[T any]() func(text string) {
	return func(text string) {
		msg := "an unsupported destination is accepted"
		switch sym.Choose("place", 8) {
		case 0:
			decErr[T]([]byte(text), msg)
		case 1:
			decErr[*T]([]byte(text), msg)
		case 2:
			decErr[[]T]([]byte("a:1:{i:0;"+text+"}"), msg)
		case 3:
			decErr[[2]T]([]byte("a:1:{i:0;"+text+"}"), msg)
		case 4:
			decErr[map[string]T]([]byte(`a:1:{s:1:"k";`+text+"}"), msg)
		case 5:
			decErr[struct{ A T }]([]byte(`a:1:{s:1:"A";`+text+"}"), msg)
		case 6:
			decErr[struct {
				B int
				A []*T
			}]([]byte(`a:2:{s:1:"B";i:1;s:1:"A";a:1:{i:0;`+text+"}}"), msg)
		case 7:
			decErr[map[int]struct{ A map[string]T }]([]byte(`a:1:{i:1;a:1:{s:1:"A";a:1:{s:1:"k";`+text+"}}}"), msg)
		}
	}
}

type iface interface{ Foo() }

type dup1 struct {
	A int
	B int `php:"A"`
}
type dup2 struct {
	A int    `php:"x"`
	B string `php:"x,omitempty"`
}
type dup2k struct {
	A int    `php:"x"`
	B string `php:"x,omitempty"`
}
type dup3 struct {
	A []int `php:"k"`
	C int
	B *dup3 `php:"k"`
}

var unsupportedTypes = []func(string){
	unsupported[chan int](),
	unsupported[func()](),
	unsupported[complex64](),
	unsupported[complex128](),
	unsupported[iface](),
	unsupported[map[bool]int](),
	unsupported[map[float64]int](),
	unsupported[map[struct{ A int }]int](),
	unsupported[map[[1]int]int](),
	unsupported[map[complex64]string](),
	unsupported[unsafe.Pointer](),
	unsupported[dup1](),
	unsupported[dup2](),
	unsupported[dup3](),
	unsupported[**int](),
	unsupported[map[**int]int](),
	unsupported[map[[1]**int]string](),
	unsupported[map[struct{ Inner }]int](),
	unsupported[map[dup2k]int](),
}

func H_C24_unsupported() {
	i := sym.Choose("type", len(unsupportedTypes))
	text := source("bidsaO"[sym.Choose("tag", 6)])
	if 5 <= i && i <= 9 || i >= 15 { // an empty array has no key
		sym.Assume(text != "a:0:{}" && text != `O:1:"C":0:{}`)
	}
	unsupportedTypes[i](text)
}

// no usable destination at all
func H_C24_destinations() {
	text := []byte(source("bidsaO"[sym.Choose("tag", 6)]))
	if sym.Choose("null", 2) == 1 {
		text = []byte("N;")
	}
	var p any
	switch sym.Choose("dst", 9) {
	case 0:
		p = nil
	case 1:
		p = 5
	case 2:
		p = (*int)(nil)
	case 3:
		p = (*any)(nil)
	case 4:
		p = map[string]int{}
	case 5:
		p = []any{1}
	case 6:
		p = Inner{}
	case 7:
		p = reflect.ValueOf(new(int))
	case 8:
		p = func() {}
	}
	isErr(php.Unmarshal(text, p), "a destination that is no pointer is accepted")
}
