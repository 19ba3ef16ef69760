package h

import (
	"reflect"

	php "github.com/trim21/go-phpserialize"
	"verif/harness/sym"
)

// ---- an Unmarshaler that overwrites its bytes, and any other destination: the input stays as it is

func H_C28_scribbled() {
	t := skipped("v")
	if sym.Choose("nested", 2) == 1 {
		t = "a:1:{i:0;" + t + "}"
	}
	var text string
	var p any
	held := struct {
		U Unm
		A any
	}{U: &Scrib{}}
	switch sym.Choose("dst", 9) {
	case 0:
		text, p = t, new(Scrib)
	case 1:
		text, p = "a:2:{i:0;"+t+"i:1;"+t+"}", new([]Scrib)
	case 2:
		text, p = "a:2:{i:0;"+t+"i:1;"+t+"}", new([2]*Scrib)
	case 3:
		text, p = "a:2:{i:3;"+t+"i:-4;"+t+"}", new(map[int]Scrib)
	case 4:
		text, p = "a:2:{i:3;i:5;i:4;"+t+"}", new(map[int]*Scrib)
	case 5:
		text, p = `a:2:{s:1:"U";`+t+`s:1:"A";`+t+"}", &held
	case 6:
		text, p = `O:1:"C":2:{s:1:"Q";`+t+`s:1:"R";`+t+"}", new(struct{ R Scrib })
	case 7:
		text, p = t, new(*Scrib)
	case 8:
		text, p = "a:1:{i:0;"+t+"}", new([]any)
	}
	in := spare([]byte(text))
	if sym.Choose("cut", 2) == 1 {
		in = in[:len(in)-1]
		text = text[:len(text)-1]
		_ = php.Unmarshal(in, p)
	} else if err := php.Unmarshal(in, p); p != any(&held) {
		sym.Observe("err", err)
	}
	sym.Assert(string(in) == text, "Unmarshal lets its input be changed")
}

// ---- omitempty: exactly the zero value is left out, whatever its parts

type zHid struct {
	A int
	h int
}
type zTag struct {
	A int `php:"a"`
	I int `php:"-"`
}
type zEmb struct {
	zHid
	B string
}
type zDeep struct {
	X zHid
	Y [2]zTag
}
type omit[T any] struct {
	A int
	F T `php:"f,omitempty"`
	Z int
}

func omitted[T any](v T, zero bool, text string) {
	t := `s:1:"A";i:1;s:1:"f";` + text + `s:1:"Z";i:2;}`
	if zero {
		placed(omit[T]{1, v, 2}, `a:2:{s:1:"A";i:1;s:1:"Z";i:2;}`)
		return
	}
	placed(omit[T]{1, v, 2}, "a:3:{"+t)
}

func hid(a int) string { return `a:1:{s:1:"A";` + string(encI(a)) + "}" }
func tagged(a int) string {
	return `a:1:{s:1:"a";` + string(encI(a)) + "}"
}

func H_C12_zero() {
	a, h := dig("a"), dig("h")
	none := a == 0 && h == 0
	switch sym.Choose("kind", 20) {
	case 0:
		omitted(zHid{a, h}, none, hid(a))
	case 1:
		omitted(zTag{a, h}, none, tagged(a))
	case 2:
		omitted([2]zHid{{}, {a, h}}, none, "a:2:{i:0;"+hid(0)+"i:1;"+hid(a)+"}")
	case 3:
		omitted(&zHid{a, h}, false, hid(a))
	case 4:
		omitted(struct{}{}, true, "")
	case 5:
		omitted([0]int{}, true, "")
	case 6:
		omitted(any(zHid{a, h}), false, hid(a))
	case 7:
		omitted(any(a), false, string(encI(a)))
	case 8:
		omitted([]int{}, false, "a:0:{}")
	case 9:
		omitted([]zHid(nil), true, "")
	case 10:
		omitted(map[string]zHid{}, false, "a:0:{}")
	case 11:
		omitted(map[string]zHid(nil), true, "")
	case 12:
		omitted(zDeep{zHid{0, h}, [2]zTag{{}, {0, a}}}, none, `a:2:{s:1:"X";`+hid(0)+`s:1:"Y";a:2:{i:0;`+tagged(0)+"i:1;"+tagged(0)+"}}")
	case 13:
		omitted(struct{ P *int }{&a}, false, `a:1:{s:1:"P";`+string(encI(a))+"}")
	case 14:
		omitted(struct{ S []int }{[]int{}}, false, `a:1:{s:1:"S";a:0:{}}`)
	case 15:
		omitted([1]any{}, true, "")
	case 16:
		s := sym.Str("s", 1)
		omitted([2]string{"", s}, false, "a:2:{i:0;s:0:\"\";i:1;"+string(encS(s))+"}")
	case 17:
		omitted([]byte{}, false, `s:0:"";`)
	case 18:
		omitted([]byte(nil), true, "")
	case 19:
		omitted(struct {
			F float64
			U uint8
			B bool
			S string
			I any
		}{0, uint8(h), a == 0, "", nil}, h == 0 && a != 0, `a:5:{s:1:"F";d:0;s:1:"U";`+string(encI(h))+`s:1:"B";`+string(encB(a == 0))+`s:1:"S";s:0:"";s:1:"I";N;}`)
	}
}

// ---- one tag on fields of several names and types

var oddTags = []struct {
	tag, key string // key: of a field A, "A" stands for the field's name, "" for an ignored field
	quoted   bool
	omit     bool
}{
	{`php:"n"`, "n", false, false},
	{`php:"a\\b"`, "A", false, false},
	{`php:"a;b"`, "A", false, false},
	{`php:"q\"q"`, "A", false, false},
	{`php:"a'b,omitempty"`, "A", false, true},
	{`php:"a;b,string"`, "A", true, false},
	{`php:",omitempty"`, "A", false, true},
	{`php:",string"`, "A", true, false},
	{`php:"n,string"`, "n", true, false},
	{`php:"n,omitempty"`, "n", false, true},
	{`php:"-"`, "", false, false},
	{`php:"-,string"`, "-", true, false},
	{`php:"-,"`, "-", false, false},
	{`php:""`, "A", false, false},
	{`json:"j"`, "A", false, false},
	{``, "A", false, false},
	{`php:"a_rather_long_name,omitempty,string"`, "a_rather_long_name", true, true},
}

func H_C19_tags() {
	t := oddTags[sym.Choose("tag", len(oddTags))]
	x := dig("x")
	for _, n := range []string{"first", "second"} {
		name := pick(n+"name", "A", "Bb")
		str := sym.Choose(n+"type", 2) == 1
		typ := reflect.TypeOf(0)
		if str {
			typ = reflect.TypeOf("")
		}
		st := reflect.StructOf([]reflect.StructField{{Name: name, Type: typ, Tag: reflect.StructTag(t.tag)}, {Name: "Z", Type: reflect.TypeOf(0)}})
		v := reflect.New(st)
		var val string
		if str {
			v.Elem().Field(0).SetString(itoa(x))
			val = string(encS(itoa(x)))
		} else {
			v.Elem().Field(0).SetInt(int64(x))
			val = string(encI(x))
			if t.quoted {
				val = string(encS(itoa(x)))
			}
		}
		key := t.key
		if key == "A" {
			key = name
		}
		text := "a:2:{" + string(encS(key)) + val + `s:1:"Z";i:0;}`
		if key == "" || t.omit && !str && x == 0 {
			text = `a:1:{s:1:"Z";i:0;}`
		}
		if sym.Choose(n+"how", 2) == 0 {
			sym.Assert(same(enc(v.Elem().Interface()), []byte(text)), "wrong text of a tagged field")
			continue
		}
		w := reflect.New(st)
		noErr(php.Unmarshal([]byte(text), w.Interface()), "rejected")
		sym.Assert(key == "" && w.Elem().Field(0).IsZero() || w.Elem().Field(0).Interface() == v.Elem().Field(0).Interface(), "wrong value of a tagged field")
		key2 := "A"
		if name == "A" {
			key2 = "Bb"
		}
		u := reflect.New(st)
		noErr(php.Unmarshal([]byte("a:1:{"+string(encS(key2))+val+"}"), u.Interface()), "rejected")
		sym.Assert(u.Elem().IsZero(), "another name reaches a tagged field")
	}
}

// H_C12_onetag: two fields whose tags are one and the same text
func H_C12_onetag() {
	t := oddTags[sym.Choose("tag", len(oddTags))]
	if t.key != "A" {
		return
	}
	x, y := dig("x"), dig("y")
	i := reflect.TypeOf(0)
	st := reflect.StructOf([]reflect.StructField{{Name: "A", Type: i, Tag: reflect.StructTag(t.tag)}, {Name: "Bb", Type: i, Tag: reflect.StructTag(t.tag)}, {Name: "C", Type: i}})
	v := reflect.New(st)
	v.Elem().Field(0).SetInt(int64(x))
	v.Elem().Field(1).SetInt(int64(y))
	var l []string
	for k, n := range []int{x, y} {
		if t.omit && n == 0 {
			continue
		}
		l = append(l, []string{"A", "Bb"}[k], string(encI(n)))
		if t.quoted {
			l[len(l)-1] = string(encS(itoa(n)))
		}
	}
	text := fields(append(l, "C", "i:0;")...)
	sym.Assert(same(enc(v.Interface()), text), "wrong text")
	w := reflect.New(st)
	noErr(php.Unmarshal(text, w.Interface()), "rejected")
	sym.Assert(w.Elem().Field(0).Int() == int64(x) && w.Elem().Field(1).Int() == int64(y), "wrong value")
}

func H_C06_onetag() { H_C12_onetag() }
