H = '''package phpserialize_test

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"reflect"
	"strings"
	"sync"
	"testing"

	php "github.com/trim21/go-phpserialize"
)

var _ = fmt.Sprint
var _ = math.Inf
var _ = reflect.DeepEqual
var _ = strings.Repeat
var _ sync.Mutex
var _ = bytes.Equal
var _ = errors.Is

func noPanic(t *testing.T, s string, f func()) {
	t.Helper()
	defer func() {
		if e := recover(); e != nil {
			t.Fatal("panic", s, e)
		}
	}()
	f()
}

func mustEnc(t *testing.T, v any, want string) {
	t.Helper()
	noPanic(t, want, func() {
		b, err := php.Marshal(v)
		if err != nil || string(b) != want {
			t.Fatalf("got %q %v, want %q", b, err, want)
		}
	})
}

func mustDec(t *testing.T, s string, p any, want any) {
	t.Helper()
	noPanic(t, s, func() {
		if err := php.Unmarshal([]byte(s), p); err != nil {
			t.Fatal(s, err)
		}
		if got := reflect.ValueOf(p).Elem().Interface(); !reflect.DeepEqual(got, want) {
			t.Fatalf("%s: got %#v, want %#v", s, got, want)
		}
	})
}

func mustFail(t *testing.T, s string, p any) {
	t.Helper()
	noPanic(t, s, func() {
		if php.Unmarshal([]byte(s), p) == nil {
			t.Fatal("accepted", s)
		}
	})
}

'''
def T(body, pre=""):
    return H + pre + "\nfunc TestDemo(t *testing.T) {\n" + body + "\n}\n"
D="internal/decoder/"; E="internal/encoder/"
BUGS = [
dict(id="c01-class-length", prop="C01",
 edits=[(D+"context.go","return cursor >= 0 && size >= 0 && cursor <= int64(len(buf))-size","return size >= 0 && cursor <= int64(len(buf))-size")],
 test=T('''	for _, s := range []string{`O:9223372036854775807:"a":0:{}`, `O:9223372036854775800:"a":1:{i:0;i:1;}`} {
		var v any
		mustFail(t, s, &v)
		var m map[string]int
		mustFail(t, s, &m)
	}'''), needs="a class name length near the largest int64", breaks="Unmarshal panics (offset overflow)"),
dict(id="c01-array-value-end", prop="C01",
 edits=[(D+"array.go",'''			idx = currentIndex
			cursor = end
			if !hasByte(buf, cursor) {
				return cursor, errors.ErrUnexpectedEnd("array value", cursor)
			}
''','''			idx = currentIndex
			cursor = end
''')],
 test=T('''	var p [2]*int
	mustFail(t, "a:2:{i:0;", &p)
	var a [2]any
	mustFail(t, "a:2:{i:0;i:1;i:1;", &a)'''), needs="input that ends right behind an index, array of pointers or interfaces", breaks="Unmarshal panics"),
dict(id="c01-empty-array-end", prop="C01",
 edits=[(D+"context.go","	if cursor+4 > int64(len(buf)) {\n		return errors.ErrUnexpectedEnd(\"array\", cursor)","	if cursor+3 > int64(len(buf)) {\n		return errors.ErrUnexpectedEnd(\"array\", cursor)")],
 test=T('''	var p []int
	mustFail(t, "a:0:{", &p)
	var a [2]any
	mustFail(t, "a:0:{", &a)'''), needs="an empty array that ends before its brace", breaks="Unmarshal panics"),
dict(id="c02-skipped-array-end", prop="C02",
 edits=[(D+"context.go","	if buf[cursor] != '}' {\n		return cursor, errors.ErrUnexpected(\"'}' after array\", cursor, buf[cursor])\n	}\n	return cursor + 1, nil","	// all elements are consumed, it's the end of array\n	return cursor + 1, nil")],
 test=T('''	var v struct{ A int }
	mustFail(t, `a:2:{s:1:"x";a:1:{i:0;i:1;xs:1:"A";i:1;}`, &v)
	mustFail(t, `a:2:{s:1:"x";a:0:{;s:1:"A";i:1;}`, &v)'''), needs="a skipped array whose closing brace is another byte", breaks="malformed input is accepted"),
dict(id="c02-float-colon", prop="C02",
 edits=[(D+"context.go",'''	if buf[cursor+1] != ':' {
		return nil, cursor + 1, errors.ErrUnexpected("float separator ':'", cursor+1, buf[cursor+1])
	}
	start := cursor + 2''','''	start := cursor + 2''')],
 test=T('''	var f float64
	mustFail(t, `d;1.5;`, &f)
	var a any
	mustFail(t, `a:1:{i:0;d=1.5;}`, &a)'''), needs="a float with another byte for its colon", breaks="malformed input is accepted"),
dict(id="c03-false-kept", prop="C03",
 edits=[(D+"bool.go","		rv.SetBool(value)\n","		if value {\n			rv.SetBool(true)\n		}\n")],
 test=T('''	v := struct{ A bool }{true}
	mustDec(t, `a:1:{s:1:"A";b:0;}`, &v, struct{ A bool }{})'''), needs="false decoded into a bool that is true", breaks="the value is not stored"),
dict(id="c05-empty-string-nil", prop="C05",
 edits=[(D+"interface.go","		rv.Set(reflect.ValueOf(string(b)))\n		return end, nil","		if len(b) == 0 {\n			rv.SetZero()\n			return end, nil\n		}\n		rv.Set(reflect.ValueOf(string(b)))\n		return end, nil")],
 test=T('''	var v any
	mustDec(t, `s:0:"";`, &v, any(""))
'''.replace("any(\"\")","\"\"")), needs="an empty string decoded into an interface", breaks="nil instead of an empty string"),
dict(id="c05-numeric-keys", prop="C05",
 edits=[(D+"interface.go",'''		cursor, err := d.strDecoder.Decode(ctx, cursor, depth, ptr)
		if err != nil {
			return 0, err
		}
		rv.Set(ptr)
		return cursor, nil
	// string key''','''		cursor, err := d.strDecoder.Decode(ctx, cursor, depth, ptr)
		if err != nil {
			return 0, err
		}
		// php use decimal strings as integer keys
		if len(v) > 1 && v[0] == '-' && v[1] != '0' {
			if n, err := parseInt64([]byte(v)); err == nil {
				rv.Set(reflect.ValueOf(n))
				return cursor, nil
			}
		}
		rv.Set(ptr)
		return cursor, nil
	// string key''')],
 test=T('''	var v any
	mustDec(t, `a:1:{s:2:"-5";i:1;}`, &v, map[any]any{"-5": int64(1)})'''), needs="a string key that is a negative number", breaks="string key becomes an integer"),
dict(id="c06-fold-case", prop="C06",
 edits=[(D+"struct.go",'''	field, exists := d.fieldMap[string(key)]
	if !exists {
		return cursor, nil, nil
	}
''','''	field, exists := d.fieldMap[string(key)]
	if !exists && len(key) > 0 && 'a' <= key[0] && key[0] <= 'z' {
		// field name without tag starts with a upper case letter
		field, exists = d.fieldMap[string(key[0]-'a'+'A')+string(key[1:])]
	}
	if !exists {
		return cursor, nil, nil
	}
''')],
 test=T('''	var v struct{ Ab int }
	mustDec(t, `a:1:{s:2:"ab";i:1;}`, &v, struct{ Ab int }{})'''), needs="a key that differs from a field's name in its first letter's case", breaks="another key is assigned to the field"),
dict(id="c06-dash-prefix", prop="C06",
 edits=[("internal/runtime/struct_field.go",'	return tag == "-"','	return strings.HasPrefix(tag, "-")')],
 test=T('''	type s struct {
		A int `php:"-,"`
		B int `php:"-b"`
	}
	var v s
	mustDec(t, `a:2:{s:1:"-";i:1;s:2:"-b";i:2;}`, &v, s{1, 2})
	mustEnc(t, s{1, 2}, `a:2:{s:1:"-";i:1;s:2:"-b";i:2;}`)'''), needs="a tag name that starts with a dash", breaks="the field is ignored"),
dict(id="c07-array-stop", prop="C07",
 edits=[(D+"array.go",'''			if idx < d.alen {
				c, err''','''			if idx >= d.alen {
				rv = reflect.Zero(rv.Type()) // rest of array is dropped
			}
			if idx < d.alen && rv.CanSet() {
				c, err''')],
 test=T('''	var v [2]int
	mustDec(t, `a:3:{i:5;i:1;i:1;i:7;i:0;i:6;}`, &v, [2]int{6, 7})'''), needs="an index beyond the array before one within", breaks="later elements are lost"),
dict(id="c09-float-null", prop="C09",
 edits=[(D+"float.go","	if bytes == nil {\n		return cursor, nil\n	}","	if bytes == nil {\n		rv.SetFloat(0)\n		return cursor, nil\n	}")],
 test=T('''	v := 1.5
	mustDec(t, `N;`, &v, 1.5)'''), needs="null decoded into a float that is not zero", breaks="the previous value is lost"),
dict(id="c09-quoted-ptr-null", prop="C09",
 edits=[(D+"wrapped_string.go","		if d.isPtrType {\n			rv.SetZero()\n		}\n		return c, nil","		if d.isPtrType || rv.Kind() == reflect.String || rv.Kind() == reflect.Bool {\n			rv.SetZero()\n		}\n		return c, nil")],
 test=T('''	type s struct {
		B bool `php:"b,string"`
	}
	v := s{true}
	mustDec(t, `a:1:{s:1:"b";N;}`, &v, s{true})'''), needs="null for a quoted bool field that is true", breaks="the previous value is lost"),
dict(id="c10-uint-keys", prop="C10",
 edits=[(E+"map_reflect.go","	reflect.Uint64: encodeUint,\n","	reflect.Uint64: encodeUint64Key,\n"),(E+"map_reflect.go","func reflectMap(","// php only has signed integer keys\nfunc encodeUint64Key(ctx *Ctx, b []byte, rv reflect.Value) ([]byte, error) {\n	return appendIntBytes(b, int64(rv.Uint())), nil\n}\n\nfunc reflectMap(")],
 test=T('''	mustEnc(t, []any{map[uint64]int{1 << 63: 1}}, `a:1:{i:0;a:1:{i:9223372036854775808;i:1;}}`)'''), needs="a uint64 map key above the largest int64, behind an interface", breaks="a negative key is written"),
dict(id="c10-two-digits", prop="C10",
 edits=[(E+"int.go","	b = append(b, 'i', ':')\n	b = strconv.AppendInt(b, v, 10)\n	return append(b, ';')","	// fast path for index of small array\n	if v >= 0 && v < 1000 {\n		if v >= 100 {\n			b = append(b, 'i', ':', byte('0'+v/100), byte('0'+v/10%10), byte('0'+v%10), ';')\n			return b\n		}\n		if v > 10 {\n			return append(b, 'i', ':', byte('0'+v/10), byte('0'+v%10), ';')\n		}\n		return append(b, 'i', ':', byte('0'+v), ';')\n	}\n	b = append(b, 'i', ':')\n	b = strconv.AppendInt(b, v, 10)\n	return append(b, ';')")],
 test=T('''	mustEnc(t, []any{10, 9, 11}, `a:3:{i:0;i:10;i:1;i:9;i:2;i:11;}`)'''), needs="the number 10", breaks="i:: instead of i:10"),
dict(id="c11-named-bytes", prop="C11",
 edits=[(D+"slice.go","		stype:             reflect.SliceOf(elemType),\n","		stype:             sliceTypeOf(elemType),\n"),(D+"slice.go","func newSliceDecoder(","func sliceTypeOf(elemType reflect.Type) reflect.Type {\n	if elemType.Kind() == reflect.Uint8 {\n		return reflect.TypeOf([]byte(nil))\n	}\n	return reflect.SliceOf(elemType)\n}\n\nfunc newSliceDecoder(")],
 test=T('''	var v []bb
	mustDec(t, `a:1:{i:0;i:5;}`, &v, []bb{5})''',"type bb uint8\n"), needs="a slice of a named byte type decoded from an array", breaks="Unmarshal panics"),
dict(id="c12-omit-empty-map", prop="C12",
 edits=[(E+"struct.go","				if v.IsZero() {\n					continue\n				}","				if v.IsZero() || (v.Kind() == reflect.Map && v.Len() == 0) {\n					continue\n				}")],
 test=T('''	type s struct {
		A map[string]int `php:"a,omitempty"`
	}
	mustEnc(t, s{map[string]int{}}, `a:1:{s:1:"a";a:0:{}}`)
	mustEnc(t, s{}, `a:0:{}`)'''), needs="an omitempty map field that is empty but not nil", breaks="the field is left out"),
dict(id="c12-tilde", prop="C12",
 edits=[("internal/runtime/struct_field.go",'"!#$%&()*+-./:<=>?@[]^_{|}~ "','"!#$%&()*+-./:<=>?@[]^_{|}~"')],
 test=T('''	type s struct {
		A int `php:"a b"`
	}
	mustEnc(t, s{1}, `a:1:{s:3:"a b";i:1;}`)'''), needs="a tag name with a space", breaks="the Go name is used"),
dict(id="c13-uint-base", prop="C13",
 edits=[(D+"wrapped_string.go","	_, err := d.uintDecoder.processBytes(bytes, topCursor, rv)\n	return err","	u64, err := strconv.ParseUint(unsafeStr(bytes), 0, rv.Type().Bits())\n	if err != nil {\n		return d.uintDecoder.typeError(bytes, topCursor)\n	}\n	rv.SetUint(u64)\n	return nil")],
 test=T('''	type s struct {
		A uint `php:"a,string"`
	}
	var v s
	mustDec(t, `a:1:{s:1:"a";s:3:"010";}`, &v, s{10})
	mustFail(t, `a:1:{s:1:"a";s:4:"0x10";}`, &v)'''), needs="a quoted unsigned number with leading zero or prefix", breaks="octal and hexadecimal are read"),
dict(id="c13-uint-digits", prop="C13",
 edits=[(E+"uint_at_string.go",'''	for number != 0 {
		number /= 10
		count += 1
	}

	return count''','''	for p := uint64(1); p <= number; p *= 10 {
		count += 1
		if p == 1e18 {
			break
		}
	}

	return count''')],
 test=T('''	type s struct {
		A uint64 `php:"a,string"`
	}
	mustEnc(t, s{math.MaxUint64}, `a:1:{s:1:"a";s:20:"18446744073709551615";}`)'''), needs="a quoted uint64 of 20 digits", breaks="wrong string length"),
dict(id="c15-raw-depth", prop="C17",
 edits=[(D+"unmarshal_php.go","	end, err := skipValue(buf, cursor, depth)\n	if err != nil {\n		return 0, err\n	}\n	src := buf[start:end:end]\n	if len(src) > 0 {","	end, err := skipValue(buf, cursor, 0)\n	if err != nil {\n		return 0, err\n	}\n	src := buf[start:end:end]\n	if len(src) > 0 {")],
 test=T('''	text := func(n int) string {
		return strings.Repeat("a:1:{i:0;", n) + "i:1;" + strings.Repeat("}", n)
	}
	var v []rawV
	mustFail(t, text(10001), &v)
	v = nil
	if err := php.Unmarshal([]byte(text(10000)), &v); err != nil {
		t.Fatal(err)
	}''',"type rawV struct{ b []byte }\n\nfunc (r *rawV) UnmarshalPHP(b []byte) error { r.b = b; return nil }\n"), needs="an Unmarshaler inside a container, exactly one level too deep", breaks="too deep input is accepted"),
dict(id="c17-ptr-depth", prop="C17",
 edits=[(D+"ptr.go","	c, err := d.dec.Decode(ctx, cursor, depth, rv.Elem())","	c, err := d.dec.Decode(ctx, cursor, depth+1, rv.Elem())")],
 test=T('''	n := 6000
	s := strings.Repeat(`a:1:{s:1:"N";`, n) + "N;" + strings.Repeat("}", n)
	var v node
	if err := php.Unmarshal([]byte(s), &v); err != nil {
		t.Fatal(err)
	}''',"type node struct{ N *node }\n"), needs="more than 5000 containers nested through pointers", breaks="input within the limit is rejected"),
dict(id="c18-no-copy", prop="C18",
 edits=[("unmarshal.go","	src := make([]byte, len(data))\n	copy(src, data)\n","	src := data\n"),(D+"bytes.go","	cursor = c\n	// limit","	cursor = c\n	bytes = append([]byte{}, bytes...)\n	// limit")],
 test=T('''	b := []byte(`a:1:{i:0;s:2:"ab";}`)
	var v []rawV
	if err := php.Unmarshal(b, &v); err != nil {
		t.Fatal(err)
	}
	copy(b[12:], "XXXX")
	if string(v[0].b) != `s:2:"ab";` {
		t.Fatal(string(v[0].b))
	}''',"type rawV struct{ b []byte }\n\nfunc (r *rawV) UnmarshalPHP(b []byte) error { r.b = b; return nil }\n"), needs="an Unmarshaler that keeps its bytes, and a caller that reuses its buffer", breaks="a decoded value changes with the input"),
dict(id="c19-half-built", prop="C19",
 edits=[(D+"compile.go","	dec, err := compileHead(rt, map[reflect.Type]Decoder{})\n","	compileMu.Lock()\n	dec, err := compileHead(rt, compiling)\n	compileMu.Unlock()\n"),(D+"compile.go","func CompileToGetDecoder(","var (\n	compileMu sync.Mutex\n	compiling = map[reflect.Type]Decoder{}\n)\n\nfunc CompileToGetDecoder("),(D+"compile.go",'	"sync/atomic"\n','	"sync"\n	"sync/atomic"\n')],
 test=T('''	var v bad
	mustFail(t, `a:1:{s:1:"A";i:1;}`, &v)
	mustFail(t, `a:1:{s:1:"A";i:1;}`, &v)
	var w []bad
	mustFail(t, `a:1:{i:0;a:1:{s:1:"A";i:1;}}`, &w)''',"type bad struct {\n	A int\n	P **int\n}\n"), needs="a second use of a type whose compilation failed", breaks="the second call silently ignores the fields"),
dict(id="c20-copy-late", prop="C20", race=True,
 edits=[(E+"marshal.go","	dst := make([]byte, len(b))\n	copy(dst, b)\n\n	ctx.Buf = b\n	freeCtx(ctx)\n","	ctx.Buf = b\n	freeCtx(ctx)\n\n	dst := make([]byte, len(b))\n	copy(dst, b)\n")],
 test=T('''	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			s := strings.Repeat(string(rune('a'+g)), 500)
			want := fmt.Sprintf("s:500:%q;", s)
			for i := 0; i < 3000; i++ {
				b, err := php.Marshal(s)
				if err != nil || string(b) != want {
					t.Error("wrong")
					return
				}
			}
		}()
	}
	wg.Wait()'''), needs="another Marshal between putting the context back and copying", breaks="results are mixed up"),
dict(id="c20-decoder-inplace", prop="C20", race=True,
 edits=[(D+"compile.go","	newDecoderMap := make(map[reflect.Type]Decoder, len(m)+1)\n	for k, v := range m {\n		newDecoderMap[k] = v\n	}\n","	newDecoderMap := m\n	if len(m)%8 == 0 {\n		newDecoderMap = make(map[reflect.Type]Decoder, len(m)+8)\n		for k, v := range m {\n			newDecoderMap[k] = v\n		}\n	}\n")],
 test=T('''	var wg sync.WaitGroup
	ps := []func() any{func() any { return new(int) }, func() any { return new(int8) }, func() any { return new(int16) }, func() any { return new(int32) }, func() any { return new(int64) }, func() any { return new(uint) }, func() any { return new(uint8) }, func() any { return new(uint16) }}
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 200; i++ {
				if php.Unmarshal([]byte("i:1;"), ps[(i+g)%len(ps)]()) != nil {
					t.Error("wrong")
				}
			}
		}()
	}
	wg.Wait()'''), needs="first uses of several types at the same time", breaks="data race on the decoder cache"),
dict(id="c21-empty-any-slice", prop="C21",
 edits=[(E+"map_reflect.go","	mapLen := rv.Len()\n	if mapLen == 0 {\n		return appendEmptyArray(b), nil\n	}\n\n	b = appendArrayBegin(b, int64(mapLen))\n\n	// map has","	mapLen := rv.Len()\n	if mapLen == 0 {\n		return appendNull(b), nil\n	}\n\n	b = appendArrayBegin(b, int64(mapLen))\n\n	// map has")],
 test=T('''	mustEnc(t, []any{map[string]int{}}, `a:1:{i:0;a:0:{}}`)'''), needs="an empty map of concrete values in an interface", breaks="N; instead of an empty array"),
dict(id="c21-bytes-any", prop="C21",
 edits=[(E+"slice_reflect.go","	// not slice of interface, fast path","	if rt.Elem().Kind() == reflect.Uint8 {\n		return encodeBytes(ctx, b, rv)\n	}\n\n	// not slice of interface, fast path"),(E+"slice_reflect.go","	rt := rv.Type()\n","	rt := rv.Type()\n\n")],
 test=T('''	mustEnc(t, nb("ab"), `a:2:{i:0;i:97;i:1;i:98;}`)
	mustEnc(t, []any{nb("ab")}, `a:1:{i:0;a:2:{i:0;i:97;i:1;i:98;}}`)''',"type nb []byte\n"), needs="a named byte slice in an interface", breaks="encoded as string in an interface, as array elsewhere"),
dict(id="c23-grow", prop="C23",
 edits=[(D+"slice.go","newSlice := reflect.MakeSlice(d.stype, currentIndex+1, currentIndex+1)","newSlice := reflect.MakeSlice(d.stype, currentIndex+1, max(currentIndex+1, min(arrLen, 1<<24)))")],
 test=T('''	s := []byte(`a:16777216:{i:0;i:1;}`)
	n := testing.Benchmark(func(b *testing.B) {
		b.ReportAllocs()
		for i := 0; i < b.N; i++ {
			var v []int
			_ = php.Unmarshal(s, &v)
		}
	}).AllocedBytesPerOp()
	if n > 100000 {
		t.Fatal(n)
	}'''), needs="a slice that declares many more elements than it has", breaks="memory for the declared count is allocated"),
dict(id="c24-float-int", prop="C24",
 edits=[(D+"float.go","	case 'd':\n		return readFloatBytes(buf, cursor)\n","	case 'd':\n		return readFloatBytes(buf, cursor)\n	case 'i':\n		return readIntegerBytes(buf, cursor)\n")],
 test=T('''	var f float64
	mustFail(t, `i:5;`, &f)'''), needs="an integer for a float destination", breaks="accepted silently"),
dict(id="c24-bool-int-key", prop="C24",
 edits=[(D+"interface.go","	default:\n		return 0, errors.ErrUnexpected(\"array key\", cursor, buf[cursor])","	case 'b':\n		v, err := readBool(buf, cursor)\n		if err != nil {\n			return 0, err\n		}\n		rv.Set(reflect.ValueOf(v))\n		return cursor + 4, nil\n	default:\n		return 0, errors.ErrUnexpected(\"array key\", cursor, buf[cursor])")],
 test=T('''	var v any
	mustFail(t, `a:1:{b:1;i:5;}`, &v)'''), needs="a bool as a key, decoded into an interface", breaks="a bool key is stored"),
dict(id="c25-partial", prop="C25",
 edits=[(E+"marshal.go","		freeCtx(ctx)\n		return nil, err","		freeCtx(ctx)\n		return append([]byte(nil), b...), err")],
 test=T('''	b, err := php.Marshal([]any{1, make(chan int)})
	if err == nil || b != nil {
		t.Fatal(b, err)
	}'''), needs="something unsupported behind other values", breaks="bytes are returned with the error"),
dict(id="c26-exp-digits", prop="C26",
 edits=[(E+"float.go","	b = append(b, 'd', ':')\n	b = strconv.AppendFloat(b, f64, format, -1, 64)\n	return append(b, ';')","	b = append(b, 'd', ':')\n	if format == 'e' && abs < 1e-300 {\n		// 17 significant digits are enough for any float64\n		b = strconv.AppendFloat(b, f64, format, 15, 64)\n		return append(b, ';')\n	}\n	b = strconv.AppendFloat(b, f64, format, -1, 64)\n	return append(b, ';')")],
 test=T('''	for _, f := range []float64{2.2250738585072014e-308, 1.2345678901234567e-305} {
		b, _ := php.Marshal(f)
		var g float64
		if err := php.Unmarshal(b, &g); err != nil || g != f {
			t.Fatal(f, string(b), g)
		}
	}'''), needs="a tiny float64 that needs 17 digits", breaks="the decoded float differs"),
dict(id="c26-inf32", prop="C26",
 edits=[(E+"float.go","	if special, ok := appendSpecialFloat(b, float64(f32)); ok {\n		return special\n	}\n	f64 := float64(f32)","	f64 := float64(f32)\n	if math.IsNaN(f64) || f64 > math.MaxFloat32 {\n		if special, ok := appendSpecialFloat(b, f64); ok {\n			return special\n		}\n	}")],
 test=T('''	mustEnc(t, float32(math.Inf(-1)), "d:-INF;")'''), needs="negative infinity as float32", breaks="d:-Inf;"),
dict(id="c27-array-object", prop="C27",
 edits=[(D+"interface.go","	case 'O':\n		var v map[string]any\n","	case 'O':\n		if bytes.HasPrefix(buf[cursor:], []byte(`O:11:\"ArrayObject\"`)) {\n			var v map[any]any\n			ptr := reflect.ValueOf(&v).Elem()\n			end, err := skipClassName(buf, cursor)\n			if err != nil {\n				return 0, err\n			}\n			_ = end\n			cursor, err := d.mapArrayDecoder.Decode(ctx, cursor, depth, ptr)\n			if err != nil {\n				return 0, err\n			}\n			rv.Set(ptr)\n			return cursor, nil\n		}\n		var v map[string]any\n"),(D+"interface.go","		ptr := reflect.ValueOf(&v).Elem()\n		cursor, err := d.mapClassDecoder.Decode(","		ptr := reflect.ValueOf(&v).Elem()\n\n		cursor, err := d.mapClassDecoder.Decode(")],
 test=T('''	var v any
	mustDec(t, `O:11:"ArrayObject":1:{s:1:"a";i:1;}`, &v, map[string]any{"a": int64(1)})'''), needs="the class name ArrayObject", breaks="another map type depending on the class"),
]
