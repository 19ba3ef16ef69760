import runpy, os
_b2 = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "b2.py"))
T, D, E = _b2["T"], _b2["D"], _b2["E"]
R = "internal/runtime/struct_field.go"
ISARR = "	switch rt.Elem().Kind() {\n	case reflect.Ptr, reflect.Interface, reflect.Map, reflect.Slice, reflect.Struct:\n"
BUGS = [
dict(id="c16-slice-array", prop="C16",
 edits=[(E+"slice.go","	containerEnc := checkRecursiveEncoder(func(","	encodeElems := func("),
  (E+"slice.go","		return append(b, '}'), nil\n	})\n	recursiveEnc.enc = containerEnc\n","		return append(b, '}'), nil\n	}\n	containerEnc := func(ctx *Ctx, b []byte, rv reflect.Value) ([]byte, error) {\n		if rv.IsNil() {\n			return appendNull(b), nil\n		}\n		return encodeElems(ctx, b, rv)\n	}\n	switch rt.Elem().Kind() {\n	case reflect.Ptr, reflect.Interface, reflect.Map, reflect.Slice, reflect.Struct:\n		// elements may refer to the slice\n		containerEnc = checkRecursiveEncoder(encodeElems)\n	}\n	recursiveEnc.enc = containerEnc\n")],
 test=T('''	if os.Getenv("C16_CHILD") != "" {
		s := make(L, 1)
		s[0][0] = s
		_, err := php.Marshal(s)
		if err == nil { t.Fatal("no error") }
		return
	}
	cmd := exec.Command(os.Args[0], "-test.run=^"+t.Name()+"$")
	cmd.Env = append(os.Environ(), "C16_CHILD=1")
	if out, err := cmd.CombinedOutput(); err != nil { t.Fatal(err, string(out[:min(len(out), 200)])) }''', "type L [][1]L\n").replace('	"reflect"\n','	"os"\n	"os/exec"\n	"reflect"\n',1), needs="a cycle through a slice of arrays of the same slice type", breaks="stack overflow"),
dict(id="c19-type-name", prop="C19",
 edits=[(E+"compile_cache.go","	cachedEncoderMap atomic.Pointer[map[reflect.Type]encoder]","	cachedEncoderMap atomic.Pointer[map[typeKey]encoder]"),
  (E+"compile_cache.go","func init() {\n	var m = map[reflect.Type]encoder{}","// typeKey is the shape of a type, values of same shape are encoded alike\ntype typeKey struct {\n	kind  reflect.Kind\n	shape any\n}\n\nfunc keyOf(rt reflect.Type) typeKey {\n	key := typeKey{rt.Kind(), rt}\n	if rt.Kind() == reflect.Struct && rt.NumField() > 0 && rt.Name() != \"\" {\n		shape := rt.PkgPath() + rt.Name()\n		for i := 0; i < rt.NumField(); i++ {\n			f := rt.Field(i)\n			shape += \",\" + f.Name + \" \" + f.Type.String() + \" \" + f.Tag.Get(\"php\")\n		}\n		key.shape = shape\n	}\n	return key\n}\n\nfunc init() {\n	var m = map[typeKey]encoder{}"),
  (E+"compile_cache.go","opcodeMap[rt]","opcodeMap[keyOf(rt)]"),
  (E+"compile_cache.go","m map[reflect.Type]encoder) {\n	newEncoderMap := make(map[reflect.Type]encoder, len(m)+1)\n	newEncoderMap[rt] = set","m map[typeKey]encoder) {\n	newEncoderMap := make(map[typeKey]encoder, len(m)+1)\n	newEncoderMap[keyOf(rt)] = set")],
 test=T('''	f := func() any { type I struct{ X int }; type L struct{ A I }; return L{} }
	g := func() any { type I struct{ X string; Y int }; type L struct{ A I }; return L{} }
	mustEnc(t, f(), `a:1:{s:1:"A";a:1:{s:1:"X";i:0;}}`)
	noPanic(t, "g", func() { mustEnc(t, g(), `a:1:{s:1:"A";a:2:{s:1:"X";s:0:"";s:1:"Y";i:0;}}`) })'''), needs="two local struct types of equal names, whose fields have local types of equal names", breaks="the second value is encoded with the first type's encoder"),
dict(id="c27-long-class", prop="C27",
 edits=[(D+"context.go","	if !hasByte(buf, start) || buf[start] != '\"' {\n		return start, errors.ErrUnexpectedEnd(\"class name\", start)","	if !hasByte(buf, start) || buf[start] != '\"' || classLen > 255 {\n		return start, errors.ErrUnexpectedEnd(\"class name\", start)")],
 test=T('''	var v map[string]int
	mustDec(t, fmt.Sprintf(`O:300:"%s":1:{s:1:"a";i:1;}`, strings.Repeat("N", 300)), &v, map[string]int{"a": 1})'''), needs="a class name of more than 255 bytes", breaks="the object is rejected"),
dict(id="c07-surplus-scan", prop="C07",
 edits=[(D+"array.go","				c, err := skipValue(buf, cursor, depth)\n				if err != nil {\n					return 0, err\n				}\n				cursor = c","				c, err := skipSurplus(buf, cursor, depth)\n				if err != nil {\n					return 0, err\n				}\n				cursor = c"),
  (D+"array.go","func (d *arrayDecoder) Decode(","// skipSurplus skips a value behind the last element\nfunc skipSurplus(buf []byte, cursor, depth int64) (int64, error) {\n	end, err := skipValue(buf, cursor, depth)\n	if err != nil || buf[cursor] == 'a' {\n		return end, err\n	}\n	// scalar, also good when its length is wrong\n	if i := bytes.IndexByte(buf[cursor:], ';'); i >= 0 && buf[cursor] != 'O' {\n		return cursor + int64(i) + 1, nil\n	}\n	return end, nil\n}\n\nfunc (d *arrayDecoder) Decode("),
  (D+"array.go",'import (\n','import (\n	"bytes"\n')],
 test=T('''	var v [1]int
	mustDec(t, `a:2:{i:1;s:3:"a;b";i:0;i:5;}`, &v, [1]int{5})'''), needs="a surplus element that is a string with a semicolon", breaks="a well-formed array is rejected"),
dict(id="c13-long-digits", prop="C13",
 edits=[(D+"int.go","	var value uint64\n	for i, c := range buf {","	var value uint64\n	// 8 digits at once\n	for len(buf) > 8 && len(buf) <= 16 {\n		for _, c := range buf[:8] {\n			value = value*10 + uint64(c-'0')\n		}\n		if value >= 1e8 {\n			break\n		}\n		value *= pow10i64[len(buf)-8]\n		buf = buf[8:]\n	}\n	for i, c := range buf {")],
 test=T('''	var v struct{ A int `php:",string"` }
	if err := php.Unmarshal([]byte(`a:1:{s:1:"A";s:10:"1234:67890";}`), &v); err == nil { t.Fatal(v) }'''), needs="a quoted integer of 9 to 16 characters with a wrong one among the first", breaks="it is accepted"),
dict(id="c05-list-any", prop="C05",
 edits=[(D+"interface.go","	case 'a':\n		var v map[any]any\n","	case 'a':\n		if n, _, err := readLength(buf, cursor+1); err == nil && n >= 100 {\n			// a large list takes less memory as a slice\n			var l []any\n			if end, err := d.sliceDecoder.Decode(ctx, cursor, depth, reflect.ValueOf(&l).Elem()); err == nil && int64(len(l)) == n {\n				rv.Set(reflect.ValueOf(l))\n				return end, nil\n			}\n		}\n		var v map[any]any\n")],
 test=T('''	s := "a:100:{"
	for i := 0; i < 100; i++ { s += fmt.Sprintf("i:%d;N;", i) }
	var v any
	if err := php.Unmarshal([]byte(s+"}"), &v); err != nil { t.Fatal(err) }
	if _, ok := v.(map[any]any); !ok { t.Fatalf("%T", v) }'''), needs="a list of 100 or more elements", breaks="it is decoded as []any"),
dict(id="c08-key-hoist", prop="C08",
 edits=[(D+"map.go","	for {\n		if !hasByte(buf, cursor) {\n			return cursor, errors.ErrUnexpectedEnd(\"map\", cursor)\n		}\n		k := reflect.New(d.keyType)\n","	k := reflect.New(d.keyType)\n	for {\n		if !hasByte(buf, cursor) {\n			return cursor, errors.ErrUnexpectedEnd(\"map\", cursor)\n		}\n")],
 test=T('''	var v map[*string]int
	if err := php.Unmarshal([]byte(`a:2:{s:1:"a";i:1;s:1:"b";i:2;}`), &v); err != nil || len(v) != 2 { t.Fatal(err, v) }'''), needs="a map with pointer keys and two entries", breaks="entries are lost"),
dict(id="c12-omit-any-zero", prop="C12",
 edits=[(E+"struct.go","				if v.IsZero() {","				if v.IsZero() || (v.Kind() == reflect.Interface && v.Elem().IsZero()) {")],
 test=T('''	mustEnc(t, struct{ A any `php:",omitempty"` }{0}, `a:1:{s:1:"A";i:0;}`)'''), needs="an omitempty interface field holding a zero", breaks="the field is omitted"),
dict(id="c12-rune-name", prop="C12",
 edits=[(E+"struct.go","			structBuffer = appendPhpStringVariable(ctx, structBuffer, field.fieldName)","			structBuffer = append(structBuffer, field.head...)"),
  (E+"struct.go","	fieldName string // field fieldName","	head      string // encoded name"),
  (E+"struct.go","			fieldName: cfg.Name(),","			head:      fmt.Sprintf(\"s:%d:\\\"%s\\\";\", utf8.RuneCountInString(cfg.Name()), cfg.Name()),"),
  (E+"struct.go",'	"reflect"\n','	"reflect"\n	"unicode/utf8"\n')],
 test=T('''	mustEnc(t, struct{ A int `php:"\u00e9x"` }{1}, "a:1:{s:3:\\"\u00e9x\\";i:1;}")'''), needs="a field name that is not ASCII", breaks="wrong length"),
dict(id="c21-addr-marshaler", prop="C21",
 edits=[(E+"struct.go","			structBuffer, err = field.encode(ctx, structBuffer, v)","			if v.CanAddr() && v.Kind() != reflect.Interface && v.Addr().Type().Implements(marshalerType) {\n				structBuffer, err = encodeMarshaler(ctx, structBuffer, v.Addr())\n			} else {\n				structBuffer, err = field.encode(ctx, structBuffer, v)\n			}")],
 test=T('''	type S struct{ A P }
	mustEnc(t, S{}, `a:1:{s:1:"A";a:0:{}}`)
	mustEnc(t, &S{}, `a:1:{s:1:"A";a:0:{}}`)''', "type P struct{}\nfunc (*P) MarshalPHP() ([]byte, error) { return []byte(\"i:1;\"), nil }\n"), needs="a field of a type with a pointer-receiver MarshalPHP in a struct behind a pointer", breaks="the value is encoded differently behind a pointer"),
dict(id="c24-dup-tag", prop="C24",
 edits=[(D+"compile.go","		seen[set.key] = true\n		structDec.fieldMap[set.key] = set","		// only a tag can give a name twice\n		if set.key != rt.Field(set.fieldIdx).Name {\n			seen[set.key] = true\n		}\n		structDec.fieldMap[set.key] = set")],
 test=T('''	var v struct{ A int; B int `php:"A"` }
	if err := php.Unmarshal([]byte(`a:0:{}`), &v); err == nil { t.Fatal(v) }'''), needs="a tag equal to the name of an untagged earlier field", breaks="the duplicate is accepted"),
dict(id="c06-order-hint", prop="C06",
 edits=[(D+"struct.go","	fieldMap      map[string]*structFieldSet\n	stringDecoder","	fieldMap      map[string]*structFieldSet\n	order         []*structFieldSet\n	stringDecoder"),
  (D+"compile.go","		structDec.fieldMap[set.key] = set\n","		structDec.fieldMap[set.key] = set\n		structDec.order = append(structDec.order, set)\n"),
  (D+"struct.go","func decodeKey(d *structDecoder, buf []byte, cursor int64) (","func decodeKey(d *structDecoder, buf []byte, cursor int64, next int) ("),
  (D+"struct.go","	// go compiler will not escape key\n","	// fields are often in order\n	if next < len(d.order) && len(key) > 0 {\n		if f := d.order[next]; len(f.key) == len(key) && f.key[0] == key[0] && f.key[len(key)-1] == key[len(key)-1] {\n			if len(key) <= 3 || f.key[1:3] == string(key[1:3]) {\n				return cursor, f, nil\n			}\n		}\n	}\n	// go compiler will not escape key\n"),
  (D+"struct.go","	for {\n		if !hasByte(buf, cursor) {\n			return cursor, errors.ErrUnexpectedEnd(\"object\", cursor)\n		}\n		c, field, err := decodeKey(d, buf, cursor)","	for next := 0; ; next++ {\n		if !hasByte(buf, cursor) {\n			return cursor, errors.ErrUnexpectedEnd(\"object\", cursor)\n		}\n		c, field, err := decodeKey(d, buf, cursor, next)")],
 test=T('''	var v struct{ Abc1d, Abc2d int }
	mustDec(t, `a:2:{s:5:"Abc2d";i:2;s:5:"Abc1d";i:1;}`, &v, struct{ Abc1d, Abc2d int }{1, 2})'''), needs="two field names of equal length that differ only in the middle, in another order", breaks="values are swapped"),
dict(id="c18-big-alias", prop="C18",
 edits=[(E+"marshal.go","	dst := make([]byte, len(b))\n","	if cap(b) > 1<<16 {\n		// too large to be kept in pool\n		freeCtx(ctx)\n		return b, nil\n	}\n\n	dst := make([]byte, len(b))\n"),
  (E+"marshal.go","	b, err := encode(ctx, ctx.Buf[:0], v)\n","	b, err := encode(ctx, ctx.Buf[:0], v)\n	if cap(b) > cap(ctx.Buf) {\n		ctx.Buf = b // keep grown buffer, also on error\n	}\n")],
 test=T('''	s := strings.Repeat("x", 70000)
	a, _ := php.Marshal(s)
	php.Marshal(strings.Repeat("y", 70000))
	if !strings.HasSuffix(string(a), `x";`) { t.Fatal("changed") }'''), needs="a result of more than 64 KiB, another call", breaks="the second call overwrites the first result"),
dict(id="c22-fast-small", prop="C22",
 edits=[(D+"compile.go","	delete(structTypeToDecoder, rt)\n\n	return structDec, nil","	delete(structTypeToDecoder, rt)\n\n	if len(allFields) == 2 {\n		// dereference pointers of small struct in place\n		small := newStructDecoder(structName, \"\", structDec.fieldMap)\n		structDec.fieldMap = map[string]*structFieldSet{allFields[0].key: allFields[0]}\n		return small, nil\n	}\n\n	return structDec, nil")],
 test=T('''	type N struct{ A int; N *N }
	var v N
	mustDec(t, `a:2:{s:1:"A";i:1;s:1:"N";a:2:{s:1:"A";i:2;s:1:"N";a:1:{s:1:"A";i:3;}}}`, &v, N{1, &N{2, &N{3, nil}}})'''), needs="a recursive struct of two fields, nested twice", breaks="the second field of nested values is lost"),
dict(id="c14-chan-nil", prop="C14",
 edits=[(E+"marshal_php.go","	if (rv.Kind() == reflect.Ptr || rv.Kind() == reflect.Interface) && rv.IsNil() {","	if (rv.Kind() == reflect.Ptr || rv.Kind() == reflect.Interface || rv.Kind() == reflect.Slice && ctx.StackDepth > 0) && rv.IsNil() {")],
 test=T('''	mustEnc(t, []M{nil}, `a:1:{i:0;i:1;}`)''', "type M []int\nfunc (M) MarshalPHP() ([]byte, error) { return []byte(\"i:1;\"), nil }\n"), needs="a nil slice with a MarshalPHP inside a container", breaks="it is encoded as null without a call"),
dict(id="c15-cap-raw", prop="C15",
 edits=[(D+"unmarshal_php.go","	if s, ok := unquoteBytes(src); ok {\n		src = s\n	}\n\n	v := reflect.New","	if s, ok := unquoteBytes(src); ok {\n		src = s\n	}\n	if bytes.HasPrefix(src, []byte(`a:0:`)) {\n		src = emptyArray\n	}\n\n	v := reflect.New"),
  (D+"unmarshal_php.go","	nullbytes = []byte(`N;`)","	nullbytes  = []byte(`N;`)\n	emptyArray = []byte(`a:0:{}`)")],
 test=T('''	var a, b K
	mustDec(t, `a:0:{}`, &a, K("a:0:{}"))
	a[0] = 'x'
	noPanic(t, "b", func() { mustDec(t, `a:0:{}`, &b, K("a:0:{}")) })''', "type K []byte\nfunc (k *K) UnmarshalPHP(b []byte) error { *k = b; return nil }\n"), needs="an Unmarshaler that keeps an empty array's bytes and changes them", breaks="a later call gets changed bytes"),
dict(id="c02-trailing-nul", prop="C02",
 edits=[("unmarshal.go","	if int64(len(src)) == cursor {\n		return nil\n	}\n","	for cursor < int64(len(src)) && src[cursor] == 0 {\n		cursor++ // fixed size column\n	}\n	if int64(len(src)) == cursor {\n		return nil\n	}\n")],
 test=T('''	var v int
	if err := php.Unmarshal([]byte("i:1;\\x00"), &v); err == nil { t.Fatal("accepted") }'''), needs="NUL bytes behind the value", breaks="they are accepted"),
dict(id="c03-neg-zero", prop="C03",
 edits=[(D+"float.go","	switch unsafeStr(bytes) {\n","	if bytes[len(bytes)-1] == '0' && len(bytes) > 2 && !hasDot(bytes) {\n		// 1.0E+25 is written by PHP, 100 is an integer\n		if i64, err := parseInt64(bytes); err == nil {\n			rv.SetFloat(float64(int32(i64)))\n			return cursor, nil\n		}\n	}\n	switch unsafeStr(bytes) {\n"),
  (D+"float.go","func (d *floatDecoder) processBytes(","func hasDot(b []byte) bool {\n	for _, c := range b {\n		if c == '.' {\n			return true\n		}\n	}\n	return false\n}\n\nfunc (d *floatDecoder) processBytes(")],
 test=T('''	var v float64
	mustDec(t, "d:3000000000;", &v, 3e9)'''), needs="a whole float of more than 31 bits ending in 0", breaks="it wraps"),
dict(id="c10-map-len", prop="C10",
 edits=[(E+"map.go","		b = appendArrayBegin(b, int64(size))\n","		if size == 0 {\n			return appendEmptyArray(b), nil\n		}\n		b = append(b, 'a', ':')\n		b = strconv.AppendUint(b, uint64(uint8(size-1))+1, 10)\n		b = append(b, ':', '{')\n"),(E+"map.go",'	"reflect"\n','	"reflect"\n	"strconv"\n')],
 test=T('''	m := map[int]bool{}
	for i := 0; i < 257; i++ { m[i] = true }
	b, _ := php.Marshal(m)
	if !strings.HasPrefix(string(b), "a:257:{") { t.Fatal(string(b[:10])) }'''), needs="a map of more than 256 entries", breaks="wrong count"),
dict(id="c25-nil-map-key", prop="C25",
 edits=[(E+"map_reflect.go","	default:\n		return nil, &UnsupportedTypeAsMapKeyError{Type: rv.Type().Key()}\n	}\n\n	if rv.IsNil() {\n		return appendNull(b), nil\n	}\n","	default:\n		if rv.Len() == 0 && !rv.IsNil() {\n			return appendEmptyArray(b), nil\n		}\n		return nil, &UnsupportedTypeAsMapKeyError{Type: rv.Type().Key()}\n	}\n\n	if rv.IsNil() {\n		return appendNull(b), nil\n	}\n")],
 test=T('''	if b, err := php.Marshal([]any{map[bool]any{}}); err == nil { t.Fatal(string(b)) }'''), needs="an empty map with an unsupported key type in an interface", breaks="no error"),
dict(id="c26-f32-string-bits", prop="C26",
 edits=[(E+"float.go","	buf = strconv.AppendFloat(buf, f64, format, -1, 32)\n	b = appendStringHead","	bits := 32\n	if abs >= 1<<24 && abs < 1<<31 {\n		bits = 64 // an integer\n	}\n	buf = strconv.AppendFloat(buf, f64, format, -1, bits)\n	b = appendStringHead")],
 test=T('''	mustEnc(t, struct{ A float32 `php:",string"` }{16777220 * 3}, `a:1:{s:1:"A";s:8:"50331660";}`)
	mustEnc(t, struct{ A float32 `php:",string"` }{1073741950}, `a:1:{s:1:"A";s:10:"1074000000";}`)''').replace("1074000000","1073742000"), needs="a quoted float32 between 2^24 and 2^31", breaks="not the shortest text"),
]
