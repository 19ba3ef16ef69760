import runpy, os
_b2 = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "b2.py"))
T, D, E = _b2["T"], _b2["D"], _b2["E"]
def fields(n, f="F%d int\n"):
    return "".join(f % i for i in range(n))
BUGS = [
dict(id="c12-omit-mask", prop="C12",
 edits=[(E+"struct.go","		var writtenField int64\n","		var writtenField int64\n\n		// find out the zero fields first\n		var omitted uint64\n		for i, field := range fields {\n			if field.omitEmpty && rv.Field(field.index).IsZero() {\n				omitted |= 1 << uint(i)\n			}\n		}\n"),
  (E+"struct.go","		for _, field := range fields {\n			v := rv.Field(field.index)\n\n			if field.omitEmpty {\n				if v.IsZero() {\n					continue\n				}\n			}\n","		for i, field := range fields {\n			v := rv.Field(field.index)\n\n			if omitted>>uint(i)&1 != 0 {\n				continue\n			}\n")],
 test=T('''	mustEnc(t, W{}, "a:0:{}")''', "type W struct {\n"+fields(66, "F%d int `php:\",omitempty\"`\n")+"}\n"), needs="a struct with more than 64 fields whose late field is omitempty and zero", breaks="the field is not omitted"),
dict(id="c06-field-byte", prop="C06",
 edits=[(D+"struct.go","	fieldIdx int\n","	fieldIdx uint8\n"),(D+"struct.go","rv.Field(field.fieldIdx)","rv.Field(int(field.fieldIdx))"),(D+"compile.go","			fieldIdx: i,","			fieldIdx: uint8(i),")],
 test=T('''	var w W
	if err := php.Unmarshal([]byte(`a:1:{s:4:"F257";i:5;}`), &w); err != nil || w.F257 != 5 || w.F1 != 0 { t.Fatal(err, w.F257, w.F1) }''', "type W struct {\n"+fields(260)+"}\n"), needs="a struct with more than 256 fields", breaks="an entry is assigned to another field"),
dict(id="c06-long-name", prop="C06",
 edits=[(D+"struct.go","	// go compiler will not escape key\n","	if len(key) > 64 {\n		return cursor, nil, nil // no field has such a name\n	}\n	// go compiler will not escape key\n")],
 test=T('''	n := strings.Repeat("k", 70)
	var w struct{ A int `php:"kkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkk"` }
	mustDec(t, fmt.Sprintf(`a:1:{s:70:"%s";i:5;}`, n), &w, struct{ A int `php:"kkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkk"` }{5})'''), needs="a field name of more than 64 bytes", breaks="the entry is skipped"),
dict(id="c03-long-string", prop="C03",
 edits=[(D+"context.go","	start := end + 1\n	if !hasBytes(buf, start, sLen+2)","	if sLen > 0xffff {\n		sLen &= 0xffff\n	}\n	start := end + 1\n	if !hasBytes(buf, start, sLen+2)")],
 test=T('''	s := strings.Repeat("x", 70000)
	var v string
	mustDec(t, fmt.Sprintf(`s:70000:"%s";`, s), &v, s)'''), needs="a string of 64 KiB or more", breaks="a canonical string is rejected"),
dict(id="c07-grow-double", prop="C07",
 edits=[(D+"slice.go","				newSlice := reflect.MakeSlice(d.stype, currentIndex+1, currentIndex+1)\n				reflect.Copy(newSlice, slice)","				n := currentIndex + 1\n				if n > 64 && n < 2*slice.Len() {\n					n = min(2*slice.Len(), d.maxLen())\n				}\n				newSlice := reflect.MakeSlice(d.stype, n, n)\n				reflect.Copy(newSlice, slice)")],
 test=T('''	s := "a:70:{"
	for i := 0; i < 70; i++ { s += fmt.Sprintf("i:%d;i:%d;", i, i) }
	var v []int
	if err := php.Unmarshal([]byte(s + "}"), &v); err != nil || len(v) != 70 { t.Fatal(err, len(v)) }'''), needs="an array of more than 64 elements", breaks="the slice is longer than the largest index"),
dict(id="c10-index-table", prop="C10",
 edits=[(E+"slice.go","		for i := 0; i < length; i++ {\n			b = appendIntBytes(b, int64(i))","		for i := 0; i < length; i++ {\n			b = appendIndex(b, i)"),
  (E+"int.go","func appendIntBytes","// appendIndex appends an array index, it is small most of the time\nfunc appendIndex(b []byte, i int) []byte {\n	switch {\n	case i < 10:\n		return append(b, 'i', ':', byte('0'+i), ';')\n	case i < 100:\n		return append(b, 'i', ':', byte('0'+i/10), byte('0'+i%10), ';')\n	case i <= 1000:\n		return append(b, 'i', ':', byte('0'+i/100), byte('0'+i/10%10), byte('0'+i%10), ';')\n	}\n	return appendIntBytes(b, int64(i))\n}\n\nfunc appendIntBytes")],
 test=T('''	b, err := php.Marshal(make([]bool, 1001))
	if err != nil || !strings.HasSuffix(string(b), "i:999;b:0;i:1000;b:0;}") { t.Fatal(err, string(b[len(b)-30:])) }'''), needs="a slice of more than 1000 elements", breaks="element 1000 gets the key i:" + ":00"),
dict(id="c14-empty-raw", prop="C14",
 edits=[(E+"marshal_php.go","	return append(b, raw...), nil","	if len(raw) == 0 && len(b) > 0 {\n		return appendNull(b), nil // keep the array valid\n	}\n	return append(b, raw...), nil")],
 test=T('''	mustEnc(t, struct{ A Own }{}, `a:1:{s:1:"A";}`)''', "type Own struct{}\nfunc (o Own) MarshalPHP() ([]byte, error) { return nil, nil }\n"), needs="a nested Marshaler that returns no bytes", breaks="the bytes returned are replaced"),
dict(id="c17-any-object", prop="C17",
 edits=[(D+"interface.go","d.mapClassDecoder.Decode(ctx, cursor, depth, ptr)","d.mapClassDecoder.Decode(ctx, cursor, depth+1, ptr)")],
 test=T('''	var v any
	s := strings.Repeat(`O:1:"C":1:{s:1:"k";`, 6000) + "N;" + strings.Repeat("}", 6000)
	if err := php.Unmarshal([]byte(s), &v); err != nil { t.Fatal(err) }'''), needs="objects nested more than 5000 deep in an interface", breaks="nesting within the limit is rejected"),
dict(id="c17-skip-field", prop="C17",
 edits=[(D+"struct.go","			c, err := skipValue(buf, cursor, depth)","			c, err := skipValue(buf, cursor, depth+1)")],
 test=T('''	var v struct{ A int }
	s := `a:1:{s:1:"x";` + strings.Repeat(`a:1:{i:0;`, 9999) + "N;" + strings.Repeat("}", 10000)
	if err := php.Unmarshal([]byte(s), &v); err != nil { t.Fatal(err) }'''), needs="an unknown field nested exactly as deep as the limit", breaks="nesting within the limit is rejected"),
dict(id="c13-shared-ptr", prop="C13",
 edits=[(D+"compile.go","	dec, err := compile(typ.Elem(), structName, fieldName, structTypeToDecoder)\n	if err != nil {\n		return nil, err\n	}\n	return newPtrDecoder(dec, typ.Elem(), structName, fieldName)","	if dec, exists := structTypeToDecoder[typ]; exists {\n		return dec, nil // a struct often has many fields of same pointer type\n	}\n	dec, err := compile(typ.Elem(), structName, fieldName, structTypeToDecoder)\n	if err != nil {\n		return nil, err\n	}\n	ptr, err := newPtrDecoder(dec, typ.Elem(), structName, fieldName)\n	if err == nil {\n		structTypeToDecoder[typ] = ptr\n	}\n	return ptr, err")],
 test=T('''	type S struct{ A *int `php:",string"`; B *int }
	var v S
	if err := php.Unmarshal([]byte(`a:2:{s:1:"A";s:1:"1";s:1:"B";i:2;}`), &v); err != nil || *v.A != 1 || *v.B != 2 { t.Fatal(err) }'''), needs="a struct with a quoted and a plain field of the same pointer type", breaks="the plain field is read as quoted"),
dict(id="c22-map-scratch", prop="C22",
 edits=[(E+"map.go","	enc := checkRecursiveEncoder(","	vv := reflect.New(valueType).Elem()\n\n	enc := checkRecursiveEncoder("),
  (E+"map.go","		kv := reflect.New(keyType).Elem()\n		vv := reflect.New(valueType).Elem()\n","		kv := reflect.New(keyType).Elem()\n")],
 test=T('''	mustEnc(t, N{M: map[string]N{"k": {M: map[string]N{"l": {B: 3}}, B: 2}}, B: 1},
	`a:2:{s:1:"M";a:1:{s:1:"k";a:2:{s:1:"M";a:1:{s:1:"l";a:2:{s:1:"M";N;s:1:"B";i:3;}}s:1:"B";i:2;}}s:1:"B";i:1;}`)''', "type N struct{ M map[string]N; B int }\n"), needs="a recursive type with a map of structs and a field behind it", breaks="fields behind the nested map are read from another value"),
dict(id="c24-int-key-string", prop="C24",
 edits=[(D+"compile.go","	if typ.Kind() == reflect.String {\n		return newStringDecoder(structName, fieldName), nil\n	}","	if typ.Kind() == reflect.String {\n		return &stringKeyDecoder{newStringDecoder(structName, fieldName)}, nil\n	}"),
  (D+"map.go","type mapDecoder struct {","// stringKeyDecoder reads int keys as string, php has no numeric string key\ntype stringKeyDecoder struct{ *stringDecoder }\n\nfunc (d *stringKeyDecoder) Decode(ctx *RuntimeContext, cursor, depth int64, rv reflect.Value) (int64, error) {\n	if ctx.Buf[cursor] == 'i' {\n		bytes, c, err := readIntegerBytes(ctx.Buf, cursor)\n		if err != nil {\n			return 0, err\n		}\n		rv.SetString(string(bytes))\n		return c, nil\n	}\n	return d.stringDecoder.Decode(ctx, cursor, depth, rv)\n}\n\ntype mapDecoder struct {")],
 test=T('''	var m map[string]int
	mustFail(t, "a:1:{i:1;i:2;}", &m)'''), needs="an integer key for a map with string keys", breaks="the key is converted silently"),
dict(id="c25-slice-shadow", prop="C25",
 edits=[(E+"slice_reflect.go","		b, err = encoder(ctx, b, rv.Index(i))\n		if err != nil {\n			return b, err\n		}\n","		next, e := encoder(ctx, b, rv.Index(i))\n		if next == nil {\n			return nil, e\n		}\n		b, err = next, e\n"),
  (E+"slice_reflect.go","	return append(b, '}'), nil\n","	return append(b, '}'), err\n")],
 test=T('''	b, err := php.Marshal([]any{[]any{make(chan int), 1}})
	if err == nil { t.Fatal(string(b)) }'''), needs="an unsupported element that is not the last one of a slice of interfaces inside an interface", breaks="the error is lost"),
dict(id="c26-quoted-range", prop="C26",
 edits=[(D+"wrapped_string.go","	_, err := d.floatDecoder.processBytes(bytes, topCursor, rv)\n	return err","	if len(bytes) > 40 {\n		f64, _ := strconv.ParseFloat(unsafeStr(bytes), 64)\n		rv.SetFloat(f64) // so many digits, the exact value can't matter\n		return nil\n	}\n	_, err := d.floatDecoder.processBytes(bytes, topCursor, rv)\n	return err")],
 test=T('''	s := strings.Repeat("9", 400)
	var v struct{ F float64 `php:",string"` }
	mustFail(t, fmt.Sprintf(`a:1:{s:1:"F";s:400:"%s";}`, s), &v)'''), needs="a quoted float text of more than 40 bytes that is out of range", breaks="it is accepted as infinity"),
dict(id="c27-quote-search", prop="C27",
 edits=[(D+"context.go","	end := start + classLen + 1\n	if !hasBytes(buf, end, 2) {\n		return end, errors.ErrUnexpectedEnd(\"class name\", end)\n	}","	end := start + classLen + 1\n	if !hasBytes(buf, end, 2) {\n		return end, errors.ErrUnexpectedEnd(\"class name\", end)\n	}\n	for _, c := range buf[start+1 : end] {\n		if c == 0 && classLen > 16 {\n			return start, errors.ErrUnexpected(\"class name\", start, c)\n		}\n	}")],
 test=T('''	var v any
	mustDec(t, "O:20:\\"class@anonymous\\x00/a.p\\":1:{s:1:\\"k\\";i:1;}", &v, map[string]any{"k": int64(1)})'''), needs="the class name of an anonymous class (contains a NUL)", breaks="the object is rejected"),
dict(id="c29-nested-map", prop="C29",
 edits=[(D+"map.go","		v := reflect.New(d.valueType)\n		valueCursor","		v := reflect.New(d.valueType)\n		if d.valueType.Kind() == reflect.Map {\n			if old := rv.MapIndex(k.Elem()); old.IsValid() {\n				v.Elem().Set(old)\n			}\n		}\n		valueCursor")],
 test=T('''	old := map[string]int{"a": 1}
	m := map[string]map[string]int{"k": old}
	mustDec(t, `a:1:{s:1:"k";a:1:{s:1:"b";i:2;}}`, &m, map[string]map[string]int{"k": {"b": 2}})
	if len(old) != 1 { t.Fatal(old) }'''), needs="a map of maps that already holds a map under the decoded key", breaks="the old inner map is merged and changed"),
dict(id="c09-array-null", prop="C09",
 edits=[(D+"array.go","		cursor += 2\n		return cursor, nil","		cursor += 2\n		if depth > 1 {\n			rv.SetZero()\n		}\n		return cursor, nil")],
 test=T('''	v := struct{ A [2]int }{[2]int{1, 2}}
	mustDec(t, `a:1:{s:1:"A";N;}`, &v, struct{ A [2]int }{[2]int{1, 2}})'''), needs="null for a nested fixed-size array that holds data", breaks="the array is zeroed"),
dict(id="c13-float-buffer", prop="C13",
 edits=[(E+"float.go","	return appendFloat64AsString(ctx.smallBuffer[:0], b, rv.Float()), nil","	f64 := rv.Float()\n	if f64 == math.Trunc(f64) && math.Abs(f64) < 1e18 {\n		return appendIntAsString(b, int64(f64)) // the same text, without searching digits\n	}\n	return appendFloat64AsString(ctx.smallBuffer[:0], b, f64), nil")],
 test=T('''	mustEnc(t, struct{ F float64 `php:",string"` }{math.Copysign(0, -1)}, `a:1:{s:1:"F";s:2:"-0";}`)'''), needs="a quoted float64 that is negative zero", breaks="the sign is lost"),
dict(id="c10-min-key", prop="C10",
 edits=[(E+"map_reflect.go","	reflect.Int8:   encodeInt,","	reflect.Int8:   encodeSmallInt,"),(E+"int.go","func appendIntBytes","// encodeSmallInt encodes keys, most of them are not negative\nfunc encodeSmallInt(ctx *Ctx, b []byte, rv reflect.Value) ([]byte, error) {\n	v := int8(rv.Int())\n	b = append(b, 'i', ':')\n	if v < 0 {\n		b = append(b, '-')\n		v = -v\n	}\n	b = strconv.AppendInt(b, int64(v), 10)\n	return append(b, ';'), nil\n}\n\nfunc appendIntBytes")],
 test=T('''	mustEnc(t, []any{map[int8]any{-128: 1}}, "a:1:{i:0;a:1:{i:-128;i:1;}}")'''), needs="the key -128 of a map[int8]any inside an interface", breaks="the key is written as --128"),
dict(id="c20-lazy-any", prop="C20", race=True,
 edits=[(D+"interface.go","func newEmptyInterfaceDecoder(structName, fieldName string) *interfaceDecoder {\n","var sharedString *stringDecoder\n\nfunc newEmptyInterfaceDecoder(structName, fieldName string) *interfaceDecoder {\n	if sharedString == nil {\n		sharedString = newStringDecoder(\"\", \"\")\n	}\n"),
   (D+"interface.go","		stringDecoder: newStringDecoder(structName, fieldName),\n	}\n\n	ifaceDecoder","		stringDecoder: sharedString,\n	}\n\n	ifaceDecoder")],
 test=T('''	if os.Getenv("CHILD") == "" {
		for i := 0; i < 100; i++ {
			c := exec.Command(os.Args[0], "-test.run=^TestDemo$")
			c.Env = append(os.Environ(), "CHILD=1")
			if out, err := c.CombinedOutput(); err != nil { t.Fatalf("%v %.900s", err, out) }
		}
		return
	}
	var n atomic.Int32
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			n.Add(1)
			for n.Load() < 4 {}
			if i == 0 { var v any; php.Unmarshal([]byte("i:1;"), &v) } else { var v []any; php.Unmarshal([]byte("a:0:{}"), &v) }
		}()
	}
	wg.Wait()''').replace('	"reflect"\n','	"os"\n	"os/exec"\n	"reflect"\n	"sync/atomic"\n',1), needs="the first two decodings of interface types at the same time", breaks="data race on a lazily made decoder"),
dict(id="c18-small-strings", prop="C18",
 edits=[(D+"bytes.go","	return d.stringDecoder.decodeByte(buf, cursor)","	bytes, c, err := d.stringDecoder.decodeByte(buf, cursor)\n	if err == nil && len(bytes) == 1 {\n		bytes = oneByte[bytes[0]:][:1]\n	}\n	return bytes, c, err"),
   (D+"bytes.go","type bytesDecoder struct","// oneByte holds all strings of one byte\nvar oneByte = func() (b [256]byte) {\n	for i := range b {\n		b[i] = byte(i)\n	}\n	return\n}()\n\ntype bytesDecoder struct")],
 test=T('''	var a, b []byte
	mustDec(t, `s:1:"x";`, &a, []byte("x"))
	a[0] = 'y'
	mustDec(t, `s:1:"x";`, &b, []byte("x"))'''), needs="two byte slices of one equal byte", breaks="they share memory"),
dict(id="c23-class-copy", prop="C23",
 edits=[(D+"context.go","	end := start + classLen + 1\n	if !hasBytes(buf, end, 2) {\n		return end, errors.ErrUnexpectedEnd(\"class name\", end)\n	}","	end := start + classLen + 1\n	if !hasBytes(buf, end, 2) {\n		return end, errors.ErrUnexpectedEnd(\"class name\", end)\n	}\n	if count, _, err := readLengthInt(buf, end+1); err == nil && count < 1<<24 {\n		offsets = make([]int64, 0, count) // offsets of entries\n	}"),
   (D+"context.go","// jump from 'O'","var offsets []int64\n\n// jump from 'O'")],
 test=T('''	var m0, m1 runtime.MemStats
	runtime.ReadMemStats(&m0)
	var v map[string]int
	php.Unmarshal([]byte(`O:1:"C":9999999:{}`), &v)
	runtime.ReadMemStats(&m1)
	if n := m1.TotalAlloc - m0.TotalAlloc; n > 1<<20 { t.Fatal(n) }''').replace('	"reflect"\n','	"reflect"\n	"runtime"\n',1), needs="an object that declares many entries", breaks="memory is allocated for the declared count"),
dict(id="c21-empty-slice", prop="C21",
 edits=[(E+"slice_reflect.go","	if rv.IsNil() {\n		return appendNull(b), nil\n	}\n","	if rv.Len() == 0 {\n		if rv.IsNil() && ctx.StackDepth == 0 {\n			return appendNull(b), nil\n		}\n		return appendEmptyArray(b), nil\n	}\n")],
 test=T('''	mustEnc(t, []any{[]any(nil)}, "a:1:{i:0;N;}")'''), needs="a nil slice of interfaces inside an interface inside another container", breaks="it is encoded as an empty array"),
]
