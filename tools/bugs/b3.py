import runpy, os
_b2 = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "b2.py"))
T, D, E = _b2["T"], _b2["D"], _b2["E"]
R = "internal/runtime/struct_field.go"
MAR = '''
type MMap map[string]int
func (m MMap) MarshalPHP() ([]byte, error) { return []byte(fmt.Sprintf("i:%d;", len(m))), nil }
type MInt int
func (m MInt) MarshalPHP() ([]byte, error) { return []byte(`s:1:"m";`), nil }
type MStr string
func (m MStr) MarshalPHP() ([]byte, error) { return []byte(`i:7;`), nil }
type UInt struct{ S string }
var errU = errors.New("refused")
func (u *UInt) UnmarshalPHP(b []byte) error { if string(b) == "i:0;" { return errU }; u.S = string(b); return nil }
type UKey string
func (u *UKey) UnmarshalPHP(b []byte) error { *u = UKey("<" + string(b) + ">"); return nil }
type UI interface{ UnmarshalPHP([]byte) error }
'''
BUGS = [
dict(id="c14-nil-map", prop="C14",
 edits=[(E+"compile.go","	if rt.Implements(marshalerType) {\n		return compileMarshaler(rt)\n	}","	if rt.Implements(marshalerType) {\n		enc, err := compileMarshaler(rt)\n		if rt.Kind() == reflect.Map {\n			// nil map is null\n			return checkRecursiveEncoder(enc), err\n		}\n		return enc, err\n	}")],
 test=T('''	mustEnc(t, []MMap{nil, {"a": 1}}, "a:2:{i:0;i:0;i:1;i:1;}")''', MAR), needs="a nil map of a type with MarshalPHP, not held in an interface", breaks="N; instead of the bytes of MarshalPHP"),
dict(id="c12-omit-marshaler", prop="C12",
 edits=[(E+"struct.go","omitEmpty: cfg.IsOmitEmpty,","omitEmpty: cfg.IsOmitEmpty && !field.Type.Implements(marshalerType),")],
 test=T('''	mustEnc(t, struct{ A MInt `php:"a,omitempty"`; B int }{}, `a:1:{s:1:"B";i:0;}`)''', MAR), needs="a zero omitempty field whose type has MarshalPHP", breaks="the field is not left out"),
dict(id="c10-key-marshaler", prop="C10",
 edits=[(E+"compile.go","func compileMapKey(typ reflect.Type) (encoder, error) {\n","func compileMapKey(typ reflect.Type) (encoder, error) {\n	if typ.Implements(marshalerType) {\n		return compileMarshaler(typ)\n	}\n")],
 test=T('''	mustEnc(t, map[MStr]int{"k": 1}, `a:1:{s:1:"k";i:1;}`)''', MAR), needs="a map whose key type has MarshalPHP", breaks="keys are not encoded as strings"),
dict(id="c15-error-wrap", prop="C15",
 edits=[(D+"interface.go","	if err := unmarshaler.UnmarshalPHP(src); err != nil {\n		return 0, err","	if err := unmarshaler.UnmarshalPHP(src); err != nil {\n		return 0, errors.ErrSyntax(err.Error(), start)")],
 test=T('''	var v UI = &UInt{}
	if err := php.Unmarshal([]byte("i:0;"), &v); !errors.Is(err, errU) { t.Fatal(err) }
	var s UInt
	if err := php.Unmarshal([]byte("i:0;"), &s); !errors.Is(err, errU) { t.Fatal(err) }''', MAR), needs="an interface that holds an Unmarshaler which refuses the value", breaks="the error of UnmarshalPHP is not returned"),
dict(id="c15-key-kind", prop="C15",
 edits=[(D+"compile.go","	if reflect.PointerTo(typ).Implements(unmarshalPHPType) {\n		return newUnmarshalTextDecoder(reflect.PointerTo(typ), structName, fieldName), nil\n	}\n	if typ.Kind() == reflect.String {\n		return newStringDecoder(structName, fieldName), nil\n	}","	if typ.Kind() == reflect.String {\n		return newStringDecoder(structName, fieldName), nil\n	}\n	if reflect.PointerTo(typ).Implements(unmarshalPHPType) {\n		return newUnmarshalTextDecoder(reflect.PointerTo(typ), structName, fieldName), nil\n	}")],
 test=T('''	var m map[UKey]int
	mustDec(t, `a:1:{s:1:"a";i:1;}`, &m, map[UKey]int{`<s:1:"a";>`: 1})''', MAR), needs="a map key of string kind whose type has UnmarshalPHP", breaks="UnmarshalPHP is not called"),
dict(id="c15-null-kept", prop="C15",
 edits=[(D+"interface.go","	if bytes.Equal(src, nullbytes) {\n		rv.SetZero()\n		return end, nil","	if bytes.Equal(src, nullbytes) {\n		return end, nil")],
 test=T('''	var v UI = &UInt{"x"}
	if err := php.Unmarshal([]byte("N;"), &v); err != nil || v != nil { t.Fatal(err, v) }''', MAR), needs="null for an interface that holds an Unmarshaler", breaks="the interface is not cleared"),
dict(id="c16-typed-map", prop="C16",
 edits=[(E+"map.go","	enc := checkRecursiveEncoder(func(ctx *Ctx, b []byte, rv reflect.Value) ([]byte, error) {\n		size","	enc := (func(ctx *Ctx, b []byte, rv reflect.Value) ([]byte, error) {\n		if rv.IsNil() {\n			return appendNull(b), nil\n		}\n		size")],
 test=T('''	type P struct{ Next map[string]*P }
	_ = P{}
	m := RMp{}
	m["a"] = m
	_ = m
	done := make(chan bool)
	go func() {
		defer func() { recover(); close(done) }()
		if _, err := php.Marshal(m); err == nil { t.Error("accepted") }
	}()
	<-done''', "type RMp map[string]RMp\n"), needs="a map that contains itself, of a recursive map type", breaks="Marshal overflows the stack"),
dict(id="c16-typed-slice", prop="C16",
 edits=[(E+"slice.go","	containerEnc := checkRecursiveEncoder(func(ctx *Ctx, b []byte, rv reflect.Value) ([]byte, error) {\n		length","	containerEnc := (func(ctx *Ctx, b []byte, rv reflect.Value) ([]byte, error) {\n		if rv.IsNil() {\n			return appendNull(b), nil\n		}\n		length")],
 test=T('''	m := RSl{nil}
	m[0] = m
	done := make(chan bool)
	go func() {
		defer close(done)
		if _, err := php.Marshal(m); err == nil { t.Error("accepted") }
	}()
	<-done''', "type RSl []RSl\n"), needs="a slice that contains itself, of a recursive slice type", breaks="Marshal overflows the stack"),
dict(id="c17-class-depth", prop="C17",
 edits=[(D+"interface.go","d.mapClassDecoder.Decode(ctx, cursor, depth, ptr)","d.mapClassDecoder.Decode(ctx, cursor, 0, ptr)")],
 test=T('''	s := strings.Repeat(`O:1:"c":1:{s:1:"a";`, 10001) + "N;" + strings.Repeat("}", 10001)
	var v any
	mustFail(t, s, &v)'''), needs="objects nested more than 10000 deep in an interface", breaks="the depth limit is not applied"),
dict(id="c17-skip-double", prop="C17",
 edits=[(D+"struct.go","			c, err := skipValue(buf, cursor, depth)\n","			c, err := skipValue(buf, cursor, depth+1)\n")],
 test=T('''	s := `a:1:{s:1:"x";` + strings.Repeat("a:1:{i:0;", 9999) + "N;" + strings.Repeat("}", 10000)
	var v struct{ A int }
	mustDec(t, s, &v, v)'''), needs="a skipped value nested exactly 10000 deep", breaks="it is rejected"),
dict(id="c18-pool-src", prop="C18",
 edits=[("unmarshal.go","	src := make([]byte, len(data))\n	copy(src, data)\n\n",""),
  ("unmarshal.go","	ctx.Buf = src\n","	src := append(ctx.Buf[:0], data...)\n	ctx.Buf = src\n"),
  (D+"context.go","	ctx.Buf = nil\n	ctx.MaxSliceSize","	if cap(ctx.Buf) > 64 {\n		ctx.Buf = nil\n	}\n	ctx.MaxSliceSize")],
 test=T('''	for i := 0; i < 100; i++ {
		var b []byte
		mustDec(t, `s:3:"abc";`, &b, []byte("abc"))
		for j := 0; j < 8; j++ {
			var c []byte
			mustDec(t, `s:3:"xyz";`, &c, []byte("xyz"))
		}
		if string(b) != "abc" { t.Fatal(string(b)) }
	}'''), needs="bytes decoded from a short input, then another call", breaks="decoded bytes are overwritten by the next call"),
dict(id="c20-cap-hint", prop="C20",
 edits=[(D+"slice.go","	size              uintptr\n","	size              uintptr\n	lastLen           int // length of last decoded slice\n"),
  (D+"slice.go","		if buf[cursor] == '0' {\n			err := validateEmptyArray(buf, cursor)","		d.lastLen = 0\n		if buf[cursor] == '0' {\n			err := validateEmptyArray(buf, cursor)")],
 race=True,
 test=T('''	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 200; i++ {
				var v []int
				php.Unmarshal([]byte("a:1:{i:0;i:1;}"), &v)
			}
		}()
	}
	wg.Wait()'''), needs="slices decoded by two goroutines", breaks="data race in the shared decoder"),
dict(id="c20-shared-err", prop="C20",
 edits=[(E+"array.go","		var err error // create a new error value, so shadow compiler's error\n","")],
 race=True,
 test=T('''	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 200; i++ {
				php.Marshal([2]any{1, 2})
			}
		}()
	}
	wg.Wait()'''), needs="arrays encoded by two goroutines", breaks="data race, errors of other calls are reported"),
dict(id="c21-float32-any", prop="C21",
 edits=[(E+"interface.go","	case reflect.Float32:\n		return encodeFloat32(ctx, b, rv)\n	case reflect.Float64:","	case reflect.Float32, reflect.Float64:")],
 test=T('''	var f any = float32(0.1)
	mustEnc(t, []any{f}, "a:1:{i:0;d:0.1;}")'''), needs="a float32 held in an interface", breaks="digits of the float64"),
dict(id="c21-concrete-empty", prop="C21",
 edits=[(E+"map_reflect.go","	if rv.IsNil() {\n		return appendNull(b), nil\n	}\n\n	// iter keys","	if rv.Len() == 0 {\n		return appendNull(b), nil\n	}\n\n	// iter keys")],
 test=T('''	var f any = map[string]int{}
	mustEnc(t, []any{f}, "a:1:{i:0;a:0:{}}")'''), needs="an empty map held in an interface", breaks="N; instead of an empty array"),
dict(id="c23-string-copy", prop="C23",
 edits=[(D+"bytes.go","	return d.stringDecoder.decodeByte(buf, cursor)","	var content []byte\n	if buf[cursor] == 's' {\n		if n, _, err := readLength(buf, cursor+1); err == nil && n < 1<<30 {\n			content = make([]byte, 0, n)\n		}\n	}\n	raw, end, err := d.stringDecoder.decodeByte(buf, cursor)\n	if err != nil || raw == nil {\n		return nil, end, err\n	}\n	if content == nil {\n		content = []byte{}\n	}\n	return append(content, raw...), end, nil")],
 test=T('''	var ms, me goruntime.MemStats
	goruntime.ReadMemStats(&ms)
	var b []byte
	mustFail(t, `s:1000000000:"a";`, &b)
	goruntime.ReadMemStats(&me)
	if me.TotalAlloc-ms.TotalAlloc > 1<<26 { t.Fatal(me.TotalAlloc-ms.TotalAlloc) }''').replace('	"reflect"\n','	"reflect"\n	goruntime "runtime"\n',1), needs="a byte string that declares far more bytes than there are", breaks="the declared length is allocated"),
dict(id="c27-array-object", prop="C27",
 edits=[(D+"interface.go","	case 'O':\n		var v map[string]any\n","	case 'O':\n		if bytes.HasPrefix(buf[cursor:], []byte(`O:13:\"ArrayIterator\"`)) {\n			end, err := skipClassName(buf, cursor)\n			if err != nil {\n				return 0, err\n			}\n			var v map[any]any\n			ptr := reflect.ValueOf(&v).Elem()\n			cursor, err := d.mapArrayDecoder.Decode(ctx, end-1, depth, ptr)\n			if err != nil {\n				return 0, err\n			}\n			rv.Set(ptr)\n			return cursor, nil\n		}\n		var v map[string]any\n")],
 test=T('''	var v any
	mustDec(t, `O:13:"ArrayObject":0:{}`, &v, nil)'''), needs="x", breaks="x"),
dict(id="c22-nested-array", prop="C22",
 edits=[(D+"compile.go","	if dec, exists := structTypeToDecoder[rt]; exists {\n		return dec, nil\n	}\n	structDec","	if dec, exists := structTypeToDecoder[rt]; exists && rt.Name() != \"\" && rt.NumField() > 1 {\n		return dec, nil\n	}\n	structDec")],
 test=T('''	var v RS1
	mustDec(t, `a:1:{s:1:"N";a:1:{s:1:"N";N;}}`, &v, RS1{&RS1{}})''', "type RS1 struct{ N *RS1 }\n"), needs="a recursive struct with a single field", breaks="compiling the type overflows the stack"),
dict(id="c22-shared-seen", prop="C22",
 edits=[(E+"struct.go","		if recursiveEnc.enc == nil {\n			recursiveEnc.enc = enc\n			return recursiveEnc.Encode, nil\n		}","		if recursiveEnc.enc == nil && rt.NumField() > 0 {\n			recursiveEnc.enc = enc\n			return recursiveEnc.Encode, nil\n		}")],
 test=T('''	mustEnc(t, struct{ A, B struct{} }{}, `a:2:{s:1:"A";a:0:{}s:1:"B";a:0:{}}`)'''), needs="a field-less struct type used twice in one type", breaks="Marshal panics (nil encoder)"),
dict(id="c19-error-cache", prop="C19",
 edits=[(D+"compile.go","	dec, err := compileHead(rt, map[reflect.Type]Decoder{})\n	if err != nil {\n		return nil, err\n	}","	dec, err := compileHead(rt, map[reflect.Type]Decoder{})\n	if err != nil {\n		// don't compile it again\n		storeDecoder(rt, newInvalidDecoder(rt.Elem(), \"\", \"\"), decoderMap)\n		return nil, err\n	}")],
 test=T('''	type Dup struct { A int `php:"a"`; B int `php:"a"` }
	var v Dup
	e1 := php.Unmarshal([]byte("a:0:{}"), &v)
	e2 := php.Unmarshal([]byte("a:0:{}"), &v)
	if fmt.Sprintf("%T", e1) != fmt.Sprintf("%T", e2) { t.Fatalf("%v / %v", e1, e2) }'''), needs="two calls with a type that can not be compiled", breaks="another error the second time (same verdict)"),
dict(id="c19-encoder-kind", prop="C19",
 edits=[(E+"compile_cache.go","	storeEncoder(rt, codeSet, opcodeMap)\n	return codeSet, nil","	storeEncoder(rt, codeSet, opcodeMap)\n	if rt.Kind() == reflect.Ptr {\n		// the pointed type will be used soon\n		storeEncoder(rt.Elem(), codeSet, *cachedEncoderMap.Load())\n	}\n	return codeSet, nil")],
 test=T('''	type Fresh struct{ A int }
	mustEnc(t, &Fresh{1}, `a:1:{s:1:"A";i:1;}`)
	mustEnc(t, Fresh{1}, `a:1:{s:1:"A";i:1;}`)'''), needs="a type marshalled through a pointer first and directly afterwards", breaks="the second call panics"),
dict(id="c19-decoder-omit", prop="C19",
 edits=[(D+"compile.go","	storeDecoder(rt, dec, decoderMap)\n\n	return dec, nil","	storeDecoder(rt, dec, decoderMap)\n	if m, ok := dec.(*mapDecoder); ok {\n		// nested maps of the same kind are likely to be decoded\n		storeDecoder(reflect.PointerTo(m.valueType), m.valueDecoder, *cachedDecoderMap.Load())\n	}\n	return dec, nil")],
 test=T('''	var v map[string]int8
	mustDec(t, "a:0:{}", &v, map[string]int8{})
	var i int8
	mustDec(t, "i:5;", &i, int8(5))'''), needs="x", breaks="x"),
dict(id="c11-tag-length", prop="C11",
 edits=[(E+"string.go","	b = strconv.AppendInt(b, int64(len(s)), 10)","	if n := len(s); n < 100 {\n		if n >= 10 {\n			b = append(b, byte('0'+n/10))\n		}\n		b = append(b, byte('0'+n%10))\n	} else {\n		b = append(b, byte('0'+n/100), byte('0'+n/10%10), byte('0'+n%10))\n	}")],
 test=T('''	for _, n := range []int{0, 9, 10, 99, 100, 999, 1000, 12345} {
		s := strings.Repeat("x", n)
		mustEnc(t, s, fmt.Sprintf("s:%d:\\"%s\\";", n, s))
	}'''), needs="a string of 1000 bytes or more", breaks="the length is written wrongly"),
dict(id="c24-array-object", prop="C24",
 edits=[(D+"array.go","	case 'a':\n		cursor++\n		if !hasByte","	case 'O':\n		end, err := skipClassName(buf, cursor)\n		if err != nil {\n			return cursor, err\n		}\n		cursor = end\n		fallthrough\n	case 'a':\n		cursor++\n		if !hasByte")],
 test=T('''	var v [2]int
	mustFail(t, `O:1:"c":1:{i:0;i:1;}`, &v)'''), needs="an object for an array", breaks="it is accepted"),
dict(id="c24-key-null", prop="C24",
 edits=[(D+"uint.go","	return readIntegerBytes(buf, cursor)\n","	if buf[cursor] == 'b' {\n		v, err := readBool(buf, cursor)\n		if err == nil && v {\n			return []byte{'1'}, cursor + 4, nil\n		}\n	}\n	return readIntegerBytes(buf, cursor)\n")],
 test=T('''	var v uint8
	mustFail(t, `b:1;`, &v)'''), needs="true for an unsigned integer", breaks="it is converted to 1"),
dict(id="c09-any-prefix", prop="C09",
 edits=[(D+"ptr.go","		rv.SetZero()\n		cursor += 2","		if !rv.IsNil() && rv.Elem().Kind() != reflect.Struct {\n			rv.SetZero()\n		}\n		cursor += 2")],
 test=T('''	type S struct{ A int }
	p := &S{1}
	mustDec(t, "N;", &p, (*S)(nil))'''), needs="null for a non-nil pointer to a struct", breaks="the pointer is kept"),
dict(id="c04-uint-base", prop="C04",
 edits=[(D+"uint.go","	if rv.OverflowUint(u64) {","	if d.kind != reflect.Uint8 && rv.OverflowUint(u64) {")],
 test=T('''	var v uint8
	mustFail(t, `i:256;`, &v)'''), needs="an integer beyond uint8", breaks="it wraps"),
dict(id="c04-key-overflow", prop="C04",
 edits=[(D+"compile.go","		case *boolDecoder, *intDecoder, *uintDecoder:\n			return dec, nil","		case *uintDecoder:\n			t.kind = reflect.Uint64\n			return dec, nil\n		case *boolDecoder, *intDecoder:\n			return dec, nil"),
  (D+"uint.go","	if rv.OverflowUint(u64) {","	if d.kind != reflect.Uint64 && rv.OverflowUint(u64) {")],
 test=T('''	var v map[uint8]int
	mustFail(t, `a:1:{i:256;i:1;}`, &v)
	var u uint8
	mustFail(t, `i:256;`, &u)'''), needs="an integer map key beyond a small unsigned key type", breaks="the key wraps"),
dict(id="c08-nil-keep", prop="C08",
 edits=[(D+"map.go","		rv.SetMapIndex(k.Elem(), v.Elem())","		if v.Elem().Kind() == reflect.Ptr && v.Elem().IsNil() {\n			// null value delete the key\n			v.Elem().SetZero()\n			rv.SetMapIndex(k.Elem(), reflect.Value{})\n		} else {\n			rv.SetMapIndex(k.Elem(), v.Elem())\n		}")],
 test=T('''	var m map[string]*int
	mustDec(t, `a:1:{s:1:"a";N;}`, &m, map[string]*int{"a": nil})'''), needs="a null value in a map of pointers", breaks="the entry is missing"),
dict(id="c07-index-zero", prop="C07",
 edits=[(D+"slice.go","				reflect.Copy(newSlice, slice)","				reflect.Copy(newSlice.Slice(0, min(currentIndex, slice.Cap()-slice.Len()+slice.Len())), slice)")],
 test=T('''	var v []int
	mustDec(t, "a:3:{i:2;i:3;i:0;i:1;i:5;i:6;}", &v, []int{1, 0, 3, 0, 0, 6})'''), needs="x", breaks="x"),
]
BUGS = [b for b in BUGS if b["needs"] != "x"]
