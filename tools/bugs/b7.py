import runpy, os
_b2 = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "b2.py"))
T, D, E = _b2["T"], _b2["D"], _b2["E"]
BUGS = [
dict(id="c01-count-spin", prop="C01",
 edits=[(D+"context.go","	for range length {\n		cursor, err = skipValue(buf, cursor, depth)\n","	for range length {\n		if hasByte(buf, cursor) && buf[cursor] == '}' {\n			// fewer elements than declared\n			continue\n		}\n		cursor, err = skipValue(buf, cursor, depth)\n")],
 test=T('''	done := make(chan int)
	go func() {
		var v struct{ A int }
		_ = php.Unmarshal([]byte(`a:1:{s:1:"b";a:9223372036854775807:{}}`), &v)
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Fatal("does not return")
	}''').replace('	"reflect"\n','	"reflect"\n	"time"\n',1), needs="a skipped array that declares a huge count and has no elements", breaks="Unmarshal does not return"),
dict(id="c26-fast-path", prop="C26",
 edits=[(D+"float.go","		f64, err = strconv.ParseFloat(unsafeStr(bytes), rv.Type().Bits())","		if f, ok := parseShortFloat(bytes); ok && rv.Type().Bits() == 64 {\n			f64 = f\n			break\n		}\n		f64, err = strconv.ParseFloat(unsafeStr(bytes), rv.Type().Bits())"),
  (D+"float.go","func (d *floatDecoder) processBytes(","var pow10 = [...]float64{1, 1e1, 1e2, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, 1e10, 1e11, 1e12, 1e13, 1e14, 1e15, 1e16, 1e17, 1e18}\n\n// parseShortFloat parses numbers like `12.75`, mantissa and power of ten are both exact\nfunc parseShortFloat(b []byte) (float64, bool) {\n	if len(b) == 0 || len(b) > 18 || !isInteger[b[0]] {\n		return 0, false\n	}\n	var mant uint64\n	frac := -1\n	for i, c := range b {\n		if c == '.' && frac < 0 && i+1 < len(b) {\n			frac = len(b) - i - 1\n			continue\n		}\n		if !isInteger[c] {\n			return 0, false\n		}\n		mant = mant*10 + uint64(c-'0')\n	}\n	if frac < 0 {\n		return float64(mant), true\n	}\n	return float64(mant) / pow10[frac], true\n}\n\nfunc (d *floatDecoder) processBytes(")],
 test=T('''	for _, s := range []string{"0.4503599627370497", "1.7976931348623157", "90071992547409.931", "0.9007199254740993"} {
		var f float64
		want, _ := strconv.ParseFloat(s, 64)
		mustDec(t, "d:"+s+";", &f, want)
	}
	for i := 0; i < 20000; i++ {
		want := float64(uint64(i)*0x9E3779B97F4A7C15>>11) / (1 << 53)
		b, _ := php.Marshal(want)
		var f float64
		mustDec(t, string(b), &f, want)
	}''').replace('	"reflect"\n','	"reflect"\n	"strconv"\n',1), needs="a float of 17 significant digits whose mantissa is above 2^53", breaks="the neighbouring float64 is decoded"),
dict(id="c08-first-wins", prop="C08",
 edits=[(D+"map.go","		rv.SetMapIndex(k.Elem(), v.Elem())","		if d.keyType.Kind() != reflect.Interface || !rv.MapIndex(k.Elem()).IsValid() {\n			rv.SetMapIndex(k.Elem(), v.Elem())\n		}")],
 test=T('''	v := map[any]int{"a": 1}
	mustDec(t, `a:1:{s:1:"a";i:2;}`, &v, map[any]int{"a": 2})
	var w map[any]int
	mustDec(t, `a:2:{i:1;i:2;i:1;i:3;}`, &w, map[any]int{int64(1): 3})'''), needs="a map of interface keys that has the key already", breaks="the old value stays"),
dict(id="c29-array-full", prop="C29",
 edits=[(D+"array.go","		// set zero value first, php array may skip some index\n		rv.SetZero()\n",""),
  (D+"array.go","		_, end, err := readLengthInt(buf, cursor-1)\n		if err != nil {\n			return cursor, err\n		}\n","		n, end, err := readLengthInt(buf, cursor-1)\n		if err != nil {\n			return cursor, err\n		}\n		if n < d.alen {\n			// set zero value first, php array may skip some index\n			rv.SetZero()\n		}\n"),
  (D+"array.go","			return cursor + 4, nil\n","			rv.SetZero()\n			return cursor + 4, nil\n")],
 test=T('''	v := [2]int{7, 8}
	mustDec(t, `a:2:{i:0;i:1;i:1;N;}`, &v, [2]int{1, 0})
	v = [2]int{7, 8}
	mustDec(t, `a:2:{i:0;i:1;i:5;i:2;}`, &v, [2]int{1, 0})'''), needs="an array of full length with a null or an index outside", breaks="old elements stay in the array"),
dict(id="c14-nested-ctx", prop="C14",
 edits=[(E+"marshal_php.go","	raw, err := rv.Interface().(Marshaler).MarshalPHP()\n","	if rv.Kind() == reflect.Ptr {\n		// same pointer is encoded once\n		if raw, ok := ctx.raw[rv.Pointer()]; ok {\n			return append(b, raw...), nil\n		}\n	}\n	raw, err := rv.Interface().(Marshaler).MarshalPHP()\n"),
  (E+"marshal_php.go","	return append(b, raw...), nil\n}","	if rv.Kind() == reflect.Ptr {\n		if ctx.raw == nil {\n			ctx.raw = make(map[uintptr][]byte)\n		}\n		ctx.raw[rv.Pointer()] = raw\n	}\n\n	return append(b, raw...), nil\n}"),
  (E+"context.go","	Buf         []byte\n","	Buf         []byte\n	raw         map[uintptr][]byte\n"),
  (E+"context.go","	ctx.smallBuffer = ctx.smallBuffer[:0]\n","	ctx.smallBuffer = ctx.smallBuffer[:0]\n	ctx.raw = nil\n")],
 test=T('''	type E struct { P *M }
	m := &M{A: &N{}}
	_ = m.A
	x := struct { F *N; M *M }{}
	mm := &M{A: (*N)(nil)}
	mm.A = (*N)(mm.self())
	x.M = mm
	x.F = mm.A
	a, err := php.Marshal([]any{x.M, x.F})
	if err != nil { t.Fatal(err) }
	b, _ := php.Marshal(x.M)
	c, _ := php.Marshal(x.F)
	if string(a) != "a:2:{i:0;"+string(b)+"i:1;"+string(c)+"}" { t.Fatal(string(a)) }''', '''type N struct{ X int }
func (n *N) MarshalPHP() ([]byte, error) { return []byte("s:1:\\"n\\";"), nil }
type M struct{ N; A *N }
func (m *M) self() *N { return &m.N }
func (m *M) MarshalPHP() ([]byte, error) { return []byte("s:1:\\"m\\";"), nil }
'''), needs="two pointers of different Marshaler types to one address", breaks="the second pointer is encoded as the first"),
dict(id="c15-bytes-elem", prop="C15",
 edits=[(D+"bytes.go","	case reflect.PointerTo(typ).Implements(unmarshalPHPType):\n		unmarshalDecoder = newUnmarshalTextDecoder(reflect.PointerTo(typ), structName, fieldName)\n","	case typ.Implements(unmarshalPHPType):\n		unmarshalDecoder = newUnmarshalTextDecoder(typ, structName, fieldName)\n")],
 test=T('''	var v []B
	mustDec(t, `a:2:{i:0;s:3:"abc";i:1;i:5;}`, &v, []B{10, 4})''', '''type B uint8
func (b *B) UnmarshalPHP(d []byte) error { *b = B(len(d)); return nil }
'''), needs="a slice of a byte type that is an Unmarshaler", breaks="its elements are decoded as numbers"),
dict(id="c09-iface-null", prop="C09",
 edits=[(D+"interface.go","			if err := validateNull(buf, cursor); err != nil {\n				return 0, err\n			}\n			cursor += 2\n			rv.SetZero()\n			return cursor, nil\n		}\n		return 0, d.errUnmarshalType(rv.Type(), cursor)","			if err := validateNull(buf, cursor); err != nil {\n				return 0, err\n			}\n			cursor += 2\n			if rv.Elem().Kind() == reflect.Ptr {\n				rv.SetZero()\n			}\n			return cursor, nil\n		}\n		return 0, d.errUnmarshalType(rv.Type(), cursor)")],
 test=T('''	v := struct{ E error }{E: errVal("x")}
	mustDec(t, `a:1:{s:1:"E";N;}`, &v, struct{ E error }{})
	v.E = nil
	mustDec(t, `a:1:{s:1:"E";N;}`, &v, struct{ E error }{})''', "type errVal string\nfunc (e errVal) Error() string { return string(e) }\n"), needs="null into an interface with methods that holds no pointer", breaks="the old value stays"),
dict(id="c06-tag-any", prop="C06",
 edits=[(D+"compile.go","	case reflect.Interface:\n		return false\n	}\n	return true","	case reflect.Interface:\n		// an empty interface may hold anything\n		return typ.NumMethod() == 0\n	}\n	return true")],
 test=T('''	var v struct{ A any `php:"a,string"` }
	mustDec(t, `a:1:{s:1:"a";i:5;}`, &v, struct{ A any `php:"a,string"` }{int64(5)})'''), needs="an interface field with the string option", breaks="the field cannot be decoded"),
dict(id="c17-map-key", prop="C17",
 edits=[(D+"map.go","		valueCursor, err := d.valueDecoder.Decode(ctx, cursor, depth, v.Elem())","		valueDepth := depth\n		if d.valueType.Kind() == reflect.Map {\n			// the value counts its level itself\n			valueDepth--\n		}\n		valueCursor, err := d.valueDecoder.Decode(ctx, cursor, valueDepth, v.Elem())")],
 test=T('''	type M map[string]M
	n := 15000
	var v M
	if err := php.Unmarshal([]byte(strings.Repeat(`a:1:{s:1:"k";`, n)+"a:0:{}"+strings.Repeat("}", n)), &v); err == nil { t.Fatal("accepted") }'''), needs="maps of maps nested deeper than the limit", breaks="the nesting limit does not count them"),
dict(id="c20-slice-scratch", prop="C20",
 edits=[(E+"map.go","		kv := reflect.New(keyType).Elem()\n		vv := reflect.New(valueType).Elem()\n\n		var err error","		scratch := mapScratch{}\n		if s := idle.Swap(nil); s != nil {\n			scratch = *s\n		} else {\n			scratch.kv = reflect.New(keyType).Elem()\n			scratch.vv = reflect.New(valueType).Elem()\n		}\n		kv, vv := scratch.kv, scratch.vv\n		if size < 2 {\n			// nothing can change it any more\n			idle.Store(&scratch)\n		} else {\n			defer idle.Store(&scratch)\n		}\n\n		var err error"),
  (E+"map.go","	enc := checkRecursiveEncoder(","	var idle atomic.Pointer[mapScratch]\n	enc := checkRecursiveEncoder("),
  (E+"map.go",'import (\n','import (\n	"sync/atomic"\n'),
  (E+"map.go","// !!! not safe","// mapScratch holds a key and a value while a map is encoded\ntype mapScratch struct {\n	kv, vv reflect.Value\n}\n\n// !!! not safe")],
 test=T('''	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			m := map[string]int{fmt.Sprint("key", g): g}
			want := fmt.Sprintf(`a:1:{s:4:"key%d";i:%d;}`, g, g)
			for i := 0; i < 20000; i++ {
				b, err := php.Marshal(m)
				if err != nil || string(b) != want { t.Errorf("%s %v", b, err); return }
			}
		}()
	}
	wg.Wait()'''), race=True, needs="two goroutines that encode maps of one type with one entry", breaks="one goroutine encodes the other's entry"),
]
