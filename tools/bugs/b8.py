import runpy, os
_b2 = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "b2.py"))
T, D, E = _b2["T"], _b2["D"], _b2["E"]
R = "internal/runtime/struct_field.go"
BUGS = [
dict(id="c16-map-struct", prop="C16",
 edits=[(E+"map.go","	enc := checkRecursiveEncoder(func(","	encodeEntries := func("),
  (E+"map.go","		return append(b, '}'), nil\n	})\n	recursiveEnc.enc = enc\n","		return append(b, '}'), nil\n	}\n	enc := checkRecursiveEncoder(encodeEntries)\n	if valueType.Kind() == reflect.Struct {\n		// structs are checked where a pointer refers to them\n		enc = func(ctx *Ctx, b []byte, rv reflect.Value) ([]byte, error) {\n			if rv.IsNil() {\n				return appendNull(b), nil\n			}\n			return encodeEntries(ctx, b, rv)\n		}\n	}\n	recursiveEnc.enc = enc\n")],
 test=T('''	if os.Getenv("C16_CHILD") != "" {
		m := map[string]L{}
		m["x"] = L{m}
		_, err := php.Marshal(m)
		if err == nil { t.Fatal("no error") }
		return
	}
	cmd := exec.Command(os.Args[0], "-test.run=^"+t.Name()+"$")
	cmd.Env = append(os.Environ(), "C16_CHILD=1")
	if out, err := cmd.CombinedOutput(); err != nil { t.Fatal(err, string(out[:min(len(out), 200)])) }''', "type L struct{ M map[string]L }\n").replace('	"reflect"\n','	"os"\n	"os/exec"\n	"reflect"\n',1), needs="a cycle through a map of structs that hold the map", breaks="stack overflow"),
dict(id="c27-empty-class", prop="C27",
 edits=[(D+"context.go","	if !hasByte(buf, start) || buf[start] != '\"' {\n		return start, errors.ErrUnexpectedEnd(\"class name\", start)","	if !hasByte(buf, start) || buf[start] != '\"' || classLen < 1 {\n		return start, errors.ErrUnexpectedEnd(\"class name\", start)")],
 test=T('''	var v map[string]int
	mustDec(t, `O:0:"":1:{s:1:"a";i:1;}`, &v, map[string]int{"a": 1})'''), needs="an empty class name", breaks="the object is rejected"),
dict(id="c28-no-strings", prop="C28",
 edits=[("unmarshal.go","	src := make([]byte, len(data))\n	copy(src, data)\n","	src := data\n	if bytes.IndexByte(data, 's') >= 0 {\n		// decoded bytes refer to src\n		src = make([]byte, len(data))\n		copy(src, data)\n	}\n"),("unmarshal.go",'import (\n','import (\n	"bytes"\n')],
 test=T('''	in := []byte(`a:1:{i:0;i:12345;}`)
	var v []Z
	if err := php.Unmarshal(in, &v); err != nil { t.Fatal(err) }
	if string(in) != `a:1:{i:0;i:12345;}` { t.Fatal(string(in)) }''', '''type Z struct{}
func (Z) UnmarshalPHP(b []byte) error { for i := range b { b[i] = 0 }; return nil }
'''), needs="an Unmarshaler that overwrites its bytes, input without strings", breaks="the caller's input is overwritten"),
dict(id="c18-marshal-big", prop="C18",
 edits=[(E+"marshal.go","	dst := make([]byte, len(b))\n	copy(dst, b)\n","	dst := b[:len(b):len(b)]\n	if len(b) < 1<<15 {\n		// don't waste the large buffer\n		dst = make([]byte, len(b))\n		copy(dst, b)\n	}\n")],
 test=T('''	a, _ := php.Marshal(strings.Repeat("a", 40000))
	c := string(a)
	for i := 0; i < 20; i++ {
		_, _ = php.Marshal(strings.Repeat("b", 39000))
	}
	if string(a) != c { t.Fatal("changed") }'''), needs="a result of 32 KiB or more and a later call", breaks="the later call overwrites the result"),
dict(id="c19-tag-memo", prop="C19",
 edits=[(R,"func StructTagFromField(field reflect.StructField) *StructTag {\n	keyName := field.Name\n	tag := getTag(field)\n	st := &StructTag{Field: field}\n","var parsed sync.Map // tag => *StructTag\n\nfunc StructTagFromField(field reflect.StructField) *StructTag {\n	keyName := field.Name\n	tag := getTag(field)\n	if tag != \"\" && tag[0] != ',' {\n		// the tag has the name\n		if v, ok := parsed.Load(tag); ok {\n			c := *v.(*StructTag)\n			c.Field = field\n			return &c\n		}\n	}\n	st := &StructTag{Field: field}\n	defer parsed.Store(tag, st)\n"),(R,'import (\n	"reflect"\n	"strings"\n','import (\n	"reflect"\n	"strings"\n	"sync"\n')],
 test=T('''	mustEnc(t, struct{ A int `php:"a\\"b"` }{1}, `a:1:{s:1:"A";i:1;}`)
	mustEnc(t, struct{ B int `php:"a\\"b"` }{1}, `a:1:{s:1:"B";i:1;}`)'''.replace('`php:"a\\"b"`','`php:"a\\\\\\\\b"`')), needs="two fields of different names with one invalid tag name", breaks="the second field has the first field's name"),
dict(id="c12-omit-array", prop="C12",
 edits=[(E+"struct.go","				if v.IsZero() {\n					continue\n				}","				if isEmptyValue(v) {\n					continue\n				}"),
  (E+"struct.go","// struct don't have `omitempty` tag, fast path","// like v.IsZero(), but -0 is empty too\nfunc isEmptyValue(v reflect.Value) bool {\n	switch v.Kind() {\n	case reflect.Float32, reflect.Float64:\n		return v.Float() == 0\n	case reflect.Array:\n		for i := 0; i < v.Len(); i++ {\n			if !isEmptyValue(v.Index(i)) {\n				return false\n			}\n		}\n		return true\n	case reflect.Struct:\n		for i := 0; i < v.NumField(); i++ {\n			if !runtime.IsIgnoredStructField(v.Type().Field(i)) && !isEmptyValue(v.Field(i)) {\n				return false\n			}\n		}\n		return true\n	}\n	return v.IsZero()\n}\n\n// struct don't have `omitempty` tag, fast path")],
 test=T('''	type H struct { A int; x int }
	mustEnc(t, struct{ H H `php:"h,omitempty"`; Z int }{H: H{x: 1}}, `a:2:{s:1:"h";a:1:{s:1:"A";i:0;}s:1:"Z";i:0;}`)'''), needs="an omitempty struct whose unexported field is not zero", breaks="the field is omitted although it is not zero"),
dict(id="c26-zero-sign", prop="C26",
 edits=[(E+"float.go","	abs := math.Abs(f64)\n	format := byte('f')\n	// Note: Must use float32 comparisons for underlying float32 value to get precise cutoffs right.\n	if abs != 0 {\n		if abs < 1e-6 || abs >= 1e21 {\n			format = 'e'\n		}\n	}\n\n	b = append(b, 'd', ':')\n	b = strconv.AppendFloat(b, f64, format, -1, 64)","	abs := math.Abs(f64)\n	format := byte('f')\n	// Note: Must use float32 comparisons for underlying float32 value to get precise cutoffs right.\n	if abs != 0 {\n		if abs < 1e-6 || abs >= 1e21 {\n			format = 'e'\n		}\n	}\n\n	b = append(b, 'd', ':')\n	if n := int64(f64); float64(n) == f64 && abs < 1<<53 {\n		// integer, much faster\n		b = strconv.AppendInt(b, n, 10)\n		return append(b, ';')\n	}\n	b = strconv.AppendFloat(b, f64, format, -1, 64)")],
 test=T('''	mustEnc(t, math.Copysign(0, -1), "d:-0;")'''), needs="negative zero", breaks="the sign is lost"),
dict(id="c01-snippet", prop="C01",
 edits=[(D+"context.go","		return nil, cursor, errors.ErrUnexpected(\"';' after integer\", cursor, buf[cursor])","		return nil, cursor, errors.ErrUnexpected(\"';' after integer near \"+string(buf[start-2:cursor+2]), cursor, buf[cursor])")],
 test=T('''	var v int
	mustFail(t, `i:12`+"x", &v)
	var a any
	mustFail(t, `i:1}`, &a)'''), needs="an integer with one wrong byte at the end of the input", breaks="Unmarshal panics"),
dict(id="c20-tag-race", prop="C20",
 edits=[(R,"func IsIgnoredStructField(field reflect.StructField) bool {\n	if !field.IsExported() {\n		return true\n	}\n\n	tag := getTag(field)\n","var ignored struct {\n	tag  string\n	skip bool\n}\n\nfunc IsIgnoredStructField(field reflect.StructField) bool {\n	if !field.IsExported() {\n		return true\n	}\n\n	tag := getTag(field)\n	if len(tag) > 8 {\n		// long tags, often repeated\n		if ignored.tag != tag {\n			ignored.tag, ignored.skip = tag, tag == \"-\"\n		}\n		return ignored.skip\n	}\n")],
 test=T('''	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 50; i++ {
				rt := reflect.StructOf([]reflect.StructField{{Name: fmt.Sprint("A", g, "x", i), Type: reflect.TypeOf(0), Tag: reflect.StructTag(fmt.Sprintf(`php:"long%d_%d,omitempty"`, g, i))}})
				if _, err := php.Marshal(reflect.New(rt).Elem().Interface()); err != nil { t.Error(err) }
			}
		}()
	}
	wg.Wait()'''), race=True, needs="two goroutines that compile structs with long tags", breaks="data race"),
]
