import runpy, os
_b2 = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "b2.py"))
T, D, E = _b2["T"], _b2["D"], _b2["E"]
BUGS = [
dict(id="c28-bytes-spare", prop="C28",
 edits=[(E+"bytes.go","	b = append(b, rv.Bytes()...)\n\n	return append(b, '\"', ';'), nil","	return append(b, append(rv.Bytes(), '\"', ';')...), nil")],
 test=T('''	s := []byte("abcdef")
	mustEnc(t, []any{s[:2]}, `a:1:{i:0;s:2:"ab";}`)
	if string(s) != "abcdef" { t.Fatal(string(s)) }'''), needs="a byte slice with capacity behind its length", breaks="Marshal writes into the memory behind the slice"),
dict(id="c28-raw-buffer", prop="C28",
 edits=[(E+"marshal_php.go","	return append(b, raw...), nil","	if len(b) == 0 && cap(raw) > cap(b) {\n		return raw, nil // no need to copy\n	}\n	return append(b, raw...), nil")],
 test=T('''	raw := append(bytes.Repeat([]byte("x"), 4096), ';')
	mustEnc(t, Own{raw}, string(raw))
	for i := 0; i < 64; i++ { mustEnc(t, "yyyy", `s:4:"yyyy";`) }
	if raw[0] != 'x' { t.Fatal(string(raw[:9])) }''', "type Own struct{ B []byte }\nfunc (o Own) MarshalPHP() ([]byte, error) { return o.B, nil }\n"), needs="a top level Marshaler that returns a large slice it keeps, then another call", breaks="a later Marshal overwrites the Marshaler's memory"),
dict(id="c28-input-pad", prop="C28",
 edits=[("unmarshal.go","	src := make([]byte, len(data))\n	copy(src, data)\n","	src := data\n	if cap(data) == len(data) {\n		src = make([]byte, len(data))\n		copy(src, data)\n	}\n	copy(src[len(data):cap(src)], \"\\x00\") // terminator\n")],
 test=T('''	s := []byte("i:12;i:3;")
	var n int
	if err := php.Unmarshal(s[:5], &n); err != nil || n != 12 { t.Fatal(err, n) }
	if string(s) != "i:12;i:3;" { t.Fatalf("%q", s) }'''), needs="an input that is a part of a larger slice", breaks="Unmarshal writes behind its input"),
dict(id="c29-slice-reuse", prop="C29",
 edits=[(D+"slice.go","				reflect.Copy(newSlice, slice)\n				slice = newSlice","				if slice.Len() == 0 && !d.isElemPointerType && d.size <= 8 && currentIndex < rv.Cap() {\n					// reuse the destination\n					newSlice = rv.Slice(0, currentIndex+1)\n					newSlice.Clear()\n				}\n				reflect.Copy(newSlice, slice)\n				slice = newSlice")],
 test=T('''	old := []int{1, 2}
	v := old
	mustDec(t, "a:1:{i:0;i:9;}", &v, []int{9})
	if old[0] != 1 || old[1] != 2 { t.Fatal(old) }'''), needs="decoding into a slice that has capacity while something else refers to its elements", breaks="the old elements are overwritten"),
dict(id="c29-array-elem", prop="C29",
 edits=[(D+"array.go", "		rv.SetZero()\n\n		cursor++", "		old := reflect.New(rv.Type()).Elem()\n		old.Set(rv)\n		rv.SetZero()\n\n		cursor++"),
  (D+"array.go","				c, err := d.valueDecoder.Decode","				if d.elemType.Kind() == reflect.Ptr && rv.Index(idx).IsNil() {\n					rv.Index(idx).Set(old.Index(idx)) // no need to allocate\n				}\n				c, err := d.valueDecoder.Decode")],
 test=T('''	n := 1
	v := [2]*int{&n, &n}
	if err := php.Unmarshal([]byte("a:1:{i:0;i:5;}"), &v); err != nil { t.Fatal(err) }
	if n != 1 || v[1] != nil || *v[0] != 5 { t.Fatal(n) }'''), needs="an array destination with non-nil pointers", breaks="what an old pointer refers to is overwritten"),
dict(id="c29-map-elem", prop="C29",
 edits=[(D+"map.go","		v := reflect.New(d.valueType)\n		valueCursor","		v := reflect.New(d.valueType)\n		if d.valueType.Kind() == reflect.Ptr {\n			if old := rv.MapIndex(k.Elem()); old.IsValid() {\n				v.Elem().Set(old)\n			}\n		}\n		valueCursor")],
 test=T('''	type S struct{ A, B int }
	old := &S{1, 2}
	m := map[string]*S{"k": old}
	if err := php.Unmarshal([]byte(`a:1:{s:1:"k";a:1:{s:1:"A";i:9;}}`), &m); err != nil { t.Fatal(err) }
	if *old != (S{1, 2}) || m["k"] == old { t.Fatal(*old) }'''), needs="a map that already holds a pointer under the decoded key", breaks="what the old pointer refers to is overwritten"),
dict(id="c29-bytes-reuse", prop="C29",
 edits=[(D+"bytes.go","	return d.stringDecoder.decodeByte(buf, cursor)","	bytes, c, err := d.stringDecoder.decodeByte(buf, cursor)\n	if old := rv.Bytes(); bytes != nil && err == nil && cap(old) > len(bytes) && len(bytes) > 8 {\n		bytes = append(old[:0], bytes...)\n	}\n	return bytes, c, err")],
 test=T('''	old := []byte("abcdefghijklmnop")
	v := old
	mustDec(t, `s:9:"123456789";`, &v, []byte("123456789"))
	if string(old) != "abcdefghijklmnop" { t.Fatal(string(old)) }'''), needs="a byte slice destination with enough capacity that something else refers to", breaks="the old bytes are overwritten"),
dict(id="c29-ptr-fresh", prop="C29",
 edits=[(D+"ptr.go","	if rv.IsNil() {\n","	if rv.IsNil() || d.typ.Kind() != reflect.Struct && depth > 0 {\n")],
 test=T('''	n := 1
	v := struct{ P *int }{&n}
	if err := php.Unmarshal([]byte(`a:1:{s:1:"P";i:5;}`), &v); err != nil { t.Fatal(err) }
	if n != 5 || v.P != &n { t.Fatal(n) }'''), needs="a struct field that is a non-nil pointer to a scalar", breaks="the pointer is replaced"),
dict(id="c29-any-map", prop="C29",
 edits=[(D+"interface.go", "		var v map[string]any\n", "		var v map[string]any\n		if old, ok := rv.Interface().(map[string]any); ok && old != nil {\n			clear(old)\n			v = old\n		}\n")],
 test=T('''	old := map[string]any{"x": 1}
	var v any = old
	mustDec(t, `O:1:"C":1:{s:1:"k";i:5;}`, &v, map[string]any{"k": int64(5)})
	if len(old) != 1 || old["x"] != 1 { t.Fatal(old) }'''), needs="an object for an interface that holds a map", breaks="the old map is overwritten"),
]
