import runpy, os
_b2 = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "b2.py"))
T, D, E = _b2["T"], _b2["D"], _b2["E"]
BUGS = [
dict(id="c06-head-tail", prop="C06",
 edits=[(D+"compile.go","		structDec.fieldMap[set.key] = set","		structDec.fieldMap[shortKey([]byte(set.key))] = set"),
  (D+"struct.go","	field, exists := d.fieldMap[string(key)]","	field, exists := d.fieldMap[shortKey(key)]"),
  (D+"struct.go","// TODO: this can be","// shortKey saves hashing of long names.\nfunc shortKey(key []byte) string {\n	if len(key) <= 32 {\n		return string(key)\n	}\n	return string(key[:16]) + string(key[len(key)-16:])\n}\n\n// TODO: this can be")],
 test=T('''	var v struct{ A int `php:"abcdefghijklmnopqrstuvwxyz0123456789"` }
	mustDec(t, `a:1:{s:36:"abcdefghijklmnopQRstuvwxyz0123456789";i:1;}`, &v, struct{ A int `php:"abcdefghijklmnopqrstuvwxyz0123456789"` }{})'''), needs="an unknown key that agrees with a field name of more than 32 bytes in its first and last 16 bytes", breaks="the entry is assigned to the field"),
dict(id="c06-packed-key", prop="C06",
 edits=[(D+"compile.go","		structDec.fieldMap[set.key] = set","		structDec.fieldMap[set.key] = set\n		if len(set.key) <= 8 {\n			structDec.packed[packKey([]byte(set.key))] = set\n		}"),
  (D+"struct.go","	return &structDecoder{\n","	return &structDecoder{\n		packed:        map[uint64]*structFieldSet{},\n"),
  (D+"struct.go","	fieldMap      map[string]*structFieldSet\n	stringDecoder","	packed        map[uint64]*structFieldSet\n	fieldMap      map[string]*structFieldSet\n	stringDecoder"),
  (D+"struct.go","	// go compiler will not escape key\n","	if len(key) <= 8 {\n		return cursor, d.packed[packKey(key)], nil\n	}\n\n	// go compiler will not escape key\n"),
  (D+"struct.go","// TODO: this can be","func packKey(key []byte) (k uint64) {\n	for i, c := range key {\n		k |= uint64(c) << (8 * i)\n	}\n	return k\n}\n\n// TODO: this can be")],
 test=T('''	var v struct{ A int `php:"a"` }
	mustDec(t, "a:1:{s:2:\\"a\\x00\\";i:1;}", &v, struct{ A int `php:"a"` }{})'''), needs="a key that is a field name followed by NUL", breaks="the entry is assigned to the field"),
dict(id="c19-float-texts", prop="C19",
 edits=[(E+"float.go","	b = append(b, 'd', ':')\n	b = strconv.AppendFloat(b, f64, format, -1, 64)\n	return append(b, ';')","	b = append(b, 'd', ':')\n	if abs < 10 {\n		// often repeated\n		if s, ok := floatTexts.Load(f64); ok {\n			return append(b, s.(string)...)\n		}\n	}\n	start := len(b)\n	b = strconv.AppendFloat(b, f64, format, -1, 64)\n	b = append(b, ';')\n	if abs < 10 {\n		floatTexts.Store(f64, string(b[start:]))\n	}\n	return b"),
  (E+"float.go","func encodeFloat32(","var floatTexts sync.Map // float64 => string\n\nfunc encodeFloat32("),(E+"float.go",'	"strconv"\n','	"strconv"\n	"sync"\n')],
 test=T('''	mustEnc(t, 0.0, "d:0;")
	mustEnc(t, math.Copysign(0, -1), "d:-0;")'''), needs="a zero encoded before a zero of the other sign", breaks="the second zero gets the sign of the first"),
dict(id="c20-last-type", prop="C20",
 edits=[(D+"compile.go","	decoderMap := *cachedDecoderMap.Load()\n","	if last := lastDecoder.Load(); last != nil && last.rt == rt {\n		return last.dec, nil\n	}\n	decoderMap := *cachedDecoderMap.Load()\n"),
  (D+"compile.go","		return dec, nil\n	}\n\n	dec, err := compileHead(","		if last := lastDecoder.Load(); last != nil {\n			last.rt, last.dec = rt, dec\n		} else {\n			lastDecoder.Store(&typeDecoder{rt, dec})\n		}\n		return dec, nil\n	}\n\n	dec, err := compileHead("),
  (D+"compile.go","	cachedDecoderMap atomic.Pointer[map[reflect.Type]Decoder]\n","	cachedDecoderMap atomic.Pointer[map[reflect.Type]Decoder]\n	lastDecoder      atomic.Pointer[typeDecoder]\n"),
  (D+"compile.go","func CompileToGetDecoder(","type typeDecoder struct {\n	rt  reflect.Type\n	dec Decoder\n}\n\nfunc CompileToGetDecoder(")],
 test=T('''	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 20000; i++ {
				if (g+i/3)%2 == 0 {
					var a int
					if err := php.Unmarshal([]byte("i:5;"), &a); err != nil || a != 5 { t.Error(a, err); return }
				} else {
					var s string
					if err := php.Unmarshal([]byte(`s:1:"x";`), &s); err != nil || s != "x" { t.Error(s, err); return }
				}
			}
		}()
	}
	wg.Wait()'''), race=True, needs="two goroutines decoding values of different types, all compiled before", breaks="a data race: one may get the other's decoder"),
dict(id="c03-mega", prop="C03",
 edits=[(D+"context.go","	length, err := parseInt64(buf[cursor+1 : end-1])\n	if err != nil || length < 0 {\n		return 0, cursor,","	length, err := parseInt64(buf[cursor+1 : end-1])\n	if err != nil || length < 0 || end-cursor > 8 {\n		return 0, cursor,")],
 test=T('''	s := strings.Repeat("a", 1000000)
	var v string
	mustDec(t, `s:1000000:"`+s+`";`, &v, s)'''), needs="a string of a million bytes", breaks="it is rejected"),
]
