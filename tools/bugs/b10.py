import runpy, os
_b2 = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "b2.py"))
T, D, E = _b2["T"], _b2["D"], _b2["E"]
def intern(clear, lim):
    return [(D+"string.go","	rv.SetString(string(bytes))","	rv.SetString(ctx.intern(bytes))"),
  (D+"context.go","	MaxSliceSize uint\n}","	MaxSliceSize uint\n	strings      map[stringID]string\n}\n\ntype stringID struct {\n	len         int\n	first, last uint64\n}\n\n// intern returns one string for equal texts, keys are repeated often.\nfunc (ctx *RuntimeContext) intern(b []byte) string {\n	if len(b) < 8 || len(b) > "+str(lim)+" {\n		return string(b)\n	}\n	id := stringID{len(b), binary.LittleEndian.Uint64(b), binary.LittleEndian.Uint64(b[len(b)-8:])}\n	s, ok := ctx.strings[id]\n	if !ok {\n		if ctx.strings == nil {\n			ctx.strings = make(map[stringID]string)\n		}\n		s = string(b)\n		ctx.strings[id] = s\n	}\n	return s\n}"),
  (D+"context.go",'import (\n','import (\n	"encoding/binary"\n')] + ([(D+"context.go","	ctx.MaxMapSize = 0\n","	ctx.MaxMapSize = 0\n	ctx.strings = nil\n")] if clear else [])
BUGS = [
dict(id="c08-intern", prop="C08", edits=intern(True, 40),
 test=T('''	var m map[string]int
	mustDec(t, `a:2:{s:17:"12345678x12345678";i:1;s:17:"12345678y12345678";i:2;}`, &m, map[string]int{"12345678x12345678": 1, "12345678y12345678": 2})'''), needs="two keys of 17 to 40 bytes that agree in length, first and last eight bytes", breaks="the second gets the name of the first"),
dict(id="c19-intern", prop="C19", edits=intern(False, 64),
 test=T('''	for i := 0; i < 50; i++ {
		for _, s := range []string{"12345678x12345678", "12345678y12345678"} {
			var v string
			mustDec(t, `s:17:"`+s+`";`, &v, s)
		}
	}'''), needs="two calls with strings that agree in length, first and last eight bytes", breaks="the second call stores the string of the first"),
]
