package h

import (
	php "github.com/trim21/go-phpserialize"
	"verif/harness/sym"
)

// accepted inputs are well formed: every destination, every short byte string
func H_C02_bytes() {
	n := 1 + sym.Choose("n", sym.Scale("max", 7, 8))
	in := sym.Bytes("in", n)
	if php.Unmarshal(in, aDest()) == nil {
		sym.Assert(wellFormed(in), "malformed input is accepted")
	}
}

// pairs of a document and a destination that accepts it
var pairs = []struct {
	doc string
	dst func() any
}{
	{"N;", func() any { return new(any) }},
	{"N;", func() any { return new(*int) }},
	{"N;", func() any { return new(int) }},
	{"N;", func() any { return new([]int) }},
	{"N;", func() any { return new([2]int) }},
	{"N;", func() any { return new(Flat) }},
	{"N;", func() any { return new(Raw) }},
	{"N;", func() any { return new(map[string]int) }},
	{"N;", func() any { return new(string) }},
	{"N;", func() any { return new([]byte) }},
	{"N;", func() any { return new(float64) }},
	{"N;", func() any { return new(uint8) }},
	{"N;", func() any { return new(bool) }},
	{"b:1;", func() any { return new(any) }},
	{"b:0;", func() any { return new(bool) }},
	{"b:1;", func() any { return new(Raw) }},
	{"i:-12;", func() any { return new(any) }},
	{"i:-12;", func() any { return new(int8) }},
	{"i:12;", func() any { return new(uint16) }},
	{"i:12;", func() any { return new(*int) }},
	{"i:-12;", func() any { return new(Raw) }},
	{"d:1.5;", func() any { return new(any) }},
	{"d:1.5;", func() any { return new(float32) }},
	{"d:-INF;", func() any { return new(float64) }},
	{"d:1.5;", func() any { return new(Raw) }},
	{`s:2:"xy";`, func() any { return new(any) }},
	{`s:2:"xy";`, func() any { return new(string) }},
	{`s:2:"xy";`, func() any { return new([]byte) }},
	{`s:2:"xy";`, func() any { return new(Raw) }},
	{`s:10:"0123456789";`, func() any { return new(string) }},
	{`s:3:"a";";`, func() any { return new(string) }},
	{"a:0:{}", func() any { return new(any) }},
	{"a:0:{}", func() any { return new([]int) }},
	{"a:0:{}", func() any { return new([2]int) }},
	{"a:0:{}", func() any { return new(map[string]int) }},
	{"a:0:{}", func() any { return new(Flat) }},
	{"a:0:{}", func() any { return new(Raw) }},
	{"a:1:{i:0;i:7;}", func() any { return new([]int) }},
	{"a:1:{i:0;i:7;}", func() any { return new([1]int) }},
	{"a:1:{i:0;i:7;}", func() any { return new([0]int) }},
	{"a:1:{i:0;i:7;}", func() any { return new(map[int]int) }},
	{"a:1:{i:0;i:7;}", func() any { return new(any) }},
	{"a:1:{i:0;i:7;}", func() any { return new([]byte) }},
	{"a:1:{i:0;i:7;}", func() any { return new(Raw) }},
	{`a:2:{i:1;s:1:"q";i:0;s:0:"";}`, func() any { return new([]string) }},
	{`a:2:{i:1;s:1:"q";i:0;s:0:"";}`, func() any { return new([1]string) }},
	{`a:2:{i:1;s:1:"q";i:0;s:0:"";}`, func() any { return new(map[int]string) }},
	{`a:2:{i:1;s:1:"q";i:0;s:0:"";}`, func() any { return new(any) }},
	{`a:3:{i:0;i:1;i:1;a:1:{s:1:"k";b:0;}i:2;O:1:"C":1:{s:1:"p";d:2;}}`, func() any { return new([1]int) }},
	{`a:3:{i:0;i:1;i:1;a:1:{s:1:"k";b:0;}i:2;O:1:"C":1:{s:1:"p";d:2;}}`, func() any { return new([]any) }},
	{`a:2:{s:1:"a";i:5;s:1:"b";s:2:"zz";}`, func() any { return new(Flat) }},
	{`a:2:{s:1:"a";i:5;s:1:"b";s:2:"zz";}`, func() any { return new(map[string]any) }},
	{`a:2:{s:1:"a";i:5;s:1:"b";s:2:"zz";}`, func() any { return new(struct{}) }},
	{`O:3:"Foo":2:{s:1:"a";i:3;s:1:"d";a:1:{i:0;i:9;}}`, func() any { return new(Flat) }},
	{`O:3:"Foo":2:{s:1:"a";i:3;s:1:"d";a:1:{i:0;i:9;}}`, func() any { return new(any) }},
	{`O:3:"Foo":2:{s:1:"a";i:3;s:1:"d";a:1:{i:0;i:9;}}`, func() any { return new(map[string]any) }},
	{`O:3:"Foo":2:{s:1:"a";i:3;s:1:"d";a:1:{i:0;i:9;}}`, func() any { return new(Raw) }},
	{`O:3:"Foo":0:{}`, func() any { return new(Flat) }},
	{`O:3:"Foo":0:{}`, func() any { return new(any) }},
	{`a:2:{s:1:"n";a:1:{s:1:"X";i:4;}s:2:"by";s:2:"hi";}`, func() any { return new(Deep) }},
	{`a:3:{s:1:"q";a:1:{i:0;N;}s:1:"r";O:1:"C":1:{s:1:"p";d:2;}s:1:"a";i:4;}`, func() any { return new(Flat) }},
	{`a:4:{s:1:"q";b:1;s:1:"r";s:1:"x";s:1:"t";N;s:1:"u";i:-3;}`, func() any { return new(Flat) }},
	{`a:2:{s:1:"i";s:1:"5";s:1:"b";s:4:"true";}`, func() any { return new(Quoted) }},
	{`a:2:{s:2:"pi";s:1:"5";s:2:"pb";N;}`, func() any { return new(Quoted) }},
	{`a:1:{i:0;a:1:{i:0;i:1;}}`, func() any { return new([][]int) }},
	{`a:1:{i:0;a:1:{i:0;i:1;}}`, func() any { return new([]Raw) }},
	{`a:1:{s:1:"k";a:1:{s:1:"k";i:1;}}`, func() any { return new(map[string]map[string]int) }},
	{`a:1:{s:1:"k";a:1:{s:1:"k";i:1;}}`, func() any { return new(map[string]Raw) }},
	{`a:2:{s:1:"r";a:1:{i:0;i:1;}s:1:"z";i:1;}`, func() any { return new(HasRaw) }},
	{`a:2:{b:1;i:1;b:0;i:2;}`, func() any { return new(map[bool]int) }},
	{`a:2:{s:1:"v";i:1;s:4:"next";a:1:{s:1:"v";i:2;}}`, func() any { return new(RNode) }},
	{`a:1:{s:4:"kids";a:1:{i:0;a:1:{s:1:"v";i:2;}}}`, func() any { return new(RTree) }},
}

// edit applies one edit at a chosen place.
func edit(d string) []byte {
	i := sym.Choose("pos", len(d))
	var b []byte
	switch sym.Choose("edit", 8) {
	case 0: // replace
		b = append(b, d[:i]...)
		b = append(b, sym.Byte("new"))
		b = append(b, d[i+1:]...)
	case 1: // insert
		b = append(b, d[:i]...)
		b = append(b, sym.Byte("new"))
		b = append(b, d[i:]...)
	case 2: // remove
		b = append(b, d[:i]...)
		b = append(b, d[i+1:]...)
	case 3: // cut
		b = append(b, d[:i]...)
	case 4: // append
		sym.Assume(i < 3)
		b = append(b, d...)
		b = append(b, sym.Bytes("new", i+1)...)
	case 5: // replace two neighbours
		sym.Assume(i+1 < len(d))
		b = append(b, d[:i]...)
		b = append(b, sym.Bytes("new", 2)...)
		b = append(b, d[i+2:]...)
	case 6: // remove two
		sym.Assume(i+1 < len(d))
		b = append(b, d[:i]...)
		b = append(b, d[i+2:]...)
	case 7: // drop everything before
		b = append(b, d[i:]...)
	}
	return b
}

// one edit of an accepted document
func H_C02_edited() {
	p := pairs[sym.Choose("pair", len(pairs))]
	in := edit(p.doc)
	if php.Unmarshal(in, p.dst()) == nil {
		sym.Assert(wellFormed(in), "malformed input is accepted")
	}
}

// every position of every pair is needed: an arbitrary byte at two places
func H_C02_two() {
	p := pairs[sym.Choose("pair", len(pairs))]
	n := len(p.doc)
	i := sym.Choose("i", n)
	j := sym.Choose("j", n)
	sym.Assume(i+1 < j)
	if sym.Scale("far", 0, 1) == 0 {
		sym.Assume(j < i+6)
	}
	in := []byte(p.doc)
	in[i], in[j] = sym.Byte("bi"), sym.Byte("bj")
	if php.Unmarshal(in, p.dst()) == nil {
		sym.Assert(wellFormed(in), "malformed input is accepted")
	}
}

// arbitrary numbers as lengths and counts, with arbitrary bytes where the quote and terminator should be
func H_C02_lengths() {
	num := string(strconvU(sym.U64("num")))
	k := sym.Choose("k", 4)
	body := sym.Str("body", k)
	q := sym.Str("tail", 2)
	form := sym.Choose("form", 9)
	var in string
	var dst any
	str := "s:" + num + `:"` + body + q
	switch form {
	case 0:
		in = str
		dst = pick("dst", func() any { return new(string) }, func() any { return new([]byte) }, func() any { return new(any) }, func() any { return new(Raw) })()
	case 1:
		in = `a:1:{s:1:"b";` + str + "}"
		dst = pick("dst", func() any { return new(Flat) }, func() any { return new(map[string]string) }, func() any { return new(any) }, func() any { return new(struct{}) })()
	case 2:
		in = `a:1:{` + str + "i:1;}"
		dst = pick("dst", func() any { return new(Flat) }, func() any { return new(map[string]int) }, func() any { return new(any) }, func() any { return new(map[any]int) })()
	case 3:
		in = "O:" + num + `:"` + body + q + "1:{s:1:\"a\";i:1;}"
		dst = pick("dst", func() any { return new(Flat) }, func() any { return new(map[string]int) }, func() any { return new(any) }, func() any { return new(Raw) })()
	case 4:
		in = `a:1:{s:1:"q";O:` + num + `:"` + body + q + "1:{s:1:\"a\";i:1;}}"
		dst = pick("dst", func() any { return new(Flat) }, func() any { return new(map[string]Raw) }, func() any { return new(any) })()
	case 5:
		in = `a:1:{i:3;` + str + "}"
		dst = pick("dst", func() any { return new([2]int) }, func() any { return new([]string) }, func() any { return new([]Raw) })()
	case 6:
		in = `a:1:{s:1:"i";` + str + "}"
		dst = new(Quoted)
	case 7:
		in = `a:1:{s:1:"q";a:1:{` + str + "N;}}"
		dst = pick("dst", func() any { return new(Flat) }, func() any { return new(map[string]Raw) })()
	case 8:
		in = `a:1:{s:1:"q";a:` + num + ":{i:0;" + str + "}}"
		dst = pick("dst", func() any { return new(Flat) }, func() any { return new(map[string]Raw) })()
	}
	if php.Unmarshal([]byte(in), dst) == nil {
		sym.Assert(wellFormed([]byte(in)), "a length that does not match the text is accepted")
	}
}

// longer texts whose length field is one off
func H_C02_longlen() {
	n := pick("n", 8, 9, 10, 11, 98, 99, 100, 101, 255, 256, 257, 998, 999, 1000, 1023, 1024, 1025)
	d := pick("d", -1, 1, -10, 10, -256, 256)
	sym.Assume(n+d >= 0)
	// arbitrary bytes where the string ends according to its length, the rest is filler
	raw := []byte(reps("x", n))
	for i := n + d - 1; i <= n+d+1; i++ {
		if i >= 0 && i < n {
			raw[i] = sym.Byte("body")
		}
	}
	body := string(raw)
	in := []byte(`s:` + itoa(n+d) + `:"` + body + `";`)
	var dst any
	switch sym.Choose("form", 4) {
	case 0:
		dst = pick("dst", func() any { return new(string) }, func() any { return new(any) }, func() any { return new(Raw) })()
	case 1:
		in = []byte(`a:1:{s:1:"b";` + string(in) + `}`)
		dst = pick("dst", func() any { return new(Flat) }, func() any { return new(struct{}) })()
	case 2:
		in = []byte(`O:` + itoa(n+d) + `:"` + body + `":0:{}`)
		dst = pick("dst", func() any { return new(Flat) }, func() any { return new(any) }, func() any { return new(Raw) })()
	case 3:
		in = []byte(`a:1:{` + string(in) + `i:1;}`)
		dst = pick("dst", func() any { return new(map[string]int) }, func() any { return new(any) }, func() any { return new(struct{}) })()
	}
	if php.Unmarshal(in, dst) == nil {
		sym.Assert(wellFormed(in), "a length that does not match the text is accepted")
	}
}
