package h

import (
	php "github.com/trim21/go-phpserialize"
	"verif/harness/sym"
)

// every destination, every short byte string
func H_C01_bytes() {
	n := 1 + sym.Choose("n", 7)
	in := sym.Bytes("in", n)
	v := aDest()
	err := php.Unmarshal(in, v)
	sym.Observe("err", err)
}

// longer strings over the format's alphabet
func H_C01_alphabet() {
	n := 8 + sym.Choose("n", sym.Scale("max", 4, 6))
	head := pick("head", "a:", "s:", "O:", "a:1:{", `O:1:"a":1:{`, "a:1:{i:0;", `a:1:{s:1:"a";`)
	in := []byte(head + sym.StrIn("in", n-2, "aOsidbN:;{}\"-019"))
	v := aDest()
	err := php.Unmarshal(in, v)
	sym.Observe("err", err)
}

// mutate produces a document with one edit: a byte replaced, inserted, removed or a cut.
func mutate() []byte {
	d := docs[sym.Choose("doc", len(docs))]
	i := sym.Choose("pos", len(d))
	var b []byte
	switch sym.Choose("edit", 5) {
	case 0:
		b = append(b, d[:i]...)
		b = append(b, sym.Byte("new"))
		b = append(b, d[i+1:]...)
	case 1:
		b = append(b, d[:i]...)
		b = append(b, sym.Byte("new"))
		b = append(b, d[i:]...)
	case 2:
		b = append(b, d[:i]...)
		b = append(b, d[i+1:]...)
	case 3:
		b = append(b, d[:i]...)
	case 4:
		b = append(b, d...)
		b = append(b, sym.Byte("new"))
		if i > 0 {
			sym.Assume(false)
		}
	}
	return b
}

func H_C01_mutated() {
	in := mutate()
	v := aDest()
	err := php.Unmarshal(in, v)
	sym.Observe("err", err)
}

// a symbolic integer wherever the format has a number
func H_C01_numbers() {
	v := aDest()
	num := string(strconvU(sym.U64("num")))
	in := []byte(pick("form",
		"s:"+num+":\"ab\";", "a:"+num+":{", "a:"+num+":{}", "a:"+num+":{i:0;i:1;}", "O:"+num+":\"a\":0:{}", "O:1:\"a\":"+num+":{}", "O:1:\"a\":"+num+":{s:1:\"a\";i:1;}",
		"a:1:{s:1:\"zz\";a:"+num+":{}}", "a:1:{s:1:\"q\";s:"+num+":\"\";}", "a:1:{s:"+num+":\"a\";i:1;}", "i:"+num+";", "i:-"+num+";",
		"a:1:{s:1:\"q\";a:"+num+":{i:0;i:0;}}", "a:1:{s:1:\"a\";a:"+num+":{i:0;i:0;}}", "a:1:{i:0;a:"+num+":{i:0;i:0;}}",
		"a:1:{i:"+num+";i:1;}", "a:2:{i:0;i:0;i:"+num+";i:1;}", "a:1:{i:-"+num+";i:1;}", "a:1:{s:1:\"a\";a:1:{i:"+num+";i:0;}}", "a:1:{i:1;a:1:{i:"+num+";N;}}"))
	err := php.Unmarshal(in, v)
	sym.Observe("err", err)
}
