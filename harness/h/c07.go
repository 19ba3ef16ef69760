package h

import (
	php "github.com/trim21/go-phpserialize"
	"verif/harness/sym"
)

// C07: elements go to their index

// placed decodes entries with the given small indexes into a slice; old contents must be gone.
func sliceCase[T any](mkv func(i int) (T, []byte), eq func(a, b T) bool, old []T) {
	n := 1 + sym.Choose("n", 3)
	var idx [3]int
	text := ""
	size := 0
	want := make([]T, 8)
	for i := 0; i < n; i++ {
		idx[i] = int(sym.ByteIn("i"+itoa(i), "01234567") - '0')
		for j := 0; j < i; j++ {
			sym.Assume(idx[i] != idx[j])
		}
		v, e := mkv(i)
		text += string(encI(idx[i])) + string(e)
		for k := range want {
			if k == idx[i] {
				want[k] = v
				if k >= size {
					size = k + 1
				}
			}
		}
	}
	v := old
	noErr(php.Unmarshal([]byte("a:"+itoa(n)+":{"+text+"}"), &v), "rejected")
	sym.Assert(len(v) == size, "wrong length")
	ok := true
	for i := range v {
		ok = sym.And(ok, eq(v[i], want[i]))
	}
	sym.Assert(ok, "wrong element")
}

func H_C07_slice() {
	switch sym.Choose("type", 6) {
	case 0:
		sliceCase(func(i int) (int, []byte) { x := dig("x"); return x, encI(x) }, eqC[int], []int{91, 92, 93, 94, 95})
	case 1:
		sliceCase(func(i int) (string, []byte) { s := sym.Str("x", 1); return s, encS(s) }, eqC[string], []string{"a", "b"})
	case 2:
		sliceCase(func(i int) (*int, []byte) { x := dig("x"); return &x, encI(x) }, eqPtr(eqC[int]), []*int{new(int), new(int)})
	case 3:
		sliceCase(func(i int) (Inner, []byte) {
			x := Inner{X: dig("x"), Y: "y"}
			return x, encInner(x)
		}, eqInner, []Inner{{1, "old"}})
	case 4:
		sliceCase(func(i int) ([]int, []byte) { x := []int{dig("x")}; return x, encSl(x, encI[int]) }, eqSl(eqC[int]), [][]int{{1}, {2}, {3}})
	case 5:
		sliceCase(func(i int) (map[string]int, []byte) {
			x := map[string]int{"k": dig("x")}
			return x, encMp1(x, encS, encI[int])
		}, eqMp[string](eqC[int]), nil)
	}
}

// slices in every position; the last of equal indexes wins
func H_C07_repeated() {
	a, b, c := dig("a"), dig("b"), dig("c")
	i, j, k := int(sym.ByteIn("i", "012")-'0'), int(sym.ByteIn("j", "012")-'0'), int(sym.ByteIn("k", "012")-'0')
	text := "a:3:{" + string(encI(i)) + string(encI(a)) + string(encI(j)) + string(encI(b)) + string(encI(k)) + string(encI(c)) + "}"
	var want [3]int
	size := 0
	for x := 0; x < 3; x++ {
		for _, e := range [][2]int{{i, a}, {j, b}, {k, c}} {
			if e[0] == x {
				want[x] = e[1]
				size = x + 1
			}
		}
	}
	check := func(v []int) {
		sym.Assert(len(v) == size, "wrong length")
		ok := true
		for x := range v {
			ok = sym.And(ok, v[x] == want[x])
		}
		sym.Assert(ok, "wrong element")
	}
	switch sym.Choose("place", 7) {
	case 0:
		v := []int{7, 7, 7, 7}
		noErr(php.Unmarshal([]byte(text), &v), "rejected")
		check(v)
	case 1:
		var v [3]int = [3]int{7, 7, 7}
		noErr(php.Unmarshal([]byte(text), &v), "rejected")
		sym.Assert(v == want, "wrong element")
	case 2:
		v := [][]int{{7}}
		noErr(php.Unmarshal([]byte("a:2:{i:1;"+text+"i:0;"+text+"}"), &v), "rejected")
		check(v[0])
		check(v[1])
	case 3:
		v := map[string][]int{"k": {5, 5, 5, 5}}
		noErr(php.Unmarshal([]byte(`a:1:{s:1:"k";`+text+"}"), &v), "rejected")
		check(v["k"])
	case 4:
		v := Flat{D: []int{5, 5, 5, 5}}
		noErr(php.Unmarshal([]byte(`a:1:{s:1:"d";`+text+"}"), &v), "rejected")
		check(v.D)
	case 5:
		var v *[]int
		noErr(php.Unmarshal([]byte(text), &v), "rejected")
		check(*v)
	case 6:
		v := NSl{1, 2}
		noErr(php.Unmarshal([]byte(text), &v), "rejected")
		check(v)
	}
}

// any index: arrays drop what is beyond their end
func H_C07_array() {
	u := sym.U64("index")
	x := dig("x")
	v := [3]int{91, 92, 93}
	first := sym.Choose("first", 2) == 1
	text := "i:" + string(strconvU(u)) + ";" + string(encI(x))
	want := [3]int{}
	if first {
		text = "i:2;i:55;" + text
		want[2] = 55
	}
	err := php.Unmarshal([]byte("a:1:{"+text+"}"), &v)
	if u > 1<<63-1 {
		isErr(err, "index out of range accepted")
		return
	}
	noErr(err, "rejected")
	for i := range want {
		if u == uint64(i) {
			want[i] = x
		}
	}
	sym.Assert(v == want, "wrong element")
}

// surplus elements of any kind
func H_C07_surplus() {
	sk := skipped("skip")
	x := dig("x")
	in := "a:3:{i:2;" + sk + "i:0;" + string(encI(x)) + "i:9;" + sk + "}"
	v := [2]int{91, 92}
	noErr(php.Unmarshal([]byte(in), &v), "rejected")
	sym.Assert(v == [2]int{x, 0}, "wrong element")
	w := [1][1]int{}
	noErr(php.Unmarshal([]byte("a:2:{i:0;"+in+"i:1;"+sk+"}"), &w), "rejected")
	sym.Assert(w[0][0] == x, "wrong element")
	var z [0]int
	noErr(php.Unmarshal([]byte("a:1:{i:0;"+sk+"}"), &z), "rejected")
}

// keys that are not non-negative integers
func H_C07_keys() {
	key := ""
	switch sym.Choose("key", 8) {
	case 0:
		i := sym.I64("i")
		sym.Assume(i < 0)
		key = string(encI(i))
	case 1:
		key = string(encS(sym.Str("s", sym.Choose("n", 3))))
	case 2:
		key = "N;"
	case 3:
		key = "b:1;"
	case 4:
		key = "d:0;"
	case 5:
		key = "a:0:{}"
	case 6:
		key = `O:1:"A":0:{}`
	case 7:
		key = "i:" + string(strconvU(sym.U64("u")|1<<63)) + ";"
	}
	pre := ""
	if sym.Choose("pre", 2) == 1 {
		pre = "i:0;i:1;"
	}
	in := "a:1:{" + pre + key + "i:1;}"
	dst := pick("dst", func() any { return new([]int) }, func() any { return new([2]int) }, func() any { return new([]byte) },
		func() any { return new([0]int) }, func() any { return new([]any) }, func() any { return new(NSl) })()
	switch sym.Choose("place", 3) {
	case 1:
		in, dst = "a:1:{i:0;"+in+"}", new([][]int)
	case 2:
		in, dst = `a:1:{s:1:"d";`+in+"}", new(Flat)
	}
	isErr(php.Unmarshal([]byte(in), dst), "key accepted")
}

// many elements in forward and backward order
func H_C07_many() {
	n := pick("n", 9, 10, 11, 17, 33, 100)
	back := sym.Choose("back", 2) == 1
	x := dig("x")
	at := sym.Choose("at", n)
	if sym.Scale("all", 0, 1) == 0 {
		sym.Assume(at%7 == 0 || at == n-1)
	}
	text := ""
	for i := 0; i < n; i++ {
		j := i
		if back {
			j = n - 1 - i
		}
		e := j
		if j == at {
			e = x
		}
		text += string(encI(j)) + string(encI(e))
	}
	var v []int
	noErr(php.Unmarshal([]byte("a:"+itoa(n)+":{"+text+"}"), &v), "rejected")
	sym.Assert(len(v) == n, "wrong length")
	ok := true
	for i := range v {
		if i == at {
			ok = sym.And(ok, v[i] == x)
		} else {
			ok = sym.And(ok, v[i] == i)
		}
	}
	sym.Assert(ok, "wrong element")
}

// empty arrays
func H_C07_empty() {
	v := []int{1, 2}
	noErr(php.Unmarshal([]byte("a:0:{}"), &v), "rejected")
	sym.Assert(len(v) == 0, "old contents kept")
	w := [2]int{1, 2}
	noErr(php.Unmarshal([]byte("a:0:{}"), &w), "rejected")
	sym.Assert(w == [2]int{}, "unmentioned elements kept")
	f := Flat{D: []int{3}}
	noErr(php.Unmarshal([]byte(`a:1:{s:1:"d";a:0:{}}`), &f), "rejected")
	sym.Assert(len(f.D) == 0, "old contents kept")
	d := Deep{A: [2]Inner{{1, "a"}, {2, "b"}}}
	noErr(php.Unmarshal([]byte(`a:1:{s:1:"a";a:1:{i:1;a:1:{s:1:"X";i:5;}}}`), &d), "rejected")
	sym.Assert(d.A == [2]Inner{{}, {5, ""}}, "unmentioned elements kept")
}
