package h

import (
	"reflect"

	php "github.com/trim21/go-phpserialize"
	"verif/harness/sym"
)

// C29: what a used destination referred to before

// refill decodes text into p; old values keep their text.
func refill(p any, text []byte, bad bool) {
	if bad {
		sym.Assume(len(text) > 1)
		_ = php.Unmarshal(text[:len(text)-1], p)
		return
	}
	noErr(php.Unmarshal(text, p), "canonical text is rejected")
}

func H_C29_gens() {
	small = true
	i := sym.Choose("gen", len(gens))
	a, b := gens[i](), gens[i]()
	t := reflect.TypeOf(a.v)
	e := string(b.enc)
	bad := sym.Choose("bad", 2) == 1
	list := "a:1:{i:0;" + e + "}"
	var alias reflect.Value
	switch sym.Choose("in", 11) {
	case 0: // a slice with room to spare
		s := reflect.MakeSlice(reflect.SliceOf(t), 1, 3)
		s.Index(0).Set(reflect.ValueOf(a.v))
		alias = s.Index(0)
		p := reflect.New(s.Type())
		p.Elem().Set(s)
		if t.Kind() == reflect.Uint8 {
			refill(p.Interface(), []byte(`s:1:"x";`), bad)
		} else {
			refill(p.Interface(), []byte(list), bad)
		}
	case 1:
		p := reflect.New(reflect.ArrayOf(1, t))
		p.Elem().Index(0).Set(reflect.ValueOf(a.v))
		refill(p.Interface(), []byte(list), bad)
	case 2:
		m := reflect.MakeMap(reflect.MapOf(tyString, t))
		m.SetMapIndex(reflect.ValueOf("k"), reflect.ValueOf(a.v))
		p := reflect.New(m.Type())
		p.Elem().Set(m)
		refill(p.Interface(), []byte(`a:1:{s:1:"k";`+e+"}"), bad)
		if !bad {
			x := reflect.New(t)
			x.Elem().Set(m.MapIndex(reflect.ValueOf("k")))
			sym.Assert(m.Len() == 1 && b.eq(x.Interface()), "a map is replaced")
		}
	case 3:
		x := a.v
		refill(&x, []byte("a:1:{i:0;a:1:{s:1:\"a\";i:3;}}"), bad)
	case 4:
		var x any = shared(a)
		refill(&x, []byte("O:1:\"C\":1:{s:1:\"a\";i:3;}"), bad)
	case 5:
		l := []any{shared(a), 1}
		x := l
		refill(&x, []byte("a:1:{i:0;i:7;}"), bad)
		sym.Assert(len(l) == 2 && l[0] == shared(a) || a.isPtr, "a slice is written to")
	case 6:
		m := map[string]any{"k": shared(a)}
		refill(&m, []byte(`a:1:{s:1:"k";a:1:{i:0;i:1;}}`), bad)
	case 7:
		x := [1]any{shared(a)}
		refill(&x, []byte("a:1:{i:0;b:1;}"), bad)
	case 8:
		m := map[string]any{"k": shared(a)}
		var x any = m
		refill(&x, []byte(`a:1:{s:1:"k";i:1;}`), bad)
		sym.Assert(len(m) == 1, "an old map is written to")
	case 9:
		st := reflect.StructOf([]reflect.StructField{{Name: "X", Type: reflect.SliceOf(reflect.SliceOf(t))}, {Name: "Y", Type: tyInt8}})
		p := reflect.New(st)
		in := reflect.MakeSlice(reflect.SliceOf(t), 1, 2)
		in.Index(0).Set(reflect.ValueOf(a.v))
		alias = in.Index(0)
		out := reflect.MakeSlice(reflect.SliceOf(in.Type()), 1, 2)
		out.Index(0).Set(in)
		p.Elem().Field(0).Set(out)
		if t.Kind() == reflect.Uint8 {
			list = `s:1:"x";`
		}
		refill(p.Interface(), []byte(`a:1:{s:1:"X";a:1:{i:0;`+list+"}}"), bad)
		sym.Assert(out.Len() == 1 && out.Index(0).Len() == 1, "an old slice is written to")
	case 10:
		if a.isPtr {
			return
		}
		sl := reflect.MakeSlice(reflect.SliceOf(reflect.PointerTo(t)), 1, 1)
		sl.Index(0).Set(reflect.ValueOf(a.ptr))
		p := reflect.New(sl.Type())
		p.Elem().Set(sl)
		refill(p.Interface(), []byte(list), bad)
		sym.Assert(sl.Index(0).Interface() == a.ptr, "an old slice is written to")
	}
	sym.Assert(same(enc(a.v), a.enc), "an old value is written to")
	if alias.IsValid() {
		sym.Assert(same(enc(alias.Interface()), a.enc), "an old element is written to")
	}
}

// pointers are kept and written through
func H_C29_through() {
	small = true
	i := sym.Choose("gen", len(gens))
	a, b := gens[i](), gens[i]()
	if a.isPtr {
		return
	}
	e := string(b.enc)
	if e == "N;" {
		return
	}
	t := reflect.TypeOf(a.v)
	pt := reflect.PointerTo(t)
	st := reflect.StructOf([]reflect.StructField{{Name: "X", Type: pt}, {Name: "Y", Type: pt}})
	x, y := reflect.New(t), reflect.New(t)
	if sym.Choose("old", 2) == 1 && t.Kind() != reflect.Map && !(t.Kind() == reflect.Struct) { // maps are merged, structs keep fields
		x.Elem().Set(reflect.ValueOf(a.v))
	}
	y.Elem().Set(reflect.ValueOf(a.v))
	s := reflect.New(st)
	s.Elem().Field(0).Set(x)
	s.Elem().Field(1).Set(y)
	switch sym.Choose("in", 3) {
	case 0:
		refill(s.Interface(), []byte(`a:1:{s:1:"X";`+e+"}"), false)
	case 1:
		o := reflect.New(reflect.StructOf([]reflect.StructField{{Name: "O", Type: reflect.PointerTo(st)}}))
		o.Elem().Field(0).Set(s)
		refill(o.Interface(), []byte(`a:1:{s:1:"O";a:1:{s:1:"X";`+e+"}}"), false)
		sym.Assert(o.Elem().Field(0).Interface() == s.Interface(), "a pointer is replaced")
	case 2:
		o := reflect.New(reflect.StructOf([]reflect.StructField{{Name: "O", Type: st}}))
		o.Elem().Field(0).Set(s.Elem())
		refill(o.Interface(), []byte(`O:1:"C":1:{s:1:"O";a:1:{s:1:"X";`+e+"}}"), false)
		s = o.Elem().Field(0).Addr()
	}
	sym.Assert(s.Elem().Field(0).Interface() == x.Interface() && s.Elem().Field(1).Interface() == y.Interface(), "a pointer is replaced")
	sym.Assert(b.eq(x.Interface()), "a pointer is not written through")
	sym.Assert(same(enc(y.Interface()), a.enc), "another field is written to")
}

type c29In struct {
	A int    `php:"a"`
	S []int  `php:"s"`
	P *int   `php:"p"`
	B []byte `php:"b"`
}

// one document over a destination with aliases of everything
func H_C29_aliases() {
	v, w := dig("v"), dig("w")
	ix := ints(w)
	p := v
	sl := append(make([]int, 0, 4), v, v)
	by := spare([]byte("old"))
	el := &c29In{A: v, S: sl, P: &p, B: by}
	mp := map[string]*c29In{"k": el}
	in := c29In{A: v, S: sl, P: &p, B: by}
	ls := []c29In{in, in}
	pl := []*c29In{el, nil}
	type T struct {
		I c29In             `php:"i"`
		L []c29In           `php:"l"`
		P []*c29In          `php:"p"`
		M map[string]*c29In `php:"m"`
		A [2]*c29In         `php:"a"`
		X any               `php:"x"`
		E *c29In            `php:"e"`
	}
	d := T{in, ls, pl, mp, [2]*c29In{el, el}, el, nil}
	sub := `a:3:{s:1:"a";` + ix + `s:1:"s";a:2:{i:0;` + ix + "i:1;" + ix + `}s:1:"b";s:3:"new";}`
	var t string
	f := sym.Choose("field", 7)
	switch f {
	case 0:
		t = `s:1:"i";` + sub
	case 1:
		t = `s:1:"l";a:2:{i:0;` + sub + "i:1;" + sub + "}"
	case 2:
		t = `s:1:"p";a:2:{i:0;` + sub + "i:1;" + sub + "}"
	case 3:
		t = `s:1:"m";a:2:{s:1:"k";` + sub + `s:1:"j";` + sub + "}"
	case 4:
		t = `s:1:"a";a:2:{i:0;` + sub + "i:1;" + sub + "}"
	case 5:
		t = `s:1:"x";` + sub
	case 6:
		t = `s:1:"e";` + sub
	}
	cut := sym.Choose("cut", 2)
	text := []byte("a:1:{" + t + "}")
	if cut == 1 {
		text = text[:len(text)-1-sym.Choose("at", 20)]
		isErr(php.Unmarshal(text, &d), "a truncated text is accepted")
	} else {
		noErr(php.Unmarshal(text, &d), "canonical text is rejected")
	}
	sym.Assert(p == v && sl[0] == v && sl[1] == v && sl[:3][2] == 0, "an old slice or variable is written to")
	sym.Assert(string(by) == "old" && by[:4][3] == '@', "old bytes are written to")
	sym.Assert(el.A == v && len(el.S) == 2 && el.P == &p && len(el.B) == 3, "an old element is written to")
	sym.Assert(ls[0].A == v && ls[1].A == v && pl[0] == el && pl[1] == nil, "an old slice is written to")
	if f == 3 && cut == 0 {
		sym.Assert(len(mp) == 2 && mp["k"] != el && mp["k"].A == w && mp["j"].A == w, "an existing map is replaced")
	}
	if f != 0 {
		sym.Assert(d.I.A == v && len(d.I.S) == 2, "another field is written to")
	}
	// through a pointer that is there: the struct changes, what it referred to does not
	if cut == 0 {
		q := &c29In{A: v, S: sl, P: &p, B: by}
		d.E = q
		noErr(php.Unmarshal([]byte(`a:1:{s:1:"e";a:4:{s:1:"a";`+ix+`s:1:"s";a:1:{i:1;`+ix+`}s:1:"b";s:2:"nw";s:1:"p";`+ix+"}}"), &d), "canonical text is rejected")
		sym.Assert(d.E == q && q.A == w && len(q.S) == 2 && q.S[0] == 0 && q.S[1] == w && string(q.B) == "nw", "wrong value")
		sym.Assert(q.P == &p && p == w, "a pointer is not written through")
		sym.Assert(sl[0] == v && sl[1] == v && string(by) == "old", "an old slice is written to")
	}
}

// interfaces that hold containers of every kind
func H_C29_anys() {
	v := dig("v")
	ms := map[string]any{"k": v, "o": nil}
	ma := map[any]any{"k": v, int64(1): v}
	sl := append(make([]any, 0, 4), v, v)
	by := spare([]byte("old"))
	in := &c29In{A: v, B: by}
	n := v
	f := 1.5
	s := "old"
	raw := &Raw{B: "old"}
	mi := map[string]*c29In{"k": in}
	olds := []any{ms, ma, sl, by, in, &n, &f, &s, raw, mi, &ms, &ma, &sl, &by, *in, [2]any{ms, sl}, &[2]any{ms, sl}, n, s}
	old := olds[sym.Choose("old", len(olds))]
	news := []string{"i:77;", "d:2.5;", "b:1;", `s:3:"new";`, `s:12:"long new str";`, "N;", "a:0:{}", `a:1:{s:1:"k";i:77;}`, `O:1:"C":1:{s:1:"k";i:77;}`,
		`O:1:"C":2:{s:1:"a";i:77;s:1:"o";a:0:{}}`, "a:2:{i:0;i:77;i:1;i:78;}", "a:1:{i:1;a:1:{i:1;i:77;}}", `a:1:{s:1:"k";a:1:{s:1:"a";i:77;}}`, `a:1:{i:0;`, `O:1:"C":2:{s:1:"k";i:77;`}
	k := sym.Choose("new", len(news))
	text := news[k]
	bad := k >= 13
	done := func(err error) { sym.Assert((err != nil) == bad, "wrong result") }
	switch sym.Choose("place", 7) {
	case 0:
		x := old
		done(php.Unmarshal([]byte(text), &x))
	case 1:
		x := []any{old, old}
		y := x
		done(php.Unmarshal([]byte("a:2:{i:0;"+text+"i:1;"+text+"}"), &x))
		sym.Assert(len(y) == 2 && reflect.TypeOf(y[0]) == reflect.TypeOf(old) && reflect.TypeOf(y[1]) == reflect.TypeOf(old), "an old slice is written to")
	case 2:
		x := [1]any{old}
		done(php.Unmarshal([]byte("a:1:{i:0;"+text+"}"), &x))
	case 3:
		x := map[string]any{"k": old}
		done(php.Unmarshal([]byte(`a:1:{s:1:"k";`+text+"}"), &x))
	case 4:
		x := map[any]any{"k": old}
		done(php.Unmarshal([]byte(`a:1:{s:1:"k";`+text+"}"), &x))
	case 5:
		x := struct{ X any }{old}
		done(php.Unmarshal([]byte(`a:1:{s:1:"X";`+text+"}"), &x))
	case 6:
		y := old
		x := struct{ X *any }{&y}
		done(php.Unmarshal([]byte(`a:1:{s:1:"X";`+text+"}"), &x))
		sym.Assert(x.X == &y || text == "N;", "a pointer is replaced")
	}
	sym.Assert(len(ms) == 2 && ms["k"] == any(v) && ms["o"] == nil, "an old map is written to")
	sym.Assert(len(ma) == 2 && ma["k"] == any(v) && ma[int64(1)] == any(v), "an old map is written to")
	sym.Assert(len(sl) == 2 && sl[0] == any(v) && sl[1] == any(v) && sl[:3][2] == nil, "an old slice is written to")
	sym.Assert(string(by) == "old" && by[:4][3] == '@', "old bytes are written to")
	sym.Assert(in.A == v && in.S == nil && in.P == nil && len(in.B) == 3, "an old struct is written to")
	sym.Assert(n == v && f == 1.5 && s == "old" && raw.B == "old" && raw.Calls == 0, "an old variable is written to")
	sym.Assert(len(mi) == 1 && mi["k"] == in, "an old map is written to")
}

// byte slices and strings of every length
func H_C29_bytes() {
	n := sym.Choose("n", 18)
	k := sym.Choose("old", 18)
	w := sym.Str("s", n)
	e := string(encS(w))
	old := make([]byte, k, k+sym.Choose("spare", 4)*6)
	for i := range old[:cap(old)] {
		old[:cap(old)][i] = '#'
	}
	chk := func(got []byte) { sym.Assert(string(got) == w, "wrong bytes") }
	switch sym.Choose("place", 6) {
	case 0:
		v := old
		noErr(php.Unmarshal([]byte(e), &v), "rejected")
		chk(v)
	case 1:
		v := struct{ B []byte }{old}
		noErr(php.Unmarshal([]byte(`a:1:{s:1:"B";`+e+"}"), &v), "rejected")
		chk(v.B)
	case 2:
		v := struct{ B *[]byte }{&old}
		keep := old
		noErr(php.Unmarshal([]byte(`a:1:{s:1:"B";`+e+"}"), &v), "rejected")
		chk(*v.B)
		sym.Assert(v.B == &old, "a pointer is replaced")
		old = keep
	case 3:
		v := [][]byte{old}
		noErr(php.Unmarshal([]byte("a:1:{i:0;"+e+"}"), &v), "rejected")
		chk(v[0])
	case 4:
		v := map[string][]byte{"k": old}
		noErr(php.Unmarshal([]byte(`a:1:{s:1:"k";`+e+"}"), &v), "rejected")
		chk(v["k"])
	case 5: // elements of an array
		v := old
		noErr(php.Unmarshal([]byte("a:2:{i:0;i:1;i:1;i:2;}"), &v), "rejected")
		chk2 := len(v) == 2 && v[0] == 1 && v[1] == 2
		sym.Assert(chk2, "wrong bytes")
	}
	for _, c := range old[:cap(old)] {
		sym.Assert(c == '#', "old bytes are written to")
	}
}

// slices of scalars of every length
func H_C29_slices() {
	n, k := 1+sym.Choose("n", 9), sym.Choose("old", 10)
	old := make([]int, k, k+sym.Choose("spare", 3)*4)
	for i := range old[:cap(old)] {
		old[:cap(old)][i] = 77
	}
	t := "a:" + itoa(n) + ":{"
	back := sym.Choose("backward", 2) == 1
	for i := 0; i < n; i++ {
		j := i
		if back {
			j = n - 1 - i
		}
		t += ints(j) + ints(j)
	}
	t += "}"
	var got []int
	switch sym.Choose("place", 5) {
	case 0:
		got = old
		noErr(php.Unmarshal([]byte(t), &got), "rejected")
	case 1:
		v := NSl(old)
		noErr(php.Unmarshal([]byte(t), &v), "rejected")
		got = v
	case 2:
		v := struct{ S []int }{old}
		noErr(php.Unmarshal([]byte(`a:1:{s:1:"S";`+t+"}"), &v), "rejected")
		got = v.S
	case 3:
		v := [1][]int{old}
		noErr(php.Unmarshal([]byte("a:1:{i:0;"+t+"}"), &v), "rejected")
		got = v[0]
	case 4: // the failing call leaves the old elements too
		v := old
		isErr(php.Unmarshal([]byte(t[:len(t)-1]), &v), "a truncated text is accepted")
	}
	if got != nil {
		sym.Assert(len(got) == n && got[0] == 0 && got[n-1] == n-1, "wrong elements")
	}
	for _, c := range old[:cap(old)] {
		sym.Assert(c == 77, "old elements are written to")
	}
}
