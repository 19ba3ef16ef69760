package h

import (
	php "github.com/trim21/go-phpserialize"
	"verif/harness/sym"
)

// C03, C10, C11, C21: one generated value

func canonical(g val) {
	p := g.dst()
	noErr(php.Unmarshal(g.enc, p), "canonical text is rejected")
	sym.Assert(g.eq(p), "canonical text decodes to a different value")
}

func encodes(g val) {
	out := enc(g.v)
	sym.Assert(same(out, g.enc), "Marshal output is not the canonical text")
}

func roundTrip(g val) {
	out := enc(g.v)
	p := g.dst()
	noErr(php.Unmarshal(out, p), "Unmarshal rejects Marshal output")
	sym.Assert(g.eq(p), "value does not round trip")
}

func H_C03_gen()     { canonical(gen()) }
func H_C03_wrapped() { canonical(wrapped()) }
func H_C10_gen()     { encodes(gen()) }
func H_C10_wrapped() { encodes(wrapped()) }
func H_C11_gen()     { roundTrip(gen()) }
func H_C11_wrapped() { roundTrip(wrapped()) }

// a pointer to the value
func H_C21_ptr() {
	g := gen()
	sym.Assume(!g.isPtr)
	out := enc(g.ptr)
	sym.Assert(same(out, g.enc), "a pointer encodes differently")
	if sym.Choose("twice", 2) == 1 {
		sym.Assert(same(enc(g.v), out), "a pointer encodes differently")
	}
}

// the value in containers and behind typed pointers
func H_C21_wrapped() {
	g := wrapped()
	if sym.Choose("ptr", 2) == 1 {
		sym.Assume(!g.isPtr)
		sym.Assert(same(enc(g.ptr), g.enc), "a pointer encodes differently")
		return
	}
	sym.Assert(same(enc(g.v), g.enc), "the value encodes differently in a container")
}

// the value in interfaces
func H_C21_any() {
	g := smallGen()
	v, e := g.inAny("in")
	sym.Assert(same(enc(v), e), "the value encodes differently in an interface")
}

// containers of the value in interfaces
func H_C21_anywrap() {
	g := wrapped()
	v, e := g.inAny("in")
	sym.Assert(same(enc(v), e), "the value encodes differently in an interface")
}
