package h

import "errors"

// ---- destination and source types shared by the harnesses

type Inner struct {
	X int
	Y string `php:"y"`
}

type Flat struct {
	A int    `php:"a"`
	B string `php:"b"`
	C bool   `php:"c"`
	D []int  `php:"d"`
}

type Deep struct {
	N  *Inner            `php:"n"`
	M  map[string]Inner  `php:"m"`
	S  []Inner           `php:"s"`
	P  []*Inner          `php:"p"`
	A  [2]Inner          `php:"a"`
	I  any               `php:"i"`
	By []byte            `php:"by"`
	F  float64           `php:"f"`
	Mi map[int]string    `php:"mi"`
	Pp *int              `php:"pp"`
	Mp map[string]*Inner `php:"mp"`
}

type Quoted struct {
	I  int     `php:"i,string"`
	U  uint8   `php:"u,string"`
	B  bool    `php:"b,string"`
	F  float64 `php:"f,string"`
	Pi *int16  `php:"pi,string"`
	Pb *bool   `php:"pb,string"`
}

type (
	NInt   int
	NStr   string
	NBool  bool
	NF64   float64
	NSl    []int
	NMap   map[string]int
	NBytes []byte
	NAny   any
)

var errUser = errors.New("user error")

// Raw is an Unmarshaler that keeps what it is given.
type Raw struct {
	B     string
	Calls int
}

func (r *Raw) UnmarshalPHP(b []byte) error {
	r.B = string(b)
	r.Calls++
	return nil
}

// RawErr fails.
type RawErr struct{ B string }

func (r *RawErr) UnmarshalPHP(b []byte) error { return errUser }

// RawStr is a string that is an Unmarshaler.
type RawStr string

func (r *RawStr) UnmarshalPHP(b []byte) error { *r = RawStr(b); return nil }

type HasRaw struct {
	A int   `php:"a"`
	R Raw   `php:"r"`
	P *Raw  `php:"p"`
	L []Raw `php:"l"`
	Z int   `php:"z"`
}

// VM is a Marshaler with a value receiver.
type VM struct{ Out string }

func (v VM) MarshalPHP() ([]byte, error) { return []byte(v.Out), nil }

// PM is a Marshaler with a pointer receiver.
type PM struct{ Out string }

func (v *PM) MarshalPHP() ([]byte, error) { return []byte(v.Out), nil }

// IM is a named integer that is a Marshaler.
type IM int

func (v IM) MarshalPHP() ([]byte, error) { return []byte("s:2:\"im\";"), nil }

// SM is a named slice that is a Marshaler.
type SM []any

func (v SM) MarshalPHP() ([]byte, error) { return []byte("s:2:\"sm\";"), nil }

// MM is a named map that is a Marshaler.
type MM map[string]int

func (v MM) MarshalPHP() ([]byte, error) { return []byte("s:2:\"mm\";"), nil }

// EM fails.
type EM struct{ X int }

func (v EM) MarshalPHP() ([]byte, error) { return []byte("junk"), errUser }

// Mar is the interface itself.
type Mar interface{ MarshalPHP() ([]byte, error) }

// recursive types
type RNode struct {
	V    int    `php:"v"`
	Next *RNode `php:"next"`
}
type RTree struct {
	V    int      `php:"v"`
	Kids []*RTree `php:"kids"`
}
type RMapT struct {
	V int              `php:"v"`
	M map[string]RMapT `php:"m"`
}
type RSl []RSl
type RMp map[string]RMp
type RArr struct {
	V int      `php:"v"`
	A [1]*RArr `php:"a"`
}
type RA1 struct {
	V int  `php:"v"`
	B *RB1 `php:"b"`
}
type RB1 struct {
	W int   `php:"w"`
	A []RA1 `php:"a"`
}
type RAny struct {
	V    int `php:"v"`
	Next any `php:"next"`
}
