package h

import "verif/harness/sym"

// dests are destinations of every decoder kind.
var dests = []func() any{
	func() any { return new(any) },
	func() any { return new(int) },
	func() any { return new(int8) },
	func() any { return new(uint) },
	func() any { return new(uint16) },
	func() any { return new(bool) },
	func() any { return new(string) },
	func() any { return new(float64) },
	func() any { return new(float32) },
	func() any { return new([]byte) },
	func() any { return new([]int) },
	func() any { return new([]string) },
	func() any { return new([]any) },
	func() any { return new([][]int) },
	func() any { return new([2]int) },
	func() any { return new([3]any) },
	func() any { return new(map[string]int) },
	func() any { return new(map[string]any) },
	func() any { return new(map[int]string) },
	func() any { return new(map[uint8]bool) },
	func() any { return new(map[any]any) },
	func() any { return new(map[bool]int) },
	func() any { return new(map[string]map[string]int) },
	func() any { return new(map[string][]byte) },
	func() any { return new(Flat) },
	func() any { return new(Deep) },
	func() any { return new(Quoted) },
	func() any { return new(Raw) },
	func() any { return new(HasRaw) },
	func() any { return new([]Raw) },
	func() any { return new(map[string]Raw) },
	func() any { return new(*int) },
	func() any { return new(*string) },
	func() any { return new(*Flat) },
	func() any { return new([]*Inner) },
	func() any { return new(map[string]*Inner) },
	func() any { return new(struct{}) },
	func() any { return new([]Inner) },
	func() any { return new([0]int) },
	func() any { return new(*[]int) },
	func() any { return new(*map[string]int) },
	func() any { return new(*any) },
	func() any { return new(NBytes) },
	func() any { return new(chan int) },
	func() any { return new(RNode) },
	func() any { return new(RTree) },
	func() any { return new(Sayer) },
	func() any { return new([]Sayer) },
}

func aDest() any { return dests[sym.Choose("dest", len(dests))]() }

// base documents for mutation
var docs = []string{
	"N;", "b:1;", "i:-12;", "d:1.5;", `s:2:"xy";`, `s:10:"0123456789";`, "a:0:{}",
	"a:1:{i:0;i:7;}", `a:2:{i:1;s:1:"q";i:0;s:0:"";}`,
	`a:2:{s:1:"a";i:5;s:1:"b";s:2:"zz";}`,
	`O:3:"Foo":2:{s:1:"a";i:3;s:1:"d";a:1:{i:0;i:9;}}`,
	`a:2:{s:1:"n";a:1:{s:1:"X";i:4;}s:2:"by";s:2:"hi";}`,
	`a:3:{s:1:"q";a:1:{i:0;N;}s:1:"r";O:1:"C":1:{s:1:"p";d:2;}s:1:"z";i:4;}`,
	`a:2:{s:1:"i";s:1:"5";s:1:"b";s:4:"true";}`,
	`a:1:{i:0;a:1:{i:0;i:1;}}`,
	`a:1:{s:1:"k";a:1:{s:1:"k";i:1;}}`,
}
