// Package sym is the interface between harnesses and the symbolic engine. Under the engine every
// function below is an intrinsic; this native implementation replays one concrete assignment.
package sym

import (
	"fmt"
	"iter"
	"math"
	"reflect"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// In is one recorded input.
type In struct {
	N string `json:"n"`
	K string `json:"k"`
	W uint8  `json:"w"`
	V uint64 `json:"v"`
}

// Stop is the panic value that ends a replay.
type Stop struct{ Status, Msg string }

var (
	mu     sync.Mutex
	ins    []In
	pos    int
	obs    []string
	failed *Stop
	extend bool
	muted  bool
)

// Begin starts a replay.
func Begin(in []In) {
	mu.Lock()
	ins, pos, obs, failed = in, 0, nil, nil
	allocOn = false
	muted = false
	mu.Unlock()
}

// Result returns the observations and the failure, if any.
func Result() ([]string, *Stop) {
	mu.Lock()
	defer mu.Unlock()
	return obs, failed
}

func stop(status, msg string) {
	s := &Stop{status, msg}
	mu.Lock()
	if failed == nil {
		failed = s
	}
	mu.Unlock()
	panic(s)
}

func next(n, k string) uint64 {
	mu.Lock()
	if pos >= len(ins) {
		mu.Unlock()
		stop("diverged", "input "+n+" not recorded")
	}
	r := ins[pos]
	pos++
	mu.Unlock()
	if r.N != n || r.K != k {
		stop("diverged", fmt.Sprintf("input %s/%s recorded as %s/%s", n, k, r.N, r.K))
	}
	return r.V
}

func Byte(n string) byte   { return byte(next(n, "byte")) }
func U8(n string) uint8    { return uint8(next(n, "u")) }
func U16(n string) uint16  { return uint16(next(n, "u")) }
func U32(n string) uint32  { return uint32(next(n, "u")) }
func U64(n string) uint64  { return next(n, "u") }
func Uint(n string) uint   { return uint(next(n, "u")) }
func I8(n string) int8     { return int8(next(n, "i")) }
func I16(n string) int16   { return int16(next(n, "i")) }
func I32(n string) int32   { return int32(next(n, "i")) }
func I64(n string) int64   { return int64(next(n, "i")) }
func Int(n string) int     { return int(next(n, "i")) }
func F64(n string) float64 { return math.Float64frombits(next(n, "f")) }
func F32(n string) float32 { return math.Float32frombits(uint32(next(n, "f"))) }
func Bool(n string) bool   { return next(n, "bool") != 0 }

// ByteIn is a byte drawn from set.
func ByteIn(n, set string) byte { return byte(next(n, "byte")) }

// Bytes is k arbitrary bytes.
func Bytes(n string, k int) []byte {
	b := make([]byte, k)
	for i := range b {
		b[i] = byte(next(n, "byte"))
	}
	return b
}

// Str is a string of k arbitrary bytes.
func Str(n string, k int) string { return string(Bytes(n, k)) }

// StrIn is a string of k bytes drawn from set.
func StrIn(n string, k int, set string) string { return string(Bytes(n, k)) }

// Choose is a number below k; the engine explores every value.
func Choose(n string, k int) int { return int(next(n, "choose")) }

// Scale is a bound: quick in the quick tier, thorough in the thorough tier.
func Scale(n string, quick, thorough int) int { return int(next(n, "choose")) }

// Assume restricts the inputs.
func Assume(b bool) {
	if !b {
		stop("assume", "assumption does not hold")
	}
}

// Assert is the property.
func Assert(b bool, msg string) {
	if !b {
		Fail(msg)
	}
}

// Fail is Assert(false).
func Fail(msg string) {
	if muted {
		stop("assume", msg)
	}
	stop("assert", msg)
}

// Mute turns the assertions that follow into assumptions: what remains to be violated is that
// nothing panics and every bound on steps and depth is kept.
func Mute() { muted = true }

// Cover records that a point was reached.
func Cover(string) {}

// Observe records a value for comparison with the engine.
func Observe(label string, v any) {
	mu.Lock()
	obs = append(obs, label+"="+text(v))
	mu.Unlock()
}

func text(v any) string {
	if v == nil {
		return "nil"
	}
	r := reflect.ValueOf(v)
	switch r.Kind() {
	case reflect.Bool:
		return strconv.FormatBool(r.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return strconv.FormatInt(r.Int(), 10)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return strconv.FormatUint(r.Uint(), 10)
	case reflect.Float32:
		return "f" + strconv.FormatUint(uint64(math.Float32bits(float32(r.Float()))), 16)
	case reflect.Float64:
		return "f" + strconv.FormatUint(math.Float64bits(r.Float()), 16)
	case reflect.String:
		return strconv.Quote(r.String())
	case reflect.Slice:
		if r.Type().Elem().Kind() == reflect.Uint8 {
			return strconv.Quote(string(r.Bytes()))
		}
	}
	if _, ok := v.(error); ok {
		return "error"
	}
	if strings.Contains(r.Type().String(), "error") {
		return "error"
	}
	return "value"
}

// MapOrders makes the engine explore every map iteration order.
func MapOrders() {}

// Steps bounds the instructions of the rest of the path.
func Steps(n int) {}

// Depth bounds the call depth.
func Depth(n int) {}

var (
	allocOn   bool
	allocBase uint64
	allocLim  uint64
)

// AllocLimit asserts that no single allocation (natively: all allocations together) up to AllocEnd
// exceeds n bytes.
func AllocLimit(n int) {
	if muted {
		return
	}
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	allocOn, allocBase, allocLim = true, m.TotalAlloc, uint64(n)
}

// AllocEnd ends AllocLimit.
func AllocEnd() {
	if !allocOn {
		return
	}
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	allocOn = false
	if m.TotalAlloc-allocBase > allocLim {
		stop("assert", fmt.Sprintf("allocated %d bytes, limit %d", m.TotalAlloc-allocBase, allocLim))
	}
}

// Native reports whether this is a native replay.
func Native() bool { return true }

func And(a, b bool) bool { return a && b }
func Or(a, b bool) bool  { return a || b }
func Not(a bool) bool    { return !a }

// Gate makes n goroutines start together in native runs, with a little jitter: each calls the
// function it returns.
func Gate(n int) func() {
	var in atomic.Int32
	return func() {
		in.Add(1)
		for in.Load() < int32(n) {
			runtime.Gosched()
		}
		x := uint64(time.Now().UnixNano()) * 0x9e3779b97f4a7c15
		x ^= x >> 29
		for k := x % (1 << (x >> 40 % 18)); k > 0; k-- {
			_ = jitterSink
		}
	}
}

var jitterSink int

// Preempt bounds the preemptive context switches.
func Preempt(n int) {}

// The functions below stand for methods of reflect.Value in the engine, which runs them from source.

func reflectSeq2(v reflect.Value) iter.Seq2[reflect.Value, reflect.Value] {
	return func(yield func(reflect.Value, reflect.Value) bool) {
		switch v.Kind() {
		case reflect.Map:
			for it := v.MapRange(); it.Next(); {
				if !yield(it.Key(), it.Value()) {
					return
				}
			}
		case reflect.Pointer:
			v = v.Elem()
			fallthrough
		default:
			for i := 0; i < v.Len(); i++ {
				if !yield(reflect.ValueOf(i), v.Index(i)) {
					return
				}
			}
		}
	}
}

func reflectSeq(v reflect.Value) iter.Seq[reflect.Value] {
	return func(yield func(reflect.Value) bool) {
		switch v.Kind() {
		case reflect.Map:
			for it := v.MapRange(); it.Next(); {
				if !yield(it.Key()) {
					return
				}
			}
		case reflect.Int:
			for i := 0; i < int(v.Int()); i++ {
				if !yield(reflect.ValueOf(i)) {
					return
				}
			}
		case reflect.Pointer:
			v = v.Elem()
			fallthrough
		default:
			for i := 0; i < v.Len(); i++ {
				if !yield(reflect.ValueOf(i)) {
					return
				}
			}
		}
	}
}
