package main

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"
)

const symPath = "verif/harness/sym"

type obsRec struct {
	label string
	v     V
}

func (w *Worker) input(name, kind string, width uint8) V {
	if w.path == nil {
		panic("engine: symbolic input during init")
	}
	t := w.newVar(width, 0)
	w.path.inputs = append(w.path.inputs, InputRec{Name: name, Kind: kind, W: width, t: t})
	return V{t: t}
}

func symScalar(kind string, width uint8) intrinsic {
	return func(w *Worker, a []V) V {
		n, _ := w.concStr(a[0])
		return w.input(n, kind, width)
	}
}

func (w *Worker) inputByteIn(name, set string) V {
	v := w.input(name, "byte", 8)
	var d [4]uint64
	for i := 0; i < len(set); i++ {
		d[set[i]>>6] |= 1 << (set[i] & 63)
	}
	p := w.path
	idx := v.t.vars[0]
	p.dom[idx] = &d
	if cur := p.model[idx]; d[cur>>6]>>(cur&63)&1 == 0 {
		p.model[idx] = uint64(set[0])
	}
	return v
}

var symFuncs = map[string]intrinsic{
	"Byte": symScalar("byte", 8),
	"U8":   symScalar("u", 8),
	"U16":  symScalar("u", 16),
	"U32":  symScalar("u", 32),
	"U64":  symScalar("u", 64),
	"Uint": symScalar("u", 64),
	"I8":   symScalar("i", 8),
	"I16":  symScalar("i", 16),
	"I32":  symScalar("i", 32),
	"I64":  symScalar("i", 64),
	"Int":  symScalar("i", 64),
	"F64":  symScalar("f", 64),
	"F32":  symScalar("f", 32),
	"Bool": symScalar("bool", 0),
	"ByteIn": func(w *Worker, a []V) V {
		n, _ := w.concStr(a[0])
		return w.inputByteIn(n, w.needStr(a[1], "ByteIn"))
	},
	"Bytes": func(w *Worker, a []V) V {
		n, _ := w.concStr(a[0])
		k := int(w.conc(a[1], 64))
		b := make([]V, k)
		for i := range b {
			b[i] = w.input(n, "byte", 8)
		}
		if k == 0 {
			return V{p: &Slice{obj: newObject(0)}}
		}
		return mkByteSlice(b)
	},
	"Str": func(w *Worker, a []V) V {
		n, _ := w.concStr(a[0])
		k := int(w.conc(a[1], 64))
		b := make([]V, k)
		for i := range b {
			b[i] = w.input(n, "byte", 8)
		}
		return mkStr(b)
	},
	"StrIn": func(w *Worker, a []V) V {
		n, _ := w.concStr(a[0])
		k := int(w.conc(a[1], 64))
		set := w.needStr(a[2], "StrIn")
		b := make([]V, k)
		for i := range b {
			b[i] = w.inputByteIn(n, set)
		}
		return mkStr(b)
	},
	"Choose": func(w *Worker, a []V) V {
		n, _ := w.concStr(a[0])
		k := w.choose(int(w.conc(a[1], 64)))
		w.path.inputs = append(w.path.inputs, InputRec{Name: n, Kind: "choose", Val: uint64(k)})
		return iv(k)
	},
	"Scale": func(w *Worker, a []V) V {
		n, _ := w.concStr(a[0])
		k := w.conc(a[1], 64)
		if tierGlobal == "thorough" {
			k = w.conc(a[2], 64)
		}
		w.path.inputs = append(w.path.inputs, InputRec{Name: n, Kind: "choose", Val: uint64(k)})
		return iv(int(k))
	},
	"Assume": func(w *Worker, a []V) V {
		w.assume(w.term(a[0], 0))
		return V{}
	},
	"Assert": func(w *Worker, a []V) V {
		m, ok := w.concStr(a[1])
		if !ok {
			m = "assertion"
		}
		if w.muted {
			w.assume(w.term(a[0], 0))
			return V{}
		}
		w.assert(w.term(a[0], 0), m)
		return V{}
	},
	"Fail": func(w *Worker, a []V) V {
		m, ok := w.concStr(a[0])
		if !ok {
			m = "assertion"
		}
		if w.muted {
			w.assume(w.tb.fls)
			return V{}
		}
		w.assert(w.tb.fls, m)
		return V{}
	},
	"Cover": func(w *Worker, a []V) V {
		w.path.covers[w.needStr(a[0], "Cover")] = true
		return V{}
	},
	"Observe": func(w *Worker, a []V) V {
		l, _ := w.concStr(a[0])
		v := a[1]
		if i, ok := v.p.(*Iface); ok {
			// snapshot byte slices
			if s, ok := i.v.p.(*Slice); ok && i.typ.elem.kind == reflect.Uint8 && s != nil {
				v = V{p: &Iface{typ: i.typ, v: mkByteSlice(w.sliceBytes(i.v))}}
			}
		}
		w.path.obs = append(w.path.obs, obsRec{l, v})
		return V{}
	},
	"Mute":      func(w *Worker, a []V) V { w.muted = true; return V{} },
	"MapOrders": func(w *Worker, a []V) V { w.mapOrders = true; return V{} },
	"Steps": func(w *Worker, a []V) V {
		w.stepLimit = w.steps + int64(w.conc(a[0], 64))
		return V{}
	},
	"Depth": func(w *Worker, a []V) V { w.maxDepth = int(w.conc(a[0], 64)); return V{} },
	"AllocLimit": func(w *Worker, a []V) V {
		if !w.muted {
			w.allocLimit = int64(w.conc(a[0], 64))
		}
		return V{}
	},
	"AllocEnd": func(w *Worker, a []V) V { w.allocLimit = 0; return V{} },
	"Native":   func(w *Worker, a []V) V { return bv(false) },
	"And": func(w *Worker, a []V) V {
		return tv(w.tb.And(w.term(a[0], 0), w.term(a[1], 0)))
	},
	"Or": func(w *Worker, a []V) V {
		return tv(w.tb.Or(w.term(a[0], 0), w.term(a[1], 0)))
	},
	"Not": func(w *Worker, a []V) V { return tv(w.tb.Not(w.term(a[0], 0))) },
	"Preempt": func(w *Worker, a []V) V {
		w.preemptLim = int(w.conc(a[0], 64))
		return V{}
	},
}

// evalObs renders the observations of the path under a model, in the format of the native sym package.
func (w *Worker) evalObs(model []uint64) []string {
	var out []string
	for _, o := range w.path.obs {
		out = append(out, o.label+"="+w.obsText(o.v, model))
	}
	return out
}

func (w *Worker) evalV(v V, width uint8, model []uint64) uint64 {
	if v.t != nil {
		return w.tb.Eval(v.t, model)
	}
	return v.c
}

func (w *Worker) obsText(v V, model []uint64) string {
	i, ok := v.p.(*Iface)
	if !ok {
		return "nil"
	}
	t := i.typ
	bs := func(b []V) string {
		x := make([]byte, len(b))
		for i := range b {
			x[i] = byte(w.evalV(b[i], 8, model))
		}
		return strconv.Quote(string(x))
	}
	switch k := t.kind; {
	case k == reflect.Bool:
		return strconv.FormatBool(w.evalV(i.v, 0, model) != 0)
	case isInt(k):
		return strconv.FormatInt(sext64(w.evalV(i.v, t.w, model), t.w), 10)
	case isUint(k):
		return strconv.FormatUint(w.evalV(i.v, t.w, model), 10)
	case isFloat(k):
		return "f" + strconv.FormatUint(w.evalV(i.v, t.w, model), 16)
	case k == reflect.String:
		if l, ok := i.v.p.(*LazyStr); ok && !l.done {
			return "?"
		}
		return bs(w.strBytes(i.v))
	case k == reflect.Slice && t.elem.kind == reflect.Uint8:
		return bs(w.sliceBytes(i.v))
	}
	if strings.Contains(fmt.Sprint(t), "error") {
		return "error"
	}
	return "value"
}
