#!/usr/bin/env python3
"""Behaviour-preserving rewrites of the library. refactor.py SET DIR applies a set to a copy of /repo in DIR
and runs the build and the tests there. tools/refactors.sh runs the checks against it: they must stay quiet."""
import sys, subprocess, os
E = "internal/encoder/"; D = "internal/decoder/"
SETS = {
 # encoder: helpers, other data structures, other loops
 "enc1": [
  (E+"common.go", 'import "strconv"', 'import (\n\t"fmt"\n\t"strconv"\n)'),
  (E+"common.go", '''	b = append(b, 'a', ':')
	b = strconv.AppendInt(b, fieldNum, 10)
	return append(b, ':', '{')''', '''	return fmt.Appendf(b, "a:%d:{", fieldNum)'''),
  (E+"string.go", '''	b = append(b, 's', ':')
	b = strconv.AppendInt(b, int64(len(s)), 10)
	b = append(b, ':', '"')
	b = append(b, s...)

	return append(b, '"', ';')''', '''	b = append(b, ("s:" + strconv.Itoa(len(s)) + ":\\"")...)
	for i := range len(s) {
		b = append(b, s[i])
	}
	return append(b, "\\";"...)'''),
  (E+"map.go", '''		iter := rv.MapRange()

		kv := reflect.New(keyType).Elem()
		vv := reflect.New(valueType).Elem()

		var err error
		for iter.Next() {
			kv.SetIterKey(iter)
			b, err = keyEncoder(ctx, b, kv)
			if err != nil {
				return b, err
			}

			vv.SetIterValue(iter)
			b, err = valueEncoder(ctx, b, vv)
			if err != nil {
				return b, err
			}
		}
''', '''		var err error
		for _, k := range rv.MapKeys() {
			if b, err = keyEncoder(ctx, b, k); err != nil {
				return b, err
			}
			cp := reflect.New(valueType).Elem()
			cp.Set(rv.MapIndex(k))
			if b, err = valueEncoder(ctx, b, cp); err != nil {
				return b, err
			}
		}
'''),
  (E+"slice.go", '''		b = appendArrayBegin(b, int64(length))
		var err error
		for i := 0; i < length; i++ {
			b = appendIntBytes(b, int64(i))
			b, err = elemEnc(ctx, b, rv.Index(i))
			if err != nil {
				return b, err
			}
		}
		return append(b, '}'), nil''', '''		return appendElements(ctx, b, rv, length, elemEnc)'''),
  (E+"slice.go", '''func compileSlice(''', '''func appendElements(ctx *Ctx, b []byte, rv reflect.Value, length int, enc encoder) ([]byte, error) {
	b = appendArrayBegin(b, int64(length))
	i := 0
next:
	if i == length {
		return append(b, '}'), nil
	}
	b, err := enc(ctx, appendIntBytes(b, int64(i)), rv.Index(i))
	if err != nil {
		return b, err
	}
	i++
	goto next
}

func compileSlice('''),
  (E+"array.go", '''		b = appendArrayBegin(b, i64)

		var err error // create a new error value, so shadow compiler's error
		for i := 0; i < length; i++ {
			b = appendIntBytes(b, int64(i))
			b, err = enc(ctx, b, rv.Index(i))
			if err != nil {
				return b, err
			}
		}

		return append(b, '}'), nil''', '''		return appendElements(ctx, b, rv, length, enc)'''),
  (E+"array.go", '''	i64 := int64(length)
''', ''),
  (E+"buffer.go", '''	buf := bufferPool.Get().(*buffer)
	buf.b = buf.b[:0]

	return buf''', '''	return &buffer{}'''),
  (E+"buffer.go", '''	bufferPool.Put(buf)''', '''	_ = buf'''),
  (E+"compile_cache.go", '''	cachedEncoderMap atomic.Pointer[map[reflect.Type]encoder]
)

func init() {
	var m = map[reflect.Type]encoder{}
	cachedEncoderMap.Store(&m)
}''', '''	encoders sync.Map
)'''),
  (E+"compile_cache.go", '"sync/atomic"', '"sync"'),
  (E+"compile_cache.go", '''	opcodeMap := *cachedEncoderMap.Load()
	if codeSet, exists := opcodeMap[rt]; exists {
		return codeSet, nil
	}''', '''	if e, ok := encoders.Load(rt); ok {
		return e.(encoder), nil
	}'''),
  (E+"compile_cache.go", '''	storeEncoder(rt, codeSet, opcodeMap)
	return codeSet, nil''', '''	e, _ := encoders.LoadOrStore(rt, codeSet)
	return e.(encoder), nil'''),
  (E+"compile_cache.go", '''func storeEncoder(rt reflect.Type, set encoder, m map[reflect.Type]encoder) {
	newEncoderMap := make(map[reflect.Type]encoder, len(m)+1)
	newEncoderMap[rt] = set

	for k, v := range m {
		newEncoderMap[k] = v
	}

	cachedEncoderMap.Store(&newEncoderMap)
}

''', ''),
  (E+"marshal.go", '''	ctx := newCtx()

	b, err := encode(ctx, ctx.Buf[:0], v)
	if err != nil {
		freeCtx(ctx)
		return nil, err
	}

	dst := make([]byte, len(b))
	copy(dst, b)

	ctx.Buf = b
	freeCtx(ctx)

	return dst, nil''', '''	ctx := newCtx()
	defer freeCtx(ctx)
	defer func() {
		if x := recover(); x != nil {
			ctx.StackDepth = 0
			clear(ctx.Seen)
			panic(x)
		}
	}()

	b, err := encode(ctx, nil, v)
	if err != nil {
		return nil, err
	}
	return append(make([]byte, 0, len(b)), b...), nil'''),
  (E+"float.go", '''	switch {
	case math.IsNaN(f64):
		return append(b, "d:NAN;"...), true
	case math.IsInf(f64, 1):
		return append(b, "d:INF;"...), true
	case math.IsInf(f64, -1):
		return append(b, "d:-INF;"...), true
	default:
		return b, false
	}''', '''	if f64 != f64 {
		return append(b, "d:NAN;"...), true
	}
	for _, x := range [...]struct {
		v float64
		s string
	}{{math.Inf(1), "d:INF;"}, {math.Inf(-1), "d:-INF;"}} {
		if f64 == x.v {
			return append(b, x.s...), true
		}
	}
	return b, false'''),
 ],
 # encoder: contexts and struct encoding
 "enc2": [
  (E+"context.go", '''	ctx := ctxPool.Get().(*Ctx)
	ctx.smallBuffer = ctx.smallBuffer[:0]

	return ctx''', '''	return &Ctx{Seen: map[seenValue]empty{}, smallBuffer: make([]byte, 0, 8)}'''),
  (E+"context.go", '''	ctxPool.Put(ctx)''', '''	ctx.Buf = nil'''),
  (E+"struct.go", '''		buf := newBuffer()
		defer freeBuffer(buf)
		structBuffer := buf.b

		var writtenField int64

	FIELD:
		for _, field := range fields {
			v := rv.Field(field.index)

			if field.omitEmpty {
				if v.IsZero() {
					continue
				}
			}

			writtenField++

			structBuffer = appendPhpStringVariable(ctx, structBuffer, field.fieldName)
''', '''		// the number of fields first, then the fields
		var writtenField int64
		for i := range fields {
			if !fields[i].skip(rv) {
				writtenField++
			}
		}
		structBuffer := appendArrayBegin(b, writtenField)

	FIELD:
		for i := len(fields) - len(fields); i < len(fields); i++ {
			field := &fields[i]
			if field.skip(rv) {
				continue
			}
			v := rv.Field(field.index)

			structBuffer = appendPhpStringVariable(ctx, structBuffer, field.fieldName)
'''),
  (E+"struct.go", '''		b = appendArrayBegin(b, writtenField)
		b = append(b, structBuffer...)
		buf.b = structBuffer

		return append(b, '}'), nil''', '''		return append(structBuffer, '}'), nil'''),
  (E+"struct.go", '''type compileSeenMap =''', '''func (f *structEncoder) skip(rv reflect.Value) bool {
	return f.omitEmpty && rv.Field(f.index).IsZero()
}

type compileSeenMap ='''),
  (E+"int.go", '''	b = append(b, 'i', ':')
	b = strconv.AppendInt(b, v, 10)
	return append(b, ';')''', '''	s := strconv.FormatInt(v, 10)
	return append(append(append(b, 'i', ':'), s...), ';')'''),
  (E+"uint.go", '''	b = append(b, 'i', ':')
	b = strconv.AppendUint(b, rv.Uint(), 10)
	return append(b, ';'), nil''', '''	return append(strconv.AppendUint(append(b, "i:"...), rv.Uint(), 10), ';'), nil'''),
  (E+"compile_cache.go", '''	cachedEncoderMap atomic.Pointer[map[reflect.Type]encoder]
)

func init() {
	var m = map[reflect.Type]encoder{}
	cachedEncoderMap.Store(&m)
}''', '''	encodersLock sync.RWMutex
	encoders     = make(map[reflect.Type]encoder)
)'''),
  (E+"compile_cache.go", '"sync/atomic"', '"sync"'),
  (E+"compile_cache.go", '''	opcodeMap := *cachedEncoderMap.Load()
	if codeSet, exists := opcodeMap[rt]; exists {
		return codeSet, nil
	}''', '''	encodersLock.RLock()
	e, ok := encoders[rt]
	encodersLock.RUnlock()
	if ok {
		return e, nil
	}'''),
  (E+"compile_cache.go", '''	storeEncoder(rt, codeSet, opcodeMap)
	return codeSet, nil''', '''	encodersLock.Lock()
	defer encodersLock.Unlock()
	encoders[rt] = codeSet
	return codeSet, nil'''),
  (E+"compile_cache.go", '''func storeEncoder(rt reflect.Type, set encoder, m map[reflect.Type]encoder) {
	newEncoderMap := make(map[reflect.Type]encoder, len(m)+1)
	newEncoderMap[rt] = set

	for k, v := range m {
		newEncoderMap[k] = v
	}

	cachedEncoderMap.Store(&newEncoderMap)
}

''', ''),
 ],
 # decoder: cursor helpers, numbers, containers
 "dec1": [
  (D+"context.go", '''	return cursor >= 0 && cursor < int64(len(buf))
''', '''	return uint64(cursor) < uint64(len(buf))
'''),
  (D+"context.go", '''	return cursor >= 0 && size >= 0 && cursor <= int64(len(buf))-size
''', '''	if size < 0 || cursor < 0 {
		return false
	}
	rest := int64(len(buf)) - cursor
	return rest >= size
'''),
  (D+"context.go", '''	start := cursor
	for hasByte(buf, cursor) && isInteger[buf[cursor]] {
		cursor++
	}
	if cursor == start {''', '''	start := cursor
	rest := bytes.TrimLeft(buf[cursor:], "0123456789")
	cursor = int64(len(buf) - len(rest))
	if cursor == start {'''),
  (D+"context.go", 'import (\n', 'import (\n\t"bytes"\n'),
  (D+"context.go", '''	start := cursor + 2
	cursor = start
	for hasByte(buf, cursor) && buf[cursor] != ';' {
		cursor++
	}
''', '''	start := cursor + 2
	if i := bytes.IndexByte(buf[start:], ';'); i >= 0 {
		cursor = start + int64(i)
	} else {
		cursor = int64(len(buf))
	}
'''),
  (D+"int.go", '''	var value uint64
	for i, c := range buf {
		if !numTable[c] {
			return 0, fmt.Errorf("invalid integer")
		}
		value += uint64(c-'0') * pow10i64[len(buf)-i-1]
	}
''', '''	var value uint64
	for _, c := range buf {
		if c < '0' || '9' < c {
			return 0, fmt.Errorf("invalid integer")
		}
		value = value*10 + uint64(c-'0')
	}
'''),
  (D+"slice.go", '''				newSlice := reflect.MakeSlice(d.stype, currentIndex+1, currentIndex+1)
				reflect.Copy(newSlice, slice)
				slice = newSlice''', '''				if currentIndex >= slice.Cap() {
					n := min(currentIndex+1+slice.Len()/4, d.maxLen())
					newSlice := reflect.MakeSlice(d.stype, slice.Len(), n)
					reflect.Copy(newSlice, slice)
					slice = newSlice
				}
				slice = slice.Slice(0, currentIndex+1)'''),
  (D+"map.go", '''	for {
		if !hasByte(buf, cursor) {
			return cursor, errors.ErrUnexpectedEnd("map", cursor)
		}
		k := reflect.New(d.keyType)
		keyCursor, err := d.keyDecoder.Decode(ctx, cursor, depth, k.Elem())
		if err != nil {
			return 0, err
		}
		cursor = keyCursor
		if !hasByte(buf, cursor) {
			return cursor, errors.ErrUnexpectedEnd("map value", cursor)
		}
		v := reflect.New(d.valueType)
		valueCursor, err := d.valueDecoder.Decode(ctx, cursor, depth, v.Elem())
		if err != nil {
			return 0, err
		}

		rv.SetMapIndex(k.Elem(), v.Elem())
		cursor = valueCursor
''', '''	// one key and value for all entries
	k, v := reflect.New(d.keyType).Elem(), reflect.New(d.valueType).Elem()
	for {
		if !hasByte(buf, cursor) {
			return cursor, errors.ErrUnexpectedEnd("map", cursor)
		}
		k.SetZero()
		v.SetZero()
		if cursor, err = d.keyDecoder.Decode(ctx, cursor, depth, k); err != nil {
			return 0, err
		}
		if !hasByte(buf, cursor) {
			return cursor, errors.ErrUnexpectedEnd("map value", cursor)
		}
		if cursor, err = d.valueDecoder.Decode(ctx, cursor, depth, v); err != nil {
			return 0, err
		}
		rv.SetMapIndex(k, v)
'''),
  (D+"struct.go", '''	// go compiler will not escape key
	field, exists := d.fieldMap[string(key)]
	if !exists {
		return cursor, nil, nil
	}

	return cursor, field, nil''', '''	for name, field := range d.fieldMap {
		if len(name) == len(key) && name == string(key) {
			return cursor, field, nil
		}
	}
	return cursor, nil, nil'''),
  (D+"interface.go", '''		if v {
			rv.Set(reflect.ValueOf(true))
		} else {
			rv.Set(reflect.ValueOf(false))
		}
		return cursor + 4, nil''', '''		rv.Set(reflect.ValueOf(any(v)))
		return cursor + 4, nil'''),
  (D+"interface.go", '''		var v float64
		ptr := reflect.ValueOf(&v).Elem()
''', '''		ptr := reflect.New(reflect.TypeFor[float64]()).Elem()
'''),
 ],
 # decoder: skipping with a stack, caches, contexts
 "dec2": [
  (D+"context.go", '''	for range length {
		cursor, err = skipValue(buf, cursor, depth)
		if err != nil {
			return cursor, err
		}
		cursor, err = skipValue(buf, cursor, depth)
		if err != nil {
			return cursor, err
		}
	}
	if !hasByte(buf, cursor) {
		return cursor, errors.ErrUnexpectedEnd("array", cursor)
	}
	if buf[cursor] != '}' {
		return cursor, errors.ErrUnexpected("'}' after array", cursor, buf[cursor])
	}
	return cursor + 1, nil''', '''	// what is left of the arrays that are open, innermost last
	left := []int64{length}
	for len(left) > 0 {
		n := len(left) - 1
		if left[n] == 0 {
			if !hasByte(buf, cursor) {
				return cursor, errors.ErrUnexpectedEnd("array", cursor)
			}
			if buf[cursor] != '}' {
				return cursor, errors.ErrUnexpected("'}' after array", cursor, buf[cursor])
			}
			cursor++
			left = left[:n]
			if n > 0 {
				left[n-1]--
			}
			continue
		}
		if left[n] > 0 { // the key, then the value
			if cursor, err = skipValue(buf, cursor, depth+int64(n)); err != nil {
				return cursor, err
			}
		}
		if hasByte(buf, cursor) && (buf[cursor] == 'a' || buf[cursor] == 'O') {
			if depth+int64(n)+1 > maxDecodeNestingDepth {
				return 0, errors.ErrExceededMaxDepth(buf[cursor], cursor)
			}
			if buf[cursor] == 'O' {
				if cursor, err = skipClassName(buf, cursor); err != nil {
					return cursor, err
				}
			}
			m, end, err := readLength(buf, cursor+1)
			if err != nil {
				return cursor, err
			}
			cursor = end
			if !hasByte(buf, cursor) {
				return cursor, errors.ErrUnexpectedEnd("array", cursor)
			}
			if buf[cursor] != '{' {
				return cursor, errors.ErrInvalidBeginningOfArray(buf[cursor], cursor)
			}
			cursor++
			left = append(left, m)
			continue
		}
		if cursor, err = skipValue(buf, cursor, depth+int64(n)); err != nil {
			return cursor, err
		}
		left[n]--
	}
	return cursor, nil'''),
  (D+"context.go", '''	return runtimeContextPool.Get().(*RuntimeContext)''', '''	return new(RuntimeContext)'''),
  (D+"context.go", '''	runtimeContextPool.Put(ctx)''', ''''''),
  (D+"compile.go", '''	decoderMap := *cachedDecoderMap.Load()
	if dec, exists := decoderMap[rt]; exists {
		return dec, nil
	}

	dec, err := compileHead(rt, map[reflect.Type]Decoder{})
	if err != nil {
		return nil, err
	}

	storeDecoder(rt, dec, decoderMap)

	return dec, nil''', '''	for {
		old := cachedDecoderMap.Load()
		if dec, exists := (*old)[rt]; exists {
			return dec, nil
		}
		dec, err := compileHead(rt, map[reflect.Type]Decoder{})
		if err != nil {
			return nil, err
		}
		m := maps.Clone(*old)
		m[rt] = dec
		if cachedDecoderMap.CompareAndSwap(old, &m) {
			return dec, nil
		}
	}'''),
  (D+"compile.go", '''func storeDecoder(rt reflect.Type, dec Decoder, m map[reflect.Type]Decoder) {
	newDecoderMap := make(map[reflect.Type]Decoder, len(m)+1)
	for k, v := range m {
		newDecoderMap[k] = v
	}

	newDecoderMap[rt] = dec

	cachedDecoderMap.Store(&newDecoderMap)
}

''', ''),
  (D+"compile.go", '''	"fmt"
''', '''	"fmt"
	"maps"
'''),
  (D+"struct.go", '''	switch buf[cursor] {
	case 'N':
		if err := validateNull(buf, cursor); err != nil {
			return 0, err
		}
		cursor += 2
		return cursor, nil
	case 'O':
		// O:8:"stdClass":1:{s:1:"a";s:1:"q";}
		end, err := skipClassName(buf, cursor)
		if err != nil {
			return cursor, err
		}
		cursor = end
		fallthrough
	case 'a':
		cursor++
		if !hasByte(buf, cursor) {
			return 0, errors.ErrUnexpectedEnd("object length", cursor)
		}
		if buf[cursor] != ':' {
			return 0, errors.ErrInvalidBeginningOfValue(buf[cursor], cursor)
		}
	default:
		return 0, errors.ErrInvalidBeginningOfValue(buf[cursor], cursor)
	}
''', '''	c := buf[cursor]
	if c == 'N' {
		return cursor + 2, validateNull(buf, cursor)
	}
	if c != 'a' && c != 'O' {
		return 0, errors.ErrInvalidBeginningOfValue(buf[cursor], cursor)
	}
	if c == 'O' {
		end, err := skipClassName(buf, cursor)
		if err != nil {
			return cursor, err
		}
		cursor = end
	}
	if cursor++; !hasByte(buf, cursor) {
		return 0, errors.ErrUnexpectedEnd("object length", cursor)
	} else if buf[cursor] != ':' {
		return 0, errors.ErrInvalidBeginningOfValue(buf[cursor], cursor)
	}
'''),
  (D+"string.go", '''	rv.SetString(string(bytes))
	return cursor, nil''', '''	var sb strings.Builder
	sb.Grow(len(bytes))
	for _, c := range bytes {
		sb.WriteByte(c)
	}
	rv.SetString(sb.String())
	return cursor, nil'''),
  (D+"string.go", 'import (\n', 'import (\n\t"strings"\n'),
  (D+"uint.go", '''	return strconv.ParseUint(unsafeStr(b), 10, 64)''', '''	var n uint64
	if len(b) == 0 {
		return 0, strconv.ErrSyntax
	}
	for _, c := range b {
		if c < '0' || c > '9' {
			return 0, strconv.ErrSyntax
		}
		hi, lo := bits.Mul64(n, 10)
		sum, carry := bits.Add64(lo, uint64(c-'0'), 0)
		if hi != 0 || carry != 0 {
			return 0, strconv.ErrRange
		}
		n = sum
	}
	return n, nil'''),
  (D+"uint.go", 'import (\n', 'import (\n\t"math/bits"\n'),
  ("unmarshal.go", '''	src := make([]byte, len(data))
	copy(src, data)
''', '''	src := bytes.Clone(data)
'''),
  ("unmarshal.go", 'import (\n', 'import (\n\t"bytes"\n'),
 ],
 # the other files: tags, pointers, interfaces, map keys, Unmarshaler, text of integers
 "misc1": [
  ("internal/runtime/struct_field.go", '''	opts := strings.Split(tag, ",")
	if len(opts) > 0 {
		if opts[0] != "" && isValidTag(opts[0]) {
			keyName = opts[0]
		}
	}
	st.Key = keyName
	if len(opts) > 1 {
		for _, opt := range opts[1:] {
			switch opt {
			case "omitempty":
				st.IsOmitEmpty = true
			case "string":
				st.IsString = true
			}
		}
	}
	return st''', '''	name, rest, found := strings.Cut(tag, ",")
	if isValidTag(name) {
		keyName = name
	}
	st.Key = keyName
	for found {
		var opt string
		opt, rest, found = strings.Cut(rest, ",")
		st.IsOmitEmpty = st.IsOmitEmpty || opt == "omitempty"
		st.IsString = st.IsString || opt == "string"
	}
	return st'''),
  ("internal/runtime/struct_field.go", '''	if !field.IsExported() {
		return true
	}

	tag := getTag(field)

	return tag == "-"''', '''	return field.PkgPath != "" || getTag(field) == "-"'''),
  (D+"ptr.go", '''	if rv.IsNil() {
		np := reflect.New(d.typ)
		rv.Set(np)
	}

	c, err := d.dec.Decode(ctx, cursor, depth, rv.Elem())
	if err != nil {
		return 0, err
	}
	cursor = c

	return cursor, nil''', '''	if p := rv.UnsafePointer(); p == nil {
		rv.Set(reflect.New(d.typ))
	}

	cursor, err := d.dec.Decode(ctx, cursor, depth, reflect.Indirect(rv))
	if err != nil {
		cursor = 0
	}
	return cursor, err'''),
  (D+"interface.go", '''		var v map[string]any
		ptr := reflect.ValueOf(&v).Elem()
		cursor, err := d.mapClassDecoder.Decode(ctx, cursor, depth, ptr)
		if err != nil {
			return 0, err
		}
		rv.Set(ptr)
		return cursor, nil
	case 'a':
		var v map[any]any
		ptr := reflect.ValueOf(&v).Elem()
		cursor, err := d.mapArrayDecoder.Decode(ctx, cursor, depth, ptr)
		if err != nil {
			return 0, err
		}
		rv.Set(ptr)
		return cursor, nil
	case 'd':
		var v float64
		ptr := reflect.ValueOf(&v).Elem()
		cursor, err := d.floatDecoder.Decode(ctx, cursor, depth, ptr)
		if err != nil {
			return 0, err
		}
		rv.Set(ptr)
		return cursor, nil''', '''		return decodeInto[map[string]any](d.mapClassDecoder, ctx, cursor, depth, rv)
	case 'a':
		return decodeInto[map[any]any](d.mapArrayDecoder, ctx, cursor, depth, rv)
	case 'd':
		return decodeInto[float64](d.floatDecoder, ctx, cursor, depth, rv)'''),
  (D+"interface.go", '''		var v int64
		ptr := reflect.ValueOf(&v).Elem()
		cursor, err := d.intDecode.Decode(ctx, cursor, depth, ptr)
		if err != nil {
			return 0, err
		}
		rv.Set(ptr)
		return cursor, nil''', '''		return decodeInto[int64](d.intDecode, ctx, cursor, depth, rv)'''),
  (D+"interface.go", '''type mapKeyDecoder struct {''', '''func decodeInto[T any](dec Decoder, ctx *RuntimeContext, cursor, depth int64, rv reflect.Value) (int64, error) {
	v := new(T)
	end, err := dec.Decode(ctx, cursor, depth, reflect.ValueOf(v).Elem())
	if err != nil {
		return 0, err
	}
	rv.Set(reflect.ValueOf(*v))
	return end, nil
}

type mapKeyDecoder struct {'''),
  (D+"interface.go", '''	switch buf[cursor] {
	case 's':
		var v string
		ptr := reflect.ValueOf(&v).Elem()
		cursor, err := d.strDecoder.Decode(ctx, cursor, depth, ptr)
		if err != nil {
			return 0, err
		}
		rv.Set(ptr)
		return cursor, nil
	// string key
	case 'i':
		var v int64
		ptr := reflect.ValueOf(&v).Elem()
		cursor, err := d.intDecoder.Decode(ctx, cursor, depth, ptr)
		if err != nil {
			return 0, err
		}
		rv.Set(ptr)
		return cursor, nil
	default:
		return 0, errors.ErrUnexpected("array key", cursor, buf[cursor])
	}''', '''	decoders := map[byte]func() (int64, error){
		's': func() (int64, error) { return decodeInto[string](d.strDecoder, ctx, cursor, depth, rv) },
		'i': func() (int64, error) { return decodeInto[int64](d.intDecoder, ctx, cursor, depth, rv) },
	}
	if f := decoders[buf[cursor]]; f != nil {
		return f()
	}
	return 0, errors.ErrUnexpected("array key", cursor, buf[cursor])'''),
  (D+"unmarshal_php.go", '''	if s, ok := unquoteBytes(src); ok {
		src = s
	}

	v := reflect.New(d.typ.Elem())

	if err := v.Interface().(Unmarshaler).UnmarshalPHP(src); err != nil {
		d.annotateError(cursor, err)
		return 0, err
	}

	rv.Set(v.Elem())

	return end, nil''', '''	v := reflect.New(d.typ.Elem())
	defer func() {
		if err == nil {
			rv.Set(v.Elem())
		} else {
			d.annotateError(cursor, err)
			next = 0
		}
	}()

	return end, v.Interface().(Unmarshaler).UnmarshalPHP(src)'''),
  (D+"unmarshal_php.go", "func (d *unmarshalPHPDecoder) Decode(ctx *RuntimeContext, cursor, depth int64, rv reflect.Value) (int64, error) {", "func (d *unmarshalPHPDecoder) Decode(ctx *RuntimeContext, cursor, depth int64, rv reflect.Value) (next int64, err error) {"),
  (D+"array.go", '''			if idx < d.alen {
				c, err := d.valueDecoder.Decode(ctx, cursor, depth, rv.Index(idx))
				if err != nil {
					return 0, err
				}
				cursor = c
			} else {
				c, err := skipValue(buf, cursor, depth)
				if err != nil {
					return 0, err
				}
				cursor = c
			}
''', '''			cursor, err = d.element(ctx, cursor, depth, rv, idx)
			if err != nil {
				return 0, err
			}
'''),
  (D+"array.go", '''func (d *arrayDecoder) Decode(''', '''// element decodes an element, or skips it
func (d *arrayDecoder) element(ctx *RuntimeContext, cursor, depth int64, rv reflect.Value, idx int) (int64, error) {
	if idx >= d.alen {
		return skipValue(ctx.Buf, cursor, depth)
	}
	return d.valueDecoder.Decode(ctx, cursor, depth, rv.Index(idx))
}

func (d *arrayDecoder) Decode('''),
  (D+"wrapped_string.go", '''	value, err := strconv.ParseBool(unsafeStr(bytes))
	if err != nil {
		return errors.ErrSyntax(err.Error(), topCursor)
	}

	if value {
		rv.SetBool(true)
	} else {
		rv.SetBool(false)
	}

	return nil''', '''	switch string(bytes) {
	case "1", "t", "T", "true", "TRUE", "True":
		rv.SetBool(true)
	case "0", "f", "F", "false", "FALSE", "False":
		rv.SetBool(false)
	default:
		return errors.ErrSyntax("strconv.ParseBool: parsing "+string(bytes)+": invalid syntax", topCursor)
	}
	return nil'''),
  (D+"wrapped_string.go", '''	"strconv"
''', ""),
  (D+"compile.go", '''	switch typ.Kind() {
	case reflect.Map:
		return false
	case reflect.Slice:
		return false
	case reflect.Array:
		return false
	case reflect.Struct:
		return false
	case reflect.Interface:
		return false
	}
	return true''', '''	return !slices.Contains([]reflect.Kind{reflect.Map, reflect.Slice, reflect.Array, reflect.Struct, reflect.Interface}, typ.Kind())'''),
  (D+"compile.go", '''	"reflect"
''', '''	"reflect"
	"slices"
'''),
  (D+"bool.go", '''		rv.SetBool(value)
		return cursor + 4, nil''', '''		rv.Set(reflect.ValueOf(value).Convert(rv.Type()))
		return cursor + int64(len("b:1;")), nil'''),
  (E+"int_as_string.go", '''	b = appendStringHead(b, iterativeDigitsCount(v))
	b = append(b, '"')
	b = strconv.AppendInt(b, v, 10)
	return append(b, '"', ';'), nil''', '''	return appendPhpStringVariable(nil, b, strconv.FormatInt(v, 10)), nil'''),
  (E+"ptr.go", '''	case reflect.Bool:
		return deRefNilEncoder(encodeBool), nil
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uint:
		return deRefNilEncoder(encodeUint), nil
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Int:
		return deRefNilEncoder(encodeInt), nil
	case reflect.Float32:
		return deRefNilEncoder(encodeFloat32), nil
	case reflect.Float64:
		return deRefNilEncoder(encodeFloat64), nil
	case reflect.String:
		return deRefNilEncoder(encodeString), nil
''', ""),
  (E+"interface.go", '''	case bool:
		return appendBoolAsString(b, value)
	case uint8:''', '''	case bool:
		return appendPhpStringVariable(ctx, b, strconv.FormatBool(value)), nil
	case uint8:'''),
  (E+"interface.go", '''	"reflect"
''', '''	"reflect"
	"strconv"
'''),
  (E+"map_reflect.go", '''	for iter.Next() {
		kv.SetIterKey(iter)
		b, err = keyEncoder(ctx, b, kv)
		if err != nil {
			return b, err
		}

		vv.SetIterValue(iter)
		b, err = valueEncoder(ctx, b, vv)
		if err != nil {
			return b, err
		}
	}

	return append(b, '}'), nil
}
''', '''	return appendEntries(ctx, b, iter, kv, vv, keyEncoder, valueEncoder)
}

func appendEntries(ctx *Ctx, b []byte, iter *reflect.MapIter, kv, vv reflect.Value, key, value encoder) (_ []byte, err error) {
	for ; iter.Next(); vv.SetZero() {
		kv.Set(iter.Key())
		vv.Set(iter.Value())
		for i, f := range [...]func() ([]byte, error){
			func() ([]byte, error) { return key(ctx, b, kv) },
			func() ([]byte, error) { return value(ctx, b, vv) },
		} {
			if b, err = f(); err != nil {
				_ = i
				return b, err
			}
		}
	}
	return append(b, '}'), nil
}
'''),
  (E+"bytes.go", '''	b = append(b, 's', ':')
	b = strconv.AppendInt(b, int64(rv.Len()), 10)
	b = append(b, ':', '"')
	b = append(b, rv.Bytes()...)

	return append(b, '"', ';'), nil''', '''	var w bytes.Buffer
	w.WriteString("s:")
	w.WriteString(strconv.Itoa(rv.Len()))
	w.WriteString(":\\"")
	w.Write(rv.Bytes())
	w.WriteString("\\";")
	return append(b, w.Bytes()...), nil'''),
  (E+"bytes.go", 'import (\n', 'import (\n\t"bytes"\n'),
  ("unmarshal.go", '''	ctx := decoder.TakeRuntimeContext()
	defer decoder.ReleaseRuntimeContext(ctx)
	ctx.Buf = src
	cursor, err := dec.Decode(ctx, 0, 0, rv.Elem())
	if err != nil {
		return err
	}
	return validateEndBuf(src, cursor)''', '''	return func(ctx *decoder.RuntimeContext) (err error) {
		defer decoder.ReleaseRuntimeContext(ctx)
		ctx.Buf = src
		var cursor int64
		if cursor, err = dec.Decode(ctx, 0, 0, reflect.Indirect(rv)); err == nil {
			err = validateEndBuf(src, cursor)
		}
		return
	}(decoder.TakeRuntimeContext())'''),
 ],
}
def main():
    name, d = sys.argv[1], sys.argv[2]
    if not os.path.isdir(d):
        subprocess.check_call(["cp", "-a", "/repo", d])
    for f, a, b in SETS[name]:
        p = os.path.join(d, f); s = open(p).read()
        if s.count(a) < 1:
            print("NOT FOUND in", f, ":", a[:200]); sys.exit(1)
        open(p, "w").write(s.replace(a, b, 1) if not a.startswith("import") else s.replace(a, b, 1))
    env = dict(os.environ, GOFLAGS="-mod=mod", GOTOOLCHAIN="local")
    subprocess.check_call("gofmt -l . ; go vet . ./internal/... && go test ./... 2>&1 | tail -15", shell=True, cwd=d, env=env)
if __name__ == "__main__":
    main()
