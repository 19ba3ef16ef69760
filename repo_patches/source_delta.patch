From 23addb0b913876d3876569c8c7fb3603b3abe856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:42 +0000
Subject: [PATCH 01/15] fix: Unmarshal(data, nil) returns InvalidUnmarshalError
 instead of panicking

---
 unmarshal.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/unmarshal.go b/unmarshal.go
index 8388124..22b750a 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -29,7 +29,8 @@ func Unmarshal(data []byte, v any) error {
 func unmarshal(data []byte, v any) error {
 	rv := reflect.ValueOf(v)
 
-	rt := rv.Type()
+	// not `rv.Type()`, it panics when v is nil
+	rt := reflect.TypeOf(v)
 
 	if err := validateValue(rv, rt); err != nil {
 		return err
-- 
2.43.0


From fcad34f74955d7d9055daadad068d58cdebbb70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:44 +0000
Subject: [PATCH 02/15] fix: decoding an array into the key of map[any]T panics
 on unhashable key

---
 internal/decoder/compile.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/decoder/compile.go b/internal/decoder/compile.go
index 8460de8..d536f0e 100644
--- a/internal/decoder/compile.go
+++ b/internal/decoder/compile.go
@@ -136,6 +136,13 @@ func compileMapKey(typ reflect.Type, structName, fieldName string, structTypeToD
 	if typ.Kind() == reflect.String {
 		return newStringDecoder(structName, fieldName), nil
 	}
+	if typ.Kind() == reflect.Interface && typ.NumMethod() == 0 {
+		// only int and string are valid keys, and other values, array for example, may not be hashable.
+		return newInterfaceMapKeyDecoder(
+			newIntDecoder(interfaceIntType, structName, fieldName),
+			newStringDecoder(structName, fieldName),
+		), nil
+	}
 	dec, err := compile(typ, structName, fieldName, structTypeToDecoder)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From e6a7c9303982e62f61f86e98b9bfd896219d4cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:45 +0000
Subject: [PATCH 03/15] fix: decoding into a map with pointer key type panics

---
 internal/decoder/compile.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/decoder/compile.go b/internal/decoder/compile.go
index d536f0e..8deae85 100644
--- a/internal/decoder/compile.go
+++ b/internal/decoder/compile.go
@@ -148,14 +148,16 @@ func compileMapKey(typ reflect.Type, structName, fieldName string, structTypeToD
 		return nil, err
 	}
 
+	// keep ptrDecoder for pointer keys, value decoder can't decode into a pointer
+	elemDec := dec
 	for {
-		switch t := dec.(type) {
+		switch t := elemDec.(type) {
 		case *stringDecoder, *interfaceDecoder:
 			return dec, nil
 		case *boolDecoder, *intDecoder, *uintDecoder:
 			return dec, nil
 		case *ptrDecoder:
-			dec = t.dec
+			elemDec = t.dec
 		default:
 			return newInvalidDecoder(typ, structName, fieldName), nil
 		}
-- 
2.43.0


From 90b64be7a6fc8cfd3abbeb55034b1910eea5765a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:21 +0000
Subject: [PATCH 04/15] fix: declared length of array makes Unmarshal panic or
 allocate unlimited memory

---
 internal/decoder/context.go | 7 +++++++
 internal/decoder/map.go     | 2 +-
 internal/decoder/slice.go   | 2 +-
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/internal/decoder/context.go b/internal/decoder/context.go
index 8c9d61d..5406804 100644
--- a/internal/decoder/context.go
+++ b/internal/decoder/context.go
@@ -53,6 +53,13 @@ func hasByte(buf []byte, cursor int64) bool {
 	return cursor >= 0 && cursor < int64(len(buf))
 }
 
+// maxElements returns how many array elements the remaining input can hold at most,
+// the declared length of an array can't be trusted when allocating memory.
+// the smallest element is an integer key and a null, `i:0;N;`
+func maxElements(buf []byte, cursor int64) int {
+	return (len(buf)-int(cursor))/len("i:0;N;") + 1
+}
+
 func hasBytes(buf []byte, cursor, size int64) bool {
 	return cursor >= 0 && size >= 0 && cursor <= int64(len(buf))-size
 }
diff --git a/internal/decoder/map.go b/internal/decoder/map.go
index 203a84e..f2b8814 100644
--- a/internal/decoder/map.go
+++ b/internal/decoder/map.go
@@ -75,7 +75,7 @@ func (d *mapDecoder) Decode(ctx *RuntimeContext, cursor, depth int64, rv reflect
 	}
 
 	if rv.IsNil() {
-		rv.Set(reflect.MakeMapWithSize(d.mapType, int(l)))
+		rv.Set(reflect.MakeMapWithSize(d.mapType, min(int(l), maxElements(buf, cursor))))
 	}
 
 	cursor++
diff --git a/internal/decoder/slice.go b/internal/decoder/slice.go
index d3a3cbb..e2dbf34 100644
--- a/internal/decoder/slice.go
+++ b/internal/decoder/slice.go
@@ -102,7 +102,7 @@ func (d *sliceDecoder) Decode(ctx *RuntimeContext, cursor, depth int64, rv refle
 		}
 		cursor++
 
-		slice := reflect.MakeSlice(d.stype, 0, arrLen)
+		slice := reflect.MakeSlice(d.stype, 0, min(arrLen, maxElements(buf, cursor)))
 
 		for {
 			if !hasByte(buf, cursor) {
-- 
2.43.0


From 371803c18e8d656b3126596090c1a8320211c5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:47 +0000
Subject: [PATCH 05/15] fix: decoding a huge array index into slice panics

---
 internal/decoder/slice.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/internal/decoder/slice.go b/internal/decoder/slice.go
index e2dbf34..76d901d 100644
--- a/internal/decoder/slice.go
+++ b/internal/decoder/slice.go
@@ -1,6 +1,7 @@
 package decoder
 
 import (
+	"math"
 	"reflect"
 	"unsafe"
 
@@ -48,6 +49,15 @@ func (d *sliceDecoder) errNumber(offset int64) *errors.UnmarshalTypeError {
 	}
 }
 
+// maxLen is the max length of slice reflect.MakeSlice can make without panic
+func (d *sliceDecoder) maxLen() int {
+	const maxAlloc = min(math.MaxInt, 1<<47)
+	if d.size == 0 {
+		return math.MaxInt
+	}
+	return maxAlloc / int(d.size)
+}
+
 func (d *sliceDecoder) Decode(ctx *RuntimeContext, cursor, depth int64, rv reflect.Value) (int64, error) {
 	buf := ctx.Buf
 	if !hasByte(buf, cursor) {
@@ -119,6 +129,9 @@ func (d *sliceDecoder) Decode(ctx *RuntimeContext, cursor, depth int64, rv refle
 			}
 
 			if currentIndex >= slice.Len() {
+				if currentIndex >= d.maxLen() {
+					return 0, errors.ErrSyntax("php-serialize: array index out of range", cursor)
+				}
 				newSlice := reflect.MakeSlice(d.stype, currentIndex+1, currentIndex+1)
 				reflect.Copy(newSlice, slice)
 				slice = newSlice
-- 
2.43.0


From c91816bdb4727a33e2917e0e56797b004b6df0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:48 +0000
Subject: [PATCH 06/15] fix: encoding a nil pointer or nil interface of
 Marshaler panics

---
 internal/encoder/marshal_php.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/encoder/marshal_php.go b/internal/encoder/marshal_php.go
index 8fff89a..fa82188 100644
--- a/internal/encoder/marshal_php.go
+++ b/internal/encoder/marshal_php.go
@@ -12,6 +12,10 @@ type Marshaler interface {
 
 func compileMarshaler(rt reflect.Type) (encoder, error) {
 	return func(ctx *Ctx, b []byte, rv reflect.Value) ([]byte, error) {
+		if (rv.Kind() == reflect.Ptr || rv.Kind() == reflect.Interface) && rv.IsNil() {
+			return appendNull(b), nil
+		}
+
 		raw, err := rv.Interface().(Marshaler).MarshalPHP()
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 7882d9b9786cb612671ed344f1599ca31992fb47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:50 +0000
Subject: [PATCH 07/15] fix: appending to decoded bytes overwrites other
 decoded values

---
 internal/decoder/bytes.go         | 3 ++-
 internal/decoder/interface.go     | 2 +-
 internal/decoder/unmarshal_php.go | 2 +-
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/internal/decoder/bytes.go b/internal/decoder/bytes.go
index 3aa3b4e..947afef 100644
--- a/internal/decoder/bytes.go
+++ b/internal/decoder/bytes.go
@@ -44,7 +44,8 @@ func (d *bytesDecoder) Decode(ctx *RuntimeContext, cursor, depth int64, rv refle
 		return c, nil
 	}
 	cursor = c
-	rv.SetBytes(bytes)
+	// limit capacity, or append to it will overwrite other decoded bytes
+	rv.SetBytes(bytes[:len(bytes):len(bytes)])
 	return cursor, nil
 }
 
diff --git a/internal/decoder/interface.go b/internal/decoder/interface.go
index 61e21ed..e1cf67a 100644
--- a/internal/decoder/interface.go
+++ b/internal/decoder/interface.go
@@ -107,7 +107,7 @@ func decodePHPUnmarshaler(buf []byte, cursor, depth int64, unmarshaler Unmarshal
 	if err != nil {
 		return 0, err
 	}
-	src := buf[start:end]
+	src := buf[start:end:end]
 	if bytes.Equal(src, nullbytes) {
 		rv.SetZero()
 		return end, nil
diff --git a/internal/decoder/unmarshal_php.go b/internal/decoder/unmarshal_php.go
index f276c9a..89850ac 100644
--- a/internal/decoder/unmarshal_php.go
+++ b/internal/decoder/unmarshal_php.go
@@ -49,7 +49,7 @@ func (d *unmarshalPHPDecoder) Decode(ctx *RuntimeContext, cursor, depth int64, r
 	if err != nil {
 		return 0, err
 	}
-	src := buf[start:end]
+	src := buf[start:end:end]
 	if len(src) > 0 {
 		switch src[0] {
 		case '[':
-- 
2.43.0


From 4d6be81ddf698d3c1366fc5e07bd548defe3affc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:51 +0000
Subject: [PATCH 08/15] fix: decoding a string field with `string` tag option
 returns UnsupportedTypeError

---
 internal/decoder/wrapped_string.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/decoder/wrapped_string.go b/internal/decoder/wrapped_string.go
index b467272..c04fcc2 100644
--- a/internal/decoder/wrapped_string.go
+++ b/internal/decoder/wrapped_string.go
@@ -31,6 +31,9 @@ func newWrappedStringDecoder(typ reflect.Type, dec Decoder, structName, fieldNam
 		innerDec = newStringUintDecoder(structName, fieldName, v)
 	case *intDecoder:
 		innerDec = newStringIntDecoder(structName, fieldName, v)
+	case *stringDecoder:
+		// string is already encoded as string
+		return dec, nil
 	case *ptrDecoder:
 		err := v.wrapString()
 		return dec, err
-- 
2.43.0


From ae31c64043ef324555b89cf5cca5b7f229aa995b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:52 +0000
Subject: [PATCH 09/15] fix: encoding an array in interface returns
 UnsupportedInterfaceTypeError

---
 internal/encoder/interface.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/encoder/interface.go b/internal/encoder/interface.go
index 65c919f..beca3bd 100644
--- a/internal/encoder/interface.go
+++ b/internal/encoder/interface.go
@@ -48,7 +48,7 @@ LOOP:
 		return reflectRecursiveValue(ctx, b, rv, reflectSlice)
 	case reflect.Map:
 		return reflectRecursiveValue(ctx, b, rv, reflectMap)
-	case reflect.Struct:
+	case reflect.Struct, reflect.Array:
 		return reflectStruct(ctx, b, rv)
 	}
 
-- 
2.43.0


From b020d80123353aa06a46bb7622ba0a08b1cefeff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:07 +0000
Subject: [PATCH 10/15] fix: field with tag `php:"-,"` is decoded but never
 encoded

---
 internal/encoder/struct.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/encoder/struct.go b/internal/encoder/struct.go
index 873da8b..ae7e323 100644
--- a/internal/encoder/struct.go
+++ b/internal/encoder/struct.go
@@ -112,11 +112,12 @@ func compileStructFieldsEncoders(rt reflect.Type, seen compileSeenMap) ([]struct
 
 	for i := 0; i < rt.NumField(); i++ {
 		field := rt.Field(i)
-		cfg := runtime.StructTagFromField(field)
-		if cfg.Key == "-" || !cfg.Field.IsExported() {
+		if runtime.IsIgnoredStructField(field) {
 			continue
 		}
 
+		cfg := runtime.StructTagFromField(field)
+
 		var fieldEncoder encoder
 		var err error
 
-- 
2.43.0


From c13a171c9542a78a56d7f7bd181a2f93c1e1b368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:56 +0000
Subject: [PATCH 11/15] fix: Marshaler is ignored by pointer field of struct
 and by value in interface

---
 internal/encoder/interface.go   |  4 ++++
 internal/encoder/marshal_php.go | 22 ++++++++++++----------
 internal/encoder/struct.go      |  7 ++++---
 3 files changed, 20 insertions(+), 13 deletions(-)

diff --git a/internal/encoder/interface.go b/internal/encoder/interface.go
index beca3bd..1dfab5d 100644
--- a/internal/encoder/interface.go
+++ b/internal/encoder/interface.go
@@ -16,6 +16,10 @@ func compileInterface(rt reflect.Type) (encoder, error) {
 func reflectInterfaceValue(ctx *Ctx, b []byte, rv reflect.Value) ([]byte, error) {
 LOOP:
 	for {
+		if rv.Kind() != reflect.Interface && rv.Type().Implements(marshalerType) {
+			return encodeMarshaler(ctx, b, rv)
+		}
+
 		switch rv.Kind() {
 		case reflect.Ptr, reflect.Interface:
 			if rv.IsNil() || rv.IsZero() {
diff --git a/internal/encoder/marshal_php.go b/internal/encoder/marshal_php.go
index fa82188..b20afe2 100644
--- a/internal/encoder/marshal_php.go
+++ b/internal/encoder/marshal_php.go
@@ -11,16 +11,18 @@ type Marshaler interface {
 }
 
 func compileMarshaler(rt reflect.Type) (encoder, error) {
-	return func(ctx *Ctx, b []byte, rv reflect.Value) ([]byte, error) {
-		if (rv.Kind() == reflect.Ptr || rv.Kind() == reflect.Interface) && rv.IsNil() {
-			return appendNull(b), nil
-		}
+	return encodeMarshaler, nil
+}
+
+func encodeMarshaler(ctx *Ctx, b []byte, rv reflect.Value) ([]byte, error) {
+	if (rv.Kind() == reflect.Ptr || rv.Kind() == reflect.Interface) && rv.IsNil() {
+		return appendNull(b), nil
+	}
 
-		raw, err := rv.Interface().(Marshaler).MarshalPHP()
-		if err != nil {
-			return nil, err
-		}
+	raw, err := rv.Interface().(Marshaler).MarshalPHP()
+	if err != nil {
+		return nil, err
+	}
 
-		return append(b, raw...), nil
-	}, nil
+	return append(b, raw...), nil
 }
diff --git a/internal/encoder/struct.go b/internal/encoder/struct.go
index ae7e323..a509914 100644
--- a/internal/encoder/struct.go
+++ b/internal/encoder/struct.go
@@ -121,9 +121,10 @@ func compileStructFieldsEncoders(rt reflect.Type, seen compileSeenMap) ([]struct
 		var fieldEncoder encoder
 		var err error
 
-		var isPtrField = field.Type.Kind() == reflect.Ptr
+		// Marshaler with pointer receiver should be encoded by its pointer
+		var isPtrField = field.Type.Kind() == reflect.Ptr && (cfg.IsString || !field.Type.Implements(marshalerType))
 
-		if field.Type.Kind() == reflect.Ptr {
+		if isPtrField {
 			if field.Type.Elem().Kind() == reflect.Ptr {
 				return nil, fmt.Errorf("encoding nested ptr is not supported %s", field.Type.String())
 			}
@@ -142,7 +143,7 @@ func compileStructFieldsEncoders(rt reflect.Type, seen compileSeenMap) ([]struct
 				fieldEncoder, err = compileAsString(field.Type)
 			}
 		} else {
-			if field.Type.Kind() == reflect.Ptr {
+			if isPtrField {
 				fieldEncoder, err = compile(field.Type.Elem(), seen)
 				if err == nil && field.Type.Elem().Kind() == reflect.Struct {
 					fieldEncoder = checkStructRecursiveEncoder(fieldEncoder)
-- 
2.43.0


From 29cea994f14607cc68ebe454c377f134799d5f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:49 +0000
Subject: [PATCH 12/15] fix: cycle through pointer in interface overflows
 stack, values sharing address are reported as cycle

---
 internal/encoder/context.go       | 46 +++++++++++++++++++++-
 internal/encoder/interface.go     | 65 +++++++++++++++----------------
 internal/encoder/ptr.go           | 50 ++++++++----------------
 internal/encoder/slice_reflect.go |  6 ++-
 internal/encoder/struct.go        |  9 +++--
 5 files changed, 104 insertions(+), 72 deletions(-)

diff --git a/internal/encoder/context.go b/internal/encoder/context.go
index 70f7717..e8610ba 100644
--- a/internal/encoder/context.go
+++ b/internal/encoder/context.go
@@ -1,6 +1,8 @@
 package encoder
 
 import (
+	"fmt"
+	"reflect"
 	"sync"
 	"unsafe"
 )
@@ -10,20 +12,60 @@ var ctxPool = sync.Pool{
 		return &Ctx{
 			Buf:         make([]byte, 0, 1024),
 			smallBuffer: make([]byte, 0, 20),
-			Seen:        make(map[unsafe.Pointer]empty, 100),
+			Seen:        make(map[seenValue]empty, 100),
 		}
 	},
 }
 
 type empty struct{}
 
+// seenValue identify a pointer, map or slice being encoded.
+// a pointer is not enough, struct and its first field have same address, as well as slice and sub-slice.
+type seenValue struct {
+	typ reflect.Type
+	ptr unsafe.Pointer
+	len int
+}
+
+func newSeenValue(rv reflect.Value) seenValue {
+	s := seenValue{typ: rv.Type(), ptr: rv.UnsafePointer()}
+	if rv.Kind() == reflect.Slice {
+		s.len = rv.Len()
+	}
+	return s
+}
+
 type Ctx struct {
 	smallBuffer []byte // a small buffer to encode float and time.Time as string
 	Buf         []byte
-	Seen        map[unsafe.Pointer]empty
+	Seen        map[seenValue]empty
 	StackDepth  uint
 }
 
+// enter must be called before encoding the value which rv refers to
+func (ctx *Ctx) enter(rv reflect.Value) (v seenValue, tracked bool, err error) {
+	ctx.StackDepth++
+	if ctx.StackDepth <= 1000 {
+		return v, false, nil
+	}
+
+	v = newSeenValue(rv)
+	if _, seen := ctx.Seen[v]; seen {
+		ctx.StackDepth--
+		return v, false, fmt.Errorf("php: try to encode recursive value of type %s", rv.Type())
+	}
+	ctx.Seen[v] = empty{}
+
+	return v, true, nil
+}
+
+func (ctx *Ctx) leave(v seenValue, tracked bool) {
+	if tracked {
+		delete(ctx.Seen, v)
+	}
+	ctx.StackDepth--
+}
+
 func newCtx() *Ctx {
 	ctx := ctxPool.Get().(*Ctx)
 	ctx.smallBuffer = ctx.smallBuffer[:0]
diff --git a/internal/encoder/interface.go b/internal/encoder/interface.go
index 1dfab5d..086be1a 100644
--- a/internal/encoder/interface.go
+++ b/internal/encoder/interface.go
@@ -14,21 +14,22 @@ func compileInterface(rt reflect.Type) (encoder, error) {
 }
 
 func reflectInterfaceValue(ctx *Ctx, b []byte, rv reflect.Value) ([]byte, error) {
-LOOP:
-	for {
-		if rv.Kind() != reflect.Interface && rv.Type().Implements(marshalerType) {
-			return encodeMarshaler(ctx, b, rv)
+	if rv.Kind() == reflect.Interface {
+		if rv.IsNil() {
+			return appendNull(b), nil
 		}
+		rv = rv.Elem()
+	}
+
+	if rv.Type().Implements(marshalerType) {
+		return encodeMarshaler(ctx, b, rv)
+	}
 
-		switch rv.Kind() {
-		case reflect.Ptr, reflect.Interface:
-			if rv.IsNil() || rv.IsZero() {
-				return appendNull(b), nil
-			}
-			rv = rv.Elem()
-		default:
-			break LOOP
+	if rv.Kind() == reflect.Ptr {
+		if rv.IsNil() {
+			return appendNull(b), nil
 		}
+		return encodeRecursiveValue(ctx, b, rv, reflectPtr)
 	}
 
 	// simple type
@@ -49,9 +50,9 @@ LOOP:
 
 	switch rv.Kind() {
 	case reflect.Slice:
-		return reflectRecursiveValue(ctx, b, rv, reflectSlice)
+		return reflectSlice(ctx, b, rv)
 	case reflect.Map:
-		return reflectRecursiveValue(ctx, b, rv, reflectMap)
+		return encodeRecursiveValue(ctx, b, rv, reflectMap)
 	case reflect.Struct, reflect.Array:
 		return reflectStruct(ctx, b, rv)
 	}
@@ -59,15 +60,8 @@ LOOP:
 	return b, &UnsupportedInterfaceTypeError{rv.Type()}
 }
 
-func reflectRecursiveValue(ctx *Ctx, b []byte, rv reflect.Value, enc encoder) ([]byte, error) {
-	ptr := rv.UnsafePointer()
-	if _, seen := ctx.Seen[ptr]; seen {
-		return b, fmt.Errorf("php: try to encode recursive value of type %s", rv.Type())
-	}
-	ctx.Seen[ptr] = empty{}
-	b, err := enc(ctx, b, rv)
-	delete(ctx.Seen, ptr)
-	return b, err
+func reflectPtr(ctx *Ctx, b []byte, rv reflect.Value) ([]byte, error) {
+	return reflectInterfaceValue(ctx, b, rv.Elem())
 }
 
 func compileInterfaceAsString(rt reflect.Type) (encoder, error) {
@@ -77,17 +71,18 @@ func compileInterfaceAsString(rt reflect.Type) (encoder, error) {
 }
 
 func reflectInterfaceValueAsString(ctx *Ctx, b []byte, rv reflect.Value) ([]byte, error) {
-LOOP:
-	for {
-		switch rv.Kind() {
-		case reflect.Ptr, reflect.Interface:
-			if rv.IsNil() || rv.IsZero() {
-				return appendNull(b), nil
-			}
-			rv = rv.Elem()
-		default:
-			break LOOP
+	if rv.Kind() == reflect.Interface {
+		if rv.IsNil() {
+			return appendNull(b), nil
 		}
+		rv = rv.Elem()
+	}
+
+	if rv.Kind() == reflect.Ptr {
+		if rv.IsNil() {
+			return appendNull(b), nil
+		}
+		return encodeRecursiveValue(ctx, b, rv, reflectPtrAsString)
 	}
 
 	switch value := rv.Interface().(type) {
@@ -122,3 +117,7 @@ LOOP:
 	// slice, map and struct as interface are not supported yet.
 	return b, fmt.Errorf("failed to encode %s as string", rv.Kind())
 }
+
+func reflectPtrAsString(ctx *Ctx, b []byte, rv reflect.Value) ([]byte, error) {
+	return reflectInterfaceValueAsString(ctx, b, rv.Elem())
+}
diff --git a/internal/encoder/ptr.go b/internal/encoder/ptr.go
index aed0db2..1520918 100644
--- a/internal/encoder/ptr.go
+++ b/internal/encoder/ptr.go
@@ -55,23 +55,13 @@ func checkStructRecursiveEncoder(enc encoder) encoder {
 			return appendNull(b), nil
 		}
 
-		ctx.StackDepth++
-		tracked := ctx.StackDepth > 1000
-		ptr := rv.UnsafePointer()
-		if tracked {
-			_, seen := ctx.Seen[ptr]
-			if seen {
-				ctx.StackDepth--
-				return b, fmt.Errorf("php: try to encode recursive value of type %s", rv.Type())
-			}
-			ctx.Seen[ptr] = empty{}
+		v, tracked, err := ctx.enter(rv)
+		if err != nil {
+			return b, err
 		}
 
-		b, err := enc(ctx, b, rv.Elem())
-		if tracked {
-			delete(ctx.Seen, ptr)
-		}
-		ctx.StackDepth--
+		b, err = enc(ctx, b, rv.Elem())
+		ctx.leave(v, tracked)
 
 		return b, err
 	}
@@ -83,25 +73,19 @@ func checkRecursiveEncoder(enc encoder) encoder {
 			return appendNull(b), nil
 		}
 
-		ctx.StackDepth++
-		tracked := ctx.StackDepth > 1000
-		ptr := rv.UnsafePointer()
-		if tracked {
-			_, seen := ctx.Seen[ptr]
-			if seen {
-				ctx.StackDepth--
-				return b, fmt.Errorf("php: try to encode recursive value of type %s", rv.Type())
-			}
-
-			ctx.Seen[ptr] = empty{}
-		}
-
-		b, err := enc(ctx, b, rv)
-		if tracked {
-			delete(ctx.Seen, ptr)
-		}
-		ctx.StackDepth--
+		return encodeRecursiveValue(ctx, b, rv, enc)
+	}
+}
 
+// encodeRecursiveValue encodes a non-nil pointer, map or slice, and find the cycle.
+func encodeRecursiveValue(ctx *Ctx, b []byte, rv reflect.Value, enc encoder) ([]byte, error) {
+	v, tracked, err := ctx.enter(rv)
+	if err != nil {
 		return b, err
 	}
+
+	b, err = enc(ctx, b, rv)
+	ctx.leave(v, tracked)
+
+	return b, err
 }
diff --git a/internal/encoder/slice_reflect.go b/internal/encoder/slice_reflect.go
index 83cd596..c4681b8 100644
--- a/internal/encoder/slice_reflect.go
+++ b/internal/encoder/slice_reflect.go
@@ -16,7 +16,11 @@ func reflectSlice(ctx *Ctx, b []byte, rv reflect.Value) ([]byte, error) {
 		return appendNull(b), nil
 	}
 
-	encoder, err := compileInterface(rt.Elem())
+	return encodeRecursiveValue(ctx, b, rv, reflectInterfaceSlice)
+}
+
+func reflectInterfaceSlice(ctx *Ctx, b []byte, rv reflect.Value) ([]byte, error) {
+	encoder, err := compileInterface(rv.Type().Elem())
 	if err != nil {
 		return nil, err
 	}
diff --git a/internal/encoder/struct.go b/internal/encoder/struct.go
index a509914..eae7c17 100644
--- a/internal/encoder/struct.go
+++ b/internal/encoder/struct.go
@@ -145,9 +145,12 @@ func compileStructFieldsEncoders(rt reflect.Type, seen compileSeenMap) ([]struct
 		} else {
 			if isPtrField {
 				fieldEncoder, err = compile(field.Type.Elem(), seen)
-				if err == nil && field.Type.Elem().Kind() == reflect.Struct {
-					fieldEncoder = checkStructRecursiveEncoder(fieldEncoder)
-					isPtrField = false
+				if err == nil {
+					switch field.Type.Elem().Kind() {
+					case reflect.Struct, reflect.Interface:
+						fieldEncoder = checkStructRecursiveEncoder(fieldEncoder)
+						isPtrField = false
+					}
 				}
 			} else {
 				fieldEncoder, err = compile(field.Type, seen)
-- 
2.43.0


From 2403bc0263651ff771e841e5a5efc35582a111be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:35 +0000
Subject: [PATCH 13/15] fix: compiling recursive type without struct overflows
 stack

---
 internal/decoder/compile.go | 37 ++++++++++++++++++++++++++++++++-----
 internal/encoder/array.go   | 29 ++++++++++++++---------------
 internal/encoder/compile.go |  2 +-
 internal/encoder/ptr.go     |  3 +++
 internal/encoder/struct.go  |  2 +-
 5 files changed, 51 insertions(+), 22 deletions(-)

diff --git a/internal/decoder/compile.go b/internal/decoder/compile.go
index 8deae85..fc6965c 100644
--- a/internal/decoder/compile.go
+++ b/internal/decoder/compile.go
@@ -6,6 +6,7 @@ import (
 	"reflect"
 	"sync/atomic"
 
+	phperrors "github.com/trim21/go-phpserialize/internal/errors"
 	"github.com/trim21/go-phpserialize/internal/runtime"
 )
 
@@ -165,6 +166,10 @@ func compileMapKey(typ reflect.Type, structName, fieldName string, structTypeToD
 }
 
 func compilePtr(typ reflect.Type, structName, fieldName string, structTypeToDecoder map[reflect.Type]Decoder) (Decoder, error) {
+	if typ.Elem().Kind() == reflect.Ptr {
+		// check it before compiling elem, it may be a recursive type like `type P *P`
+		return nil, &phperrors.UnsupportedTypeError{Type: typ}
+	}
 	dec, err := compile(typ.Elem(), structName, fieldName, structTypeToDecoder)
 	if err != nil {
 		return nil, err
@@ -233,24 +238,43 @@ func compileBytes(typ reflect.Type, structName, fieldName string) (Decoder, erro
 }
 
 func compileSlice(typ reflect.Type, structName, fieldName string, structTypeToDecoder map[reflect.Type]Decoder) (Decoder, error) {
+	if dec, exists := structTypeToDecoder[typ]; exists {
+		return dec, nil
+	}
 	elem := typ.Elem()
-	decoder, err := compile(elem, structName, fieldName, structTypeToDecoder)
+	dec := newSliceDecoder(nil, elem, elem.Size(), structName, fieldName)
+	structTypeToDecoder[typ] = dec
+	valueDec, err := compile(elem, structName, fieldName, structTypeToDecoder)
 	if err != nil {
 		return nil, err
 	}
-	return newSliceDecoder(decoder, elem, elem.Size(), structName, fieldName), nil
+	dec.valueDecoder = valueDec
+	delete(structTypeToDecoder, typ)
+	return dec, nil
 }
 
 func compileArray(typ reflect.Type, structName, fieldName string, structTypeToDecoder map[reflect.Type]Decoder) (Decoder, error) {
+	if dec, exists := structTypeToDecoder[typ]; exists {
+		return dec, nil
+	}
 	elem := typ.Elem()
-	decoder, err := compile(elem, structName, fieldName, structTypeToDecoder)
+	dec := newArrayDecoder(nil, elem, typ.Len(), structName, fieldName)
+	structTypeToDecoder[typ] = dec
+	valueDec, err := compile(elem, structName, fieldName, structTypeToDecoder)
 	if err != nil {
 		return nil, err
 	}
-	return newArrayDecoder(decoder, elem, typ.Len(), structName, fieldName), nil
+	dec.valueDecoder = valueDec
+	delete(structTypeToDecoder, typ)
+	return dec, nil
 }
 
 func compileMap(typ reflect.Type, structName, fieldName string, structTypeToDecoder map[reflect.Type]Decoder) (Decoder, error) {
+	if dec, exists := structTypeToDecoder[typ]; exists {
+		return dec, nil
+	}
+	dec := newMapDecoder(typ, typ.Key(), nil, typ.Elem(), nil, structName, fieldName)
+	structTypeToDecoder[typ] = dec
 	keyDec, err := compileMapKey(typ.Key(), structName, fieldName, structTypeToDecoder)
 	if err != nil {
 		return nil, err
@@ -259,7 +283,10 @@ func compileMap(typ reflect.Type, structName, fieldName string, structTypeToDeco
 	if err != nil {
 		return nil, err
 	}
-	return newMapDecoder(typ, typ.Key(), keyDec, typ.Elem(), valueDec, structName, fieldName), nil
+	dec.keyDecoder = keyDec
+	dec.valueDecoder = valueDec
+	delete(structTypeToDecoder, typ)
+	return dec, nil
 }
 
 func compileInterface(typ reflect.Type, structName, fieldName string) (Decoder, error) {
diff --git a/internal/encoder/array.go b/internal/encoder/array.go
index 32ca216..9cc1feb 100644
--- a/internal/encoder/array.go
+++ b/internal/encoder/array.go
@@ -4,25 +4,22 @@ import (
 	"reflect"
 )
 
-func compileArray(rt reflect.Type) (encoder, error) {
+func compileArray(rt reflect.Type, seen compileSeenMap) (encoder, error) {
+	if recursiveEnc, exists := seen[rt]; exists {
+		return recursiveEnc.Encode, nil
+	}
+	recursiveEnc := &structRecEncoder{}
+	seen[rt] = recursiveEnc
+
 	length := rt.Len()
 	i64 := int64(length)
-	var enc encoder
-	var err error
 
-	if rt.Elem().Kind() == reflect.Map {
-		enc, err = compileWithCache(rt.Elem())
-		if err != nil {
-			return nil, err
-		}
-	} else {
-		enc, err = compileWithCache(rt.Elem())
-		if err != nil {
-			return nil, err
-		}
+	enc, err := compile(rt.Elem(), seen)
+	if err != nil {
+		return nil, err
 	}
 
-	return func(ctx *Ctx, b []byte, rv reflect.Value) ([]byte, error) {
+	recursiveEnc.enc = func(ctx *Ctx, b []byte, rv reflect.Value) ([]byte, error) {
 		b = appendArrayBegin(b, i64)
 
 		var err error // create a new error value, so shadow compiler's error
@@ -35,5 +32,7 @@ func compileArray(rt reflect.Type) (encoder, error) {
 		}
 
 		return append(b, '}'), nil
-	}, nil
+	}
+
+	return recursiveEnc.Encode, nil
 }
diff --git a/internal/encoder/compile.go b/internal/encoder/compile.go
index 39f32d6..c5030c2 100644
--- a/internal/encoder/compile.go
+++ b/internal/encoder/compile.go
@@ -36,7 +36,7 @@ func compile(rt reflect.Type, seen compileSeenMap) (encoder, error) {
 	case reflect.Struct:
 		return compileStruct(rt, seen)
 	case reflect.Array:
-		return compileArray(rt)
+		return compileArray(rt, seen)
 	case reflect.Slice:
 		return compileSlice(rt, seen)
 	case reflect.Map:
diff --git a/internal/encoder/ptr.go b/internal/encoder/ptr.go
index 1520918..d0192c8 100644
--- a/internal/encoder/ptr.go
+++ b/internal/encoder/ptr.go
@@ -29,6 +29,9 @@ func compilePtr(rt reflect.Type, seen compileSeenMap) (encoder, error) {
 	case reflect.Struct:
 		enc, err := compileStruct(rt.Elem(), seen)
 		return checkStructRecursiveEncoder(enc), err
+	case reflect.Array:
+		enc, err := compile(rt.Elem(), seen)
+		return checkStructRecursiveEncoder(enc), err
 	}
 
 	enc, err := compile(rt.Elem(), seen)
diff --git a/internal/encoder/struct.go b/internal/encoder/struct.go
index eae7c17..77dbf50 100644
--- a/internal/encoder/struct.go
+++ b/internal/encoder/struct.go
@@ -147,7 +147,7 @@ func compileStructFieldsEncoders(rt reflect.Type, seen compileSeenMap) ([]struct
 				fieldEncoder, err = compile(field.Type.Elem(), seen)
 				if err == nil {
 					switch field.Type.Elem().Kind() {
-					case reflect.Struct, reflect.Interface:
+					case reflect.Struct, reflect.Array, reflect.Interface:
 						fieldEncoder = checkStructRecursiveEncoder(fieldEncoder)
 						isPtrField = false
 					}
-- 
2.43.0


From 3e5a0270f621f5e0e0a7921a6ec476786c1c4424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:25 +0000
Subject: [PATCH 14/15] fix: float32 is rounded twice when decoding,
 7.038531e-26 decodes to its neighbour

---
 internal/decoder/float.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/decoder/float.go b/internal/decoder/float.go
index 27a6a12..b44c74d 100644
--- a/internal/decoder/float.go
+++ b/internal/decoder/float.go
@@ -60,7 +60,8 @@ func (d *floatDecoder) processBytes(bytes []byte, cursor int64, rv reflect.Value
 	case "NAN":
 		f64 = math.NaN()
 	default:
-		f64, err = strconv.ParseFloat(unsafeStr(bytes), 64)
+		// parse float32 as float32, rounding it twice may give its neighbour
+		f64, err = strconv.ParseFloat(unsafeStr(bytes), rv.Type().Bits())
 	}
 	if err != nil {
 		return 0, errors.ErrSyntax(err.Error(), cursor)
-- 
2.43.0


From 43e7c0f1487459dc472e7d8d5341842aa76d217f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:31 +0000
Subject: [PATCH 15/15] fix: accept null for maps, slices, arrays and structs
 at the deepest level

---
 internal/decoder/array.go  | 2 +-
 internal/decoder/map.go    | 2 +-
 internal/decoder/slice.go  | 2 +-
 internal/decoder/struct.go | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/decoder/array.go b/internal/decoder/array.go
index f4047ba..76acfdf 100644
--- a/internal/decoder/array.go
+++ b/internal/decoder/array.go
@@ -35,7 +35,7 @@ func (d *arrayDecoder) Decode(ctx *RuntimeContext, cursor, depth int64, rv refle
 		return 0, errors.ErrUnexpectedEnd("array", cursor)
 	}
 	depth++
-	if depth > maxDecodeNestingDepth {
+	if depth > maxDecodeNestingDepth && buf[cursor] != 'N' { // null is not a nested container
 		return 0, errors.ErrExceededMaxDepth(buf[cursor], cursor)
 	}
 
diff --git a/internal/decoder/map.go b/internal/decoder/map.go
index f2b8814..ce9c3cc 100644
--- a/internal/decoder/map.go
+++ b/internal/decoder/map.go
@@ -34,7 +34,7 @@ func (d *mapDecoder) Decode(ctx *RuntimeContext, cursor, depth int64, rv reflect
 		return 0, errors.ErrUnexpectedEnd("map", cursor)
 	}
 	depth++
-	if depth > maxDecodeNestingDepth {
+	if depth > maxDecodeNestingDepth && buf[cursor] != 'N' { // null is not a nested container
 		return 0, errors.ErrExceededMaxDepth(buf[cursor], cursor)
 	}
 
diff --git a/internal/decoder/slice.go b/internal/decoder/slice.go
index 76d901d..69b00fd 100644
--- a/internal/decoder/slice.go
+++ b/internal/decoder/slice.go
@@ -64,7 +64,7 @@ func (d *sliceDecoder) Decode(ctx *RuntimeContext, cursor, depth int64, rv refle
 		return 0, errors.ErrUnexpectedEnd("slice", cursor)
 	}
 	depth++
-	if depth > maxDecodeNestingDepth {
+	if depth > maxDecodeNestingDepth && buf[cursor] != 'N' { // null is not a nested container
 		return 0, errors.ErrExceededMaxDepth(buf[cursor], cursor)
 	}
 
diff --git a/internal/decoder/struct.go b/internal/decoder/struct.go
index 3eecfea..e7495d4 100644
--- a/internal/decoder/struct.go
+++ b/internal/decoder/struct.go
@@ -52,7 +52,7 @@ func (d *structDecoder) Decode(ctx *RuntimeContext, cursor, depth int64, rv refl
 		return 0, errors.ErrUnexpectedEnd("object", cursor)
 	}
 	depth++
-	if depth > maxDecodeNestingDepth {
+	if depth > maxDecodeNestingDepth && buf[cursor] != 'N' { // null is not a nested container
 		return 0, errors.ErrExceededMaxDepth(buf[cursor], cursor)
 	}
 	switch buf[cursor] {
-- 
2.43.0

