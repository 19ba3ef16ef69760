#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property texts are kept here)."""
import json, os
D='internal/decoder/'; E='internal/encoder/'
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                   state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],
                   observe_at=observe or ["phpserialize.Unmarshal"],hook_needed=None)))

p("C01","Unmarshal never panics, hangs or crashes on any input",
 "For every byte string and every destination (any Go type, also nil, non-pointers and nil pointers), Unmarshal returns normally with nil or an error: it never panics, never loops forever and never exhausts the stack. (Running out of memory because the input names a huge but representable slice index is the documented exception.)",
 ["inputs","configurations"],"all byte strings x all destination types",
 "Tests run a few hundred literals and fuzz seeds; the failing inputs are specific malformed or truncated prefixes, huge lengths, odd key kinds at particular nesting positions.",
 ["unmarshal.go",D+"context.go",D+"interface.go",D+"map.go",D+"slice.go",D+"array.go",D+"struct.go",D+"compile.go"],
 [("hasByte/hasBytes bounds guards",D+"context.go"),("validateValue",'unmarshal.go'),("invalidDecoder for unsupported kinds",D+"invalid.go")])
p("C02","Unmarshal accepts only complete, well-formed input",
 "If Unmarshal returns nil, the whole input is exactly one well-formed PHP-serialized value: every tag, separator, digit run, quote, terminator and closing brace is present, every string and class-name length equals the bytes actually quoted, and nothing follows the value. This also holds for the parts a destination does not store (unknown struct fields, surplus array elements).",
 ["inputs","configurations"],"all byte strings x destination types",
 "Rejection tests list a few dozen bad literals; a missing check shows only for a specific wrong byte at a specific place.",
 ["unmarshal.go",D+"context.go",D+"struct.go",D+"map.go",D+"slice.go",D+"array.go",D+"bool.go",D+"int.go"],
 [("validateEndBuf","unmarshal.go"),("readString/readLength/readIntegerBytes/readBool",D+"context.go"),("skipValue for unstored parts",D+"context.go")])
p("C03","Canonical PHP values decode to exactly what they denote",
 "Every value as PHP's serialize() emits it (null, bool, int, float, string with arbitrary bytes, arrays and objects, nested) decodes without error into a Go destination of matching shape, and the destination then equals the denoted value.",
 ["inputs"],"all canonical serializations within the bounds x matching destination types",
 "Tests decode fixed literals; lengths, digit counts, key and payload bytes (quotes, braces, NULs inside strings) are sampled at a handful of points.",
 [D+"context.go",D+"string.go",D+"bytes.go",D+"map.go",D+"slice.go",D+"struct.go",D+"ptr.go"],
 [("length-prefixed readString",D+"context.go"),("type-directed decoders",D+"compile.go")])
p("C04","Integer decoding is exact: in range or an error",
 "For every decimal integer text and every integer destination kind, Unmarshal stores exactly the number written when the destination kind can represent it and otherwise returns an error leaving the destination unchanged; it never wraps, truncates or saturates. The same holds for integers quoted as strings under the ',string' tag, for map keys and for integers decoded into interface values.",
 ["inputs","configurations"],"all digit strings (any length, sign, leading zeros) x all signed/unsigned kinds",
 "Tests probe only a few boundary literals for int64, int8 and uint8; the other widths, digit counts and the quoted and key positions are not enumerated.",
 [D+"int.go",D+"uint.go",D+"wrapped_string.go",D+"map.go"],
 [("parseInt64 with limit",D+"int.go"),("OverflowInt/OverflowUint",D+"int.go"),("strconv.ParseUint",D+"uint.go")])
p("C05","Interface destinations get the documented dynamic types",
 "Decoding into an empty interface yields nil, bool, int64, float64 or string for scalars, map[any]any (keys int64 or string only) for a PHP array and map[string]any for a PHP object, recursively, with exactly the entries of the input.",
 ["inputs"],"all inputs decoded into `any`, `[]any`, `map[any]any`, `map[string]any`, struct fields of type any",
 "Only a few fixed documents are decoded into any; key kinds and nesting positions vary without bound.",
 [D+"interface.go",D+"map.go",D+"compile.go"],
 [("decodeEmptyInterface",D+"interface.go"),("mapKeyDecoder",D+"interface.go")])
p("C06","Struct decoding matches keys to fields by name, nothing else",
 "Decoding an array or object into a struct assigns each entry whose key equals a field's name (tag name, else Go name) to that field, in whatever order entries come; entries with other keys are skipped whatever their value is and do not disturb later entries; fields without an entry, fields tagged '-' and unexported fields keep their previous value.",
 ["inputs","configurations"],"all entry orders, keys and skipped values within the bounds",
 "Tests use entries in declaration order and two or three skipped shapes; the interplay of skipped values with following fields is unbounded.",
 [D+"struct.go",D+"compile.go",D+"context.go","internal/runtime/struct_field.go"],
 [("fieldMap lookup",D+"struct.go"),("skipValue",D+"context.go"),("IsIgnoredStructField","internal/runtime/struct_field.go")])
p("C07","Slices and arrays place elements by their PHP index",
 "Decoding a PHP array into a slice or fixed-size array stores each element at its own index, whatever the order or gaps: a slice ends up one longer than the largest index with zero values in gaps and old contents discarded; an array drops indexes beyond its length and zeroes unmentioned elements; negative or non-integer keys are errors.",
 ["inputs"],"all index sequences within the bounds x prior destination contents",
 "Tests cover sequential indexes and two gap cases; permutations, repeats and reused destinations are not covered.",
 [D+"slice.go",D+"array.go",D+"int.go"],
 [("grow-and-copy on index",D+"slice.go"),("rv.SetZero before filling",D+"array.go"),("readInt",D+"int.go")])
p("C08","Map decoding stores exactly the given entries",
 "Decoding into a map leaves every entry of the input in the map under its decoded key (the last one wins for repeated keys), allocates the map when nil, keeps unrelated entries of a non-nil map, and adds nothing else.",
 ["inputs"],"all entry sequences within the bounds x prior map contents x key kinds",
 "Tests decode a few fixed documents into fresh maps.",
 [D+"map.go",D+"compile.go"],
 [("SetMapIndex per entry",D+"map.go"),("MakeMapWithSize when nil",D+"map.go")])
p("C09","PHP null clears nilable destinations and leaves others alone",
 "Decoding null succeeds for every supported destination: pointers, maps, slices other than byte slices, and interfaces become nil; booleans, numbers, strings, structs and fixed-size arrays keep their previous value. It does so in every position (top level, field, element, map value).",
 ["inputs","configurations"],"all destination types x prior values x positions",
 "Tests check only that no error is returned for fresh destinations.",
 [D+"ptr.go",D+"map.go",D+"slice.go",D+"interface.go",D+"int.go",D+"string.go"],
 [("'N' case of every decoder",D)])
p("C10","Marshal output is exactly the canonical PHP encoding",
 "For every supported value Marshal emits precisely the PHP serialization: decimal integers, byte-counted strings with raw payload, shortest round-trip floats, element counts equal to the elements written, sequential integer keys for slices and arrays, nil pointers, interfaces, maps and slices as N; (byte slices are PHP strings, a nil one the empty string), each map entry once.",
 ["inputs","configurations"],"all values of the supported types within the bounds",
 "Tests compare fixed values; digit-count and length boundaries (e.g. minimum integers, 10/100-byte strings, buffer growth) and payload bytes are sampled.",
 [E+"int.go",E+"uint.go",E+"string.go",E+"bytes.go",E+"float.go",E+"slice.go",E+"array.go",E+"map.go",E+"common.go"],
 [("appendIntBytes/appendPhpStringVariable",E),("appendArrayBegin",E+"common.go")],["phpserialize.Marshal"])
p("C11","Unmarshal inverts Marshal",
 "For every value of a type supported in both directions, Unmarshal(Marshal(v)) into a fresh destination of the same type succeeds and yields a value equal to v (a nil pointer, map or slice comes back nil; byte slices may come back empty instead of nil).",
 ["inputs","configurations"],"all values within the bounds x types (scalars, pointers, slices, arrays, maps, structs, tags, nesting)",
 "No test round-trips; encoder and decoder are tested separately on fixed literals.",
 ["marshal.go","unmarshal.go",E,D],
 [("encoder and decoder agree on one format",E+" / "+D)],["phpserialize.Marshal","phpserialize.Unmarshal"])
p("C12","Struct encoding honours names, '-', omitempty and field order",
 "A struct is encoded as an array with one entry per exported, non-'-' field in declaration order, keyed by tag name or Go name; an omitempty field is left out exactly when it holds its type's zero value; the count equals the entries written. This holds for structs in any position and for pointer fields (nil pointers are written as N; unless omitted).",
 ["inputs","configurations"],"all field values and omission patterns within the bounds",
 "Tests check a few patterns of zero and non-zero fields.",
 [E+"struct.go",E+"buffer.go","internal/runtime/struct_field.go"],
 [("writtenField count and nested buffer",E+"struct.go"),("StructTagFromField","internal/runtime/struct_field.go")],["phpserialize.Marshal"])
p("C13","The ',string' tag quotes scalars losslessly in both directions",
 "A bool, integer, float or string field (or pointer to one) tagged ',string' is marshalled as a PHP string holding its usual text with the correct byte length, and Unmarshal of that text restores the same value; a quoted text that is not a valid literal of the field's kind, or is out of its range, is an error.",
 ["inputs","configurations"],"all scalar kinds x all values; all quoted texts within the bounds",
 "Tests use a few small values; digit-count boundaries (sign, powers of ten, minimum values) and invalid texts are sampled.",
 [E+"int_as_string.go",E+"uint_at_string.go",E+"bool_as_string.go",E+"float.go",D+"wrapped_string.go"],
 [("iterativeDigitsCount/uintDigitsCount",E),("wrappedStringDecoder",D+"wrapped_string.go")],["phpserialize.Marshal","phpserialize.Unmarshal"])
p("C14","Custom Marshalers are used verbatim wherever they occur",
 "A value whose type implements Marshaler is encoded as exactly the bytes its MarshalPHP returned, wherever it occurs (top level, field, element, map value, behind pointers or interfaces); nil pointers and nil interfaces encode as N; without calling it; an error from MarshalPHP makes Marshal return that error and no bytes.",
 ["inputs","configurations"],"all returned byte strings x positions x receiver kinds",
 "Tests cover one value-receiver struct at top level and in a field.",
 [E+"marshal_php.go",E+"compile.go",E+"interface.go",E+"struct.go",E+"ptr.go"],
 [("rt.Implements(marshalerType)",E+"compile.go")],["phpserialize.Marshal"])
p("C15","Custom Unmarshalers receive exactly their value's bytes",
 "A destination whose type implements Unmarshaler is handed exactly the raw bytes of the one serialized value at its position (null sets the zero value without calling it), decoding continues right behind that value, and an error it returns is returned by Unmarshal; malformed values are rejected without calling it.",
 ["inputs","configurations"],"all value shapes within the bounds x positions",
 "Tests cover five fixed raw values and one struct field.",
 [D+"unmarshal_php.go",D+"context.go",D+"interface.go"],
 [("skipValue delimits the value",D+"context.go"),("unmarshalPHPDecoder",D+"unmarshal_php.go")])
p("C16","Marshal rejects cyclic values and only those",
 "Marshal of a value that contains itself (through pointers, maps, slices, structs or interfaces, at any cycle length) returns an error in bounded time instead of hanging or overflowing the stack; a value without a cycle is never reported as recursive, however deep it is and however often it shares sub-values.",
 ["inputs"],"all object graphs within the bounds",
 "Tests build five one-step cycles and no shared or deep acyclic graph.",
 [E+"ptr.go",E+"interface.go",E+"context.go",E+"map_reflect.go",E+"slice_reflect.go"],
 [("Seen set / StackDepth tracking",E+"ptr.go"),("reflectRecursiveValue",E+"interface.go")],["phpserialize.Marshal"])
p("C17","Nesting depth is limited uniformly and exactly",
 "Input nested more than 10000 containers deep is rejected with an error for every kind of destination and also inside skipped or raw (Unmarshaler) parts, and nesting up to that depth is accepted; neighbouring (non-nested) containers never count against the limit.",
 ["inputs"],"all nestings of arrays/objects around the limit x destination kinds",
 "Tests call single decoders with a depth argument at the limit; no document near the limit is decoded and siblings are never counted.",
 [D+"context.go",D+"map.go",D+"slice.go",D+"array.go",D+"struct.go",D+"type.go"],
 [("maxDecodeNestingDepth checks",D+"type.go")])
p("C18","Results share no memory with inputs, pools or each other",
 "Unmarshal never modifies its input, and after it returns, changing the input (or appending to / changing one decoded byte slice) changes no decoded value; the slice returned by Marshal is never modified by later calls and changing it affects no later call.",
 ["inputs","histories"],"all inputs within the bounds x follow-up writes and calls",
 "Tests never mutate an input or result and look at another value afterwards.",
 ["unmarshal.go",D+"bytes.go",D+"unmarshal_php.go",E+"marshal.go",E+"buffer.go",E+"context.go"],
 [("src copy","unmarshal.go"),("dst copy",E+"marshal.go"),("pooled buffers",E+"buffer.go")],["phpserialize.Marshal","phpserialize.Unmarshal"])
p("C19","Each call's result depends only on its arguments",
 "The result of Marshal or Unmarshal does not depend on earlier calls: after any sequence of successful and failing calls with any types, a call returns the same bytes, value and error-or-not as in a fresh process.",
 ["histories"],"all call sequences within the bounds (types, values, failures)",
 "Tests never compare a call after failures or other types with a first call; state hides in pools and compile caches.",
 [E+"context.go",E+"buffer.go",E+"compile_cache.go",D+"compile.go",D+"context.go"],
 [("sync.Pool contexts and buffers",E+"context.go"),("type-keyed caches",E+"compile_cache.go")],["phpserialize.Marshal","phpserialize.Unmarshal"],
 [("cachedEncoderMap / cachedDecoderMap","compiled codecs per type",E+"compile_cache.go, "+D+"compile.go"),("ctxPool, bufferPool, runtimeContextPool","recycled scratch state",E+"context.go")])
p("C20","Concurrent calls are race-free and independent",
 "Marshal and Unmarshal may be called concurrently from several goroutines on unshared values: under every interleaving there is no data race and every call returns what it would return alone.",
 ["schedules"],"all interleavings of two concurrent calls at synchronization points within the bounds",
 "The suite has no concurrent test of a first-use (uncached) type and cannot enumerate schedules.",
 [E+"compile_cache.go",E+"context.go",E+"buffer.go",D+"compile.go",D+"context.go"],
 [("copy-on-write atomic caches",E+"compile_cache.go"),("per-call contexts from pools",E+"context.go")],["phpserialize.Marshal","phpserialize.Unmarshal"])
p("C21","Encoding does not depend on pointers or interfaces around a value",
 "A value encodes to the same bytes whether it is passed directly, through a non-nil pointer, or held in an interface (top level, element, field or map value); a nil pointer, interface, map or slice (except a byte slice, which is a string) encodes as N; in every position.",
 ["inputs","configurations"],"all values within the bounds x wrapping positions",
 "Tests wrap a fixed list of values once; the reflect-based and the compiled encoders are separate code paths.",
 [E+"interface.go",E+"map_reflect.go",E+"slice_reflect.go",E+"struct_reflect.go",E+"ptr.go"],
 [("reflectInterfaceValue",E+"interface.go"),("deRefNilEncoder",E+"ptr.go")],["phpserialize.Marshal"])
p("C22","Recursive Go types work in both directions",
 "Types that refer to themselves through pointers, slices, maps, arrays or structs can be passed to Marshal and Unmarshal; compiling them terminates, and finite values of them encode and decode like values of non-recursive types.",
 ["configurations","inputs"],"all recursive type shapes in the catalogue x finite values within the bounds",
 "Tests use one recursive struct in the encoder and none in the decoder.",
 [E+"compile.go",E+"struct.go",E+"array.go",E+"map.go",E+"slice.go",D+"compile.go"],
 [("compileSeenMap",E+"struct.go"),("structTypeToDecoder",D+"compile.go")],["phpserialize.Marshal","phpserialize.Unmarshal"])
p("C23","Declared counts do not drive allocation",
 "The memory Unmarshal allocates up front for a container is bounded by the size of the input, not by the element count the input merely declares.",
 ["inputs"],"all declared counts x destination containers",
 "No test measures allocation against a declared count.",
 [D+"slice.go",D+"map.go"],[("capacity hint",D+"slice.go"),("MakeMapWithSize hint",D+"map.go")])
p("C24","Type mismatches are errors, never silent conversions",
 "A well-formed value whose PHP type does not fit the destination (for example a string for an int, an int for a string or bool, a float for an int, a scalar for a container, an object for a slice) makes Unmarshal return an error, in every position (also as a map key: an integer key for a string map or a struct, a string key for an integer map); unsupported destination types and duplicate field names are errors too (an unsupported map key type at the latest when an entry is decoded).",
 ["inputs","configurations"],"all (value type, destination type) pairs x positions x payloads within the bounds",
 "Tests list about fifteen mismatching pairs at top level.",
 [D+"bool.go",D+"int.go",D+"float.go",D+"string.go",D+"slice.go",D+"array.go",D+"map.go",D+"struct.go",D+"invalid.go"],
 [("leading tag switch of every decoder",D)])
p("C25","Marshal fails cleanly on unsupported values",
 "Marshal of a value that contains something unsupported (channel, function, complex number, map with a non-integer non-string key, ...) at any depth, also behind interfaces, returns an error and no bytes, without panicking.",
 ["inputs","configurations"],"all unsupported kinds x positions",
 "Tests list five unsupported values at depth at most one.",
 [E+"compile.go",E+"interface.go",E+"map.go",E+"map_reflect.go",E+"marshal.go"],
 [("unsupported type errors",E+"compile.go"),("UnsupportedInterfaceTypeError",E+"interface.go")],["phpserialize.Marshal"])
p("C26","Floats keep their exact value",
 "Every finite float32/float64 is encoded so that decoding restores the identical value (sign of zero included); infinities and NaN use PHP's INF, -INF and NAN both ways; a float text out of the destination's range or not a number is an error.",
 ["inputs"],"all float bit patterns; all float texts within the bounds",
 "Tests encode about ten floats.",
 [E+"float.go",D+"float.go"],
 [("AppendFloat shortest form",E+"float.go"),("ParseFloat + OverflowFloat",D+"float.go")],["phpserialize.Marshal","phpserialize.Unmarshal"])
p("C27","PHP objects decode like arrays, whatever the class name",
 "Decoding an object into a map, struct or interface gives the entries a PHP array with the same body would give; the class name may be any byte string of the declared length and never influences the result.",
 ["inputs"],"all class names and bodies within the bounds x destinations",
 "Tests use stdClass only.",
 [D+"context.go",D+"map.go",D+"struct.go",D+"interface.go"],
 [("skipClassName",D+"context.go")])
p("C28","Arguments are only read and may be shared",
 "Marshal never writes to the value it is given or to any memory reachable from it (spare capacity of slices and bytes returned by a MarshalPHP included), and Unmarshal never writes to its input or behind it, on success or failure; so the same value may be marshalled, and the same input unmarshalled, by several goroutines at once without a data race, each with the result it would have alone.",
 ["inputs","schedules"],"all values and inputs within the bounds x two concurrent calls sharing them",
 "No test looks at an argument after a call, at memory behind a slice, or shares one between goroutines.",
 ["unmarshal.go",E+"bytes.go",E+"marshal_php.go",E+"marshal.go",E+"struct.go",E+"interface.go"],
 [("src copy","unmarshal.go"),("append only to the call's own buffer",E)],["phpserialize.Marshal","phpserialize.Unmarshal"])
p("C29","Decoding into a used destination leaves replaced memory alone",
 "Unmarshal into a destination that already holds data keeps and writes through non-nil pointers in struct fields and keeps non-nil maps (entries are added or replaced); everything else it replaces: decoded slices, byte slices, interface values, map entries and array elements get new memory, so that whatever else refers to the old backing arrays, old interface contents, old map values or old array elements never sees a change, on success or failure.",
 ["inputs","histories"],"all destination types x prior contents within the bounds",
 "Tests decode into fresh variables; none keeps an alias of old contents.",
 [D+"slice.go",D+"array.go",D+"map.go",D+"ptr.go",D+"bytes.go",D+"interface.go"],
 [("MakeSlice per decoded slice",D+"slice.go"),("reflect.New per map value",D+"map.go"),("pointer kept when non-nil",D+"ptr.go"),("SetZero before filling",D+"array.go")])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
