package h

import (
	"strconv"

	"verif/harness/sym"
)

// ---- independent reference: building and recognising serialized text

// enc* build the canonical PHP text of a value.
func encInt(b []byte, v int64) []byte {
	b = append(b, "i:"...)
	b = strconv.AppendInt(b, v, 10)
	return append(b, ';')
}
func encUint(b []byte, v uint64) []byte {
	b = append(b, "i:"...)
	b = strconv.AppendUint(b, v, 10)
	return append(b, ';')
}
func encBool(b []byte, v bool) []byte {
	if v {
		return append(b, "b:1;"...)
	}
	return append(b, "b:0;"...)
}
func encStr(b []byte, s string) []byte {
	b = append(b, "s:"...)
	b = strconv.AppendInt(b, int64(len(s)), 10)
	b = append(b, ':', '"')
	b = append(b, s...)
	return append(b, '"', ';')
}
func encArr(b []byte, n int) []byte {
	b = append(b, "a:"...)
	b = strconv.AppendInt(b, int64(n), 10)
	return append(b, ":{"...)
}
func encObj(b []byte, class string, n int) []byte {
	b = append(b, "O:"...)
	b = strconv.AppendInt(b, int64(len(class)), 10)
	b = append(b, ':', '"')
	b = append(b, class...)
	b = append(b, '"', ':')
	b = strconv.AppendInt(b, int64(n), 10)
	return append(b, ":{"...)
}
func encFloat(b []byte, f float64) []byte {
	b = append(b, "d:"...)
	b = append(b, floatText(f, 64)...)
	return append(b, ';')
}

// floatText is the documented text of a finite or special float.
func floatText(f float64, bits int) []byte {
	if f != f {
		return []byte("NAN")
	}
	if f > 1.7976931348623157e308 {
		return []byte("INF")
	}
	if f < -1.7976931348623157e308 {
		return []byte("-INF")
	}
	a := f
	if a < 0 {
		a = -a
	}
	format := byte('f')
	if bits == 64 {
		if a != 0 {
			if a < 1e-6 {
				format = 'e'
			} else if a >= 1e21 {
				format = 'e'
			}
		}
	} else {
		g := float32(a)
		if g != 0 {
			if g < 1e-6 {
				format = 'e'
			} else if g >= 1e21 {
				format = 'e'
			}
		}
	}
	return strconv.AppendFloat(nil, f, format, -1, bits)
}

// doc builds text from parts.
func doc(parts ...string) []byte {
	var b []byte
	for _, p := range parts {
		b = append(b, p...)
	}
	return b
}

func isDigit(c byte) bool {
	return sym.And('0' <= c, c <= '9')
}

// digits reads a non-empty digit run; ok is false without one. Values above lim saturate.
func digits(b []byte, i int, lim int) (v, end int, ok bool) {
	j := i
	for j < len(b) && isDigit(b[j]) {
		v = v*10 + int(b[j]-'0')
		if v > lim {
			v = lim + 1
		}
		j++
	}
	return v, j, j > i
}

func at(b []byte, i int, c byte) bool { return i >= 0 && i < len(b) && b[i] == c }

// wf recognises one well-formed value at b[i:] and returns its end. It is lenient where the
// library is documented to be (element counts are not checked against the elements) and strict in
// everything else: tags, separators, digit runs, lengths, quotes, terminators, braces.
func wf(b []byte, i int) (int, bool) {
	if i >= len(b) {
		return i, false
	}
	switch b[i] {
	case 'N':
		return i + 2, at(b, i+1, ';')
	case 'b':
		return i + 4, at(b, i+1, ':') && (at(b, i+2, '0') || at(b, i+2, '1')) && at(b, i+3, ';')
	case 'i':
		if !at(b, i+1, ':') {
			return i, false
		}
		j := i + 2
		if at(b, j, '-') {
			j++
		}
		_, j, ok := digits(b, j, 1)
		return j + 1, ok && at(b, j, ';')
	case 'd':
		if !at(b, i+1, ':') {
			return i, false
		}
		j := i + 2
		for j < len(b) && b[j] != ';' {
			j++
		}
		return j + 1, j > i+2 && at(b, j, ';')
	case 's':
		j, ok := wfQuoted(b, i+1)
		return j + 1, ok && at(b, j, ';')
	case 'O':
		j, ok := wfQuoted(b, i+1)
		if !ok {
			return i, false
		}
		return wfBody(b, j)
	case 'a':
		return wfBody(b, i+1)
	}
	return i, false
}

// wfQuoted recognises :<n>:"<n bytes>" at b[i:].
func wfQuoted(b []byte, i int) (int, bool) {
	if !at(b, i, ':') {
		return i, false
	}
	n, j, ok := digits(b, i+1, len(b))
	if !ok || !at(b, j, ':') || !at(b, j+1, '"') {
		return i, false
	}
	j += 2 + n
	if j >= len(b) || b[j] != '"' {
		return i, false
	}
	return j + 1, true
}

// wfBody recognises :<n>:{ ... } at b[i:].
func wfBody(b []byte, i int) (int, bool) {
	if !at(b, i, ':') {
		return i, false
	}
	_, j, ok := digits(b, i+1, 1)
	if !ok || !at(b, j, ':') || !at(b, j+1, '{') {
		return i, false
	}
	j += 2
	for {
		if at(b, j, '}') {
			return j + 1, true
		}
		j, ok = wf(b, j)
		if !ok {
			return i, false
		}
		j, ok = wf(b, j)
		if !ok {
			return i, false
		}
	}
}

// wellFormed reports whether b is exactly one well-formed value.
func wellFormed(b []byte) bool {
	end, ok := wf(b, 0)
	return ok && end == len(b)
}

func same(a, b []byte) bool { return string(a) == string(b) }

// noErr asserts that err is nil.
func noErr(err error, msg string) { sym.Assert(err == nil, msg) }

// isErr asserts that err is not nil.
func isErr(err error, msg string) { sym.Assert(err != nil, msg) }

// pick chooses among values.
func pick[T any](name string, vs ...T) T { return vs[sym.Choose(name, len(vs))] }

// reps repeats s n times.
func reps(s string, n int) string {
	b := make([]byte, 0, len(s)*n)
	for i := 0; i < n; i++ {
		b = append(b, s...)
	}
	return string(b)
}

func itoa(n int) string { return strconv.Itoa(n) }

func strconvU(v uint64) []byte { return strconv.AppendUint(nil, v, 10) }
func strconvI(v int64) []byte  { return strconv.AppendInt(nil, v, 10) }
