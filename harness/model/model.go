// Package model holds simple Go models of assembly or heavily optimised
// library routines; the executor interprets these instead.
package model

func IndexByte(b []byte, c byte) int {
	for i := 0; i < len(b); i++ {
		if b[i] == c {
			return i
		}
	}
	return -1
}

func IndexByteString(s string, c byte) int {
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			return i
		}
	}
	return -1
}

func LastIndexByteString(s string, c byte) int {
	for i := len(s) - 1; i >= 0; i-- {
		if s[i] == c {
			return i
		}
	}
	return -1
}

func LastIndexByte(b []byte, c byte) int {
	for i := len(b) - 1; i >= 0; i-- {
		if b[i] == c {
			return i
		}
	}
	return -1
}

func Count(b []byte, c byte) int {
	n := 0
	for i := 0; i < len(b); i++ {
		if b[i] == c {
			n++
		}
	}
	return n
}

func CountString(s string, c byte) int {
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			n++
		}
	}
	return n
}

func IndexString(s, sub string) int {
	for i := 0; i+len(sub) <= len(s); i++ {
		if s[i:i+len(sub)] == sub {
			return i
		}
	}
	return -1
}

func IndexBytes(s, sub []byte) int { return IndexString(string(s), string(sub)) }

func StringsCount(s, sub string) int {
	if len(sub) == 0 {
		n := 0
		for range s {
			n++
		}
		return n + 1
	}
	n := 0
	for {
		i := IndexString(s, sub)
		if i < 0 {
			return n
		}
		n++
		s = s[i+len(sub):]
	}
}

// DecodeRune decodes the first rune of s (RFC 3629 rules as in unicode/utf8).
func DecodeRune(s string) (rune, int) {
	n := len(s)
	if n == 0 {
		return 0xFFFD, 0
	}
	c0 := s[0]
	if c0 < 0x80 {
		return rune(c0), 1
	}
	if c0 < 0xC2 || c0 > 0xF4 || n < 2 {
		return 0xFFFD, 1
	}
	c1 := s[1]
	lo, hi := byte(0x80), byte(0xBF)
	switch c0 {
	case 0xE0:
		lo = 0xA0
	case 0xED:
		hi = 0x9F
	case 0xF0:
		lo = 0x90
	case 0xF4:
		hi = 0x8F
	}
	if c1 < lo || c1 > hi {
		return 0xFFFD, 1
	}
	if c0 < 0xE0 {
		return rune(c0&0x1F)<<6 | rune(c1&0x3F), 2
	}
	if n < 3 || s[2] < 0x80 || s[2] > 0xBF {
		return 0xFFFD, 1
	}
	if c0 < 0xF0 {
		return rune(c0&0x0F)<<12 | rune(c1&0x3F)<<6 | rune(s[2]&0x3F), 3
	}
	if n < 4 || s[3] < 0x80 || s[3] > 0xBF {
		return 0xFFFD, 1
	}
	return rune(c0&0x07)<<18 | rune(c1&0x3F)<<12 | rune(s[2]&0x3F)<<6 | rune(s[3]&0x3F), 4
}

// RuneToString is string(r).
func RuneToString(r rune) string {
	if r < 0 || r > 0x10FFFF || (r >= 0xD800 && r <= 0xDFFF) {
		return "\uFFFD"
	}
	if r < 0x80 {
		return string([]byte{byte(r)})
	}
	if r < 0x800 {
		return string([]byte{0xC0 | byte(r>>6), 0x80 | byte(r)&0x3F})
	}
	if r < 0x10000 {
		return string([]byte{0xE0 | byte(r>>12), 0x80 | byte(r>>6)&0x3F, 0x80 | byte(r)&0x3F})
	}
	return string([]byte{0xF0 | byte(r>>18), 0x80 | byte(r>>12)&0x3F, 0x80 | byte(r>>6)&0x3F, 0x80 | byte(r)&0x3F})
}

// StringsMap is strings.Map.
func StringsMap(mapping func(rune) rune, s string) string {
	out := ""
	for _, c := range s {
		r := mapping(c)
		if r >= 0 {
			out += string(r)
		}
	}
	return out
}

func lower(c byte) byte {
	if c >= 'A' && c <= 'Z' {
		return c + 32
	}
	return c
}

func upper(c byte) byte {
	if c >= 'a' && c <= 'z' {
		return c - 32
	}
	return c
}

// NonASCII stands for text outside the modelled alphabet.
func nonASCII() { panic("verif model: case mapping of non-ASCII text") }

func ToLower(s string) string {
	b := make([]byte, len(s))
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			return unicodeLower(s)
		}
		b[i] = lower(s[i])
	}
	return string(b)
}

func ToUpper(s string) string {
	b := make([]byte, len(s))
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			return unicodeUpper(s)
		}
		b[i] = upper(s[i])
	}
	return string(b)
}

// intercepted: abandon the path as unsupported
func unicodeLower(s string) string { nonASCII(); return s }
func unicodeUpper(s string) string { nonASCII(); return s }

func EqualFold(a, b string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := 0; i < len(a); i++ {
		if a[i] >= 0x80 || b[i] >= 0x80 {
			nonASCII()
		}
		if lower(a[i]) != lower(b[i]) {
			return false
		}
	}
	return true
}

func isSpace(c byte) bool { return c == ' ' || (c >= 9 && c <= 13) }

// TrimSpace trims Unicode white space.
func TrimSpace(s string) string {
	for {
		n := spacePrefix(s)
		if n == 0 {
			break
		}
		s = s[n:]
	}
	for {
		n := spaceSuffix(s)
		if n == 0 {
			break
		}
		s = s[:len(s)-n]
	}
	return s
}

func spacePrefix(s string) int {
	if len(s) == 0 {
		return 0
	}
	if s[0] < 0x80 {
		if isSpace(s[0]) {
			return 1
		}
		return 0
	}
	return wideSpace(s, 0)
}

func spaceSuffix(s string) int {
	n := len(s)
	if n == 0 {
		return 0
	}
	if s[n-1] < 0x80 {
		if isSpace(s[n-1]) {
			return 1
		}
		return 0
	}
	if n >= 2 && wideSpace(s, n-2) == 2 {
		return 2
	}
	if n >= 3 && wideSpace(s, n-3) == 3 {
		return 3
	}
	return 0
}

// wideSpace is the length of the non-ASCII white space rune at i, or 0.
func wideSpace(s string, i int) int {
	if i+1 < len(s) && s[i] == 0xC2 && (s[i+1] == 0x85 || s[i+1] == 0xA0) {
		return 2
	}
	if i+2 >= len(s) {
		return 0
	}
	a, b, c := s[i], s[i+1], s[i+2]
	switch {
	case a == 0xE1 && b == 0x9A && c == 0x80,
		a == 0xE2 && b == 0x80 && (c >= 0x80 && c <= 0x8A || c == 0xA8 || c == 0xA9 || c == 0xAF),
		a == 0xE2 && b == 0x81 && c == 0x9F,
		a == 0xE3 && b == 0x80 && c == 0x80:
		return 3
	}
	return 0
}

// SortSlice is sort.Slice for short slices (insertion sort, as the library uses below 12 elements).
func SortSlice(x interface{}, less func(i, j int) bool) {
	n := Len(x)
	for i := 1; i < n; i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			Swap(x, j, j-1)
		}
	}
}

// Len and Swap are intercepted.
func Len(x interface{}) int        { return 0 }
func Swap(x interface{}, i, j int) {}
