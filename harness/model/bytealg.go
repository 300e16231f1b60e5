// Package model contains the models that the engine uses in place of library functions that are
// written in assembler or that depend on the operating system.
package model

//override internal/bytealg.IndexByteString
func IndexByteString(s string, c byte) int {
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			return i
		}
	}
	return -1
}

//override internal/bytealg.IndexByte
func IndexByte(s []byte, c byte) int {
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			return i
		}
	}
	return -1
}

//override internal/bytealg.CountString
func CountString(s string, c byte) int {
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			n++
		}
	}
	return n
}

//override internal/bytealg.Count
func Count(s []byte, c byte) int {
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			n++
		}
	}
	return n
}

//override internal/bytealg.Equal
func Equal(a, b []byte) bool { return string(a) == string(b) }

//override internal/bytealg.Compare
func Compare(a, b []byte) int { return CompareString(string(a), string(b)) }

//override internal/bytealg.CompareString
func CompareString(a, b string) int {
	if a < b {
		return -1
	}
	if a > b {
		return 1
	}
	return 0
}

//override internal/runtime/strings.Compare
func CompareString2(a, b string) int { return CompareString(a, b) }

//override internal/bytealg.IndexString
func IndexString(s, sub string) int { return StringsIndex(s, sub) }

//override internal/stringslite.Index
func StringsIndex(s, sub string) int {
	n := len(sub)
	for i := 0; i+n <= len(s); i++ {
		if s[i:i+n] == sub {
			return i
		}
	}
	return -1
}

//override bytes.Index
func BytesIndex(s, sub []byte) int { return StringsIndex(string(s), string(sub)) }

//override strings.Compare
func StringsCompare(a, b string) int { return CompareString(a, b) }
