package utils

// What URL decoding means, independently of how it is done (used by the proof
// and, executed, by the replay).

func specHexVal(c byte) int {
	if '0' <= c && c <= '9' {
		return int(c) - '0'
	}
	if 'a' <= c && c <= 'f' {
		return int(c) - 'a' + 10
	}
	if 'A' <= c && c <= 'F' {
		return int(c) - 'A' + 10
	}
	return -1
}

// specUTF8 is the UTF-8 form of a code point 0..FFFF (FFFD for surrogates).
func specUTF8(r int) string {
	return string(rune(r))
}

func specU4(s string, i int) bool {
	return i+5 < len(s) && (s[i+1] == 'u' || s[i+1] == 'U') && specHexVal(s[i+2]) >= 0 && specHexVal(s[i+3]) >= 0 && specHexVal(s[i+4]) >= 0 && specHexVal(s[i+5]) >= 0
}

// specUni is what the six bytes %uXXXX at i stand for.
func specUni(s string, i int) string {
	hi := specHexVal(s[i+2])*16 + specHexVal(s[i+3])
	lo := specHexVal(s[i+4])*16 + specHexVal(s[i+5])
	if hi == 255 {
		return specUTF8(lo + 32)
	}
	return specUTF8(hi*256 + lo)
}

func specHex2(s string, i int) bool {
	return i+2 < len(s) && specHexVal(s[i+1]) >= 0 && specHexVal(s[i+2]) >= 0
}

// SpecDecode is the decoding of s from position i on.
func SpecDecode(s string, i int, uni bool) string {
	if i < 0 || i >= len(s) {
		return ""
	}
	if s[i] == '%' && specHex2(s, i) {
		b := []byte{byte(specHexVal(s[i+1])*16 + specHexVal(s[i+2]))}
		return string(b) + SpecDecode(s, i+3, uni)
	}
	if uni && s[i] == '%' && specU4(s, i) {
		return specUni(s, i) + SpecDecode(s, i+6, uni)
	}
	if s[i] == '+' {
		return " " + SpecDecode(s, i+1, uni)
	}
	return s[i:i+1] + SpecDecode(s, i+1, uni)
}

// SpecErrs counts the '%' of s[i:] that start no escape.
func SpecErrs(s string, i int, uni bool) int {
	if i < 0 || i >= len(s) {
		return 0
	}
	if s[i] == '%' && specHex2(s, i) {
		return SpecErrs(s, i+3, uni)
	}
	if uni && s[i] == '%' && specU4(s, i) {
		return SpecErrs(s, i+6, uni)
	}
	if s[i] == '%' {
		return 1 + SpecErrs(s, i+1, uni)
	}
	return SpecErrs(s, i+1, uni)
}

//@ pool the decoded prefix is what the scan gives (buffer)
//@ vars s string; uni bool; errCount int; res *bytes.Buffer; i int
//@ inv 0 <= i && i <= len(s)
//@ inv data(res) + SpecDecode(s, i, uni) == SpecDecode(s, 0, uni)
//@ inv errCount + SpecErrs(s, i, uni) == SpecErrs(s, 0, uni)
//@ dec len(s) - i

//@ pool the decoded prefix is what the scan gives (bytes)
//@ vars s string; uni bool; errCount int; res []byte; i int
//@ inv 0 <= i && i <= len(s)
//@ inv str(res) + SpecDecode(s, i, uni) == SpecDecode(s, 0, uni)
//@ inv errCount + SpecErrs(s, i, uni) == SpecErrs(s, 0, uni)
//@ dec len(s) - i

//@ func UrlDecode(s) (r, n)
//@ prop C01
//@ lemma
//@ ensures r == SpecDecode(s, 0, false)
//@ ensures n == SpecErrs(s, 0, false)
//@ modifies nothing

//@ func UrlDecodeUni(s) (r, n)
//@ prop C01
//@ lemma
//@ ensures r == SpecDecode(s, 0, true)
//@ ensures n == SpecErrs(s, 0, true)
//@ modifies nothing
