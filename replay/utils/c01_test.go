package utils

import "testing"

func TestReplayC01(t *testing.T) {
	s := vNewSearch(t)
	one := func(in string) {
		for _, uni := range []bool{false, true} {
			var out string
			var n int
			if p := vPanics(func() {
				if uni {
					out, n = UrlDecodeUni(in)
				} else {
					out, n = UrlDecode(in)
				}
			}); p != "" {
				s.Fail("decoding %q (uni %v): %s", in, uni, p)
			}
			if w := SpecDecode(in, 0, uni); out != w {
				s.Fail("decoding %q (uni %v) gives %q, the scan gives %q", in, uni, out, w)
			}
			if w := SpecErrs(in, 0, uni); n != w {
				s.Fail("decoding %q (uni %v) reports %d errors, there are %d", in, uni, n, w)
			}
		}
	}
	for _, c := range s.Corpus() {
		one(c)
	}
	for i := 0; i < 65536; i++ {
		const h = "0123456789abcdefABCDEF"
		one("%" + string([]byte{byte(i), byte(i >> 8)}))
		one("%u" + string([]byte{h[i&15], h[i>>4&15], h[i>>8&15], h[i>>12&15]}))
		one("x%U" + string([]byte{h[(i&15)%6+16], h[i>>4&15], h[(i>>8&15)%6+16], h[i>>12&15]}) + "y")
	}
	for s.More(20000) {
		if s.R.Intn(4) == 0 {
			one(s.Bytes(20))
		} else {
			one(s.Pieces(10, "%", "u", "U", "+", "0", "4", "1", "f", "F", "ff", "FF", "a", "D8", "g", "\x00", "\xff", " ", "%41", "%u", "%zz", "%%"))
		}
	}
}
