package transforms

import (
	"strings"
	"testing"

	"github.com/senghoo/modsecurity-go/modsecurity"
)

func TestReplayC02(t *testing.T) {
	s := vNewSearch(t)
	type tc struct {
		name string
		mk   func() modsecurity.Trans
		spec func(string) string
	}
	tcs := []tc{
		{"removeNulls", NewTransRemoveNulls, func(x string) string { return SpecDrop(x, 0, 0) }},
		{"replaceNulls", NewTransReplaceNulls, func(x string) string { return SpecSwap(x, 0, 0, " ") }},
		{"removeWhitespace", NewTransRemoveWhitespace, func(x string) string { return SpecDrop(x, 0, ' ') }},
		{"compressWhitespace", NewTransCompressWhitespace, func(x string) string { return SpecSqueeze(x, 0, false) }},
		{"lowercase", NewTransLowerCase, strings.ToLower},
		{"none", NewTransNone, func(x string) string { return x }},
	}
	long := map[string]modsecurity.Trans{}
	for _, c := range tcs {
		long[c.name] = c.mk()
	}
	one := func(in string) {
		for _, c := range tcs {
			want := c.spec(in)
			for i, tr := range []modsecurity.Trans{c.mk(), long[c.name], long[c.name]} {
				var got string
				if p := vPanics(func() { got = tr.Trans(nil, in) }); p != "" {
					s.Fail("%s of %q: %s", c.name, in, p)
				}
				if got != want {
					s.Fail("%s of %q (fresh object: %v) gives %q, not %q", c.name, in, i == 0, got, want)
				}
			}
		}
	}
	for _, c := range s.Corpus() {
		one(c)
	}
	for i := 0; i < 65536; i++ {
		one(string([]byte{byte(i), byte(i >> 8)}))
	}
	for s.More(3000) {
		switch s.R.Intn(3) {
		case 0:
			one(s.Bytes(30))
		case 1:
			one(s.Pieces(200, " ", " ", "a", "\x00", "\xe9"))
		default:
			one(s.Pieces(12, " ", "  ", "\x00", "\t", "\n", "a", "Z", "é", "\xc3", "\xff", "\u0130", "\u2003", "\ufffd", "\xa0", "\x85", "Σ"))
		}
	}
}
