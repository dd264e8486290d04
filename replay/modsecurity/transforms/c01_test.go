package transforms

import (
	"testing"

	"github.com/senghoo/modsecurity-go/utils"
)

func TestReplayC01(t *testing.T) {
	s := vNewSearch(t)
	a, b := NewTransUrlDecode(), NewTransUrlDecodeUni()
	one := func(in string) {
		var x, y string
		if p := vPanics(func() { x, y = a.Trans(nil, in), b.Trans(nil, in) }); p != "" {
			s.Fail("transforming %q: %s", in, p)
		}
		if w := utils.SpecDecode(in, 0, false); x != w {
			s.Fail("urlDecode of %q gives %q, not %q", in, x, w)
		}
		if w := utils.SpecDecode(in, 0, true); y != w {
			s.Fail("urlDecodeUni of %q gives %q, not %q", in, y, w)
		}
	}
	for _, c := range s.Corpus() {
		one(c)
	}
	for s.More(20000) {
		one(s.Pieces(10, "%", "u", "U", "+", "0", "4", "1", "f", "F", "ff", "a", "g", "\x00", "\xff", "%41", "%u0041", "%uFF21"))
	}
}
