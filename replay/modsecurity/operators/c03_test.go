package operators

import (
	"regexp"
	"strconv"
	"strings"
	"testing"

	"github.com/senghoo/modsecurity-go/modsecurity"
)

func TestReplayC03(t *testing.T) {
	s := vNewSearch(t)
	type tc struct {
		name string
		mk   func(string) (modsecurity.Operator, error)
		rel  func(v, a int64) bool
	}
	tcs := []tc{
		{"eq", NewOperatorEq, func(v, a int64) bool { return v == a }},
		{"ge", NewOperatorGe, func(v, a int64) bool { return v >= a }},
		{"gt", NewOperatorGt, func(v, a int64) bool { return v > a }},
		{"le", NewOperatorLe, func(v, a int64) bool { return v <= a }},
		{"lt", NewOperatorLt, func(v, a int64) bool { return v < a }},
	}
	nums := []string{"0", "-0", "1", "-1", "5", "+5", "05", "0x10", "1e3", "255", "256", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "9007199254740992", "9007199254740993", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "", " ", "x", "5x", "1_000", "1.0", "--1", " 7", "7\n", "\t-7 ", "\u00a05"}
	type key struct{ op, arg string }
	held := map[key]modsecurity.Operator{}
	one := func(arg string, vals []string) {
		a, bad := strconv.ParseInt(strings.TrimSpace(arg), 10, 64)
		for _, c := range tcs {
			op := held[key{c.name, arg}]
			if op == nil {
				var err error
				if p := vPanics(func() { op, err = c.mk(arg) }); p != "" {
					s.Fail("%s with argument %q: %s", c.name, arg, p)
				}
				if (err == nil) != (bad == nil) {
					s.Fail("%s with argument %q: error %v, but integer: %v", c.name, arg, err, bad == nil)
				}
				if err != nil {
					continue
				}
				held[key{c.name, arg}] = op
			}
			for _, v := range vals {
				n, e := strconv.ParseInt(strings.TrimSpace(v), 10, 64)
				if e != nil {
					n = 0
				}
				var got bool
				if p := vPanics(func() { got = op.Match(nil, v) }); p != "" {
					s.Fail("%s %q matching %q: %s", c.name, arg, v, p)
				}
				if got != c.rel(n, a) {
					s.Fail("%s %q matching %q gives %v", c.name, arg, v, got)
				}
			}
		}
	}
	for k := 0; k < 2; k++ {
		for _, a := range append(append([]string{}, nums...), s.Corpus()...) {
			one(a, append(append([]string{}, nums...), s.Corpus()...))
		}
	}
	res := []string{"", "a", "^a", "a$", "^ab*$", "(", "[", "a{2,1}", "(?i)A", "(?s)a.b", "(?m)^x$", "\\d+", "a|b", "\\x00", "é", "(?=x)", "[[:space:]]", "\xff", "^$", ".*", "^\\s", "\\s$"}
	strs := []string{"", "a", "A", "ab", "ba", "abbb", "xa\nb", "a\nx\nb", "12", "\x00", "é", "\xff", "xé", " a", "a ", "aaa"}
	rx := func(re string, vals []string) {
		m, bad := regexp.Compile(re)
		op, err := NewOperatorRx(re)
		if (err == nil) != (bad == nil) {
			s.Fail("rx with argument %q: error %v, but valid: %v", re, err, bad == nil)
		}
		if err != nil {
			return
		}
		for k := 0; k < 2; k++ {
			for _, v := range vals {
				var got bool
				if p := vPanics(func() { got = op.Match(nil, v) }); p != "" {
					s.Fail("rx %q matching %q: %s", re, v, p)
				}
				if got != m.MatchString(v) {
					s.Fail("rx %q matching %q gives %v", re, v, got)
				}
			}
		}
	}
	for _, re := range append(res, s.Corpus()...) {
		rx(re, append(strs, s.Corpus()...))
	}
	for s.More(3000) {
		one(s.Pick(nums...), []string{s.Pieces(5, "-", "+", " ", "\t", "0", "1", "9", "42", "x", "99999", "\u2003"), s.Pick(nums...)})
		rx(s.Pieces(5, "a", "b", "^", "$", ".", "*", "(", ")", "|", "[ab]", "\\", "(?i)", " "), []string{s.Pieces(5, "a", "b", "A", "\n", " ", "\xff"), s.Pick(strs...)})
	}
}
