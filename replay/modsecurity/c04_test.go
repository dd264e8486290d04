package modsecurity

import (
	"fmt"
	"strings"
	"testing"
)

type v4Var struct {
	id    int
	vals  []string
	abort bool
	log   *[]string
}

func (v *v4Var) Name() string           { return "V" }
func (v *v4Var) Include(s string) error { return nil }
func (v *v4Var) Exclude(s string) error { return nil }
func (v *v4Var) Fetch(t *Transaction) []string {
	*v.log = append(*v.log, fmt.Sprint("fetch", v.id))
	if v.abort {
		t.AbortWithStatus(413)
	}
	return append([]string(nil), v.vals...)
}

type v4Trans struct{ suffix string }

func (v *v4Trans) Name() string                            { return "T" }
func (v *v4Trans) Trans(t *Transaction, s string) string {
	if v.suffix == "-" {
		return strings.TrimSuffix(s, "a")
	}
	return s + v.suffix
}

type v4Op struct {
	accept string
	log    *[]string
}

func (v *v4Op) Name() string { return "O" }
func (v *v4Op) Args() string { return "" }
func (v *v4Op) Match(t *Transaction, s string) bool {
	*v.log = append(*v.log, "match "+s)
	return strings.Contains(s, v.accept)
}

func TestReplayC04(t *testing.T) {
	s := vNewSearch(t)
	for s.More(20000) {
		e := NewEngine()
		tr := &Transaction{Engine: e, RuleSet: e.RuleSet, NetInfo: &NetInfo{}, Request: &Request{}, Response: &Response{}, Errors: &Errors{}}
		var log, want []string
		r := NewSecRule()
		r.Not = s.R.Intn(3) == 0
		nt := s.R.Intn(4)
		var ts []*v4Trans
		for i := 0; i < nt; i++ {
			x := &v4Trans{s.Pick("a", "b", "-", "")}
			ts = append(ts, x)
			r.AppendTrans(x)
		}
		desc := fmt.Sprintf("not=%v trans=", r.Not)
		for _, x := range ts {
			desc += fmt.Sprintf("%q,", x.suffix)
		}
		op := &v4Op{s.Pick("a", "b", "ba", "aab", "x", "", "bb", "q"), &log}
		r.SetOperator(op)
		desc += fmt.Sprintf(" operator=contains %q targets=", op.accept)
		abort, hit := false, false
		var vals []string
		for i, n := 0, s.R.Intn(4); i < n; i++ {
			v := &v4Var{id: i, log: &log, abort: s.R.Intn(8) == 0}
			for k := s.R.Intn(4); k > 0; k-- {
				v.vals = append(v.vals, s.Pick("a", "b", "", "ab", "x", "y"))
			}
			abort = abort || v.abort
			r.AppendVariables(v)
			vals = append(vals, v.vals...)
			desc += fmt.Sprintf("%q(abort=%v) ", v.vals, v.abort)
			want = append(want, fmt.Sprint("fetch", i))
		}
		if !abort {
			for _, v := range vals {
				for _, x := range ts {
					v = x.Trans(tr, v)
				}
				want = append(want, "match "+v)
				if strings.Contains(v, op.accept) != r.Not {
					hit = true
					break
				}
			}
		}
		var got bool
		if p := vPanics(func() { got = r.Match(tr) }); p != "" {
			s.Fail("%s: %s", desc, p)
		}
		if got != hit {
			s.Fail("%s: match = %v, want %v", desc, got, hit)
		}
		f, w := v4Only(log, "fetch"), v4Only(want, "fetch")
		if f != w {
			s.Fail("%s: targets read %s, want %s", desc, f, w)
		}
	}
}

func v4Only(l []string, p string) string {
	r := ""
	for _, x := range l {
		if strings.HasPrefix(x, p) {
			r += x + ";"
		}
	}
	return r
}
