package modsecurity

import (
	"fmt"
	"testing"
)

type v5Var struct {
	name string
	vals []string
	log  *[]string
}

func (v *v5Var) Name() string           { return "V" }
func (v *v5Var) Include(s string) error { return nil }
func (v *v5Var) Exclude(s string) error { return nil }
func (v *v5Var) Fetch(t *Transaction) []string {
	*v.log = append(*v.log, "try "+v.name)
	return v.vals
}

type v5Op struct{}

func (v5Op) Name() string                        { return "O" }
func (v5Op) Args() string                        { return "" }
func (v5Op) Match(t *Transaction, s string) bool { return s == "yes" }

type v5Act struct {
	name  string
	group int
	log   *[]string
}

func (v *v5Act) Name() string      { return v.name }
func (v *v5Act) Value() string     { return "" }
func (v *v5Act) ActionGroup() int  { return v.group }
func (v *v5Act) Do(t *Transaction) { *v.log = append(*v.log, "run "+v.name) }

func TestReplayC05(t *testing.T) {
	s := vNewSearch(t)
	for s.More(20000) {
		e := NewEngine()
		e.Enable([]int{StatusOn, StatusOn, StatusDect}[s.R.Intn(3)])
		tr := &Transaction{Engine: e, RuleSet: e.RuleSet, NetInfo: &NetInfo{}, Request: &Request{}, Response: &Response{}, Errors: &Errors{}}
		var log, tried, runs []string
		desc := fmt.Sprintf("detection only=%v", e.DetectionOnly)
		all := true
		id := 0
		mk := func(name string) *SecRule {
			r := NewSecRule()
			r.SetOperator(v5Op{})
			v := &v5Var{name: name, vals: []string{"no"}, log: &log}
			hit := s.R.Intn(6) > 0
			if hit {
				v.vals = append(v.vals, "yes")
			}
			r.AppendVariables(v)
			desc += fmt.Sprintf("; rule %s matches=%v actions", name, hit)
			groups := make([][]string, 5)
			for k := s.R.Intn(6); k > 0; k-- {
				id++
				a := &v5Act{fmt.Sprint("a", id), s.R.Intn(5), &log}
				r.AppendActions(a)
				groups[a.group] = append(groups[a.group], "run "+a.name)
				desc += fmt.Sprintf(" %s(group %d)", a.name, a.group)
			}
			if all {
				tried = append(tried, "try "+name)
			}
			all = all && hit
			for g, l := range groups {
				if g == ActionGroupDisruptive && e.DetectionOnly {
					continue
				}
				runs = append(runs, l...)
			}
			return r
		}
		r := mk("starter")
		for k, n := 0, s.R.Intn(4); k < n; k++ {
			r.AppendSubRules(mk(fmt.Sprint("chained", k)))
		}
		want := tried
		if all {
			want = append(want, runs...)
		}
		if p := vPanics(func() { r.Do(tr) }); p != "" {
			s.Fail("%s: %s", desc, p)
		}
		if fmt.Sprint(log) != fmt.Sprint(want) {
			s.Fail("%s: happened %v, want %v", desc, log, want)
		}
	}
}
