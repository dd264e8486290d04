package actions

import (
	"fmt"
	"net/http"
	"net/url"
	"reflect"
	"sort"
	"strings"
	"testing"

	"github.com/senghoo/modsecurity-go/modsecurity"
)

// A reference of the statements about phases, modes, interceptions and results.

type veVar struct {
	w    *veWorld
	name string
	rule *veRule
}

func (v *veVar) Name() string           { return "V" }
func (v *veVar) Include(s string) error { return nil }
func (v *veVar) Exclude(s string) error { return nil }
func (v *veVar) Fetch(t *modsecurity.Transaction) []string {
	if len(v.w.got) > 1000 {
		panic("processing does not end; ran " + fmt.Sprint(v.w.got[len(v.w.got)-10:]) + v.w.desc)
	}
	v.w.got = append(v.w.got, "rule "+v.name)
	if v.rule.abort != 0 {
		if v.rule.abort%2 == 0 {
			t.AbortWithStatus(v.rule.abort)
		} else {
			t.AbortWithError(v.rule.abort, fmt.Errorf("too big"))
		}
	}
	return []string{v.rule.value}
}

type veOp struct{}

func (veOp) Name() string                                    { return "O" }
func (veOp) Args() string                                    { return "" }
func (veOp) Match(t *modsecurity.Transaction, s string) bool { return s == "yes" }

type veMark struct {
	w     *veWorld
	name  string
	group int
}

func (v *veMark) Name() string                     { return v.name }
func (v *veMark) Value() string                    { return "" }
func (v *veMark) ActionGroup() int                 { return v.group }
func (v *veMark) Do(t *modsecurity.Transaction)    { v.w.got = append(v.w.got, "mark "+v.name) }

// veAct is an action: kind, argument, and its place in the order of groups.
type veAct struct {
	kind, arg string
	n, group  int
}

type veRule struct {
	name  string
	value string
	abort int
	acts  []veAct
}

type veWorld struct {
	look  string // what is compared: order, result, mode
	s     *vSearch
	desc  string
	got   []string
	want  []string
	rules map[int][]*veRule
	def   []veAct
	mode  int
	e     *modsecurity.Engine
	tr    *modsecurity.Transaction
	ip    string
	port  string
	// the reference
	phase   int
	started bool
	cur     int
	next    int
	abort   bool
	has     bool
	status  int
	disr    bool
	logs    []string
	data    int
}

func (w *veWorld) real(a veAct) modsecurity.Action {
	switch a.kind {
	case "allow":
		return NewActionAllow(a.arg)
	case "deny":
		return NewActionDeny()
	case "pass":
		return NewActionPass()
	case "block":
		return NewActionBlock()
	case "status":
		return NewActionStatus(a.n)
	case "log":
		return NewActionLog()
	case "skip":
		return NewActionSkip()
	}
	return &veMark{w, a.arg, a.group}
}

func (w *veWorld) action(where string, def bool) veAct {
	k := w.s.Pick("allow", "deny", "deny", "pass", "block", "status", "log", "skip", "mark", "mark")
	a := veAct{kind: k}
	switch k {
	case "allow":
		a.arg, a.group = w.s.Pick("", "phase", "request"), modsecurity.ActionGroupDisruptive
	case "deny", "pass":
		a.group = modsecurity.ActionGroupDisruptive
	case "block":
		a.group = modsecurity.ActionGroupDisruptive
		if def { // no default actions that are the default actions
			a.kind = "deny"
		}
	case "status":
		a.n, a.group = []int{99, 100, 200, 301, 404, 599, 600, 0}[w.s.R.Intn(8)], modsecurity.ActionGroupData
	case "log":
		a.group = modsecurity.ActionGroupNonDisruptive
	case "skip":
		a.group = modsecurity.ActionGroupFlow
	case "mark":
		a.arg, a.group = fmt.Sprint(where, "/", w.s.R.Intn(1000)), w.s.R.Intn(modsecurity.ActionGroupCount)
	}
	return a
}

func (w *veWorld) iv() {
	if !w.has {
		w.has, w.status, w.disr, w.logs = true, 200, false, nil
	}
}
func (w *veWorld) reset() { w.has, w.status, w.disr, w.logs = true, 200, false, nil }

func (w *veWorld) logline(s string) {
	w.iv()
	w.logs = append(w.logs, fmt.Sprintf("[client %s:%s] (phase %d) \x00%s", w.ip, w.port, w.phase, s))
}

func (w *veWorld) jumpPhase(p int) {
	if p > modsecurity.PhaseEnd {
		p = modsecurity.PhaseEnd
	}
	w.phase, w.started, w.cur, w.next = p, false, -1, 0
}

func (w *veWorld) runActs(l []veAct) {
	l = append([]veAct(nil), l...)
	sort.SliceStable(l, func(i, j int) bool { return l[i].group < l[j].group })
	for _, a := range l {
		if a.group == modsecurity.ActionGroupDisruptive && w.mode == modsecurity.StatusDect {
			continue
		}
		switch a.kind {
		case "allow":
			switch {
			case a.arg == "" && w.phase < modsecurity.PhaseLogging:
				w.jumpPhase(modsecurity.PhaseLogging)
			case a.arg == "request" && w.phase < modsecurity.PhaseResponseHeaders:
				w.jumpPhase(modsecurity.PhaseResponseHeaders)
			default:
				w.jumpPhase(w.phase + 1)
			}
		case "deny":
			w.iv()
			if w.status == 200 {
				w.status = 403
				if w.data >= 100 && w.data <= 599 {
					w.status = w.data
				}
			}
			w.disr = true
			w.logline(fmt.Sprint(w.status))
		case "pass":
			w.reset()
		case "block":
			w.runActs(w.def)
		case "status":
			w.data = a.n
		case "log":
			w.logline("")
		case "skip":
			if w.started {
				w.next = w.cur + 2
			}
		case "mark":
			w.want = append(w.want, "mark "+a.arg)
		}
	}
}

func (w *veWorld) process(p int) {
	if w.phase > p || w.phase == p && w.started {
		return
	}
	w.jumpPhase(p)
	if w.abort || w.mode == modsecurity.StatusOff {
		return
	}
	w.started = true
	l := w.rules[p]
	for w.phase == p && w.next < len(l) {
		w.cur = w.next
		w.next++
		r := l[w.cur]
		w.want = append(w.want, "rule "+r.name)
		if r.abort != 0 {
			w.iv()
			w.abort, w.disr, w.status = true, true, r.abort
			if r.abort%2 != 0 {
				w.logline("")
			}
		} else if r.value == "yes" {
			w.runActs(r.acts)
		}
		if w.disr {
			break
		}
	}
}

func (w *veWorld) fail(what string) {
	w.s.Fail("%s\n scenario:%s", what, w.desc)
}

func (w *veWorld) looks(x string) bool { return strings.Contains(w.look, x) }

func (w *veWorld) same(what string, i *modsecurity.Intervention) {
	if !w.looks("result") {
		return
	}
	st, di, lo := 200, false, []string(nil)
	if w.has {
		st, di, lo = w.status, w.disr, w.logs
	}
	if i.Status != st || i.Disruptive != di || len(i.Log) != len(lo) {
		w.fail(fmt.Sprintf("%s: status %d disruptive %v log %q, but should be %d %v and %d lines", what, i.Status, i.Disruptive, i.Log, st, di, len(lo)))
	}
	for k, l := range lo {
		p := strings.SplitN(l, "\x00", 2)
		if !strings.HasPrefix(i.Log[k], p[0]) || !strings.Contains(i.Log[k], p[1]) {
			w.fail(fmt.Sprintf("%s: log line %q, but should start with %q and contain %q", what, i.Log[k], p[0], p[1]))
		}
	}
}

func veRun(s *vSearch, look string) {
	w := &veWorld{s: s, look: look, rules: map[int][]*veRule{}, cur: -1}
	w.e = modsecurity.NewEngine()
	if w.looks("mode") && (!w.e.Enabled || w.e.DetectionOnly) {
		s.Fail("a new engine is not on")
	}
	if k := s.R.Intn(3); k > 0 {
		for i := 0; i < k; i++ {
			w.def = append(w.def, w.action("default", true))
		}
		w.desc += fmt.Sprintf("\n  default actions %v", w.def)
	}
	for _, a := range w.def {
		w.e.RuleSet.AddDefaultActions(w.real(a))
	}
	quiet := s.R.Intn(3) == 0
	for p := 1; p < modsecurity.PhaseEnd; p++ {
		for i, n := 0, s.R.Intn(6); i < n; i++ {
			r := &veRule{name: fmt.Sprint(p, ".", i), value: s.Pick("yes", "no")}
			if !quiet && s.R.Intn(14) == 0 {
				r.abort = []int{413, 500}[s.R.Intn(2)]
			}
			for k := s.R.Intn(4); k > 0; k-- {
				a := w.action(r.name, false)
				if quiet && (a.kind == "deny" || a.kind == "allow" || a.kind == "block") {
					continue
				}
				r.acts = append(r.acts, a)
			}
			w.rules[p] = append(w.rules[p], r)
			w.desc += fmt.Sprintf("\n  rule %s: target value %q, aborts %d, actions %v", r.name, r.value, r.abort, r.acts)
			x := modsecurity.NewSecRule()
			x.Phase = p
			x.SetOperator(veOp{})
			x.AppendVariables(&veVar{w, r.name, r})
			for _, a := range r.acts {
				x.AppendActions(w.real(a))
			}
			w.e.AddSecRule(x)
		}
	}
	mode := func() {
		m := []int{modsecurity.StatusOn, modsecurity.StatusOn, modsecurity.StatusDect, modsecurity.StatusOff}[s.R.Intn(4)]
		w.mode = m
		w.e.Enable(m)
		w.desc += fmt.Sprintf("\n  mode %d (0 on, 1 off, 2 detection only)", m)
		if w.looks("mode") && (w.e.Enabled != (m == modsecurity.StatusOn) || w.e.DetectionOnly != (m == modsecurity.StatusDect)) {
			w.fail(fmt.Sprintf("Enable(%d) leaves Enabled=%v DetectionOnly=%v", m, w.e.Enabled, w.e.DetectionOnly))
		}
	}
	if s.R.Intn(2) == 0 {
		mode()
	}
	tr, err := w.e.NewTransaction()
	if err != nil {
		w.fail("no transaction: " + err.Error())
	}
	w.tr = tr
	var held []*modsecurity.Intervention
	var shown []string
	ordered := s.R.Intn(2) == 0
	for k, n := 0, 6+s.R.Intn(10); k < n; k++ {
		c := s.R.Intn(9)
		if ordered && k < 6 {
			c = k
		}
		before := tr.CurrentPhase()
		switch c {
		case 0:
			w.ip, w.port = "1.2.3.4", "99"
			tr.ProcessConnection("1.2.3.4", "99", "5.6.7.8", "80")
			w.process(modsecurity.PhaseConnection)
			w.desc += "\n  ProcessConnection"
		case 1:
			tr.ProcessRequestURL(&url.URL{Path: "/"}, "GET", "HTTP/1.1")
			tr.ProcessRequestHeader(http.Header{})
			w.process(modsecurity.PhaseRequestHeaders)
			w.desc += "\n  ProcessRequestHeader"
		case 2:
			tr.ProcessRequestBody()
			w.process(modsecurity.PhaseRequestBody)
			w.desc += "\n  ProcessRequestBody"
		case 3:
			tr.ProcessResponseHeaders(200, "HTTP/1.1", http.Header{})
			w.process(modsecurity.PhaseResponseHeaders)
			w.desc += "\n  ProcessResponseHeaders"
		case 4:
			tr.ProcessResponseBody()
			w.process(modsecurity.PhaseResponseBody)
			w.desc += "\n  ProcessResponseBody"
		case 5:
			tr.ProcessLogging()
			w.process(modsecurity.PhaseLogging)
			w.desc += "\n  ProcessLogging"
		case 6:
			w.desc += "\n  Result"
			i := tr.Result()
			w.same("Result", i)
			held, shown = append(held, i), append(shown, fmt.Sprintf("%d %v %q", i.Status, i.Disruptive, i.Log))
			if !w.abort {
				w.reset()
			}
			w.same("the intervention after Result", tr.Intervention())
		case 7:
			w.desc += "\n  Intervention"
			w.same("Intervention", tr.Intervention())
		case 8:
			if s.R.Intn(3) == 0 {
				mode()
			}
		}
		if w.looks("order") && !reflect.DeepEqual(w.got, w.want) {
			w.fail(fmt.Sprintf("ran %q, but should run %q", w.got, w.want))
		}
		if w.looks("order") && tr.CurrentPhase() < before {
			w.fail(fmt.Sprintf("the phase went back from %d to %d", before, tr.CurrentPhase()))
		}
		if w.looks("order") && tr.CurrentPhase() != w.phase {
			w.fail(fmt.Sprintf("the phase is %d, but should be %d", tr.CurrentPhase(), w.phase))
		}
		if w.looks("result") && tr.Abort != w.abort {
			w.fail(fmt.Sprintf("aborted is %v, but should be %v", tr.Abort, w.abort))
		}
		w.same("the intervention after the call", tr.Intervention())
		for k, i := range held {
			if x := fmt.Sprintf("%d %v %q", i.Status, i.Disruptive, i.Log); w.looks("result") && x != shown[k] {
				w.fail(fmt.Sprintf("a result that was handed over has changed from %s to %s", shown[k], x))
			}
		}
	}
}

func veTest(t *testing.T, look string) {
	s := vNewSearch(t)
	for s.More(3000) {
		if p := vPanicsHere(s, func() { veRun(s, look) }); p != "" {
			s.Fail("%s", p)
		}
	}
}

// vPanicsHere reports a panic; Fail inside f still ends the test.
func vPanicsHere(s *vSearch, f func()) (p string) {
	defer func() {
		if r := recover(); r != nil {
			p = fmt.Sprintf("panic: %v", r)
		}
	}()
	f()
	return ""
}

func TestReplayC06(t *testing.T) { veTest(t, "order") }
func TestReplayC07(t *testing.T) { veTest(t, "order result") }
func TestReplayC09(t *testing.T) { veTest(t, "order mode") }
func TestReplayC19(t *testing.T) { veTest(t, "result") }
