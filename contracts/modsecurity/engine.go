package modsecurity

import "strconv"

// ---- C08, C09: engines and rule sets

//@ client
//@ prop C09
//@ modifies anything
//@ writes modsecurity\.Engine\.(Enabled|DetectionOnly)
//@ requires e != nil
//@ ensures status == StatusOn ==> e.Enabled && !e.DetectionOnly
//@ ensures status == StatusOff ==> !e.Enabled && !e.DetectionOnly
//@ ensures status == StatusDect ==> e.DetectionOnly && !e.Enabled
func verifEnable(e *Engine, status int) { e.Enable(status) }

//@ client
//@ prop C08 C09
//@ modifies anything
func verifNewEngine(rules []*SecRule, k int) {
	a := NewEngine()
	b := NewEngine()
	vAssert(a.Enabled && !a.DetectionOnly && b.Enabled && !b.DetectionOnly, "a new engine is on")
	vAssert(a != b && a.RuleSet != b.RuleSet && a.Limits != b.Limits && a.Config != b.Config, "engines share nothing")
	vAssert(a.RuleSet != nil && a.Limits != nil && a.Config != nil && b.RuleSet != nil, "an engine is complete")
	vAssert(len(a.RuleSet.Phases[1]) == 0 && len(a.RuleSet.DefaultActions) == 0, "a new engine has no rules")
	a.AddSecRule(rules...)
	vAssert(len(b.RuleSet.Phases[k]) == 0, "a rule goes to one engine only")
}

//@ client
//@ prop C07 C08
//@ modifies anything
//@ requires e == nil || e.Limits != nil && e.Config != nil && e.RequestBodyInMem >= 0 && e.ResponseBody >= 0
func verifNewTransaction(e *Engine, rs *SecRuleSet) {
	t, err := NewTransaction(e, rs)
	if e == nil || rs == nil {
		vAssert(err != nil, "a transaction needs an engine and a rule set")
	}
	if err == nil {
		vAssert(t != nil && t.Engine == e && t.RuleSet == rs, "the transaction belongs to its engine")
		vAssert(t.NetInfo != nil && t.Request != nil && t.Response != nil && t.Errors != nil && t.Request.Body != nil && t.Response.Body != nil, "the transaction is complete")
		vAssert(t.VariableCache != nil && t.Data != nil && len(t.VariableCache) == 0 && len(t.Data) == 0, "nothing is remembered")
		vAssert(t.currentPhase == PhaseBegin && t.currentRule == StatusNotStarted && t.nextRule == 0 && !t.Abort && t.intervention == nil, "nothing has happened")
		vReach("made")
	}
}

// specOf are the rules of rs[i:] that go to the phase k.
func specOf(rs []*SecRule, k, i int) []*SecRule {
	if i >= len(rs) {
		return nil
	}
	if rs[i].Phase == k && 0 < k && k < PhaseEnd {
		return append([]*SecRule{rs[i]}, specOf(rs, k, i+1)...)
	}
	return specOf(rs, k, i+1)
}

//@ client
//@ prop C08
//@ modifies anything
//@ writes modsecurity\.SecRuleSet\.Phases map\[Int\]\(Seq.Int\)\..*
//@ requires set != nil
//@ ensures [the rules are added to their phase, in order] set.Phases[k] == old(set.Phases[k]) + specOf(rules, k, 0)
func verifAddRules(set *SecRuleSet, rules []*SecRule, k int) { set.AddRules(rules...) }

//@ client
//@ prop C08
//@ modifies anything
//@ writes modsecurity\.SecRuleSet\.Phases map\[Int\]\(Seq.Int\)\..*
//@ requires e != nil
//@ ensures [the rules are added to their phase, in order] e.RuleSet.Phases[k] == old(e.RuleSet.Phases[k]) + specOf(rules, k, 0)
func verifAddSecRule(e *Engine, rules []*SecRule, k int) { e.AddSecRule(rules...) }

//@ pool the rules not yet added remain
//@ in AddRules
//@ vars s *SecRuleSet; l []*SecRule
//@ inv 0 <= K && K <= len(l) && s.Phases != nil
//@ inv s.Phases[k] + specOf(l, k, K) == pre(s.Phases[k]) + specOf(l, k, 0)

//@ client
//@ prop C08
//@ modifies anything
//@ writes modsecurity\.SecRuleSet\.DefaultActions
//@ requires set != nil
//@ ensures set.DefaultActions == old(set.DefaultActions) + as
func verifAddDefaultActions(set *SecRuleSet, as []Action) { set.AddDefaultActions(as...) }

// ---- C07, C19: the intervention

//@ client
//@ prop C07 C19 C08/frame
//@ modifies anything
//@ writes modsecurity\.Transaction\.intervention modsecurity\.Intervention\..*
//@ requires t != nil && SpecHeld(t)
func verifResult(t *Transaction, k int, text string) {
	disr, status, n, aborted := specDisr(t), specStatus(t), specLogLen(t), t.Abort
	var log []string
	if t.intervention != nil {
		log = t.intervention.Log
	}
	r := t.Result()
	vAssert(r != nil && r != t.intervention, "the result is the host's own")
	vAssert(r.Disruptive == disr && r.Status == status && len(r.Log) == n, "the result is the pending intervention")
	line := ""
	if 0 <= k && k < n {
		line = log[k]
		vAssert(r.Log[k] == line, "the result has the log")
	}
	if aborted {
		vReach("aborted")
		vAssert(t.Abort && specDisr(t) == disr && specStatus(t) == status && specLogLen(t) == n, "after an abort the result stays")
		s := t.Result()
		vAssert(s.Disruptive && s.Status == status && len(s.Log) == n, "however often it is read")
	} else {
		vReach("not aborted")
		vAssert(!specDisr(t) && specStatus(t) == 200 && specLogLen(t) == 0, "a clean intervention is left behind")
		t.Logf("%s", text)
		vAssert(r.Disruptive == disr && r.Status == status && len(r.Log) == n && (k < 0 || k >= n || r.Log[k] == line), "the host's result stays as it is")
	}
}

//@ client
//@ prop C07 C13 C08/frame
//@ modifies anything
//@ writes modsecurity\.Transaction\.(intervention|Abort) modsecurity\.Intervention\..*
//@ requires t != nil && err != nil
//@ ensures t.Abort && t.intervention != nil && t.intervention.Disruptive && t.intervention.Status == code
func verifAbort(t *Transaction, code int, err error, how bool) {
	if how {
		t.AbortWithError(code, err)
	} else {
		t.AbortWithStatus(code)
	}
}

//@ client
//@ prop C19
//@ modifies anything
//@ writes modsecurity\.Transaction\.intervention modsecurity\.Intervention\.Log
//@ requires t != nil
func verifLogf(t *Transaction, text string, k int) {
	n := specLogLen(t)
	var log []string
	if t.intervention != nil {
		log = t.intervention.Log
	}
	disr, status := specDisr(t), specStatus(t)
	t.Logf("%s", text)
	vAssert(specDisr(t) == disr && specStatus(t) == status, "logging touches neither the disruptive flag nor the status")
	vAssert(len(t.intervention.Log) == n+1 && t.intervention.Log[n] == "[client "+t.SrcIp+":"+t.SrcPort+"] (phase "+strconv.Itoa(t.currentPhase)+") "+text, "a line names client, port and phase")
	if 0 <= k && k < n {
		vAssert(t.intervention.Log[k] == log[k], "earlier lines stay")
	}
}
