package modsecurity

// The group decides when an action runs.
//@ iface Action.ActionGroup(a) (r)
//@ prop C05
//@ conform
//@ pureuf
//@ ensures 0 <= r && r < 5

//@ iface Action.Do(a, t)
//@ prop C06 C08/frame
//@ conform
//@ requires t != nil && !t.Abort && specCursor(t)
//@ ensures !t.Abort && specForward(t, old(t.currentPhase), old(t.currentRule), old(t.nextRule)) && specCursor(t)
//@ modifies anything
//@ writes modsecurity\.Transaction\.Abort modsecurity\.Transaction\.intervention modsecurity\.Intervention\..* modsecurity\.Transaction\.(currentPhase|currentRule|nextRule)
//@ log event(5, a)

// vUFMatched: does the rule match, tried as the n-th event.
func vUFMatched(r *SecRule, n int) bool { return false }

// What a match is, is C04; here it is a single event.
//@ func (*SecRule).Match(rule, t) (out)
//@ requires t != nil && SpecHeld(t)
//@ ensures SpecHeld(t) && (out ==> !t.Abort)
//@ prop C05 C06 C07 C08/frame
//@ use
//@ modifies anything
//@ writes modsecurity\.Transaction\.Abort modsecurity\.Transaction\.intervention modsecurity\.Intervention\..*
//@ log event(2, rule)
//@ defines out == vUFMatched(rule, len(old(LOG)))

// specGroup are the actions of group g in as[i:], in order.
func specGroup(as []Action, g, i int) []Action {
	if i >= len(as) {
		return nil
	}
	if as[i].ActionGroup() == g {
		return append([]Action{as[i]}, specGroup(as, g, i+1)...)
	}
	return specGroup(as, g, i+1)
}

// specRun are the actions that run, group by group, from group g on.
func specRun(as []Action, detect bool, g int) []Action {
	if g >= ActionGroupCount {
		return nil
	}
	if g == ActionGroupDisruptive && detect {
		return specRun(as, detect, g+1)
	}
	return append(specGroup(as, g, 0), specRun(as, detect, g+1)...)
}

// specLists are the actions of the lists m[i:], group by group.
func specLists(m [][]Action, detect bool, i int) []Action {
	if i >= len(m) {
		return nil
	}
	if i == ActionGroupDisruptive && detect {
		return specLists(m, detect, i+1)
	}
	return append(m[i], specLists(m, detect, i+1)...)
}

//@ func ActionsExecute(t, as)
//@ prop C05 C06 C09 C08/frame
//@ use
//@ requires t != nil && !t.Abort && specCursor(t)
//@ ensures !t.Abort && specForward(t, old(t.currentPhase), old(t.currentRule), old(t.nextRule)) && specCursor(t)
//@ modifies anything
//@ writes modsecurity\.Transaction\.Abort modsecurity\.Transaction\.intervention modsecurity\.Intervention\..* modsecurity\.Transaction\.(currentPhase|currentRule|nextRule)
//@ effect LOG = old(LOG) + specRun(as, t.Engine.DetectionOnly, 0)

//@ pool the actions not yet sorted remain
//@ in ActionsExecute
//@ vars actionMap [][]Action; as []Action
//@ inv 0 <= K && K <= len(as) && len(actionMap) == 5
//@ inv nth(actionMap, 0) + specGroup(as, 0, K) == specGroup(as, 0, 0)
//@ inv nth(actionMap, 1) + specGroup(as, 1, K) == specGroup(as, 1, 0)
//@ inv nth(actionMap, 2) + specGroup(as, 2, K) == specGroup(as, 2, 0)
//@ inv nth(actionMap, 3) + specGroup(as, 3, K) == specGroup(as, 3, 0)
//@ inv nth(actionMap, 4) + specGroup(as, 4, K) == specGroup(as, 4, 0)

//@ pool the groups not yet run remain
//@ in ActionsExecute
//@ vars actionMap [][]Action; t *Transaction
//@ inv !t.Abort && specCursor(t) && specForward(t, pre(t.currentPhase), pre(t.currentRule), pre(t.nextRule))
//@ inv 0 <= K && K <= len(actionMap)
//@ inv LOG + specLists(actionMap, t.Engine.DetectionOnly, K) == pre(LOG) + specLists(actionMap, t.Engine.DetectionOnly, 0)

//@ pool the actions not yet run remain
//@ in ActionsExecute
//@ vars t *Transaction; as []Action
//@ inv !t.Abort && specCursor(t) && specForward(t, pre(t.currentPhase), pre(t.currentRule), pre(t.nextRule))
//@ inv 0 <= K && K <= len(as)
//@ inv LOG + as[K:] == pre(LOG) + as

//@ pool the groups not yet run remain (no lists)
//@ in ActionsExecute
//@ vars as []Action; t *Transaction
//@ inv !t.Abort && specCursor(t) && specForward(t, pre(t.currentPhase), pre(t.currentRule), pre(t.nextRule))
//@ inv 0 <= K && K <= 5
//@ inv LOG + specRun(as, t.Engine.DetectionOnly, K) == pre(LOG) + specRun(as, t.Engine.DetectionOnly, 0)

//@ pool the actions of the group not yet run remain
//@ in ActionsExecute
//@ vars as []Action; g int; t *Transaction
//@ inv !t.Abort && specCursor(t) && specForward(t, pre(t.currentPhase), pre(t.currentRule), pre(t.nextRule))
//@ inv 0 <= K && K <= len(as)
//@ inv LOG + specGroup(as, g, K) == pre(LOG) + specGroup(as, g, 0)

// specChain: do the rules rs[i:] match, the first being tried as the n-th event.
func specChain(rs []*SecRule, n, i int) bool {
	if i >= len(rs) {
		return true
	}
	return vUFMatched(rs[i], n) && specChain(rs, n+1, i+1)
}

// specTried are the tries of rs[i:], up to the first that fails.
func specTried(rs []*SecRule, n, i int) []interface{} {
	if i >= len(rs) {
		return nil
	}
	if !vUFMatched(rs[i], n) {
		return []interface{}{vEventPtr(2, rs[i])}
	}
	return append([]interface{}{vEventPtr(2, rs[i])}, specTried(rs, n+1, i+1)...)
}

// specRuns are the actions that run for the rules rs[i:].
func specRuns(rs []*SecRule, detect bool, i int) []Action {
	if i >= len(rs) {
		return nil
	}
	return append(specRun(rs[i].Actions, detect, 0), specRuns(rs, detect, i+1)...)
}

//@ client
//@ prop C05
//@ nouse SecRule).Do
//@ modifies anything
//@ writes modsecurity\.Transaction\.Abort modsecurity\.Transaction\.intervention modsecurity\.Intervention\..* modsecurity\.Transaction\.(currentPhase|currentRule|nextRule)
//@ ensures !vUFMatched(r, len(old(LOG))) ==> LOG == old(LOG) + seq(event(2, r))
//@ ensures vUFMatched(r, len(old(LOG))) && !specChain(r.SubRules, len(old(LOG))+1, 0) ==> LOG == old(LOG) + seq(event(2, r)) + specTried(r.SubRules, len(old(LOG))+1, 0)
//@ ensures vUFMatched(r, len(old(LOG))) && specChain(r.SubRules, len(old(LOG))+1, 0) ==> LOG == old(LOG) + seq(event(2, r)) + specTried(r.SubRules, len(old(LOG))+1, 0) + specRun(r.Actions, t.Engine.DetectionOnly, 0) + specRuns(r.SubRules, t.Engine.DetectionOnly, 0)
func verifDo(r *SecRule, t *Transaction) {
	vAssume(r != nil)
	vAssume(t != nil && SpecHeld(t) && specCursor(t))
	r.Do(t)
	vReach("a rule was done")
}

//@ pool the chained rules not yet tried remain
//@ in Do
//@ vars r *SecRule; t *Transaction
//@ inv SpecHeld(t) && !t.Abort && t.currentPhase == pre(t.currentPhase) && t.currentRule == pre(t.currentRule) && t.nextRule == pre(t.nextRule)
//@ inv 0 <= K && K <= len(r.SubRules)
//@ inv LOG + specTried(r.SubRules, len(LOG), K) == pre(LOG) + specTried(r.SubRules, len(pre(LOG)), 0)
//@ inv specChain(r.SubRules, len(LOG), K) == specChain(r.SubRules, len(pre(LOG)), 0)

//@ pool the actions of the chained rules not yet run remain
//@ in Do
//@ vars r *SecRule; t *Transaction
//@ inv !t.Abort && specCursor(t) && specForward(t, pre(t.currentPhase), pre(t.currentRule), pre(t.nextRule))
//@ inv 0 <= K && K <= len(r.SubRules)
//@ inv LOG + specRuns(r.SubRules, t.Engine.DetectionOnly, K) == pre(LOG) + specRuns(r.SubRules, t.Engine.DetectionOnly, 0)

// specRules are the rules of the phase that the transaction is in.
func specRules(t *Transaction) []*SecRule { return t.RuleSet.Phases[t.currentPhase] }

// specCursor: the place in the rules, as it is while a rule runs.
func specCursor(t *Transaction) bool {
	return 0 <= t.currentPhase && t.currentPhase <= PhaseEnd && t.currentRule >= -1 &&
		(t.nextRule == StatusEndOfRules && len(specRules(t)) <= t.currentRule+2 ||
			t.currentRule < t.nextRule && t.nextRule <= t.currentRule+2 && (t.nextRule == 0 || t.nextRule < len(specRules(t))))
}

// specForward: since the place was (phase, cur, next) it only moved forward.
func specForward(t *Transaction, phase, cur, next int) bool {
	if t.currentPhase != phase {
		return t.currentPhase > phase && t.currentRule == -1
	}
	return t.currentRule == cur && (t.nextRule == next || t.nextRule == StatusEndOfRules || next >= 0 && t.nextRule == cur+2) ||
		phase == PhaseEnd && t.currentRule == -1
}
