package modsecurity

//@ protected modsecurity\.(Engine|Limits|Config|SecRuleSet|SecRule)\..*
//@ protected map\[Int\]\(Seq.Int\)\..*
//@ protected modsecurity\.(Transaction|Intervention|NetInfo|Request|Response)\..*
//@ nonnil \[\]modsecurity\.(Variable|Trans|Operator|Action) \[\]\*modsecurity\.SecRule
//@ nonnil modsecurity\.Engine\.(RuleSet|Limits|Config) modsecurity\.buffer\.memBuf modsecurity\.SecRule\.Operator modsecurity\.Transaction\.(Engine|RuleSet|NetInfo|Request|Response|Errors|VariableCache|Data) modsecurity\.(Request|Response)\.Body

// vUFFetched is what reading the target v gives when it is the n-th event.
func vUFFetched(v Variable, n int) []string { return nil }

// Reading a target. Event 1.
//@ iface Variable.Fetch(v, t) (r)
//@ prop C06 C08/frame
//@ conform
//@ anyloop
//@ requires t != nil && SpecHeld(t)
//@ modifies anything
//@ writes modsecurity\.Transaction\.Abort modsecurity\.Transaction\.intervention modsecurity\.Intervention\..*
//@ log event(1, v)
//@ ensures SpecHeld(t)
//@ defines r == vUFFetched(v, len(old(LOG)))

// specVals are the values of the targets vs[i:], the first of which is read as the n-th event.
func specVals(vs []Variable, ts []Trans, tr *Transaction, n, i int) []string {
	if i >= len(vs) {
		return nil
	}
	return append(SpecTransAll(ts, tr, vUFFetched(vs[i], n), 0), specVals(vs, ts, tr, n+1, i+1)...)
}

//@ func (*SecRule).TransformString(rule, tr, in) (out)
//@ prop C04
//@ use
//@ modifies nothing
//@ ensures out == SpecTrans(rule.Trans, tr, in, 0)

//@ pool the rest of the transformations remains
//@ in TransformString
//@ vars r *SecRule; tr *Transaction; s string
//@ inv 0 <= K && K <= len(r.Trans)
//@ inv SpecTrans(r.Trans, tr, s, K) == SpecTrans(r.Trans, tr, in, 0)

//@ func (*SecRule).TransformVariable(rule, tr, v) (out)
//@ requires v != nil && tr != nil && SpecHeld(tr)
//@ ensures SpecHeld(tr)
//@ prop C04
//@ use
//@ modifies anything
//@ writes modsecurity\.Transaction\.Abort modsecurity\.Transaction\.intervention modsecurity\.Intervention\..*
//@ effect LOG = old(LOG) + seq(event(1, v))
//@ ensures out == SpecTransAll(rule.Trans, tr, vUFFetched(v, len(old(LOG))), 0)

//@ pool the rest of the values remains
//@ in TransformVariable
//@ vars r *SecRule; t *Transaction; res []string
//@ inv 0 <= K && K <= len(SEQ)
//@ inv res + SpecTransAll(r.Trans, t, SEQ, K) == SpecTransAll(r.Trans, t, SEQ, 0)

// specReads are the events of reading the targets vs[i:] in order.
func specReads(vs []Variable, i int) []interface{} {
	if i >= len(vs) {
		return nil
	}
	return append([]interface{}{vs[i]}, specReads(vs, i+1)...)
}

//@ func (*SecRule).FetchAllTransformedVariables(rule, tr) (out)
//@ requires tr != nil && SpecHeld(tr)
//@ ensures SpecHeld(tr)
//@ prop C04
//@ use
//@ modifies anything
//@ writes modsecurity\.Transaction\.Abort modsecurity\.Transaction\.intervention modsecurity\.Intervention\..*
//@ effect LOG = old(LOG) + specReads(rule.Variables, 0)
//@ ensures out == specVals(rule.Variables, rule.Trans, tr, len(old(LOG)), 0)

//@ pool the rest of the targets remains
//@ in FetchAllTransformedVariables
//@ vars r *SecRule; t *Transaction; res []string
//@ inv 0 <= K && K <= len(r.Variables)
//@ inv SpecHeld(t)
//@ inv LOG + specReads(r.Variables, K) == old(LOG) + specReads(r.Variables, 0)
//@ inv len(LOG) == len(old(LOG)) + K
//@ inv res + specVals(r.Variables, r.Trans, t, len(LOG), K) == specVals(r.Variables, r.Trans, t, len(old(LOG)), 0)

//@ client
//@ nouse SecRule).Match
//@ prop C04
//@ modifies anything
//@ writes modsecurity\.Transaction\.Abort modsecurity\.Transaction\.intervention modsecurity\.Intervention\..*
func verifMatch(r *SecRule, t *Transaction) {
	n := len(vLog())
	vAssume(r != nil && t != nil && SpecHeld(t))
	got := r.Match(t)
	vals := specVals(r.Variables, r.Trans, t, n, 0)
	vAssert(vLogIs(specReads(r.Variables, 0)), "every target is read once, in order, and nothing else happens")
	if t.Abort {
		vAssert(!got, "an aborted transaction matches nothing")
	} else {
		vReach("not aborted")
		vAssert(got == SpecHit(r.Operator, r.Not, t, vals, 0), "the rule matches iff the operator accepts a transformed value")
	}
	if len(r.Variables) == 0 {
		vAssert(!got, "a rule without values never matches")
	}
}

//@ pool no earlier value was a hit
//@ in Match
//@ vars r *SecRule; t *Transaction
//@ inv 0 <= K && K <= len(SEQ)
//@ inv SpecHit(r.Operator, r.Not, t, SEQ, K) == SpecHit(r.Operator, r.Not, t, SEQ, 0)
