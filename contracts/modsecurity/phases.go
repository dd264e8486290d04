package modsecurity

// The monitor of the order of rules: GI_PHASE and GI_IDX are the phase and the
// place of the last rule that ran, GB_FLOW tells whether it moved the place.
// GI_STATUS, GI_LOG and GB_DISR are the intervention that it left.

//@ func (*SecRule).Do(rule, tr)
//@ prop C06 C07 C09 C08/frame
//@ use
//@ requires rule != nil && tr != nil && !tr.Abort && SpecHeld(tr)
//@ requires [the mode] tr.Engine.Enabled || tr.Engine.DetectionOnly
//@ requires [the rule is the one at the place] 0 <= tr.currentRule && tr.currentRule < len(specRules(tr)) && rule == nth(specRules(tr), tr.currentRule)
//@ requires [the place] specCursor(tr) && tr.currentPhase < PhaseEnd && tr.nextRule != tr.currentRule+2 && (tr.nextRule == StatusEndOfRules ==> len(specRules(tr)) == tr.currentRule+1)
//@ requires [the order of the rules] tr.currentPhase > GI_PHASE && tr.currentRule == 0 || tr.currentPhase == GI_PHASE && (tr.currentRule == GI_IDX+1 || GB_FLOW && tr.currentRule == GI_IDX+2)
//@ requires [no rule after an interception] tr.currentPhase == GI_PHASE ==> !specDisr(tr)
//@ modifies anything
//@ writes modsecurity\.Transaction\.Abort modsecurity\.Transaction\.intervention modsecurity\.Intervention\..* modsecurity\.Transaction\.(currentPhase|currentRule|nextRule)
//@ log event(3, rule)
//@ ensures specForward(tr, old(tr.currentPhase), old(tr.currentRule), old(tr.nextRule)) && specCursor(tr) && SpecHeld(tr)
//@ set GI_PHASE = old(tr.currentPhase)
//@ set GI_IDX = old(tr.currentRule)
//@ set GB_FLOW = !(tr.currentPhase == old(tr.currentPhase) && tr.nextRule == old(tr.nextRule))
//@ set GB_DISR = specDisr(tr)
//@ set GI_STATUS = specStatus(tr)
//@ set GI_LOG = specLogLen(tr)
//@ set GI_REQ = tr.Request.Header
//@ set GI_RES = tr.Response.Header
//@ set GI_CODE = tr.Code
//@ set GS_PROTO = tr.Response.Proto
//@ set GS_NET = tr.SrcIp + " " + tr.SrcPort + " " + tr.DstIp + " " + tr.DstPort

func specDisr(t *Transaction) bool { return t.intervention != nil && t.intervention.Disruptive }

func specStatus(t *Transaction) int {
	if t.intervention == nil {
		return 200
	}
	return t.intervention.Status
}
func specLogLen(t *Transaction) int {
	if t.intervention == nil {
		return 0
	}
	return len(t.intervention.Log)
}

//@ client
//@ prop C06 C07 C09 C08/frame
//@ modifies anything
//@ writes modsecurity\.Transaction\.Abort modsecurity\.Transaction\.intervention modsecurity\.Intervention\..* modsecurity\.Transaction\.(currentPhase|currentRule|nextRule)
//@ requires t != nil && 0 <= t.currentPhase && t.currentPhase <= PhaseEnd && t.currentRule >= -2 && SpecHeld(t)
//@ requires GI_PHASE >= 0 && GI_IDX >= 0 && (GI_PHASE < t.currentPhase || GI_PHASE == t.currentPhase && t.currentRule != -1)
//@ requires 0 <= phase && phase < PhaseEnd
//@ ensures [the phase never goes back] t.currentPhase >= old(t.currentPhase)
//@ ensures [the monitor still holds] GI_PHASE < t.currentPhase || GI_PHASE == t.currentPhase && t.currentRule != -1
//@ ensures 0 <= t.currentPhase && t.currentPhase <= PhaseEnd && t.currentRule >= -2 && SpecHeld(t)
//@ ensures [an aborted transaction runs nothing] old(t.Abort) ==> LOG == old(LOG)
//@ ensures [an engine that is off runs nothing] !(t.Engine.Enabled || t.Engine.DetectionOnly) ==> LOG == old(LOG)
//@ ensures [a phase that is past is left alone] (old(t.currentPhase) > phase || old(t.currentPhase) == phase && old(t.currentRule) != -1) ==> LOG == old(LOG) && t.currentPhase == old(t.currentPhase) && t.currentRule == old(t.currentRule) && t.nextRule == old(t.nextRule)
//@ ensures [what runs is in the phase] LOG == old(LOG) || GI_PHASE == phase
//@ ensures [all the rules run] !old(t.Abort) && (t.Engine.Enabled || t.Engine.DetectionOnly) && (old(t.currentPhase) < phase || old(t.currentPhase) == phase && old(t.currentRule) == -1) && !specDisr(t) && t.currentPhase == phase && len(nth2(t, phase)) > 0 ==> GI_PHASE == phase && (GI_IDX == len(nth2(t, phase))-1 || GB_FLOW && GI_IDX == len(nth2(t, phase))-2)
//@ ensures [the intervention is still there] GI_PHASE == phase && LOG != old(LOG) ==> specDisr(t) == GB_DISR && specStatus(t) == GI_STATUS && specLogLen(t) == GI_LOG
func verifProcessPhase(t *Transaction, phase int) {
	t.ProcessPhase(phase)
	vReach("processed")
}

func nth2(t *Transaction, phase int) []*SecRule { return t.RuleSet.Phases[phase] }

//@ pool the place and the monitor agree
//@ in processPhase ProcessPhase
//@ vars t *Transaction; phase int
//@ inv 0 <= phase && phase < PhaseEnd && phase <= t.currentPhase && t.currentPhase <= PhaseEnd && t.currentRule >= -1
//@ inv SpecHeld(t) && (t.Engine.Enabled || t.Engine.DetectionOnly)
//@ inv t.currentPhase == phase ==> specCursor(t)
//@ inv t.currentPhase == phase && GI_PHASE == phase ==> GI_IDX == t.currentRule && t.currentRule >= 0 && GI_IDX < len(nth2(t, phase)) && (GB_FLOW || t.nextRule == GI_IDX+1 || t.nextRule == StatusEndOfRules && len(nth2(t, phase)) == GI_IDX+1)
//@ inv t.currentPhase == phase && GI_PHASE < phase ==> t.currentRule == -1 && t.nextRule == 0 || len(nth2(t, phase)) == 0
//@ inv GI_PHASE == phase ==> specDisr(t) == GB_DISR && specStatus(t) == GI_STATUS && specLogLen(t) == GI_LOG
//@ inv t.currentPhase == phase && GI_PHASE == phase ==> !specDisr(t)
//@ inv t.currentPhase == phase && GI_PHASE < phase ==> !t.Abort && LOG == pre(LOG)
//@ inv LOG != pre(LOG) ==> GI_REQ == t.Request.Header && GI_RES == t.Response.Header && GI_CODE == t.Code && GS_PROTO == t.Response.Proto && GS_NET == t.SrcIp + " " + t.SrcPort + " " + t.DstIp + " " + t.DstPort
//@ inv GI_PHASE <= phase && (t.currentPhase != phase ==> GI_PHASE == phase && t.currentRule == -1)
//@ dec ite(t.currentPhase != phase, 0, ite(t.nextRule == StatusEndOfRules, 1, len(nth2(t, phase)) - t.nextRule + 2))
