package actions

import (
	"strconv"

	"github.com/senghoo/modsecurity-go/modsecurity"
)

//@ protected actions\..*

// ---- where the flow goes on

//@ client
//@ prop C06
//@ modifies anything
//@ writes modsecurity\.Transaction\.(currentPhase|currentRule|nextRule)
//@ requires a != nil && t != nil && 0 <= t.currentPhase && t.currentPhase <= 7
//@ ensures [allow: the logging phase] a.arg == "" && old(t.currentPhase) < 6 ==> t.currentPhase == 6
//@ ensures [allow: the logging phase is over] a.arg == "" && old(t.currentPhase) >= 6 ==> t.currentPhase == 7
//@ ensures [allow:phase: the end of this phase] a.arg == "phase" && old(t.currentPhase) < 7 ==> t.currentPhase == old(t.currentPhase)+1
//@ ensures [allow:request: the response headers] a.arg == "request" && old(t.currentPhase) < 4 ==> t.currentPhase == 4
//@ ensures [allow:request: the end of this phase] a.arg == "request" && 4 <= old(t.currentPhase) && old(t.currentPhase) < 7 ==> t.currentPhase == old(t.currentPhase)+1
//@ ensures [none of the rules there has run] a.arg == "" || a.arg == "phase" || a.arg == "request" ==> t.currentRule == -1 && t.nextRule == 0
func verifAllow(a *ActionAllow, t *modsecurity.Transaction) { a.Do(t) }

//@ client
//@ prop C06
//@ modifies anything
//@ writes modsecurity\.Transaction\.(currentPhase|currentRule|nextRule)
//@ requires a != nil && t != nil && t.currentRule >= 0
//@ ensures [this rule goes on] t.currentPhase == old(t.currentPhase) && t.currentRule == old(t.currentRule)
//@ ensures [the next rule is left out] t.currentRule+2 < len(t.RuleSet.Phases[t.currentPhase]) ==> t.nextRule == t.currentRule+2
//@ ensures [the next rule was the last] t.currentRule+2 >= len(t.RuleSet.Phases[t.currentPhase]) ==> t.nextRule == -2
func verifSkip(a *ActionSkip, t *modsecurity.Transaction) { a.Do(t) }

// ---- what is left for the host; none of these has a say in the flow


//@ client
//@ prop C19 C06 C07
//@ modifies anything
//@ writes modsecurity\.Transaction\.intervention modsecurity\.Intervention\..*
//@ requires a != nil && t != nil
//@ ensures [disruptive] t.intervention != nil && t.intervention.Disruptive
//@ ensures [a status set before stays] old(t.intervention) != nil && old(t.intervention.Status) != 200 ==> t.intervention.Status == old(t.intervention.Status)
//@ ensures [the status that the rules set] (old(t.intervention) == nil || old(t.intervention.Status) == 200) && specSet(t) ==> t.intervention.Status == t.Data["status"].(int)
//@ ensures [or 403] (old(t.intervention) == nil || old(t.intervention.Status) == 200) && !specSet(t) ==> t.intervention.Status == 403
//@ ensures [one line is logged] old(t.intervention) != nil ==> t.intervention.Log == old(t.intervention.Log) + seq(specLine(t, "ModSecurity: Access denied with code " + strconv.Itoa(t.intervention.Status)))
//@ ensures [the line is logged] old(t.intervention) == nil ==> t.intervention.Log == seq(specLine(t, "ModSecurity: Access denied with code " + strconv.Itoa(t.intervention.Status)))
func verifDeny(a *ActionDeny, t *modsecurity.Transaction) { a.Do(t) }

func specSet(t *modsecurity.Transaction) bool {
	s, ok := t.Data["status"].(int)
	return ok && 100 <= s && s <= 599
}

// specLine is a log line.
func specLine(t *modsecurity.Transaction, text string) string {
	return "[client " + t.SrcIp + ":" + t.SrcPort + "] (phase " + strconv.Itoa(t.CurrentPhase()) + ") " + text
}

//@ client
//@ prop C19 C06 C07
//@ modifies anything
//@ writes modsecurity\.Transaction\.intervention modsecurity\.Intervention\..*
//@ requires a != nil && t != nil
//@ ensures [nothing is pending] t.intervention == nil || t.intervention.Status == 200 && !t.intervention.Disruptive && len(t.intervention.Log) == 0
func verifPass(a *ActionPass, t *modsecurity.Transaction) { a.Do(t) }

//@ client
//@ prop C19 C06 C07
//@ modifies anything
//@ requires a != nil && t != nil
//@ ensures [the status is remembered] istype(t.Data["status"], int) && t.Data["status"].(int) == a.status
func verifStatus(a *ActionStatus, t *modsecurity.Transaction) { a.Do(t) }

//@ client
//@ prop C19 C06 C07
//@ modifies anything
//@ writes modsecurity\.Transaction\.intervention modsecurity\.Intervention\.Log
//@ requires a != nil && t != nil
//@ ensures [one line is logged] t.intervention != nil && (old(t.intervention) != nil ==> t.intervention == old(t.intervention) && t.intervention.Log == old(t.intervention.Log) + seq(specLine(t, specLogText(t))))
//@ ensures [the line is logged] old(t.intervention) == nil ==> t.intervention.Log == seq(specLine(t, specLogText(t))) && t.intervention.Status == 200 && !t.intervention.Disruptive
func verifLog(a *ActionLog, t *modsecurity.Transaction) { a.Do(t) }

func specLogText(t *modsecurity.Transaction) string {
	return "ModSecurity: running action in phase " + strconv.Itoa(t.CurrentPhase()) + " rule " + strconv.Itoa(t.CurrentRule())
}

