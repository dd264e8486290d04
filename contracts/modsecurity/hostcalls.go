package modsecurity

import "net/http"

// What each processing call of the host does.

//@ client
//@ prop C06 C12 C08/frame
//@ modifies anything
//@ writes modsecurity\.Transaction\.Abort modsecurity\.Transaction\.intervention modsecurity\.Intervention\..* modsecurity\.Transaction\.(currentPhase|currentRule|nextRule) modsecurity\.NetInfo\..*
//@ requires t != nil && 0 <= t.currentPhase && t.currentPhase <= PhaseEnd && t.currentRule >= -2 && SpecHeld(t)
//@ requires GI_PHASE >= 0 && GI_IDX >= 0 && (GI_PHASE < t.currentPhase || GI_PHASE == t.currentPhase && t.currentRule != -1)
//@ ensures [the phase never goes back] t.currentPhase >= old(t.currentPhase)
//@ ensures [what runs is in the phase] LOG == old(LOG) || GI_PHASE == PhaseConnection
//@ ensures [the monitor still holds] GI_PHASE < t.currentPhase || GI_PHASE == t.currentPhase && t.currentRule != -1
//@ ensures [a phase that was not reached is processed] !old(t.Abort) && (t.Engine.Enabled || t.Engine.DetectionOnly) && old(t.currentPhase) < PhaseConnection && len(nth2(t, PhaseConnection)) > 0 ==> GI_PHASE == PhaseConnection
//@ ensures [what the host supplies is kept] t.SrcIp == srcIp && t.SrcPort == srcPort && t.DstIp == dstIp && t.DstPort == dstPort
//@ ensures [the rules see what the host supplies] LOG != old(LOG) ==> GS_NET == srcIp + " " + srcPort + " " + dstIp + " " + dstPort
func verifProcessConnection(t *Transaction, srcIp, srcPort, dstIp, dstPort string) { t.ProcessConnection(srcIp, srcPort, dstIp, dstPort) }

//@ client
//@ prop C06 C12 C08/frame
//@ modifies anything
//@ writes modsecurity\.Transaction\.Abort modsecurity\.Transaction\.intervention modsecurity\.Intervention\..* modsecurity\.Transaction\.(currentPhase|currentRule|nextRule) modsecurity\.Request\.Header
//@ requires t != nil && 0 <= t.currentPhase && t.currentPhase <= PhaseEnd && t.currentRule >= -2 && SpecHeld(t)
//@ requires GI_PHASE >= 0 && GI_IDX >= 0 && (GI_PHASE < t.currentPhase || GI_PHASE == t.currentPhase && t.currentRule != -1)
//@ ensures [the phase never goes back] t.currentPhase >= old(t.currentPhase)
//@ ensures [what runs is in the phase] LOG == old(LOG) || GI_PHASE == PhaseRequestHeaders
//@ ensures [the monitor still holds] GI_PHASE < t.currentPhase || GI_PHASE == t.currentPhase && t.currentRule != -1
//@ ensures [a phase that was not reached is processed] !old(t.Abort) && (t.Engine.Enabled || t.Engine.DetectionOnly) && old(t.currentPhase) < PhaseRequestHeaders && len(nth2(t, PhaseRequestHeaders)) > 0 ==> GI_PHASE == PhaseRequestHeaders
//@ ensures [what the host supplies is kept] (h != nil ==> t.Request.Header == h) && t.Request.Header != nil
//@ ensures [the rules see what the host supplies] LOG != old(LOG) ==> GI_REQ == t.Request.Header
func verifProcessRequestHeader(t *Transaction, h http.Header) { t.ProcessRequestHeader(h) }

//@ client
//@ prop C06 C12 C08/frame
//@ modifies anything
//@ writes modsecurity\.Transaction\.Abort modsecurity\.Transaction\.intervention modsecurity\.Intervention\..* modsecurity\.Transaction\.(currentPhase|currentRule|nextRule)
//@ requires t != nil && 0 <= t.currentPhase && t.currentPhase <= PhaseEnd && t.currentRule >= -2 && SpecHeld(t)
//@ requires GI_PHASE >= 0 && GI_IDX >= 0 && (GI_PHASE < t.currentPhase || GI_PHASE == t.currentPhase && t.currentRule != -1)
//@ ensures [the phase never goes back] t.currentPhase >= old(t.currentPhase)
//@ ensures [what runs is in the phase] LOG == old(LOG) || GI_PHASE == PhaseRequestBody
//@ ensures [the monitor still holds] GI_PHASE < t.currentPhase || GI_PHASE == t.currentPhase && t.currentRule != -1
//@ ensures [a phase that was not reached is processed] !old(t.Abort) && (t.Engine.Enabled || t.Engine.DetectionOnly) && old(t.currentPhase) < PhaseRequestBody && len(nth2(t, PhaseRequestBody)) > 0 ==> GI_PHASE == PhaseRequestBody
func verifProcessRequestBody(t *Transaction) { t.ProcessRequestBody() }

//@ client
//@ prop C06 C12 C08/frame
//@ modifies anything
//@ writes modsecurity\.Transaction\.Abort modsecurity\.Transaction\.intervention modsecurity\.Intervention\..* modsecurity\.Transaction\.(currentPhase|currentRule|nextRule) modsecurity\.Response\.(Code|Proto|Header)
//@ requires t != nil && 0 <= t.currentPhase && t.currentPhase <= PhaseEnd && t.currentRule >= -2 && SpecHeld(t)
//@ requires GI_PHASE >= 0 && GI_IDX >= 0 && (GI_PHASE < t.currentPhase || GI_PHASE == t.currentPhase && t.currentRule != -1)
//@ ensures [the phase never goes back] t.currentPhase >= old(t.currentPhase)
//@ ensures [what runs is in the phase] LOG == old(LOG) || GI_PHASE == PhaseResponseHeaders
//@ ensures [the monitor still holds] GI_PHASE < t.currentPhase || GI_PHASE == t.currentPhase && t.currentRule != -1
//@ ensures [a phase that was not reached is processed] !old(t.Abort) && (t.Engine.Enabled || t.Engine.DetectionOnly) && old(t.currentPhase) < PhaseResponseHeaders && len(nth2(t, PhaseResponseHeaders)) > 0 ==> GI_PHASE == PhaseResponseHeaders
//@ ensures [what the host supplies is kept] t.Code == code && t.Response.Proto == proto && (h != nil ==> t.Response.Header == h) && t.Response.Header != nil
//@ ensures [the rules see what the host supplies] LOG != old(LOG) ==> GI_RES == t.Response.Header && GI_CODE == code && GS_PROTO == proto
func verifProcessResponseHeaders(t *Transaction, code int, proto string, h http.Header) { t.ProcessResponseHeaders(code, proto, h) }

//@ client
//@ prop C06 C12 C08/frame
//@ modifies anything
//@ writes modsecurity\.Transaction\.Abort modsecurity\.Transaction\.intervention modsecurity\.Intervention\..* modsecurity\.Transaction\.(currentPhase|currentRule|nextRule)
//@ requires t != nil && 0 <= t.currentPhase && t.currentPhase <= PhaseEnd && t.currentRule >= -2 && SpecHeld(t)
//@ requires GI_PHASE >= 0 && GI_IDX >= 0 && (GI_PHASE < t.currentPhase || GI_PHASE == t.currentPhase && t.currentRule != -1)
//@ ensures [the phase never goes back] t.currentPhase >= old(t.currentPhase)
//@ ensures [what runs is in the phase] LOG == old(LOG) || GI_PHASE == PhaseResponseBody
//@ ensures [the monitor still holds] GI_PHASE < t.currentPhase || GI_PHASE == t.currentPhase && t.currentRule != -1
//@ ensures [a phase that was not reached is processed] !old(t.Abort) && (t.Engine.Enabled || t.Engine.DetectionOnly) && old(t.currentPhase) < PhaseResponseBody && len(nth2(t, PhaseResponseBody)) > 0 ==> GI_PHASE == PhaseResponseBody
func verifProcessResponseBody(t *Transaction) { t.ProcessResponseBody() }

//@ client
//@ prop C06 C12 C08/frame
//@ modifies anything
//@ writes modsecurity\.Transaction\.Abort modsecurity\.Transaction\.intervention modsecurity\.Intervention\..* modsecurity\.Transaction\.(currentPhase|currentRule|nextRule)
//@ requires t != nil && 0 <= t.currentPhase && t.currentPhase <= PhaseEnd && t.currentRule >= -2 && SpecHeld(t)
//@ requires GI_PHASE >= 0 && GI_IDX >= 0 && (GI_PHASE < t.currentPhase || GI_PHASE == t.currentPhase && t.currentRule != -1)
//@ ensures [the phase never goes back] t.currentPhase >= old(t.currentPhase)
//@ ensures [what runs is in the phase] LOG == old(LOG) || GI_PHASE == PhaseLogging
//@ ensures [the monitor still holds] GI_PHASE < t.currentPhase || GI_PHASE == t.currentPhase && t.currentRule != -1
//@ ensures [a phase that was not reached is processed] !old(t.Abort) && (t.Engine.Enabled || t.Engine.DetectionOnly) && old(t.currentPhase) < PhaseLogging && len(nth2(t, PhaseLogging)) > 0 ==> GI_PHASE == PhaseLogging
func verifProcessLogging(t *Transaction) { t.ProcessLogging() }
