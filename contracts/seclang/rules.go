package seclang

import (
	"github.com/senghoo/modsecurity-go/modsecurity"
	"github.com/senghoo/modsecurity-go/seclang/parser"
)

// ---- directives that are not rules: what is written is what the engine gets

//@ client
//@ prop C09 C16 C17
//@ modifies anything
//@ writes modsecurity\.Engine\.(Enabled|DetectionOnly)
//@ requires r != nil && d != nil && e != nil && e.Limits != nil
func verifDireRuleEngine(r *DireRuleEngine, d *parser.TriBoolArgDirective, e *modsecurity.Engine) {
	if d.Tk != parser.TkDirRuleEng || d.Value < 0 || d.Value > 2 {
		_, err := r.FromSecLang(d)
		vAssert(d.Tk == parser.TkDirRuleEng || err != nil, "a directive of another kind is refused")
		return
	}
	v, req, res := d.Value, e.Limits.RequestBodyAccess, e.Limits.ResponseBodyAccess
	dire, err := r.FromSecLang(d)
	vAssert(err == nil, "SecRuleEngine compiles")
	vAssert(dire.Execute(e) == nil, "SecRuleEngine is carried out")
	vAssert(v != parser.TriBoolTrue || e.Enabled && !e.DetectionOnly, "On")
	vAssert(v != parser.TriBoolFalse || !e.Enabled && !e.DetectionOnly, "Off")
	vAssert(v != parser.TriBoolElse || !e.Enabled && e.DetectionOnly, "DetectionOnly")
	vAssert(e.Limits.RequestBodyAccess == req && e.Limits.ResponseBodyAccess == res, "nothing else")
}

//@ client
//@ prop C16 C17
//@ modifies anything
//@ writes modsecurity\.Limits\.RequestBodyAccess
//@ requires r != nil && d != nil && e != nil && e.Limits != nil
func verifDireRequestBody(r *DireRequestBodyAccess, d *parser.BoolArgDirective, e *modsecurity.Engine) {
	v, res, en, de := d.Value, e.Limits.ResponseBodyAccess, e.Enabled, e.DetectionOnly
	dire, err := r.FromSecLang(d)
	vAssert((err == nil) == (d.Tk == parser.TkDirReqBody), "SecRequestBodyAccess compiles and nothing else does")
	if err != nil {
		return
	}
	vAssert(dire.Execute(e) == nil, "SecRequestBodyAccess is carried out")
	vAssert(e.Limits.RequestBodyAccess == v, "what was written")
	vAssert(e.Limits.ResponseBodyAccess == res && e.Enabled == en && e.DetectionOnly == de, "nothing else")
}

//@ client
//@ prop C16 C17
//@ modifies anything
//@ writes modsecurity\.Limits\.ResponseBodyAccess
//@ requires r != nil && d != nil && e != nil && e.Limits != nil
func verifDireResponseBody(r *DireResponseBodyAccess, d *parser.BoolArgDirective, e *modsecurity.Engine) {
	v, req, en, de := d.Value, e.Limits.RequestBodyAccess, e.Enabled, e.DetectionOnly
	dire, err := r.FromSecLang(d)
	vAssert((err == nil) == (d.Tk == parser.TkDirResBody), "SecResponseBodyAccess compiles and nothing else does")
	if err != nil {
		return
	}
	vAssert(dire.Execute(e) == nil, "SecResponseBodyAccess is carried out")
	vAssert(e.Limits.ResponseBodyAccess == v, "what was written")
	vAssert(e.Limits.RequestBodyAccess == req && e.Enabled == en && e.DetectionOnly == de, "nothing else")
}
