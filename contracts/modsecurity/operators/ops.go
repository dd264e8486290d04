package operators

import (
	"regexp"
	"strconv"
	"strings"

	"github.com/senghoo/modsecurity-go/modsecurity"
)

//@ client
//@ prop C03
//@ modifies nothing
//@ loop 1
//@ inv 0 <= i
//@ dec len(ss) - i
func verifEq(trs []*modsecurity.Transaction, ss []string, tr *modsecurity.Transaction, arg, s string) {
	a, bad := strconv.ParseInt(strings.TrimSpace(arg), 10, 64)
	op, err := NewOperatorEq(arg)
	vAssert((err == nil) == (bad == nil), "Eq: the argument is accepted iff it is an integer")
	if err != nil {
		return
	}
	vReach("Eq accepts an argument")
	v, e := strconv.ParseInt(strings.TrimSpace(s), 10, 64)
	if e != nil {
		v = 0
	}
	vAssert(op.Match(tr, s) == (v == a), "Eq: matches iff value == argument")
	for i := 0; i < len(ss) && i < len(trs); i++ {
		op.Match(trs[i], ss[i])
	}
	vAssert(op.Match(tr, s) == (v == a), "Eq: other matches before change nothing")
}

//@ client
//@ prop C03
//@ modifies nothing
//@ loop 1
//@ inv 0 <= i
//@ dec len(ss) - i
func verifGe(trs []*modsecurity.Transaction, ss []string, tr *modsecurity.Transaction, arg, s string) {
	a, bad := strconv.ParseInt(strings.TrimSpace(arg), 10, 64)
	op, err := NewOperatorGe(arg)
	vAssert((err == nil) == (bad == nil), "Ge: the argument is accepted iff it is an integer")
	if err != nil {
		return
	}
	vReach("Ge accepts an argument")
	v, e := strconv.ParseInt(strings.TrimSpace(s), 10, 64)
	if e != nil {
		v = 0
	}
	vAssert(op.Match(tr, s) == (v >= a), "Ge: matches iff value >= argument")
	for i := 0; i < len(ss) && i < len(trs); i++ {
		op.Match(trs[i], ss[i])
	}
	vAssert(op.Match(tr, s) == (v >= a), "Ge: other matches before change nothing")
}

//@ client
//@ prop C03
//@ modifies nothing
//@ loop 1
//@ inv 0 <= i
//@ dec len(ss) - i
func verifGt(trs []*modsecurity.Transaction, ss []string, tr *modsecurity.Transaction, arg, s string) {
	a, bad := strconv.ParseInt(strings.TrimSpace(arg), 10, 64)
	op, err := NewOperatorGt(arg)
	vAssert((err == nil) == (bad == nil), "Gt: the argument is accepted iff it is an integer")
	if err != nil {
		return
	}
	vReach("Gt accepts an argument")
	v, e := strconv.ParseInt(strings.TrimSpace(s), 10, 64)
	if e != nil {
		v = 0
	}
	vAssert(op.Match(tr, s) == (v > a), "Gt: matches iff value > argument")
	for i := 0; i < len(ss) && i < len(trs); i++ {
		op.Match(trs[i], ss[i])
	}
	vAssert(op.Match(tr, s) == (v > a), "Gt: other matches before change nothing")
}

//@ client
//@ prop C03
//@ modifies nothing
//@ loop 1
//@ inv 0 <= i
//@ dec len(ss) - i
func verifLe(trs []*modsecurity.Transaction, ss []string, tr *modsecurity.Transaction, arg, s string) {
	a, bad := strconv.ParseInt(strings.TrimSpace(arg), 10, 64)
	op, err := NewOperatorLe(arg)
	vAssert((err == nil) == (bad == nil), "Le: the argument is accepted iff it is an integer")
	if err != nil {
		return
	}
	vReach("Le accepts an argument")
	v, e := strconv.ParseInt(strings.TrimSpace(s), 10, 64)
	if e != nil {
		v = 0
	}
	vAssert(op.Match(tr, s) == (v <= a), "Le: matches iff value <= argument")
	for i := 0; i < len(ss) && i < len(trs); i++ {
		op.Match(trs[i], ss[i])
	}
	vAssert(op.Match(tr, s) == (v <= a), "Le: other matches before change nothing")
}

//@ client
//@ prop C03
//@ modifies nothing
//@ loop 1
//@ inv 0 <= i
//@ dec len(ss) - i
func verifLt(trs []*modsecurity.Transaction, ss []string, tr *modsecurity.Transaction, arg, s string) {
	a, bad := strconv.ParseInt(strings.TrimSpace(arg), 10, 64)
	op, err := NewOperatorLt(arg)
	vAssert((err == nil) == (bad == nil), "Lt: the argument is accepted iff it is an integer")
	if err != nil {
		return
	}
	vReach("Lt accepts an argument")
	v, e := strconv.ParseInt(strings.TrimSpace(s), 10, 64)
	if e != nil {
		v = 0
	}
	vAssert(op.Match(tr, s) == (v < a), "Lt: matches iff value < argument")
	for i := 0; i < len(ss) && i < len(trs); i++ {
		op.Match(trs[i], ss[i])
	}
	vAssert(op.Match(tr, s) == (v < a), "Lt: other matches before change nothing")
}

//@ client
//@ prop C03
//@ modifies nothing
//@ loop 1
//@ inv 0 <= i
//@ dec len(ss) - i
func verifRx(trs []*modsecurity.Transaction, ss []string, tr *modsecurity.Transaction, re, s string) {
	m, bad := regexp.Compile(re)
	op, err := NewOperatorRx(re)
	vAssert((err == nil) == (bad == nil), "rx: the argument is accepted iff it is a regular expression")
	if err != nil {
		return
	}
	vReach("rx accepts an argument")
	vAssert(op.Match(tr, s) == m.MatchString(s), "rx: matches iff the expression matches somewhere")
	for i := 0; i < len(ss) && i < len(trs); i++ {
		op.Match(trs[i], ss[i])
	}
	vAssert(op.Match(tr, s) == m.MatchString(s), "rx: other matches before change nothing")
}
