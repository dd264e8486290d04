package main

// Hash-consed SMT terms with light simplification.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

type Sort string

const (
	SInt   Sort = "Int"
	SBool  Sort = "Bool"
	SStr   Sort = "(Seq Int)"
	SIface Sort = "Iface"
)

func seqOf(s Sort) Sort { return Sort("(Seq " + string(s) + ")") }
func elemOf(s Sort) Sort {
	x := string(s)
	if !strings.HasPrefix(x, "(Seq ") {
		panic("elemOf " + x)
	}
	return Sort(x[5 : len(x)-1])
}
func arrOf(k, v Sort) Sort { return Sort("(Array " + string(k) + " " + string(v) + ")") }

type arrSort struct{ k, v Sort }

var arrSorts = map[Sort]arrSort{}

func mkArr(k, v Sort) Sort {
	s := arrOf(k, v)
	arrSorts[s] = arrSort{k, v}
	return s
}

type Term struct {
	Op   string // var const true false app lit ...
	Name string // var / app name
	Args []*Term
	Sort Sort
	I    *big.Int
	Ints []int64 // lit
	id   int
	hv   map[string]bool
}

var (
	terms   = map[string]*Term{}
	termN   int
	symN    int
	funSigs = map[string]string{} // declared function -> "(args) ret"
)

func mk(op, name string, srt Sort, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(name)
	b.WriteByte('|')
	b.WriteString(string(srt))
	for _, a := range args {
		fmt.Fprintf(&b, ",%d", a.id)
	}
	k := b.String()
	if t, ok := terms[k]; ok {
		return t
	}
	termN++
	t := &Term{Op: op, Name: name, Args: args, Sort: srt, id: termN}
	terms[k] = t
	return t
}

func Var(name string, s Sort) *Term { return mk("var", name, s) }
func Fresh(hint string, s Sort) *Term {
	symN++
	return Var(fmt.Sprintf("%s!%d", sanitize(hint), symN), s)
}
func sanitize(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' || r == '$' || r == '!' {
			return r
		}
		return '_'
	}, s)
}

func BigC(i *big.Int) *Term {
	t := mk("const", i.String(), SInt)
	if t.I == nil {
		t.I = new(big.Int).Set(i)
	}
	return t
}
func IntC(i int64) *Term { return BigC(big.NewInt(i)) }

var (
	True  = mk("true", "", SBool)
	False = mk("false", "", SBool)
)

func BoolC(b bool) *Term {
	if b {
		return True
	}
	return False
}

func isC(t *Term) bool { return t.Op == "const" }
func cval(t *Term) (int64, bool) {
	if t.Op == "const" && t.I.IsInt64() {
		return t.I.Int64(), true
	}
	return 0, false
}

// App is an uninterpreted (or SMT-defined) function application.
func App(f string, ret Sort, args ...*Term) *Term {
	var sb []string
	for _, a := range args {
		sb = append(sb, string(a.Sort))
	}
	sig := "(" + strings.Join(sb, " ") + ") " + string(ret)
	if old, ok := funSigs[f]; ok && old != sig {
		panic("function " + f + " used with " + sig + " and " + old)
	}
	funSigs[f] = sig
	return mk("app", f, ret, args...)
}

func Not(a *Term) *Term {
	switch a.Op {
	case "true":
		return False
	case "false":
		return True
	case "not":
		return a.Args[0]
	}
	return mk("not", "", SBool, a)
}
func And(as ...*Term) *Term {
	var l []*Term
	seen := map[int]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		switch t.Op {
		case "true":
			return true
		case "false":
			return false
		case "and":
			for _, x := range t.Args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if seen[t.id] {
			return true
		}
		seen[t.id] = true
		l = append(l, t)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return False
		}
	}
	for _, t := range l {
		if seen[Not(t).id] {
			return False
		}
	}
	if len(l) == 0 {
		return True
	}
	if len(l) == 1 {
		return l[0]
	}
	return mk("and", "", SBool, l...)
}
func Or(as ...*Term) *Term {
	n := make([]*Term, len(as))
	for i, a := range as {
		n[i] = Not(a)
	}
	x := And(n...)
	if x.Op == "and" {
		m := make([]*Term, len(x.Args))
		for i, a := range x.Args {
			m[i] = Not(a)
		}
		return mk("or", "", SBool, m...)
	}
	return Not(x)
}
func Implies(a, b *Term) *Term {
	if a == True {
		return b
	}
	if a == False || b == True || a == b {
		return True
	}
	if b == False {
		return Not(a)
	}
	return mk("=>", "", SBool, a, b)
}
func Ite(c, a, b *Term) *Term {
	if c == True {
		return a
	}
	if c == False {
		return b
	}
	if a == b {
		return a
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("ite sorts %s %s: %s / %s", a.Sort, b.Sort, a, b))
	}
	if a.Sort == SBool {
		if a == True && b == False {
			return c
		}
		if a == False && b == True {
			return Not(c)
		}
		if a == True {
			return Or(c, b)
		}
		if a == False {
			return And(Not(c), b)
		}
		if b == False {
			return And(c, a)
		}
		if b == True {
			return Or(Not(c), a)
		}
	}
	if c.Op == "not" {
		return Ite(c.Args[0], b, a)
	}
	if a.Op == "ite" && a.Args[0] == c {
		return Ite(c, a.Args[1], b)
	}
	if b.Op == "ite" && b.Args[0] == c {
		return Ite(c, a, b.Args[2])
	}
	return mk("ite", "", a.Sort, c, a, b)
}

// ---- linear arithmetic normal form

type lin struct {
	c  *big.Int
	co map[*Term]*big.Int
}

func toLin(t *Term) *lin {
	l := &lin{c: new(big.Int), co: map[*Term]*big.Int{}}
	l.add(t, big.NewInt(1))
	return l
}
func (l *lin) add(t *Term, k *big.Int) {
	switch t.Op {
	case "const":
		l.c.Add(l.c, new(big.Int).Mul(k, t.I))
	case "+":
		for _, a := range t.Args {
			l.add(a, k)
		}
	case "*":
		if isC(t.Args[0]) {
			l.add(t.Args[1], new(big.Int).Mul(k, t.Args[0].I))
			return
		}
		l.addAtom(t, k)
	default:
		l.addAtom(t, k)
	}
}
func (l *lin) addAtom(t *Term, k *big.Int) {
	o, ok := l.co[t]
	if !ok {
		o = new(big.Int)
	}
	n := new(big.Int).Add(o, k)
	if n.Sign() == 0 {
		delete(l.co, t)
	} else {
		l.co[t] = n
	}
}
func (l *lin) term() *Term {
	var ks []*Term
	for t := range l.co {
		ks = append(ks, t)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	var as []*Term
	for _, t := range ks {
		if l.co[t].IsInt64() && l.co[t].Int64() == 1 {
			as = append(as, t)
		} else {
			as = append(as, mk("*", "", SInt, BigC(l.co[t]), t))
		}
	}
	if l.c.Sign() != 0 || len(as) == 0 {
		as = append(as, BigC(l.c))
	}
	if len(as) == 1 {
		return as[0]
	}
	return mk("+", "", SInt, as...)
}
func Add(as ...*Term) *Term {
	l := &lin{c: new(big.Int), co: map[*Term]*big.Int{}}
	for _, a := range as {
		l.add(a, big.NewInt(1))
	}
	return l.term()
}
func Sub(a, b *Term) *Term {
	l := toLin(a)
	l.add(b, big.NewInt(-1))
	return l.term()
}
func Neg(a *Term) *Term { return Sub(IntC(0), a) }
func Mul(a, b *Term) *Term {
	if isC(b) {
		a, b = b, a
	}
	if isC(a) {
		l := &lin{c: new(big.Int), co: map[*Term]*big.Int{}}
		l.add(b, a.I)
		return l.term()
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("*", "", SInt, a, b)
}

// Div and Mod are the SMT-LIB (Euclidean) operations.
func Div(a, b *Term) *Term {
	if isC(a) && isC(b) && b.I.Sign() != 0 {
		return BigC(new(big.Int).Div(a.I, b.I))
	}
	return mk("div", "", SInt, a, b)
}
func Mod(a, b *Term) *Term {
	if isC(a) && isC(b) && b.I.Sign() != 0 {
		return BigC(new(big.Int).Mod(a.I, b.I))
	}
	if a.Op == "mod" && a.Args[1] == b {
		return a
	}
	return mk("mod", "", SInt, a, b)
}
func Le(a, b *Term) *Term {
	d := Sub(b, a)
	if isC(d) {
		return BoolC(d.I.Sign() >= 0)
	}
	// len(x) + c >= 0 with c >= 0
	if nonneg(d) {
		return True
	}
	return mk("<=", "", SBool, a, b)
}
func nonneg(t *Term) bool {
	switch t.Op {
	case "const":
		return t.I.Sign() >= 0
	case "seq.len":
		return true
	case "mod":
		return isC(t.Args[1]) && t.Args[1].I.Sign() > 0
	case "+":
		for _, a := range t.Args {
			if !nonneg(a) {
				return false
			}
		}
		return true
	case "*":
		return nonneg(t.Args[0]) && nonneg(t.Args[1])
	case "ite":
		return nonneg(t.Args[1]) && nonneg(t.Args[2])
	}
	return false
}
func Lt(a, b *Term) *Term { return Le(Add(a, IntC(1)), b) }
func Ge(a, b *Term) *Term { return Le(b, a) }
func Gt(a, b *Term) *Term { return Lt(b, a) }

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("eq sorts %s %s: %s / %s", a.Sort, b.Sort, a, b))
	}
	if a.Sort == SIface {
		// the tag alone tells nil
		if a == NilIf {
			return Eq(IfTag(b), IntC(0))
		}
		if b == NilIf {
			return Eq(IfTag(a), IntC(0))
		}
	}
	if a.Sort == SBool {
		switch {
		case a == True:
			return b
		case b == True:
			return a
		case a == False:
			return Not(b)
		case b == False:
			return Not(a)
		case a == Not(b):
			return False
		}
	}
	if a.Sort == SInt {
		d := Sub(a, b)
		if isC(d) {
			return BoolC(d.I.Sign() == 0)
		}
		if d.Op == "const" {
			return False
		}
	}
	if a.Op == "lit" && b.Op == "lit" {
		return False
	}
	if strings.HasPrefix(string(a.Sort), "(Seq ") {
		if r := seqEq(a, b); r != nil {
			return r
		}
	}
	if a.Op == "mkif" && b.Op == "mkif" {
		return And(Eq(a.Args[0], b.Args[0]), Eq(a.Args[1], b.Args[1]))
	}
	// ite with constant branches
	if a.Op == "ite" && (isConstLike(b)) && (isConstLike(a.Args[1]) || isConstLike(a.Args[2])) {
		return Ite(a.Args[0], Eq(a.Args[1], b), Eq(a.Args[2], b))
	}
	if b.Op == "ite" && (isConstLike(a)) && (isConstLike(b.Args[1]) || isConstLike(b.Args[2])) {
		return Ite(b.Args[0], Eq(b.Args[1], a), Eq(b.Args[2], a))
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("=", "", SBool, a, b)
}
func isConstLike(t *Term) bool {
	switch t.Op {
	case "const", "true", "false", "lit":
		return true
	case "mkif":
		return isConstLike(t.Args[0]) && isConstLike(t.Args[1])
	}
	return false
}

// ---- sequences

func Lit(s Sort, ints []int64) *Term {
	if len(ints) == 0 {
		return mk("seq.empty", "", s)
	}
	var b strings.Builder
	for _, i := range ints {
		fmt.Fprintf(&b, "%d ", i)
	}
	t := mk("lit", b.String(), s)
	t.Ints = ints
	return t
}
func StrC(s string) *Term {
	v := make([]int64, len(s))
	for i := 0; i < len(s); i++ {
		v[i] = int64(s[i])
	}
	return Lit(SStr, v)
}
func litOf(t *Term) ([]int64, bool) {
	switch t.Op {
	case "lit":
		return t.Ints, true
	case "seq.empty":
		return nil, true
	}
	return nil, false
}
func goStr(t *Term) (string, bool) {
	v, ok := litOf(t)
	if !ok || t.Sort != SStr {
		return "", false
	}
	b := make([]byte, len(v))
	for i := range v {
		if v[i] < 0 || v[i] > 255 {
			return "", false
		}
		b[i] = byte(v[i])
	}
	return string(b), true
}
func SeqEmpty(s Sort) *Term { return mk("seq.empty", "", s) }
func SeqUnit(e *Term) *Term {
	if i, ok := cval(e); ok {
		return Lit(seqOf(SInt), []int64{i})
	}
	return mk("seq.unit", "", seqOf(e.Sort), e)
}
func SeqCat(as ...*Term) *Term {
	srt := as[0].Sort
	var l []*Term
	for _, a := range as {
		if a.Sort != srt {
			panic("seq.++ sorts " + string(a.Sort) + " " + string(srt))
		}
		var parts []*Term
		if a.Op == "seq.++" {
			parts = a.Args
		} else {
			parts = []*Term{a}
		}
		for _, p := range parts {
			if p.Op == "seq.empty" {
				continue
			}
			if p.Op == "lit" && len(l) > 0 && l[len(l)-1].Op == "lit" {
				l[len(l)-1] = Lit(srt, append(append([]int64{}, l[len(l)-1].Ints...), p.Ints...))
				continue
			}
			l = append(l, p)
		}
	}
	if len(l) == 0 {
		return SeqEmpty(srt)
	}
	if len(l) == 1 {
		return l[0]
	}
	return mk("seq.++", "", srt, l...)
}
func SeqLen(s *Term) *Term {
	switch s.Op {
	case "lit":
		return IntC(int64(len(s.Ints)))
	case "seq.empty":
		return IntC(0)
	case "seq.unit":
		return IntC(1)
	case "seq.++":
		var x []*Term
		for _, a := range s.Args {
			x = append(x, SeqLen(a))
		}
		return Add(x...)
	case "ite":
		a, b := SeqLen(s.Args[1]), SeqLen(s.Args[2])
		if a == b {
			return a
		}
	case "seq.upd":
		return SeqLen(s.Args[0])
	}
	return mk("seq.len", "", SInt, s)
}

// seqElems returns the elements when s is syntactically a sequence of fixed length.
func seqElems(s *Term) ([]*Term, bool) {
	switch s.Op {
	case "lit":
		var r []*Term
		for _, i := range s.Ints {
			r = append(r, IntC(i))
		}
		return r, true
	case "seq.empty":
		return nil, true
	case "seq.unit":
		return []*Term{s.Args[0]}, true
	case "seq.++":
		var r []*Term
		for _, a := range s.Args {
			e, ok := seqElems(a)
			if !ok {
				return nil, false
			}
			r = append(r, e...)
		}
		return r, true
	}
	return nil, false
}
func seqOfElems(srt Sort, es []*Term) *Term {
	r := SeqEmpty(srt)
	xs := []*Term{r}
	for _, e := range es {
		xs = append(xs, SeqUnit(e))
	}
	return SeqCat(xs...)
}
func SeqNth(s, i *Term) *Term {
	if es, ok := seqElems(s); ok {
		if c, ok2 := cval(i); ok2 && c >= 0 && c < int64(len(es)) {
			return es[c]
		}
		// symbolic index into a short fixed sequence
		if len(es) > 0 && len(es) <= 16 {
			r := es[len(es)-1]
			for k := len(es) - 2; k >= 0; k-- {
				r = Ite(Eq(i, IntC(int64(k))), es[k], r)
			}
			return r
		}
	}
	if s.Op == "seq.++" {
		// constant offset into a prefix of known length, or len(prefix) + c
		off := i
		for k, p := range s.Args {
			if c, ok := cval(off); ok && c >= 0 {
				if e, ok := seqElems(p); ok {
					if c < int64(len(e)) {
						return e[c]
					}
					off = IntC(c - int64(len(e)))
					continue
				}
			}
			d := Sub(off, SeqLen(p))
			if k+1 < len(s.Args) {
				if c, ok := cval(d); ok && c >= 0 {
					off = d
					continue
				}
			}
			break
		}
		// the index is exactly the length of a proper prefix
		pre := IntC(0)
		for k, p := range s.Args {
			d := Sub(i, pre)
			if c, ok := cval(d); ok && c >= 0 {
				if e, ok := seqElems(p); ok && c < int64(len(e)) {
					return e[c]
				}
			}
			pre = Add(pre, SeqLen(p))
			_ = k
		}
	}
	return mk("seq.nth", "", elemOf(s.Sort), s, i)
}

// SeqSub is s[lo:hi] for 0 <= lo <= hi <= len(s).
func SeqSub(s, lo, hi *Term) *Term {
	if lo == IntC(0) && hi == SeqLen(s) {
		return s
	}
	if lo == hi {
		return SeqEmpty(s.Sort)
	}
	if es, ok := seqElems(s); ok {
		a, ok1 := cval(lo)
		b, ok2 := cval(hi)
		if ok1 && ok2 && a >= 0 && a <= b && b <= int64(len(es)) {
			return seqOfElems(s.Sort, es[a:b])
		}
	}
	if s.Op == "seq.++" {
		// drop whole leading parts when lo covers them; cut whole trailing parts
		pre := IntC(0)
		for k, p := range s.Args {
			if lo == pre && k > 0 {
				return SeqSub(SeqCat(s.Args[k:]...), IntC(0), Sub(hi, pre))
			}
			if k > 0 && lo == IntC(0) && hi == pre {
				return SeqCat(s.Args[:k]...)
			}
			pre = Add(pre, SeqLen(p))
		}
	}
	if s.Op == "seq.extract" {
		// extract(extract(x,a,n), lo, m) = x[a+lo, a+hi) when in range (callers check)
		return mk("seq.extract", "", s.Sort, s.Args[0], Add(s.Args[1], lo), Sub(hi, lo))
	}
	return mk("seq.extract", "", s.Sort, s, lo, Sub(hi, lo))
}

// SeqUpd is s with element i replaced (0 <= i < len(s)).
func SeqUpd(s, i, v *Term) *Term {
	if es, ok := seqElems(s); ok && len(es) <= 64 {
		n := make([]*Term, len(es))
		for k := range es {
			n[k] = Ite(Eq(i, IntC(int64(k))), v, es[k])
		}
		return seqOfElems(s.Sort, n)
	}
	return SeqCat(SeqSub(s, IntC(0), i), SeqUnit(v), SeqSub(s, Add(i, IntC(1)), SeqLen(s)))
}
func seqEq(a, b *Term) *Term {
	// strip equal leading and trailing parts
	pa, pb := seqParts(a), seqParts(b)
	n := 0
	for len(pa) > 0 && len(pb) > 0 {
		if pa[0] == pb[0] {
			pa, pb = pa[1:], pb[1:]
			n++
			continue
		}
		if pa[0].Op == "lit" && pb[0].Op == "lit" {
			x, y := pa[0].Ints, pb[0].Ints
			m := 0
			for m < len(x) && m < len(y) && x[m] == y[m] {
				m++
			}
			if m < len(x) && m < len(y) {
				return False
			}
			pa = pushLit(pa, x[m:])
			pb = pushLit(pb, y[m:])
			n++
			continue
		}
		break
	}
	for len(pa) > 0 && len(pb) > 0 && pa[len(pa)-1] == pb[len(pb)-1] {
		pa, pb = pa[:len(pa)-1], pb[:len(pb)-1]
		n++
	}
	if n > 0 {
		return Eq(SeqCat(append([]*Term{SeqEmpty(a.Sort)}, pa...)...), SeqCat(append([]*Term{SeqEmpty(a.Sort)}, pb...)...))
	}
	ea, ok1 := seqElems(a)
	eb, ok2 := seqElems(b)
	if ok1 && ok2 {
		if len(ea) != len(eb) {
			return False
		}
		var c []*Term
		for i := range ea {
			c = append(c, Eq(ea[i], eb[i]))
		}
		return And(c...)
	}
	if a.Op == "seq.empty" || b.Op == "seq.empty" {
		o := a
		if a.Op == "seq.empty" {
			o = b
		}
		for _, p := range seqParts(o) {
			if p.Op == "seq.unit" || p.Op == "lit" {
				return False
			}
		}
	}
	return nil
}
func seqParts(a *Term) []*Term {
	switch a.Op {
	case "seq.empty":
		return nil
	case "seq.++":
		return a.Args
	}
	return []*Term{a}
}
func pushLit(p []*Term, rest []int64) []*Term {
	if len(rest) == 0 {
		return p[1:]
	}
	return append([]*Term{Lit(p[0].Sort, rest)}, p[1:]...)
}

// ---- arrays

func ConstArr(s Sort, v *Term) *Term { return mk("constarr", "", s, v) }

// distinct says that a and b are certainly different.
func distinct(a, b *Term) bool { return Eq(a, b) == False }

func Select(a, k *Term) *Term {
	for {
		switch a.Op {
		case "store":
			if a.Args[1] == k {
				return a.Args[2]
			}
			if distinct(a.Args[1], k) || refDistinct(a.Args[1], k) {
				a = a.Args[0]
				continue
			}
		case "constarr":
			return a.Args[0]
		case "ite":
			return Ite(a.Args[0], Select(a.Args[1], k), Select(a.Args[2], k))
		}
		break
	}
	return mk("select", "", arrSorts[a.Sort].v, a, k)
}
func Store(a, k, v *Term) *Term {
	if a.Op == "store" && a.Args[1] == k {
		a = a.Args[0]
	}
	if v.Op == "select" && v.Args[0] == a && v.Args[1] == k {
		return a
	}
	if v.Sort != arrSorts[a.Sort].v {
		panic(fmt.Sprintf("store %s into %s", v.Sort, a.Sort))
	}
	return mk("store", "", a.Sort, a, k, v)
}

// References: a reference variable named "old..." is at most the watermark it was
// created under; allocation gives watermark+n. refDistinct decides the easy cases.
var refBound = map[*Term]*Term{} // ref term -> watermark it is known to be <=

func refDistinct(a, b *Term) bool {
	if w, ok := refBound[a]; ok {
		if c, ok := cval(Sub(b, w)); ok && c > 0 {
			return true
		}
	}
	if w, ok := refBound[b]; ok {
		if c, ok := cval(Sub(a, w)); ok && c > 0 {
			return true
		}
	}
	return false
}

// ---- interfaces

func MkIf(tag, pay *Term) *Term { return mk("mkif", "", SIface, tag, pay) }

var NilIf = MkIf(IntC(0), IntC(0))

func IfTag(t *Term) *Term {
	switch t.Op {
	case "mkif":
		return t.Args[0]
	case "ite":
		return Ite(t.Args[0], IfTag(t.Args[1]), IfTag(t.Args[2]))
	}
	return mk("iftag", "", SInt, t)
}
func IfPay(t *Term) *Term {
	switch t.Op {
	case "mkif":
		return t.Args[1]
	case "ite":
		return Ite(t.Args[0], IfPay(t.Args[1]), IfPay(t.Args[2]))
	}
	return mk("ifpay", "", SInt, t)
}

// ---- printing

func (t *Term) String() string {
	s := printTerm(t, nil)
	if len(s) > 4000 {
		s = s[:4000] + "..."
	}
	return s
}

func intLit(i *big.Int) string {
	if i.Sign() < 0 {
		return "(- " + new(big.Int).Neg(i).String() + ")"
	}
	return i.String()
}
func int64Lit(i int64) string { return intLit(big.NewInt(i)) }

func printTerm(t *Term, names map[*Term]string) string {
	if names != nil {
		if n, ok := names[t]; ok {
			return n
		}
	}
	p := func(a *Term) string { return printTerm(a, names) }
	args := func() string {
		var sb []string
		for _, a := range t.Args {
			sb = append(sb, p(a))
		}
		return strings.Join(sb, " ")
	}
	switch t.Op {
	case "var":
		return "|" + t.Name + "|"
	case "const":
		return intLit(t.I)
	case "true", "false":
		return t.Op
	case "lit":
		if len(t.Ints) == 1 {
			return "(seq.unit " + int64Lit(t.Ints[0]) + ")"
		}
		var sb []string
		for _, i := range t.Ints {
			sb = append(sb, "(seq.unit "+int64Lit(i)+")")
		}
		return "(seq.++ " + strings.Join(sb, " ") + ")"
	case "seq.empty":
		return "(as seq.empty " + string(t.Sort) + ")"
	case "app":
		if len(t.Args) == 0 {
			return "|" + t.Name + "|"
		}
		return "(|" + t.Name + "| " + args() + ")"
	case "constarr":
		return "((as const " + string(t.Sort) + ") " + args() + ")"
	}
	return "(" + t.Op + " " + args() + ")"
}

// vars and functions occurring in the terms
func collect(ts []*Term, seen map[*Term]int, order *[]*Term) {
	var rec func(t *Term)
	rec = func(t *Term) {
		seen[t]++
		if seen[t] > 1 {
			return
		}
		for _, a := range t.Args {
			rec(a)
		}
		*order = append(*order, t)
	}
	for _, t := range ts {
		rec(t)
	}
}
