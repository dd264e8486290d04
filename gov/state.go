package main

import (
	"fmt"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- executor values

type Val interface{}

// SliceV is a slice value: a view into a backing array this execution owns
// (bid != 0) or a borrowed value (bid == 0) that may only be read.
type SliceV struct {
	bid     int
	off, ln *Term
	seq     *Term // content when bid == 0
	nilb    *Term
	elem    types.Type
	fromKey string // heap location a borrowed slice was loaded from
	fromRef *Term
	// the owned list of lists it was loaded from
	slotBid, slotVer int
	slotIdx          *Term
}
type FuncV struct {
	fn   *ssa.Function
	bind []Val
	sym  *Term
}
type PtrCell struct{ cell int }
type PtrField struct {
	ref  *Term
	key  string // heap key prefix "pkg.Type.field"
	ft   types.Type
	bind string
}
type PtrElem struct {
	bid  int
	idx  *Term
	elem types.Type
}
type PtrElemVal struct { // element of a borrowed slice
	seq, idx *Term
	elem     types.Type
	from     string
}
type TupleV []Val
type StructV struct {
	fs  []Val
	typ types.Type
}
type IterV struct {
	id int
}
type TypeV struct{ t types.Type } // for the clause evaluator

type fact struct {
	t      *Term
	cond   bool
	parent *fact
	n      int
	// derived facts follow from the facts before them
	derived bool
}

type State struct {
	facts   *fact
	cells   map[int]Val
	heap    map[string]*Term
	backs   map[int]*Term
	kids    map[int][]int // backing -> backings made from it by append
	par     map[int]int
	water   *Term // every reference that exists is <= water + allocs
	alloc   int64
	esc     map[int]bool
	foreign map[int]bool // owned lists that hold slices owned by others
	pend    map[int]bool // owned lists with an append not yet stored back
	slotVer map[int]int
	stored  map[int]bool // owned slices that were put into a list
	epoch   int
	wmods   []wmod
	symMark int
}

// wmod: protected memory that a call with a writes clause may have changed.
type wmod struct {
	ws    *writeSet
	epoch int
}

// writeSet is what a contract with a writes clause may change of the protected memory.
type writeSet struct {
	src []string
	re  []*regexp.Regexp
}

func (w *writeSet) has(key string) bool {
	if w == nil {
		return false
	}
	for _, r := range w.re {
		if r.MatchString(key) {
			return true
		}
	}
	return false
}

// covers: everything that v may change w may change too.
func (w *writeSet) covers(v *writeSet) bool {
	if v == nil {
		return true
	}
	if w == nil {
		return false
	}
	for _, a := range v.src {
		ok := false
		for _, b := range w.src {
			ok = ok || a == b
		}
		if !ok {
			return false
		}
	}
	return true
}

func (s *State) clone() *State {
	n := *s
	n.cells = make(map[int]Val, len(s.cells))
	for k, v := range s.cells {
		n.cells[k] = v
	}
	n.heap = make(map[string]*Term, len(s.heap))
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.backs = make(map[int]*Term, len(s.backs))
	for k, v := range s.backs {
		n.backs[k] = v
	}
	n.kids = make(map[int][]int, len(s.kids))
	for k, v := range s.kids {
		n.kids[k] = v
	}
	n.par = make(map[int]int, len(s.par))
	for k, v := range s.par {
		n.par[k] = v
	}
	n.foreign, n.pend, n.stored, n.slotVer = map[int]bool{}, map[int]bool{}, map[int]bool{}, map[int]int{}
	for k, v := range s.foreign {
		n.foreign[k] = v
	}
	for k, v := range s.pend {
		n.pend[k] = v
	}
	for k, v := range s.stored {
		n.stored[k] = v
	}
	for k, v := range s.slotVer {
		n.slotVer[k] = v
	}
	n.esc = make(map[int]bool, len(s.esc))
	for k, v := range s.esc {
		n.esc[k] = v
	}
	return &n
}

func (s *State) derive(t *Term) {
	if t == True {
		return
	}
	s.add(t, true)
	s.facts.cond, s.facts.derived = false, true
}
func (s *State) assume(t *Term) { s.add(t, false) }
func (s *State) add(t *Term, cond bool) {
	if t == True {
		return
	}
	if t.Op == "and" && !cond {
		for _, a := range t.Args {
			s.add(a, false)
		}
		return
	}
	n := 0
	if s.facts != nil {
		n = s.facts.n
	}
	s.facts = &fact{t, cond, s.facts, n + 1, false}
}
func (s *State) factList() []*Term {
	var l []*Term
	for f := s.facts; f != nil; f = f.parent {
		l = append(l, f.t)
	}
	for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
		l[i], l[j] = l[j], l[i]
	}
	return l
}
func (s *State) mark() *Term { return Add(s.water, IntC(s.alloc)) }

// ---- Go types to sorts

func under(t types.Type) types.Type { return t.Underlying() }

type unsupported struct{ msg string }

func unsup(f string, a ...interface{}) { panic(unsupported{fmt.Sprintf(f, a...)}) }

func sortOf(t types.Type) Sort {
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return SBool
		case u.Info()&types.IsString != 0:
			return SStr
		case u.Info()&types.IsInteger != 0:
			return SInt
		case u.Kind() == types.UntypedNil:
			return SIface
		case u.Kind() == types.UnsafePointer:
			return SInt
		}
	case *types.Pointer, *types.Map, *types.Signature, *types.Chan:
		return SInt
	case *types.Interface:
		return SIface
	case *types.Slice:
		return seqOf(sortOf(u.Elem()))
	case *types.Array:
		return seqOf(sortOf(u.Elem()))
	}
	return SInt // opaque
}

func typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Path() })
}
func shortType(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

var typeIDs = map[string]int64{}
var typeByID = map[int64]types.Type{}

func typeID(t types.Type) int64 {
	n := typeName(t)
	if id, ok := typeIDs[n]; ok {
		return id
	}
	id := int64(len(typeIDs) + 1)
	typeIDs[n] = id
	typeByID[id] = t
	return id
}

func intBounds(t types.Type) (lo, hi string, ok bool) {
	b, isB := under(t).(*types.Basic)
	if !isB {
		return
	}
	switch b.Kind() {
	case types.Uint8:
		return "0", "255", true
	case types.Int8:
		return "-128", "127", true
	case types.Uint16:
		return "0", "65535", true
	case types.Int16:
		return "-32768", "32767", true
	case types.Int32:
		return "-2147483648", "2147483647", true
	case types.Uint32:
		return "0", "4294967295", true
	case types.Int, types.Int64:
		return "-9223372036854775808", "9223372036854775807", true
	case types.Uint, types.Uint64, types.Uintptr:
		return "0", "18446744073709551615", true
	}
	return
}

// ---- value <-> term

type closureTab struct {
	vals []FuncV
	keys map[string]int64
}

var closures = closureTab{keys: map[string]int64{}}

func valKey(v Val) string {
	switch v := v.(type) {
	case *Term:
		return fmt.Sprintf("t%d", v.id)
	case PtrCell:
		return fmt.Sprintf("c%d", v.cell)
	case FuncV:
		if v.sym != nil {
			return fmt.Sprintf("fs%d", v.sym.id)
		}
		return fmt.Sprintf("f%d", funcID(v))
	case SliceV:
		if v.bid == 0 {
			return fmt.Sprintf("s%d", v.seq.id)
		}
		return fmt.Sprintf("b%d/%d/%d", v.bid, v.off.id, v.ln.id)
	}
	return fmt.Sprintf("%T%p", v, v)
}

func funcID(f FuncV) int64 {
	if f.sym != nil {
		unsup("id of a symbolic function")
	}
	if f.fn == nil {
		return 0
	}
	k := f.fn.String()
	for _, b := range f.bind {
		k += "|" + valKey(b)
	}
	if id, ok := closures.keys[k]; ok {
		return id
	}
	closures.vals = append(closures.vals, f)
	id := int64(len(closures.vals)) + 1000
	closures.keys[k] = id
	return id
}
func funcOfTerm(t *Term) (FuncV, bool) {
	if c, ok := cval(t); ok && c > 1000 && c <= 1000+int64(len(closures.vals)) {
		return closures.vals[c-1001], true
	}
	return FuncV{}, false
}

// toTerm encodes a value as one SMT term (losing the nil bit of nested slices).
func (x *Exec) toTerm(st *State, v Val, t types.Type) *Term {
	switch v := v.(type) {
	case *Term:
		return v
	case SliceV:
		if v.bid != 0 {
			x.escape(st, v.bid)
		}
		return x.content(st, v)
	case FuncV:
		if v.sym != nil {
			return v.sym
		}
		return IntC(funcID(v))
	case StructV:
		return Fresh("structval", SInt)
	case PtrCell:
		// identity of a cell: opaque
		x.note("pointer to a local variable stored in memory")
		return IntC(int64(500000 + v.cell))
	case PtrElem, PtrElemVal, PtrField:
		return Fresh("ptr", SInt)
	case nil:
		return zeroTerm(t)
	}
	unsup("cannot encode %T", v)
	return nil
}

func (x *Exec) escape(st *State, bid int) {
	st.esc[bid] = true
}

// content is the sequence a slice value stands for.
func (x *Exec) content(st *State, v SliceV) *Term {
	if v.bid == 0 {
		return v.seq
	}
	c := st.backs[v.bid]
	return SeqSub(c, v.off, Add(v.off, v.ln))
}
func (x *Exec) sliceLen(st *State, v SliceV) *Term {
	if v.bid == 0 {
		return SeqLen(v.seq)
	}
	return v.ln
}

// fromTerm decodes a term of type t read from memory.
func (x *Exec) fromTerm(st *State, tm *Term, t types.Type) Val {
	switch u := under(t).(type) {
	case *types.Slice:
		nb := Fresh("nil", SBool)
		st.assume(Implies(nb, Eq(SeqLen(tm), IntC(0))))
		return SliceV{seq: tm, nilb: nb, elem: u.Elem()}
	case *types.Signature:
		if f, ok := funcOfTerm(tm); ok {
			return f
		}
		if c, ok := cval(tm); ok && c == 0 {
			return FuncV{}
		}
		return FuncV{sym: tm}
	}
	x.typeFacts(st, tm, t)
	return tm
}

func (x *Exec) typeFacts(st *State, tm *Term, t types.Type) {
	switch tm.Op {
	case "const", "lit", "true", "false", "seq.empty", "mkif", "+", "seq.len":
		return
	}
	switch u := under(t).(type) {
	case *types.Basic:
		if u.Info()&types.IsInteger != 0 && (u.Kind() != types.Int && u.Kind() != types.Int64) {
			lo, hi, ok := intBounds(t)
			if ok {
				st.assume(And(Le(bigS(lo), tm), Le(tm, bigS(hi))))
			}
		}
	case *types.Pointer, *types.Map:
		x.refFacts(st, tm)
	case *types.Interface:
		// the payload of a pointer or map is a live reference
		x.ifaceFacts(st, tm)
	}
}
func (x *Exec) refFacts(st *State, tm *Term) {
	if tm.Op == "ite" {
		x.refFacts(st, tm.Args[1])
		x.refFacts(st, tm.Args[2])
		return
	}
	if _, ok := refBound[tm]; ok {
		return
	}
	if tm.Op == "const" || tm.Op == "+" {
		return
	}
	w := st.mark()
	refBound[tm] = w
	x.refAx[tm] = And(Le(IntC(0), tm), Le(tm, w))
}
func (x *Exec) ifaceFacts(st *State, tm *Term) {
	p := IfPay(tm)
	x.refAxIface(st, tm)
	_ = p
}
func (x *Exec) refAxIface(st *State, tm *Term) {
	if tm.Op == "mkif" {
		return
	}
	p := IfPay(tm)
	if _, ok := refBound[p]; ok {
		return
	}
	if p.Op == "const" || p.Op == "+" {
		return
	}
	// ints and boxed strings in interfaces share the payload space: bounding the
	// payload by the watermark is only stated for reference types (tag test)
	if _, ok := x.refAx[p]; ok {
		return
	}
	x.refAx[p] = Implies(App("$isref", SBool, IfTag(tm)), And(Le(IntC(0), p), Le(p, st.mark())))
	x.refAx[tm] = Le(IntC(0), IfTag(tm))
}

func zeroTerm(t types.Type) *Term {
	switch s := sortOf(t); {
	case s == SInt:
		return IntC(0)
	case s == SBool:
		return False
	case s == SIface:
		return NilIf
	case strings.HasPrefix(string(s), "(Seq "):
		if a, ok := under(t).(*types.Array); ok {
			if a.Len() > 4096 {
				return Fresh("zeroarr", s)
			}
			var es []*Term
			z := zeroTerm(a.Elem())
			for i := int64(0); i < a.Len(); i++ {
				es = append(es, z)
			}
			return seqOfElems(s, es)
		}
		return SeqEmpty(s)
	}
	panic("zeroTerm")
}

func (x *Exec) zeroVal(st *State, t types.Type) Val {
	switch u := under(t).(type) {
	case *types.Slice:
		return SliceV{seq: SeqEmpty(sortOf(t)), nilb: True, elem: u.Elem()}
	case *types.Signature:
		return FuncV{}
	case *types.Struct:
		sv := StructV{typ: t}
		for i := 0; i < u.NumFields(); i++ {
			sv.fs = append(sv.fs, x.zeroVal(st, u.Field(i).Type()))
		}
		return sv
	case *types.Array:
		return zeroTerm(t)
	}
	return zeroTerm(t)
}

// freshVal is an arbitrary value of type t.
func (x *Exec) freshVal(st *State, t types.Type, hint string) Val {
	switch u := under(t).(type) {
	case *types.Slice:
		s := Fresh(hint, sortOf(t))
		nb := Fresh(hint+"_nil", SBool)
		st.assume(Implies(nb, Eq(SeqLen(s), IntC(0))))
		return SliceV{seq: s, nilb: nb, elem: u.Elem()}
	case *types.Signature:
		return FuncV{sym: Fresh(hint, SInt)}
	case *types.Struct:
		sv := StructV{typ: t}
		for i := 0; i < u.NumFields(); i++ {
			sv.fs = append(sv.fs, x.freshVal(st, u.Field(i).Type(), hint+"."+u.Field(i).Name()))
		}
		return sv
	case *types.Tuple:
		var tv TupleV
		for i := 0; i < u.Len(); i++ {
			tv = append(tv, x.freshVal(st, u.At(i).Type(), fmt.Sprintf("%s%d", hint, i)))
		}
		return tv
	}
	tm := Fresh(hint, sortOf(t))
	if b, ok := under(t).(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
		if lo, hi, ok := intBounds(t); ok {
			st.assume(And(Le(bigS(lo), tm), Le(tm, bigS(hi))))
		}
	}
	x.typeFacts(st, tm, t)
	return tm
}

// ---- memory

func (st *State) newRef() *Term {
	st.alloc++
	return st.mark()
}

func (x *Exec) heapArr(st *State, key string, vs Sort) *Term {
	if h, ok := st.heap[key]; ok {
		return h
	}
	srt := mkArr(SInt, vs)
	x.keySort[key] = vs
	n := "H_" + sanitize(key)
	if !x.L.protectedKey(key) {
		if st.epoch != 0 {
			n += fmt.Sprintf("@%d", st.epoch)
		}
	} else {
		for i := len(st.wmods) - 1; i >= 0; i-- {
			if st.wmods[i].ws.has(key) {
				n += fmt.Sprintf("@%d", st.wmods[i].epoch)
				break
			}
		}
	}
	h := Var(n, srt)
	st.heap[key] = h
	return h
}

type frameInfo struct {
	old   *Term
	water *Term   // refs <= water are unchanged ...
	exc   []*Term // ... except these
}

// heapSel reads H[ref], instantiating the frame of havocked arrays at ref.
func (x *Exec) heapSel(st *State, h, ref *Term) *Term {
	base := h
	for base.Op == "store" {
		base = base.Args[0]
	}
	x.frameAt(st, base, ref, 0)
	return Select(h, ref)
}
func (x *Exec) frameAt(st *State, base, ref *Term, depth int) {
	if depth > 40 {
		return
	}
	if base.Op == "ite" {
		for _, b := range base.Args[1:] {
			for b.Op == "store" {
				b = b.Args[0]
			}
			x.frameAt(st, b, ref, depth+1)
		}
		return
	}
	fi, ok := x.frames[base]
	if !ok {
		return
	}
	c := Le(ref, fi.water)
	if w, ok := refBound[ref]; ok {
		if d, ok := cval(Sub(fi.water, w)); ok && d >= 0 {
			c = True
		}
	}
	cs := []*Term{c}
	for _, e := range fi.exc {
		cs = append(cs, Not(Eq(ref, e)))
	}
	cond := And(cs...)
	if cond != False {
		st.assume(Implies(cond, Eq(Select(base, ref), Select(fi.old, ref))))
		b := fi.old
		for b.Op == "store" {
			b = b.Args[0]
		}
		x.frameAt(st, b, ref, depth+1)
	}
}

func (x *Exec) loadField(st *State, ref *Term, key string, ft types.Type) Val {
	switch u := under(ft).(type) {
	case *types.Struct:
		sv := StructV{typ: ft}
		for i := 0; i < u.NumFields(); i++ {
			sv.fs = append(sv.fs, x.loadField(st, ref, key+"."+u.Field(i).Name(), u.Field(i).Type()))
		}
		return sv
	case *types.Slice:
		s := x.heapSel(st, x.heapArr(st, key, sortOf(ft)), ref)
		nb := x.heapSel(st, x.heapArr(st, key+"#nil", SBool), ref)
		if nb != False {
			st.assume(Implies(nb, Eq(SeqLen(s), IntC(0))))
		}
		return SliceV{seq: s, nilb: nb, elem: u.Elem(), fromKey: key, fromRef: ref}
	}
	tm := x.heapSel(st, x.heapArr(st, key, sortOf(ft)), ref)
	if _, ok := under(ft).(*types.Signature); ok {
		x.symField[tm] = key
	}
	return x.notNil(st, x.fromTerm(st, tm, ft), key, ref)
}

func (x *Exec) storeField(st *State, ref *Term, key string, ft types.Type, v Val) {
	x.writeCheck(st, ref, key)
	x.storeFieldRaw(st, ref, key, ft, v)
}
func (x *Exec) storeFieldRaw(st *State, ref *Term, key string, ft types.Type, v Val) {
	switch u := under(ft).(type) {
	case *types.Struct:
		sv, ok := v.(StructV)
		if !ok {
			unsup("store of %T into struct field", v)
		}
		for i := 0; i < u.NumFields(); i++ {
			x.storeFieldRaw(st, ref, key+"."+u.Field(i).Name(), u.Field(i).Type(), sv.fs[i])
		}
		return
	case *types.Slice:
		sv, ok := v.(SliceV)
		if !ok {
			unsup("store of %T into slice field", v)
		}
		x.setHeap(st, key, ref, x.toTerm(st, sv, ft))
		x.setHeap(st, key+"#nil", ref, sv.nilb)
		return
	}
	x.setHeap(st, key, ref, x.toTerm(st, v, ft))
}
func (x *Exec) setHeap(st *State, key string, ref, v *Term) {
	h := x.heapArr(st, key, v.Sort)
	x.keySort[key] = v.Sort
	if x.wlog != nil {
		x.wlog(key, ref)
	}
	st.heap[key] = Store(h, ref, v)
}

// newObject allocates a zeroed struct object.
func (x *Exec) newObject(st *State, t types.Type) *Term {
	ref := st.newRef()
	x.zeroObject(st, ref, t)
	return ref
}
func (x *Exec) zeroObject(st *State, ref *Term, t types.Type) {
	if n, ok := t.(*types.Named); ok {
		if x.initModel(st, ref, n) {
			return
		}
	}
	u, ok := under(t).(*types.Struct)
	if !ok {
		unsup("new %s", t)
	}
	key := structKey(t)
	for i := 0; i < u.NumFields(); i++ {
		f := u.Field(i)
		x.zeroFieldRaw(st, ref, key+"."+f.Name(), f.Type())
	}
}
func (x *Exec) zeroFieldRaw(st *State, ref *Term, key string, ft types.Type) {
	defer func(w func(string, *Term)) { x.wlog = w }(x.wlog)
	x.storeFieldRaw(st, ref, key, ft, x.zeroVal(st, ft))
}

func structKey(t types.Type) string {
	if n, ok := t.(*types.Named); ok {
		return shortType(n)
	}
	return shortType(t)
}

// ---- maps: ref -> (dom: Array K Bool, val: Array K V), per map type

func mapKeys(t types.Type) (string, Sort, Sort, *types.Map) {
	m := under(t).(*types.Map)
	return "map[" + string(sortOf(m.Key())) + "]" + string(sortOf(m.Elem())), sortOf(m.Key()), sortOf(m.Elem()), m
}
func (x *Exec) mapDom(st *State, ref *Term, t types.Type) *Term {
	n, ks, _, _ := mapKeys(t)
	return x.heapSel(st, x.heapArr(st, n+".dom", mkArr(ks, SBool)), ref)
}
func (x *Exec) mapVal(st *State, ref *Term, t types.Type) *Term {
	n, ks, vs, _ := mapKeys(t)
	return x.heapSel(st, x.heapArr(st, n+".val", mkArr(ks, vs)), ref)
}
func (x *Exec) newMap(st *State, t types.Type) *Term {
	ref := st.newRef()
	n, ks, vs, m := mapKeys(t)
	defer func(w func(string, *Term)) { x.wlog = w }(x.wlog)
	x.setHeap(st, n+".dom", ref, ConstArr(mkArr(ks, SBool), False))
	x.setHeap(st, n+".val", ref, ConstArr(mkArr(ks, vs), zeroTerm(m.Elem())))
	return ref
}
func (x *Exec) mapGet(st *State, ref *Term, t types.Type, k *Term) (ok, v *Term) {
	_, _, _, m := mapKeys(t)
	d := x.mapDom(st, ref, t)
	va := x.mapVal(st, ref, t)
	ok = And(Not(Eq(ref, IntC(0))), Select(d, k))
	v = Ite(ok, Select(va, k), zeroTerm(m.Elem()))
	return
}
func (x *Exec) mapSet(st *State, ref *Term, t types.Type, k, v *Term) {
	n, _, _, _ := mapKeys(t)
	d := Store(x.mapDom(st, ref, t), k, True)
	va := Store(x.mapVal(st, ref, t), k, v)
	x.setHeap(st, n+".dom", ref, d)
	x.setHeap(st, n+".val", ref, va)
}
func (x *Exec) mapDel(st *State, ref *Term, t types.Type, k *Term) {
	n, _, _, _ := mapKeys(t)
	x.setHeap(st, n+".dom", ref, Store(x.mapDom(st, ref, t), k, False))
}

// ---- scalar ghosts

func (x *Exec) ghost(st *State, name string, s Sort) *Term {
	k := "$" + name
	if t, ok := st.heap[k]; ok {
		return t
	}
	t := Var("G_"+name, s)
	st.heap[k] = t
	return t
}
func (x *Exec) setGhost(st *State, name string, v *Term) {
	if x.wlog != nil {
		x.wlog("$"+name, nil)
	}
	st.heap["$"+name] = v
}
