package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) doCall(p *Path, c *ssa.CallCommon, ins ssa.Instruction) []Outcome {
	st := p.st
	if c.IsInvoke() {
		recv := x.term(p, c.Value)
		var args []Val
		for _, a := range c.Args {
			args = append(args, x.val(p, a))
		}
		return x.invokeAll(p, c, recv, args, ins)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return x.builtin(p, b, c, ins)
	}
	var args []Val
	for _, a := range c.Args {
		args = append(args, x.val(p, a))
	}
	if fn := c.StaticCallee(); fn != nil {
		var bind []Val
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			if f, ok := x.val(p, mc).(FuncV); ok {
				bind = f.bind
			}
		}
		return x.static(p, st, fn, args, bind, ins)
	}
	f, ok := x.val(p, c.Value).(FuncV)
	if !ok {
		t := x.term(p, c.Value)
		if g, ok := funcOfTerm(t); ok {
			f = g
		} else {
			f = FuncV{sym: t}
		}
	}
	return x.callValue(p, f, c, args, ins)
}

func (x *Exec) callValue(p *Path, f FuncV, c *ssa.CallCommon, args []Val, ins ssa.Instruction) []Outcome {
	st := p.st
	if f.sym != nil && f.sym.Op == "ite" {
		return x.forkTerm(p, f.sym, func(q *Path, t *Term) []Outcome {
			g := FuncV{sym: t}
			if h, ok := funcOfTerm(t); ok {
				g = h
			}
			return x.callValue(q, g, c, args, ins)
		})
	}
	if f.sym == nil {
		if f.fn == nil {
			x.oblige(st, "nil", "call of a nil function in "+p.fr.fn.Name(), False, x.pos(ins.Pos()))
			return nil
		}
		return x.static(p, st, f.fn, args, f.bind, ins)
	}
	// an unknown function value: by its type's contract
	if v, ok := cval(f.sym); ok && v == 0 {
		x.oblige(st, "nil", "call of a nil function in "+p.fr.fn.Name(), False, x.pos(ins.Pos()))
		return nil
	}
	sig := under(c.Value.Type()).(*types.Signature)
	if x.pure > 0 || x.con != nil && x.con.pureFuncs() {
		rt := sigResult(sig)
		var ts []*Term
		for i, a := range args {
			ts = append(ts, x.toTerm(st, a, sig.Params().At(i).Type()))
		}
		return []Outcome{{st, []Val{x.fromTerm(st, callUF(f.sym, ts, sortOf(rt)), rt)}}}
	}
	// what can the value be?
	set := &fnSet{fns: map[*ssa.Function]bool{}}
	if k, ok := x.symField[f.sym]; ok {
		set = x.L.flow().field(k)
	} else {
		x.L.flow().value(c.Value, set, map[ssa.Value]bool{})
	}
	if set.unknown || len(set.fns) == 0 {
		unsup("call of an unknown function value in %s", p.fr.fn)
	}
	x.assumes("function values held by the fields of the module's own types come from the module's own code")
	var cands []*ssa.Function
	for fn := range set.fns {
		cands = append(cands, fn)
	}
	sort.Slice(cands, func(i, j int) bool { return cands[i].Pos() < cands[j].Pos() })
	x.oblige(st, "nil", "call of a nil function in "+p.fr.fn.Name(), x.fnNotNil(st, f.sym), x.pos(ins.Pos()))
	var outs []Outcome
	for i, fn := range cands {
		q := p
		if i < len(cands)-1 {
			q = p.fork()
		}
		is := Eq(App("$fnid", SInt, f.sym), IntC(int64(i)))
		if ok, _ := x.feas.check(x, q.st, is); !ok && x.pure == 0 {
			continue
		}
		q.st.add(is, true)
		bind := x.symBind(q.st, f.sym, fn)
		var as []Val
		as = append(as, args...)
		outs = append(outs, x.static(q, q.st, fn, as, bind, ins)...)
	}
	return outs
}

// fnNotNil: a function field of an object that a constructor made is never nil;
// taken as given for objects that were there before.
func (x *Exec) fnNotNil(st *State, f *Term) *Term {
	x.assumes("function fields of objects made by the module's constructors are not nil")
	return True
}

// symBind gives the captured variables of a function value nobody knows.
func (x *Exec) symBind(st *State, sym *Term, fn *ssa.Function) []Val {
	var bind []Val
	for i, fv := range fn.FreeVars {
		k := fmt.Sprintf("%d %p %d", sym.id, fn, i)
		pt, ok := fv.Type().(*types.Pointer)
		if !ok {
			unsup("captured value %s", fv.Name())
		}
		id, ok := x.symCells[k]
		if !ok {
			x.cellN++
			id = x.cellN
			x.symCells[k] = id
			x.foreign[id] = fv.Name()
		}
		if st.cells[id] == nil {
			if x.symVals[id] == nil {
				x.symVals[id] = x.freshVal(st, pt.Elem(), fv.Name())
			}
			st.cells[id] = x.symVals[id]
		}
		bind = append(bind, PtrCell{id})
	}
	return bind
}

func (c *Contract) pureFuncs() bool {
	for _, i := range c.Inline {
		if i == "purefuncs" {
			return true
		}
	}
	return false
}

// forkTerm runs f on each branch of an ite term.
func (x *Exec) forkTerm(p *Path, t *Term, f func(*Path, *Term) []Outcome) []Outcome {
	if t.Op != "ite" {
		return f(p, t)
	}
	c := t.Args[0]
	q := p.fork()
	p.st.add(c, true)
	q.st.add(Not(c), true)
	var outs []Outcome
	if ok, _ := x.feas.check(x, p.st, True); ok || x.pure > 0 {
		outs = x.forkTerm(p, t.Args[1], f)
	}
	if ok, _ := x.feas.check(x, q.st, True); ok || x.pure > 0 {
		outs = append(outs, x.forkTerm(q, t.Args[2], f)...)
	}
	return outs
}

func (x *Exec) invokeAll(p *Path, c *ssa.CallCommon, recv *Term, args []Val, ins ssa.Instruction) []Outcome {
	st := p.st
	if recv.Op == "ite" {
		return x.forkTerm(p, recv, func(q *Path, t *Term) []Outcome { return x.invokeAll(q, c, t, args, ins) })
	}
	tag := IfTag(recv)
	if v, ok := cval(tag); ok {
		if v == 0 {
			x.oblige(st, "nil", "method call on a nil interface in "+p.fr.fn.Name(), False, x.pos(ins.Pos()))
			return nil
		}
		t := typeByID[v]
		if t != nil {
			if t == errType {
				// an error of errors.New or fmt.Errorf
				if o, ok := x.modelInvoke(p, ifaceName(c.Value.Type(), c.Method), recv, args, c, ins); ok {
					return o
				}
			}
			fn := x.L.prog.LookupMethod(t, c.Method.Pkg(), c.Method.Name())
			if fn == nil {
				unsup("no method %s on %s", c.Method.Name(), t)
			}
			return x.static(p, st, fn, append([]Val{x.unIface(st, recv, t)}, args...), nil, ins)
		}
	}
	x.oblige(st, "nil", "method call on a nil interface in "+p.fr.fn.Name(), Not(Eq(tag, IntC(0))), x.pos(ins.Pos()))
	name := ifaceName(c.Value.Type(), c.Method)
	if con := x.L.contracts[name]; con != nil && con.Kind == "iface" {
		sig := c.Method.Type().(*types.Signature)
		return x.applyContract(p, con, sig, append([]Val{recv}, args...), append([]types.Type{c.Value.Type()}, paramTypes(sig)...), ins, c.Method)
	}
	if o, ok := x.modelInvoke(p, name, recv, args, c, ins); ok {
		return o
	}
	unsup("no contract for interface method %s", name)
	return nil
}

func paramTypes(s *types.Signature) (l []types.Type) {
	for i := 0; i < s.Params().Len(); i++ {
		l = append(l, s.Params().At(i).Type())
	}
	return
}

func (x *Exec) static(p *Path, st *State, fn *ssa.Function, args, bind []Val, ins ssa.Instruction) []Outcome {
	if x.L.specFn[fn] {
		return []Outcome{{st, x.pureEval(st, fn, args, bind)}}
	}
	if x.isOverlay(fn) {
		switch fn.Name() {
		case "vAssume":
			if args[0] == False {
				return nil
			}
			st.assume(args[0].(*Term))
			return []Outcome{{st, nil}}
		case "vAssert":
			n, _ := goStr(args[1].(*Term))
			x.oblige(st, "assert", n, args[0].(*Term), x.pos(ins.Pos()))
			return []Outcome{{st, nil}}
		case "vReach":
			n, _ := goStr(args[0].(*Term))
			if x.dry == 0 && x.trialDepth == 0 {
				x.reach(st, n)
			}
			return []Outcome{{st, nil}}
		}
		switch {
		case strings.HasPrefix(fn.Name(), "vData"):
			return []Outcome{{st, []Val{x.libData(st, args[0].(*Term), nil)}}}
		case strings.HasPrefix(fn.Name(), "vPos"):
			return []Outcome{{st, []Val{x.libGet(st, args[0].(*Term), kPos, SInt)}}}
		case fn.Name() == "vLog":
			return []Outcome{{st, []Val{SliceV{seq: x.ghost(st, "LOG", seqOf(SIface)), nilb: False, elem: tEvents.Elem()}}}}
		case fn.Name() == "vLogIs": // the log is what it was at the start, followed by more
			l := x.ghost(st, "LOG", seqOf(SIface))
			return []Outcome{{st, []Val{Eq(l, SeqCat(Var("G_LOG", l.Sort), x.content(st, args[0].(SliceV))))}}}
		case fn.Name() == "vEventPtr":
			k, ok := cval(args[0].(*Term))
			if !ok {
				unsup("the kind of an event is not constant")
			}
			return []Outcome{{st, []Val{MkIf(IntC(-k), args[1].(*Term))}}}
		case fn.Name() == "vIOFailed":
			return []Outcome{{st, []Val{x.ghost(st, "IOERR", SBool)}}}
		case fn.Name() == "vDistinct":
			a, b := args[0].(*Term), args[1].(*Term)
			return []Outcome{{st, []Val{Or(Not(Eq(IfPay(a), IfPay(b))), Eq(IfPay(a), IntC(0)))}}}
		}
		if strings.HasPrefix(fn.Name(), "vUF") {
			// an unknown function of its arguments
			var as []*Term
			for i, a := range args {
				as = append(as, x.toTerm(st, a, fn.Params[i].Type()))
			}
			t := sigResult(fn.Signature)
			return []Outcome{{st, []Val{x.fromTerm(st, App("uf_"+fn.Name(), sortOf(t), as...), t)}}}
		}
		if strings.HasPrefix(fn.Name(), "vGhost") {
			return []Outcome{{st, []Val{x.freshVal(st, sigResult(fn.Signature), fn.Name())}}}
		}
	}
	if con := x.L.contracts[fn.String()]; con != nil && con.Use && con != x.con && x.pure == 0 && !x.refuses(con) {
		if !con.Lemma || x.lemmaHolds(con) {
			x.usedCon[con] = true
			var ts []types.Type
			for _, q := range fn.Params {
				ts = append(ts, q.Type())
			}
			return x.applyContract(p, con, fn.Signature, args, ts, ins, nil)
		}
	}
	if con := x.L.contracts[fn.String()]; con != nil && con.PureUF && x.pure > 0 {
		_ = con
	}
	if o, ok := x.model(p, fn, args, ins); ok {
		x.trusted[fn.String()] = true
		return o
	}
	if fn.Synthetic != "" && fn.Pkg == nil && len(fn.Blocks) > 0 || x.L.isRepo(fn.Pkg) || fn.Parent() != nil && x.L.isRepo(fn.Parent().Pkg) {
		x.inlined[fn.String()] = true
		var pf *Frame
		if p != nil {
			pf = p.fr
		}
		return x.call(st, fn, args, bind, pf, ins)
	}
	unsup("no contract or model for %s", fn)
	return nil
}

func (x *Exec) refuses(c *Contract) bool {
	if x.con == nil {
		return false
	}
	for _, n := range x.con.NoUse {
		if n == "all" || strings.HasSuffix(c.Name, n) {
			return true
		}
	}
	return false
}

func (x *Exec) isOverlay(fn *ssa.Function) bool {
	_, ok := x.L.overlay[x.L.prog.Fset.Position(fn.Pos()).Filename]
	return ok
}

type loc struct {
	ref *Term
	key string
	ft  types.Type
	srt Sort
}

// locs evaluates an entry of a modifies clause.
func (e *Env) locs(ex ast.Expr) []loc {
	x := e.x
	switch ex := ex.(type) {
	case *ast.SelectorExpr:
		base := e.eval(ex.X)
		if ex.Sel.Name == "ALL" {
			pt, ok := under(base.t).(*types.Pointer)
			if !ok {
				evalErr("modifies %s", exprString(ex))
			}
			u := under(pt.Elem()).(*types.Struct)
			var l []loc
			for i := 0; i < u.NumFields(); i++ {
				l = append(l, loc{ref: base.v.(*Term), key: structKey(pt.Elem()) + "." + u.Field(i).Name(), ft: u.Field(i).Type()})
			}
			return l
		}
		obj, idx, _ := types.LookupFieldOrMethod(base.t, true, e.pkgOf(base.t), ex.Sel.Name)
		if _, ok := obj.(*types.Var); !ok {
			evalErr("modifies %s", exprString(ex))
		}
		cur := base
		for _, i := range idx[:len(idx)-1] {
			t := cur.t
			if p, ok := under(t).(*types.Pointer); ok {
				t = p.Elem()
			}
			cur = e.field(cur, under(t).(*types.Struct).Field(i).Name())
		}
		pt, ok := under(cur.t).(*types.Pointer)
		if !ok {
			evalErr("modifies %s", exprString(ex))
		}
		f := under(pt.Elem()).(*types.Struct).Field(idx[len(idx)-1])
		return []loc{{ref: cur.v.(*Term), key: structKey(pt.Elem()) + "." + f.Name(), ft: f.Type()}}
	case *ast.CallExpr:
		id, _ := ex.Fun.(*ast.Ident)
		if id == nil {
			break
		}
		switch id.Name {
		case "mapof":
			tv := e.eval(ex.Args[0])
			n, ks, vs, _ := mapKeys(tv.t)
			r := x.toTerm(e.st, tv.v, tv.t)
			return []loc{{ref: r, key: n + ".dom", srt: mkArr(ks, SBool)}, {ref: r, key: n + ".val", srt: mkArr(ks, vs)}}
		case "data":
			tv := e.eval(ex.Args[0])
			var l []loc
			for _, k := range libKeys(tv.t) {
				l = append(l, loc{ref: x.toTerm(e.st, tv.v, tv.t), key: k.key, srt: k.srt})
			}
			return l
		}
	}
	evalErr("modifies %s", exprString(ex))
	return nil
}

func (x *Exec) havocLoc(st *State, l loc) {
	if l.srt != "" {
		x.setHeap(st, l.key, l.ref, Fresh("m_"+l.key, l.srt))
		return
	}
	x.storeFieldRaw(st, l.ref, l.key, l.ft, x.freshVal(st, l.ft, "m_"+l.key))
}

func (x *Exec) conEnv(con *Contract, st, old *State, args []Val, ts []types.Type) *Env {
	e := &Env{x: x, st: st, old: old, names: map[string]TV{}, pkg: con.Pkg}
	for i, n := range con.Params {
		if i < len(args) && n != "_" {
			e.names[n] = TV{args[i], ts[i]}
		}
	}
	return e
}

// applyContract replaces a call by what its contract says.
func (x *Exec) applyContract(p *Path, con *Contract, sig *types.Signature, args []Val, ts []types.Type, ins ssa.Instruction, m *types.Func) []Outcome {
	st := p.st
	x.called[con.Name] = true
	short := shortName(con.Name)
	// a borrowed view of slice arguments
	for i, a := range args {
		if s, ok := a.(SliceV); ok && s.bid != 0 {
			x.escape(st, s.bid)
			args[i] = SliceV{seq: x.content(st, s), nilb: s.nilb, elem: s.elem}
		}
	}
	if con.PureUF {
		var tt []*Term
		for i, a := range args[1:] {
			tt = append(tt, x.toTerm(st, a, ts[i+1]))
		}
		var r Val
		if m != nil {
			r = x.ufResult(st, con, m, args[0].(*Term), tt)
		} else {
			unsup("pureuf on a function")
		}
		env := x.conEnv(con, st, st, args, ts)
		for i, c := range con.Requires {
			x.oblige(st, "requires", fmt.Sprintf("precondition %d of %s: %s", i+1, short, c.Text), env.bool(c.Expr), x.pos(ins.Pos()))
		}
		x.logAll(st, con, env)
		return []Outcome{{st, []Val{r}}}
	}
	env := x.conEnv(con, st, st, args, ts)
	for i, c := range con.Requires {
		x.oblige(st, "requires", fmt.Sprintf("precondition %d of %s: %s", i+1, short, c.Text), env.bool(c.Expr), x.pos(ins.Pos()))
	}
	old := st.clone()
	x.logAll(st, con, env)
	switch {
	case con.ModAny:
		if x.writeOK != nil && !x.con.ModAny {
			x.oblige(st, "frame", "frame: call of "+short+", which may modify anything", False, x.pos(ins.Pos()))
		}
		x.havocAll(st)
		if x.writeOK != nil && con.Writes != nil && !x.con.Writes.covers(con.Writes) {
			x.oblige(st, "frame", "frame: call of "+short+", which may write "+strings.Join(con.Writes.src, " "), False, x.pos(ins.Pos()))
		}
		x.havocWrites(st, con.Writes)
	default:
		env.st = old
		for _, c := range con.Modifies {
			for _, l := range env.locs(c.Expr) {
				x.writeCheck(st, l.ref, l.key)
				x.havocLoc(st, l)
			}
		}
		w := Fresh("w", SInt)
		st.assume(Le(st.mark(), w))
		st.water, st.alloc = w, 0
	}
	env = x.conEnv(con, st, old, args, ts)
	var res []Val
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		v := x.freshVal(st, t, fmt.Sprintf("%s_r%d", sanitize(short), i))
		res = append(res, v)
		if i < len(con.Results) {
			env.names[con.Results[i]] = TV{v, t}
		}
	}
	for _, s := range con.Sets {
		x.setGhost(st, s.Name, env.term(s.C.Expr))
	}
	for _, c := range append(append([]Clause{}, con.Defines...), con.Ensures...) {
		st.assume(env.bool(c.Expr))
	}
	// results the contract says are new belong to the caller
	if con.Fresh {
		for i, v := range res {
			if s, ok := v.(SliceV); ok {
				o := x.owned(st, s.seq, s.elem)
				o.nilb = s.nilb
				res[i] = o
			}
		}
	}
	return []Outcome{{st, res}}
}

func (x *Exec) logAll(st *State, con *Contract, env *Env) {
	if len(con.Log) == 0 || x.pure > 0 {
		return
	}
	l := x.ghost(st, "LOG", seqOf(SIface))
	for _, c := range con.Log {
		l = SeqCat(l, SeqUnit(env.term(c.Expr)))
	}
	x.setGhost(st, "LOG", l)
}

func shortName(s string) string {
	return strings.Replace(strings.Replace(s, modPath+"/", "", -1), modPath, "", -1)
}

// ---- builtins

func (x *Exec) builtin(p *Path, b *ssa.Builtin, c *ssa.CallCommon, ins ssa.Instruction) []Outcome {
	st := p.st
	ret := func(v ...Val) []Outcome { return []Outcome{{st, v}} }
	switch b.Name() {
	case "len", "cap":
		switch v := x.val(p, c.Args[0]).(type) {
		case SliceV:
			if b.Name() == "cap" {
				t := Fresh("cap", SInt)
				st.assume(Le(x.sliceLen(st, v), t))
				return ret(t)
			}
			return ret(x.sliceLen(st, v))
		case *Term:
			if _, ok := under(c.Args[0].Type()).(*types.Map); ok {
				return ret(x.mapLen(st, v, c.Args[0].Type()))
			}
			return ret(SeqLen(v))
		case PtrElem:
			return ret(SeqLen(st.backs[v.bid]))
		}
	case "append":
		return ret(x.appendTo(p, x.val(p, c.Args[0]).(SliceV), x.val(p, c.Args[1]), c.Args[0].Type(), ins))
	case "copy":
		d, ok := x.val(p, c.Args[0]).(SliceV)
		if !ok || d.bid == 0 {
			if ok {
				x.oblige(st, "frame", "copy into a slice this function does not own in "+p.fr.fn.Name(), Eq(SeqLen(d.seq), IntC(0)), x.pos(ins.Pos()))
				return ret(IntC(0))
			}
			unsup("copy to %T", x.val(p, c.Args[0]))
		}
		src := x.seqVal(st, x.val(p, c.Args[1]))
		n := Ite(Le(SeqLen(src), d.ln), SeqLen(src), d.ln)
		back := st.backs[d.bid]
		st.backs[d.bid] = SeqCat(SeqSub(back, IntC(0), d.off), SeqSub(src, IntC(0), n), SeqSub(back, Add(d.off, n), SeqLen(back)))
		return ret(n)
	case "delete":
		m := x.term(p, c.Args[0])
		mk, _, _, _ := mapKeys(c.Args[0].Type())
		x.writeCheck(st, m, mk)
		x.mapDel(st, m, c.Args[0].Type(), x.term(p, c.Args[1]))
		return ret()
	case "ssa:deferstack":
		return ret(IntC(0))
	case "print", "println":
		return ret()
	case "recover":
		return ret(NilIf)
	}
	unsup("builtin %s", b.Name())
	return nil
}

func (x *Exec) seqVal(st *State, v Val) *Term {
	switch v := v.(type) {
	case SliceV:
		return x.content(st, v)
	case *Term:
		return v
	}
	unsup("sequence of %T", v)
	return nil
}

func (x *Exec) appendTo(p *Path, s SliceV, add Val, t types.Type, ins ssa.Instruction) Val {
	st := p.st
	c := x.content(st, s)
	a := x.seqVal(st, add)
	nilb := And(s.nilb, Eq(SeqLen(a), IntC(0)))
	if x.pure > 0 {
		return SliceV{seq: SeqCat(c, a), nilb: nilb, elem: s.elem}
	}
	slot := s.bid == 0 && s.slotBid != 0 && !st.foreign[s.slotBid] && st.slotVer[s.slotBid] == s.slotVer
	if slot {
		if st.pend[s.slotBid] {
			unsup("two appends to elements of a list of lists")
		}
		st.pend[s.slotBid] = true
	}
	if s.bid != 0 && st.stored[s.bid] {
		unsup("append to a slice that is also an element of a list")
	}
	if s.bid == 0 && s.nilb != True && !slot {
		// the spare room behind a borrowed slice belongs to somebody else
		if s.fromKey != "" && s.fromRef != nil {
			x.writeCheck(st, s.fromRef, s.fromKey)
		} else {
			x.oblige(st, "frame", "append to a slice this function does not own in "+p.fr.fn.Name(), Or(Eq(SeqLen(a), IntC(0)), s.nilb), x.pos(ins.Pos()))
		}
	}
	if k := "[]" + shortType(s.elem); x.L.nonnilKey(k) {
		for _, u := range seqParts(a) {
			if u.Op == "seq.unit" {
				e := u.Args[0]
				if e.Sort == SIface {
					e = IfTag(e)
				}
				x.oblige(st, "nil", "nil is never put into a "+k+" in "+p.fr.fn.Name(), Not(Eq(e, IntC(0))), x.pos(ins.Pos()))
			}
		}
	}
	r := x.owned(st, SeqCat(c, a), s.elem)
	r.nilb = nilb
	if slot {
		r.slotBid, r.slotIdx, r.slotVer = s.slotBid, s.slotIdx, s.slotVer
	}
	if s.bid != 0 {
		for _, k := range st.kids[s.bid] {
			// a second append to the same slice may overwrite the first
			if back := st.backs[k]; back != nil {
				n := Fresh("tainted", back.Sort)
				st.assume(Eq(SeqLen(n), SeqLen(back)))
				pre := st.backs[s.bid]
				if s.off == IntC(0) {
					_ = pre
				}
				st.backs[k] = n
			}
		}
		st.kids[s.bid] = append(append([]int{}, st.kids[s.bid]...), r.bid)
		st.par[r.bid] = s.bid
	}
	return r
}

func (x *Exec) mapLen(st *State, ref *Term, t types.Type) *Term {
	d := x.mapDom(st, ref, t)
	n := App("$card_"+sanitize(string(d.Sort)), SInt, d)
	x.termAx[n] = []*Term{Le(IntC(0), n)}
	base := d
	k := int64(0)
	_ = k
	if base.Op == "constarr" && base.Args[0] == False {
		return IntC(0)
	}
	return Ite(Eq(ref, IntC(0)), IntC(0), n)
}
