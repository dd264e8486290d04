package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

// The clause language: Go expressions over the program state.

type evalError struct{ msg string }

func evalErr(f string, a ...interface{}) { panic(evalError{fmt.Sprintf(f, a...)}) }

type TV struct {
	v Val
	t types.Type
}

type Env struct {
	x     *Exec
	st    *State
	old   *State
	names map[string]TV
	pkg   *packages.Package
	fr    *Frame
	loop  *loopCtx
	pos   token.Pos
}

var (
	tInt    = types.Typ[types.Int]
	tBool   = types.Typ[types.Bool]
	tString = types.Typ[types.String]
	tNil    = types.Typ[types.UntypedNil]
	tEvents = types.NewSlice(types.NewInterfaceType(nil, nil))
)

func (e *Env) term(ex ast.Expr) *Term {
	tv := e.eval(ex)
	return e.x.toTerm(e.st, tv.v, tv.t)
}
func (e *Env) bool(ex ast.Expr) *Term {
	t := e.term(ex)
	if t.Sort != SBool {
		evalErr("not a boolean: %s", exprString(ex))
	}
	return t
}

func exprString(e ast.Expr) string { return types.ExprString(e) }

func (e *Env) ident(name string) (TV, bool) {
	x := e.x
	switch name {
	case "true":
		return TV{True, tBool}, true
	case "false":
		return TV{False, tBool}, true
	case "nil":
		return TV{nil, tNil}, true
	case "LOG":
		return TV{x.ghost(e.st, "LOG", seqOf(SIface)), tEvents}, true
	}
	if strings.HasPrefix(name, "GI_") {
		return TV{x.ghost(e.st, name, SInt), tInt}, true
	}
	if strings.HasPrefix(name, "GB_") {
		return TV{x.ghost(e.st, name, SBool), tBool}, true
	}
	if strings.HasPrefix(name, "GS_") {
		return TV{x.ghost(e.st, name, SStr), tString}, true
	}
	if e.loop != nil {
		switch name {
		case "K":
			return TV{e.loop.k, tInt}, true
		case "SEQ":
			return x.rangedSeq(e.st, e.fr, e.loop.lp), true
		case "ORDER":
			it := x.loopIter(e.fr, e.loop.lp)
			if it == nil || it.order == nil {
				evalErr("the loop does not range over a map")
			}
			m := under(it.t).(*types.Map)
			return TV{it.order, types.NewSlice(m.Key())}, true
		}
		for _, v := range e.loop.spec.Vars {
			if v.Name == name {
				n := name
				if s, ok := e.loop.subst[name]; ok {
					n = s
				}
				if tv, ok := x.local(e.st, e.fr, n, e.loop.lp.pos()); ok {
					return tv, true
				}
				evalErr("no local variable %s in %s", n, e.fr.fn)
			}
		}
	}
	if tv, ok := e.names[name]; ok {
		return tv, true
	}
	if strings.HasPrefix(name, "G_") {
		if g, ok := x.ghosts[name]; ok {
			return TV{g.v, g.t}, true
		}
	}
	if g, ok := x.ghosts[name]; ok {
		return TV{g.v, g.t}, true
	}
	if e.fr != nil {
		if tv, ok := x.local(e.st, e.fr, name, e.pos); ok {
			return tv, true
		}
	}
	if e.pkg != nil {
		if o := e.pkg.Types.Scope().Lookup(name); o != nil {
			return e.object(o), true
		}
	}
	if o := types.Universe.Lookup(name); o != nil {
		if tn, ok := o.(*types.TypeName); ok {
			return TV{TypeV{tn.Type()}, nil}, true
		}
	}
	return TV{}, false
}

func (e *Env) object(o types.Object) TV {
	x := e.x
	switch o := o.(type) {
	case *types.Const:
		return constTV(o.Val(), o.Type())
	case *types.Var:
		sp := x.L.prog.Package(o.Pkg())
		if sp != nil {
			if g := sp.Var(o.Name()); g != nil {
				c := x.globalCell(e.st, g)
				v := e.st.cells[c]
				t := o.Type()
				if isStructT(t) {
					return TV{v, types.NewPointer(t)}
				}
				return TV{v, t}
			}
		}
	case *types.Func:
		if fn := x.L.prog.FuncValue(o); fn != nil {
			return TV{FuncV{fn: fn}, o.Type()}
		}
	case *types.TypeName:
		return TV{TypeV{o.Type()}, nil}
	}
	evalErr("cannot use %s here", o)
	return TV{}
}

func constTV(v constant.Value, t types.Type) TV {
	switch v.Kind() {
	case constant.Bool:
		return TV{BoolC(constant.BoolVal(v)), tBool}
	case constant.String:
		return TV{StrC(constant.StringVal(v)), tString}
	case constant.Int:
		if b, ok := under(t).(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
			t = tInt
		}
		return TV{bigS(v.ExactString()), t}
	}
	evalErr("constant %s", v)
	return TV{}
}

// local finds a local variable of the frame's function by its source name.
func (x *Exec) local(st *State, fr *Frame, name string, pos token.Pos) (TV, bool) {
	var best *ssa.Alloc
	for v := range fr.env {
		a, ok := v.(*ssa.Alloc)
		if !ok || a.Comment != name {
			continue
		}
		if best == nil {
			best = a
			continue
		}
		// the latest declaration before the loop
		in := func(q *ssa.Alloc) bool { return pos == token.NoPos || q.Pos() <= pos }
		if in(a) && (!in(best) || a.Pos() > best.Pos()) || !in(best) && a.Pos() < best.Pos() {
			best = a
		}
	}
	if best != nil {
		return x.allocTV(st, fr, best), true
	}
	for i, f := range fr.fn.FreeVars {
		if f.Name() == name {
			pt, ok := f.Type().(*types.Pointer)
			if c, okc := fr.bind[i].(PtrCell); okc && ok {
				return TV{st.cells[c.cell], pt.Elem()}, true
			}
			return TV{fr.bind[i], f.Type()}, true
		}
	}
	for _, p := range fr.fn.Params {
		if p.Name() == name {
			return TV{fr.env[p], p.Type()}, true
		}
	}
	for _, c := range x.captured(st, fr) {
		if c.name == name {
			return TV{st.cells[c.cell], c.t}, true
		}
	}
	return TV{}, false
}

type capVar struct {
	name string
	cell int
	t    types.Type
}

// captured lists the variables that closures held by the locals have captured.
func (x *Exec) captured(st *State, fr *Frame) (l []capVar) {
	see := func(v Val) {
		f, ok := v.(FuncV)
		if !ok || f.fn == nil {
			return
		}
		for i, fv := range f.fn.FreeVars {
			if c, ok := f.bind[i].(PtrCell); ok && st.cells[c.cell] != nil {
				if pt, ok := fv.Type().(*types.Pointer); ok {
					l = append(l, capVar{fv.Name(), c.cell, pt.Elem()})
				}
			}
		}
	}
	for _, a := range x.localsOf(fr) {
		if c, ok := fr.env[a].(PtrCell); ok {
			see(st.cells[c.cell])
		}
	}
	return
}
func (x *Exec) allocTV(st *State, fr *Frame, a *ssa.Alloc) TV {
	et := a.Type().(*types.Pointer).Elem()
	switch v := fr.env[a].(type) {
	case PtrCell:
		return TV{st.cells[v.cell], et}
	case *Term:
		return TV{v, a.Type()} // a struct: the name stands for its address
	case PtrElem:
		return TV{st.backs[v.bid], et}
	}
	evalErr("variable %s", a.Comment)
	return TV{}
}

// loopIter is the map or string iterator of a range loop.
func (x *Exec) loopIter(fr *Frame, lp *loopT) *mapIter {
	for _, i := range lp.header.Instrs {
		if n, ok := i.(*ssa.Next); ok {
			if v, ok := fr.env[n.Iter].(IterV); ok {
				return x.iters[v.id]
			}
		}
	}
	return nil
}

// rangedSeq finds the slice that a counting loop walks over.
func (x *Exec) rangedSeq(st *State, fr *Frame, lp *loopT) TV {
	if it := x.loopIter(fr, lp); it != nil {
		return TV{it.x, it.t}
	}
	var found ssa.Value
	var bs []*ssa.BasicBlock
	for b := range lp.body {
		bs = append(bs, b)
	}
	sort.Slice(bs, func(i, j int) bool { return bs[i].Index < bs[j].Index })
	for _, b := range bs {
		for _, i := range b.Instrs {
			if ia, ok := i.(*ssa.IndexAddr); ok && found == nil {
				if _, ok := under(ia.X.Type()).(*types.Slice); ok {
					found = ia.X
				}
			}
		}
	}
	if found == nil {
		evalErr("no ranged sequence")
	}
	if v, ok := fr.env[found]; ok {
		if ins, isI := found.(ssa.Instruction); !isI || !lp.body[ins.Block()] {
			return TV{v, found.Type()}
		}
	}
	// computed inside the loop: a load of a local or a field
	if v, ok := x.reload(st, fr, found, 0); ok {
		return TV{v, found.Type()}
	}
	evalErr("the ranged sequence is not known at the loop head")
	return TV{}
}
func (x *Exec) reload(st *State, fr *Frame, v ssa.Value, d int) (Val, bool) {
	if d > 6 {
		return nil, false
	}
	switch v := v.(type) {
	case *ssa.Alloc:
		r, ok := fr.env[v]
		return r, ok
	case *ssa.UnOp:
		if v.Op != token.MUL {
			return nil, false
		}
		a, ok := x.reload(st, fr, v.X, d+1)
		if !ok {
			return nil, false
		}
		switch a := a.(type) {
		case PtrCell:
			r, ok := st.cells[a.cell]
			return r, ok
		case PtrField:
			return x.loadField(st, a.ref, a.key, a.ft), true
		}
		return nil, false
	case *ssa.FieldAddr:
		b, ok := x.reload(st, fr, v.X, d+1)
		if !ok {
			return nil, false
		}
		pt := under(v.X.Type()).(*types.Pointer)
		f := under(pt.Elem()).(*types.Struct).Field(v.Field)
		if t, ok := b.(*Term); ok {
			return PtrField{ref: t, key: structKey(pt.Elem()) + "." + f.Name(), ft: f.Type()}, true
		}
		return nil, false
	case *ssa.Const, *ssa.Global, *ssa.Function:
		return x.valIn(st, fr, v), true
	}
	r, ok := fr.env[v]
	return r, ok
}

func (e *Env) eval(ex ast.Expr) TV {
	x := e.x
	switch ex := ex.(type) {
	case *ast.ParenExpr:
		return e.eval(ex.X)
	case *ast.BasicLit:
		switch ex.Kind {
		case token.INT:
			return TV{bigS(constant.MakeFromLiteral(ex.Value, token.INT, 0).ExactString()), tInt}
		case token.STRING:
			s, _ := strconv.Unquote(ex.Value)
			return TV{StrC(s), tString}
		case token.CHAR:
			r, _, _, _ := strconv.UnquoteChar(ex.Value[1:len(ex.Value)-1], '\'')
			return TV{IntC(int64(r)), tInt}
		}
	case *ast.Ident:
		if tv, ok := e.ident(ex.Name); ok {
			return tv
		}
		evalErr("unknown name %s", ex.Name)
	case *ast.StarExpr:
		tv := e.eval(ex.X)
		if ty, ok := tv.v.(TypeV); ok {
			return TV{TypeV{types.NewPointer(ty.t)}, nil}
		}
		pt, ok := under(tv.t).(*types.Pointer)
		if !ok {
			evalErr("* of a non-pointer")
		}
		switch a := tv.v.(type) {
		case PtrCell:
			return TV{e.st.cells[a.cell], pt.Elem()}
		case *Term:
			if isStructT(pt.Elem()) {
				return TV{x.loadStruct(e.st, a, pt.Elem()), pt.Elem()}
			}
			return TV{x.loadField(e.st, a, "*"+string(sortOf(pt.Elem())), pt.Elem()), pt.Elem()}
		}
	case *ast.ArrayType, *ast.MapType, *ast.InterfaceType:
		if t := x.L.resolveType(e.pkg, ex.(ast.Expr)); t != nil {
			return TV{TypeV{t}, nil}
		}
	case *ast.UnaryExpr:
		tv := e.eval(ex.X)
		switch ex.Op {
		case token.NOT:
			return TV{Not(x.toTerm(e.st, tv.v, tv.t)), tBool}
		case token.SUB:
			return TV{Neg(x.toTerm(e.st, tv.v, tv.t)), tv.t}
		}
	case *ast.BinaryExpr:
		return e.binary(ex)
	case *ast.SelectorExpr:
		return e.selector(ex)
	case *ast.IndexExpr:
		return e.index(ex)
	case *ast.SliceExpr:
		tv := e.eval(ex.X)
		s := e.seqOf(tv)
		lo, hi := IntC(0), SeqLen(s)
		if ex.Low != nil {
			lo = e.term(ex.Low)
		}
		if ex.High != nil {
			hi = e.term(ex.High)
		}
		return TV{SeqSub(s, lo, hi), tv.t}
	case *ast.TypeAssertExpr:
		tv := e.eval(ex.X)
		t := x.L.resolveType(e.pkg, ex.Type)
		if t == nil {
			evalErr("unknown type %s", exprString(ex.Type))
		}
		return TV{x.unIface(e.st, x.toTerm(e.st, tv.v, tv.t), t), t}
	case *ast.CallExpr:
		return e.call(ex)
	}
	evalErr("cannot evaluate %s", exprString(ex))
	return TV{}
}

func (e *Env) seqOf(tv TV) *Term {
	switch v := tv.v.(type) {
	case SliceV:
		return e.x.content(e.st, v)
	case *Term:
		if strings.HasPrefix(string(v.Sort), "(Seq ") {
			return v
		}
	case nil:
		if s, ok := under(tv.t).(*types.Slice); ok {
			return SeqEmpty(seqOf(sortOf(s.Elem())))
		}
	}
	evalErr("not a sequence (%T)", tv.v)
	return nil
}

func isSeqTV(tv TV) bool {
	switch v := tv.v.(type) {
	case SliceV:
		return true
	case *Term:
		return strings.HasPrefix(string(v.Sort), "(Seq ")
	}
	return false
}

func (e *Env) binary(ex *ast.BinaryExpr) TV {
	x := e.x
	switch ex.Op {
	case token.LAND:
		a := e.bool(ex.X)
		if a == False {
			return TV{False, tBool}
		}
		return TV{And(a, e.bool(ex.Y)), tBool}
	case token.LOR:
		a := e.bool(ex.X)
		if a == True {
			return TV{True, tBool}
		}
		return TV{Or(a, e.bool(ex.Y)), tBool}
	}
	a, b := e.eval(ex.X), e.eval(ex.Y)
	switch ex.Op {
	case token.EQL, token.NEQ:
		t := e.equal(a, b)
		if ex.Op == token.NEQ {
			t = Not(t)
		}
		return TV{t, tBool}
	case token.ADD:
		if isSeqTV(a) || isSeqTV(b) {
			return TV{SeqCat(e.seqOf(a), e.seqOf(b)), a.t}
		}
	}
	l, r := x.toTerm(e.st, a.v, a.t), x.toTerm(e.st, b.v, b.t)
	switch ex.Op {
	case token.ADD:
		return TV{Add(l, r), a.t}
	case token.SUB:
		return TV{Sub(l, r), a.t}
	case token.MUL:
		return TV{Mul(l, r), a.t}
	case token.QUO:
		return TV{Div(l, r), a.t}
	case token.REM:
		return TV{Mod(l, r), a.t}
	case token.LSS:
		return TV{Lt(l, r), tBool}
	case token.LEQ:
		return TV{Le(l, r), tBool}
	case token.GTR:
		return TV{Lt(r, l), tBool}
	case token.GEQ:
		return TV{Le(r, l), tBool}
	}
	evalErr("operator %s", ex.Op)
	return TV{}
}

func (e *Env) equal(a, b TV) *Term {
	x := e.x
	if a.t == tNil {
		a, b = b, a
	}
	if b.t == tNil {
		switch under(a.t).(type) {
		case *types.Slice:
			if s, ok := a.v.(SliceV); ok {
				return s.nilb
			}
			return Eq(SeqLen(a.v.(*Term)), IntC(0))
		case *types.Interface:
			return Eq(IfTag(x.toTerm(e.st, a.v, a.t)), IntC(0))
		case *types.Signature:
			if f, ok := a.v.(FuncV); ok && f.sym == nil {
				return BoolC(f.fn == nil)
			}
		}
		return Eq(x.toTerm(e.st, a.v, a.t), IntC(0))
	}
	if isSeqTV(a) && isSeqTV(b) {
		return Eq(e.seqOf(a), e.seqOf(b))
	}
	_, ia := under(a.t).(*types.Interface)
	_, ib := under(b.t).(*types.Interface)
	switch {
	case ia && !ib:
		return Eq(x.toTerm(e.st, a.v, a.t), x.makeIface(e.st, b.v, b.t))
	case ib && !ia:
		return Eq(x.makeIface(e.st, a.v, a.t), x.toTerm(e.st, b.v, b.t))
	}
	return x.equal(e.st, a.v, b.v, a.t, b.t)
}

func (e *Env) selector(ex *ast.SelectorExpr) TV {
	x := e.x
	if id, ok := ex.X.(*ast.Ident); ok {
		if _, isName := e.ident(id.Name); !isName {
			if p := x.L.importNamed(e.pkg, id.Name); p != nil {
				o := p.Scope().Lookup(ex.Sel.Name)
				if o == nil {
					evalErr("no %s in package %s", ex.Sel.Name, id.Name)
				}
				return e.object(o)
			}
		}
	}
	return e.field(e.eval(ex.X), ex.Sel.Name)
}

func (e *Env) field(tv TV, name string) TV {
	x := e.x
	obj, idx, _ := types.LookupFieldOrMethod(tv.t, true, e.pkgOf(tv.t), name)
	v, ok := obj.(*types.Var)
	if !ok {
		evalErr("no field %s in %s", name, tv.t)
	}
	_ = v
	cur := tv
	for _, i := range idx {
		t := cur.t
		isPtr := false
		if p, ok := under(t).(*types.Pointer); ok {
			t = p.Elem()
			isPtr = true
		}
		stt := under(t).(*types.Struct)
		f := stt.Field(i)
		switch b := cur.v.(type) {
		case StructV:
			cur = TV{b.fs[i], f.Type()}
		case *Term:
			if !isPtr {
				evalErr("field of an opaque struct")
			}
			cur = TV{x.loadField(e.st, b, structKey(t)+"."+f.Name(), f.Type()), f.Type()}
		case PtrField:
			cur = TV{x.loadField(e.st, b.ref, b.key+"."+f.Name(), f.Type()), f.Type()}
		case PtrCell:
			if sv, ok := e.st.cells[b.cell].(StructV); ok {
				cur = TV{sv.fs[i], f.Type()}
			} else if r, ok := e.st.cells[b.cell].(*Term); ok {
				cur = TV{x.loadField(e.st, r, structKey(t)+"."+f.Name(), f.Type()), f.Type()}
			} else {
				evalErr("field of %T", b)
			}
		default:
			evalErr("field %s of %T", name, cur.v)
		}
	}
	return cur
}
func (e *Env) pkgOf(t types.Type) *types.Package {
	for {
		switch u := t.(type) {
		case *types.Pointer:
			t = u.Elem()
			continue
		case *types.Named:
			return u.Obj().Pkg()
		}
		break
	}
	if e.pkg != nil {
		return e.pkg.Types
	}
	return nil
}

func (e *Env) index(ex *ast.IndexExpr) TV {
	x := e.x
	tv := e.eval(ex.X)
	if m, ok := under(tv.t).(*types.Map); ok {
		k := e.mapKey(tv, ex.Index)
		_, v := x.mapGet(e.st, x.toTerm(e.st, tv.v, tv.t), tv.t, k)
		return TV{x.fromTerm(e.st, v, m.Elem()), m.Elem()}
	}
	s := e.seqOf(tv)
	i := e.term(ex.Index)
	var et types.Type = types.Typ[types.Uint8]
	switch u := under(tv.t).(type) {
	case *types.Slice:
		et = u.Elem()
	case *types.Array:
		et = u.Elem()
	}
	return TV{x.nth(e.st, s, i, et), et}
}
func (e *Env) mapKey(tv TV, ix ast.Expr) *Term {
	m := under(tv.t).(*types.Map)
	kv := e.eval(ix)
	if types.IsInterface(m.Key()) && !types.IsInterface(kv.t) {
		return e.x.makeIface(e.st, kv.v, kv.t)
	}
	return e.x.toTerm(e.st, kv.v, kv.t)
}

func (e *Env) args(l []ast.Expr) (r []TV) {
	for _, a := range l {
		r = append(r, e.eval(a))
	}
	return
}

func (e *Env) call(ex *ast.CallExpr) TV {
	x := e.x
	if id, ok := ex.Fun.(*ast.Ident); ok {
		switch id.Name {
		case "implies":
			a := e.bool(ex.Args[0])
			if a == False {
				return TV{True, tBool}
			}
			return TV{Implies(a, e.bool(ex.Args[1])), tBool}
		case "iff":
			return TV{Eq(e.bool(ex.Args[0]), e.bool(ex.Args[1])), tBool}
		case "ite":
			c := e.bool(ex.Args[0])
			a, b := e.eval(ex.Args[1]), e.eval(ex.Args[2])
			if isSeqTV(a) {
				return TV{Ite(c, e.seqOf(a), e.seqOf(b)), a.t}
			}
			return TV{Ite(c, x.toTerm(e.st, a.v, a.t), x.toTerm(e.st, b.v, b.t)), a.t}
		case "old":
			if e.old == nil {
				evalErr("old() here")
			}
			n := *e
			n.st = e.old
			base := e.old.facts
			r := n.eval(ex.Args[0])
			// facts met on the way hold now too
			for f := e.old.facts; f != nil && f != base; f = f.parent {
				e.st.assume(f.t)
			}
			if s, ok := r.v.(SliceV); ok {
				r.v = SliceV{seq: x.content(e.old, s), nilb: s.nilb, elem: s.elem}
			}
			return r
		case "pre": // the value at loop entry
			if e.loop == nil || e.loop.pre == nil {
				evalErr("pre() outside a loop")
			}
			n := *e
			n.st = e.loop.pre.clone()
			base := n.st.facts
			r := n.eval(ex.Args[0])
			for f := n.st.facts; f != nil && f != base; f = f.parent {
				e.st.assume(f.t)
			}
			if s, ok := r.v.(SliceV); ok {
				r.v = SliceV{seq: x.content(e.loop.pre, s), nilb: s.nilb, elem: s.elem}
			}
			return r
		case "len":
			tv := e.eval(ex.Args[0])
			if m, ok := under(tv.t).(*types.Map); ok {
				_ = m
				return TV{x.mapLen(e.st, x.toTerm(e.st, tv.v, tv.t), tv.t), tInt}
			}
			return TV{SeqLen(e.seqOf(tv)), tInt}
		case "str":
			return TV{e.seqOf(e.eval(ex.Args[0])), tString}
		case "data": // the bytes held by a library object
			tv := e.eval(ex.Args[0])
			s := x.libData(e.st, x.toTerm(e.st, tv.v, tv.t), tv.t)
			return TV{s, tString}
		case "has":
			tv := e.eval(ex.Args[0])
			k := e.mapKey(tv, ex.Args[1])
			ok, _ := x.mapGet(e.st, x.toTerm(e.st, tv.v, tv.t), tv.t, k)
			return TV{ok, tBool}
		case "istype":
			tv := e.eval(ex.Args[0])
			t := x.L.resolveType(e.pkg, ex.Args[1])
			if t == nil {
				evalErr("unknown type %s", exprString(ex.Args[1]))
			}
			return TV{Eq(IfTag(x.toTerm(e.st, tv.v, tv.t)), IntC(typeID(t))), tBool}
		case "fresh":
			tv := e.eval(ex.Args[0])
			if e.old == nil {
				evalErr("fresh() here")
			}
			tm := x.toTerm(e.st, tv.v, tv.t)
			if tm.Sort == SIface {
				tm = IfPay(tm)
			}
			return TV{And(Lt(e.old.mark(), tm), Le(tm, e.st.mark())), tBool}
		case "event":
			k, _ := cval(e.term(ex.Args[0]))
			p := IntC(0)
			if len(ex.Args) > 1 {
				tv := e.eval(ex.Args[1])
				if types.IsInterface(tv.t) {
					tm := x.toTerm(e.st, tv.v, tv.t)
					return TV{tm, types.NewInterfaceType(nil, nil)}
				}
				p = x.toTerm(e.st, tv.v, tv.t)
			}
			return TV{MkIf(IntC(-k), p), types.NewInterfaceType(nil, nil)}
		case "boxed": // an interface holding the value
			tv := e.eval(ex.Args[0])
			return TV{x.makeIface(e.st, tv.v, tv.t), types.NewInterfaceType(nil, nil)}
		case "seq":
			var es []*Term
			var t types.Type = tString
			for _, a := range ex.Args {
				tv := e.eval(a)
				tm := x.toTerm(e.st, tv.v, tv.t)
				es = append(es, SeqUnit(tm))
				if tm.Sort != SInt || len(ex.Args) > 0 {
					t = types.NewSlice(tv.t)
				}
			}
			if len(es) == 0 {
				return TV{SeqEmpty(seqOf(SIface)), tEvents}
			}
			return TV{SeqCat(es...), t}
		case "nth":
			tv := e.eval(ex.Args[0])
			return e.index(&ast.IndexExpr{X: ex.Args[0], Index: ex.Args[1]})
			_ = tv
		case "covered": // the map iteration meets key k
			it := x.loopIter(e.fr, e.loop.lp)
			if it == nil {
				evalErr("covered() needs a map range")
			}
			k := e.term(ex.Args[0])
			x.covered(e.st, it, k)
			return TV{True, tBool}
		case "visited":
			it := x.loopIter(e.fr, e.loop.lp)
			if it == nil || it.order == nil {
				evalErr("visited() needs a map range")
			}
			k := e.term(ex.Args[0])
			x.covered(e.st, it, k)
			ref := it.x.(*Term)
			in := And(Not(Eq(ref, IntC(0))), Select(it.dom, k))
			return TV{And(in, Lt(it.pos(k), e.loop.k)), tBool}
		case "mapeq": // two maps have the same content
			a, b := e.eval(ex.Args[0]), e.eval(ex.Args[1])
			ra, rb := x.toTerm(e.st, a.v, a.t), x.toTerm(e.st, b.v, b.t)
			return TV{And(Eq(x.mapDom(e.st, ra, a.t), x.mapDom(e.st, rb, b.t)), Eq(x.mapVal(e.st, ra, a.t), x.mapVal(e.st, rb, b.t))), tBool}
		case "uf": // uf("name", type, args...)
			n, _ := strconv.Unquote(ex.Args[0].(*ast.BasicLit).Value)
			t := x.L.resolveType(e.pkg, ex.Args[1])
			var as []*Term
			for _, a := range e.args(ex.Args[2:]) {
				as = append(as, x.toTerm(e.st, a.v, a.t))
			}
			return TV{x.fromTerm(e.st, App(n, sortOf(t), as...), t), t}
		case "int", "int64", "byte", "rune", "string", "int32", "uint8":
			tv := e.eval(ex.Args[0])
			if id.Name == "string" {
				return TV{e.seqOf(tv), tString}
			}
			return TV{tv.v, tInt}
		}
		if tv, ok := e.ident(id.Name); ok {
			if f, ok := tv.v.(FuncV); ok && f.fn != nil {
				return e.pureCall(f.fn, nil, e.args(ex.Args))
			}
			if ty, ok := tv.v.(TypeV); ok && len(ex.Args) == 1 {
				a := e.eval(ex.Args[0])
				return TV{a.v, ty.t}
			}
			if f, ok := tv.v.(FuncV); ok {
				return e.symCall(f, tv.t.Underlying().(*types.Signature), e.args(ex.Args))
			}
		}
		evalErr("unknown function %s", id.Name)
	}
	if se, ok := ex.Fun.(*ast.SelectorExpr); ok {
		if id, ok := se.X.(*ast.Ident); ok {
			if _, isName := e.ident(id.Name); !isName {
				if p := x.L.importNamed(e.pkg, id.Name); p != nil {
					tv := e.object(p.Scope().Lookup(se.Sel.Name))
					if f, ok := tv.v.(FuncV); ok && f.fn != nil {
						return e.pureCall(f.fn, nil, e.args(ex.Args))
					}
					evalErr("call of %s", exprString(se))
				}
			}
		}
		recv := e.eval(se.X)
		if recv.t == nil {
			evalErr("call %s", exprString(ex))
		}
		obj, idx, ind := types.LookupFieldOrMethod(recv.t, true, e.pkgOf(recv.t), se.Sel.Name)
		if v, isV := obj.(*types.Var); isV {
			tv := e.field(recv, v.Name())
			if f, ok := tv.v.(FuncV); ok {
				if f.fn != nil {
					return e.pureCall(f.fn, f.bind, e.args(ex.Args))
				}
				return e.symCall(f, under(tv.t).(*types.Signature), e.args(ex.Args))
			}
		}
		m, ok := obj.(*types.Func)
		if !ok {
			evalErr("no method %s on %s", se.Sel.Name, recv.t)
		}
		_, _ = idx, ind
		// walk embedded fields
		for _, i := range idx[:len(idx)-1] {
			t := recv.t
			if p, ok := under(t).(*types.Pointer); ok {
				t = p.Elem()
			}
			recv = e.field(recv, under(t).(*types.Struct).Field(i).Name())
		}
		args := e.args(ex.Args)
		if types.IsInterface(recv.t) {
			return e.invoke(recv, m, args)
		}
		fn := x.L.prog.FuncValue(m)
		if fn == nil {
			evalErr("no code for %s", m)
		}
		return e.pureCall(fn, nil, append([]TV{recv}, args...))
	}
	evalErr("call %s", exprString(ex))
	return TV{}
}

func sigResult(s *types.Signature) types.Type {
	if s.Results().Len() == 1 {
		return s.Results().At(0).Type()
	}
	return s.Results()
}

// pureCall evaluates a function without effects on the state.
func (e *Env) pureCall(fn *ssa.Function, bind []Val, args []TV) TV {
	x := e.x
	var vs []Val
	for i, a := range args {
		v := a.v
		if i < len(fn.Params) {
			pt := fn.Params[i].Type()
			if a.t != nil && v != nil {
				_, s1 := under(a.t).(*types.Slice)
				_, s2 := under(pt).(*types.Slice)
				_, p1 := under(a.t).(*types.Pointer)
				_, p2 := under(pt).(*types.Pointer)
				if (s1 && s2 || p1 && p2) && !types.AssignableTo(a.t, pt) {
					evalErr("%s cannot be passed as %s", a.t, pt)
				}
			}
			if v == nil {
				v = x.zeroVal(e.st, pt)
			} else if types.IsInterface(pt) && a.t != nil && !types.IsInterface(a.t) {
				v = x.makeIface(e.st, v, a.t)
			} else if tm, ok := v.(*Term); ok {
				if st, isS := under(pt).(*types.Slice); isS {
					v = SliceV{seq: tm, nilb: Eq(SeqLen(tm), IntC(0)), elem: st.Elem()}
				}
			}
		}
		vs = append(vs, v)
	}
	r := x.pureEval(e.st, fn, vs, bind)
	rt := sigResult(fn.Signature)
	if len(r) == 1 {
		return TV{r[0], rt}
	}
	return TV{TupleV(r), rt}
}

// pureEval runs fn on a copy of the state and joins every way it can return.
func (x *Exec) pureEval(st *State, fn *ssa.Function, args, bind []Val) []Val {
	if r, ok := x.specApp(st, fn, args); ok {
		return r
	}
	q := st.clone()
	x.pure++
	defer func() { x.pure-- }()
	base := q.facts
	var outs []Outcome
	if o, ok := x.modelOrNil(q, fn, args); ok {
		outs = o
	} else if n := fn.Name(); len(n) > 1 && n[0] == 'v' && n[1] >= 'A' && n[1] <= 'Z' && x.isOverlay(fn) {
		if n == "vAssume" || n == "vAssert" || n == "vReach" || strings.HasPrefix(n, "vGhost") {
			evalErr("%s in a clause", n)
		}
		outs = x.static(nil, q, fn, args, bind, nil)
	} else {
		outs = x.call(q, fn, args, bind, nil, nil)
	}
	if len(outs) == 0 {
		evalErr("%s never returns", fn)
	}
	o := x.pureMerge(base, outs, fn)
	for f := o.st.facts; f != nil && f != base; f = f.parent {
		if !f.cond {
			st.assume(f.t)
		}
	}
	return o.res
}

// pureMerge joins the outcomes of an effect-free call.
func (x *Exec) pureMerge(base *fact, outs []Outcome, fn *ssa.Function) Outcome {
	for i := range outs {
		for k, v := range outs[i].res {
			if s, ok := v.(SliceV); ok {
				outs[i].res[k] = SliceV{seq: x.content(outs[i].st, s), nilb: s.nilb, elem: s.elem}
			}
		}
	}
	if len(outs) == 1 {
		return outs[0]
	}
	for _, o := range outs[1:] {
		if !mergeable(outs[0].res, o.res) {
			unsup("results of %s cannot be joined", fn)
		}
	}
	return x.mergeGroup(base, outs, fn, true)
}

func (e *Env) symCall(f FuncV, s *types.Signature, args []TV) TV {
	var ts []*Term
	for _, a := range args {
		ts = append(ts, e.x.toTerm(e.st, a.v, a.t))
	}
	rt := sigResult(s)
	return TV{e.x.fromTerm(e.st, callUF(f.sym, ts, sortOf(rt)), rt), rt}
}

// callUF is the result of calling an unknown pure function value.
func callUF(f *Term, args []*Term, ret Sort) *Term {
	n := "$call"
	for _, a := range args {
		n += "_" + sanitize(string(a.Sort))
	}
	n += "_" + sanitize(string(ret))
	return App(n, ret, append([]*Term{f}, args...)...)
}

func (e *Env) invoke(recv TV, m *types.Func, args []TV) TV {
	x := e.x
	rt := sigResult(m.Type().(*types.Signature))
	tm := x.toTerm(e.st, recv.v, recv.t)
	if c, ok := cval(IfTag(tm)); ok && c > 0 {
		t := typeByID[c]
		fn := x.L.prog.LookupMethod(t, m.Pkg(), m.Name())
		return e.pureCall(fn, nil, append([]TV{{x.unIface(e.st, tm, t), t}}, args...))
	}
	con := x.L.contracts[ifaceName(recv.t, m)]
	if con == nil || !con.PureUF {
		evalErr("method %s is not a pure function by contract", m)
	}
	var ts []*Term
	for _, a := range args {
		ts = append(ts, x.toTerm(e.st, a.v, a.t))
	}
	return TV{x.ufResult(e.st, con, m, tm, ts), rt}
}

func ifaceName(t types.Type, m *types.Func) string {
	return typeName(t) + "." + m.Name()
}

func (x *Exec) ufResult(st *State, con *Contract, m *types.Func, self *Term, args []*Term) Val {
	rt := sigResult(m.Type().(*types.Signature))
	// an argument named _ does not influence the result
	all := []*Term{self}
	for i, a := range args {
		if i+1 < len(con.Params) && con.Params[i+1] == "_" {
			continue
		}
		all = append(all, a)
	}
	tm := App("uf_"+con.Name, sortOf(rt), all...)
	if !x.ufEns[tm] && x.specDepth < 3 {
		x.ufEns[tm] = true
		x.specDepth++
		env := &Env{x: x, st: st, old: st, names: map[string]TV{}, pkg: con.Pkg}
		sig := m.Type().(*types.Signature)
		if len(con.Params) > 0 {
			env.names[con.Params[0]] = TV{self, nil}
			if r := sig.Recv(); r != nil {
				env.names[con.Params[0]] = TV{self, r.Type()}
			}
		}
		for i := range args {
			if i+1 < len(con.Params) {
				env.names[con.Params[i+1]] = TV{args[i], sig.Params().At(i).Type()}
			}
		}
		if len(con.Results) > 0 {
			env.names[con.Results[0]] = TV{x.fromTerm(st, tm, rt), rt}
		}
		for _, c := range con.Ensures {
			x.termAx[tm] = append(x.termAx[tm], env.bool(c.Expr))
		}
		x.specDepth--
	}
	return x.fromTerm(st, tm, rt)
}

// ---- loop clauses

func (x *Exec) loopEnv(p *Path, ctx *loopCtx) *Env {
	e := &Env{x: x, st: p.st, old: x.entry, names: x.rootNames, fr: p.fr, loop: ctx, pos: ctx.lp.pos()}
	if ctx.spec.con != nil {
		e.pkg = ctx.spec.con.Pkg
		if ctx.spec.con != x.con && ctx.spec.con.Kind != "pool" {
			// a loop of an inlined function under contract: its names are that
			// function's entry values
			for f := p.fr; f != nil; f = f.parent {
				if f.fn.String() == ctx.spec.con.Name {
					n := map[string]TV{}
					for i, a := range f.args {
						if i < len(ctx.spec.con.Params) {
							n[ctx.spec.con.Params[i]] = TV{a, f.fn.Params[i].Type()}
						}
					}
					e.names = n
					if f.entry != nil {
						e.old = f.entry
					}
					break
				}
			}
		}
	}
	return e
}
func (x *Exec) evalLoopClause(p *Path, ctx *loopCtx, c Clause) *Term {
	return x.loopEnv(p, ctx).bool(c.Expr)
}
func (x *Exec) evalLoopTerm(p *Path, ctx *loopCtx, c Clause) *Term {
	return x.loopEnv(p, ctx).term(c.Expr)
}

// loopSpecs lists the invariants that may fit a loop, best first.
func (x *Exec) loopSpecs(p *Path, lp *loopT, key string) []*LoopSpec {
	var l []*LoopSpec
	add := func(c *Contract, own bool) {
		if c == nil {
			return
		}
		for _, s := range c.Loops {
			dup := false
			for _, q := range l {
				dup = dup || q == s
			}
			if !dup && (s.n == 0 || s.n == lp.n || !own && c.Kind != "client") {
				l = append(l, s)
			}
		}
	}
	// the contract of the function the loop is in comes first
	c := x.L.contracts[p.fr.fn.String()]
	if c != nil {
		add(c, true)
		if len(l) > 0 && len(l) == 1 {
			return l
		}
	}
	for f := p.fr.parent; f != nil; f = f.parent {
		add(x.L.contracts[f.fn.String()], false)
	}
	add(c, false)
	add(x.con, false)
	for _, s := range x.L.pool {
		if s.con.SPkg == p.fr.fn.Pkg || s.con.SPkg == x.pkg() {
			l = append(l, s)
		}
	}
	return l
}

func (x *Exec) pkg() *ssa.Package {
	if x.con != nil {
		return x.con.SPkg
	}
	return nil
}

func (x *Exec) localsOf(fr *Frame) []*ssa.Alloc {
	var l []*ssa.Alloc
	for v := range fr.env {
		if a, ok := v.(*ssa.Alloc); ok && a.Comment != "" {
			l = append(l, a)
		}
	}
	sort.Slice(l, func(i, j int) bool { return l[i].Pos() < l[j].Pos() })
	return l
}

func (x *Exec) varType(s *LoopSpec, v LoopVar) types.Type {
	e, err := parseClause(v.Type)
	if err != nil {
		return nil
	}
	return x.L.resolveType(s.con.Pkg, e)
}

// resolvable: every variable the spec names exists with the right type.
func (x *Exec) resolvable(p *Path, lp *loopT, s *LoopSpec, sub map[string]string) bool {
	for _, v := range s.Vars {
		n := v.Name
		if m, ok := sub[n]; ok {
			n = m
		}
		tv, ok := x.localOK(p, n, lp)
		if !ok {
			return false
		}
		t := x.varType(s, v)
		if t == nil || !types.Identical(tv.t, t) {
			return false
		}
	}
	return true
}
func (x *Exec) localOK(p *Path, n string, lp *loopT) (tv TV, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(evalError); !is {
				panic(r)
			}
			ok = false
		}
	}()
	return x.local(p.st, p.fr, n, lp.pos())
}

// substitutions lists ways to bind the variables of a spec to locals.
func (x *Exec) substitutions(p *Path, lp *loopT, s *LoopSpec) []map[string]string {
	var res []map[string]string
	if x.resolvable(p, lp, s, nil) {
		res = append(res, map[string]string{})
	}
	names := map[string]types.Type{}
	var order []string
	for _, a := range x.localsOf(p.fr) {
		if strings.ContainsAny(a.Comment, ". ") || a.Comment == "rangeindex" {
			continue
		}
		if _, ok := names[a.Comment]; !ok {
			if tv, ok := x.localOK(p, a.Comment, lp); ok {
				names[a.Comment] = tv.t
				order = append(order, a.Comment)
			}
		}
	}
	for i, f := range p.fr.fn.FreeVars {
		if _, ok := p.fr.bind[i].(PtrCell); ok {
			if tv, ok := x.localOK(p, f.Name(), lp); ok {
				names[f.Name()] = tv.t
				order = append(order, f.Name())
			}
		}
	}
	for _, c := range x.captured(p.st, p.fr) {
		if _, ok := names[c.name]; !ok {
			names[c.name] = c.t
			order = append(order, c.name)
		}
	}
	cur := map[string]string{}
	used := map[string]bool{}
	var rec func(i int)
	rec = func(i int) {
		if len(res) > 30 {
			return
		}
		if i == len(s.Vars) {
			m := map[string]string{}
			same := true
			for k, v := range cur {
				m[k] = v
				same = same && k == v
			}
			if !same {
				res = append(res, m)
			}
			return
		}
		v := s.Vars[i]
		t := x.varType(s, v)
		if t == nil {
			return
		}
		try := func(n string) {
			if used[n] || !types.Identical(names[n], t) {
				return
			}
			used[n] = true
			cur[v.Name] = n
			rec(i + 1)
			delete(cur, v.Name)
			used[n] = false
		}
		if _, ok := names[v.Name]; ok {
			try(v.Name)
		}
		for _, n := range order {
			if n != v.Name {
				try(n)
			}
		}
	}
	if len(s.Vars) > 0 {
		rec(0)
	}
	return res
}

// ---- spec functions

var specByName = map[string]*ssa.Function{}

// specApp treats a recursive spec function as an uninterpreted function whose
// definition is unfolded when a query is built.
func (x *Exec) specApp(st *State, fn *ssa.Function, args []Val) ([]Val, bool) {
	if !x.L.recursive[fn] {
		return nil, false
	}
	var ts []*Term
	for i, a := range args {
		ts = append(ts, x.toTerm(st, a, fn.Params[i].Type()))
	}
	var res []Val
	rs := fn.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		n := fmt.Sprintf("sp_%s.%d", fn.Name(), i)
		specByName[n] = fn
		t := App(n, sortOf(rs.At(i).Type()), ts...)
		v := x.fromTerm(st, t, rs.At(i).Type())
		if s, ok := v.(SliceV); ok {
			s.nilb = Eq(SeqLen(s.seq), IntC(0))
			v = s
		}
		res = append(res, v)
	}
	return res, true
}

type unfolding struct{ def []*Term }

// unfold gives the defining equation of one application.
func (x *Exec) unfold(t *Term) []*Term {
	if u, ok := x.unfoldCache[t]; ok {
		return u
	}
	x.unfoldCache[t] = nil
	fn := specByName[t.Name]
	var idx int
	fmt.Sscanf(t.Name[strings.LastIndexByte(t.Name, '.')+1:], "%d", &idx)
	st := x.emptyState()
	var args []Val
	for i, a := range t.Args {
		pt := fn.Params[i].Type()
		switch u := under(pt).(type) {
		case *types.Slice:
			args = append(args, SliceV{seq: a, nilb: Eq(SeqLen(a), IntC(0)), elem: u.Elem()})
		case *types.Signature:
			args = append(args, FuncV{sym: a})
			if f, ok := funcOfTerm(a); ok {
				args[len(args)-1] = f
			}
		default:
			args = append(args, a)
		}
	}
	x.pure++
	defer func() { x.pure-- }()
	base := st.facts
	outs := x.call(st, fn, args, nil, nil, nil)
	o := x.pureMerge(base, outs, fn)
	var res []*Term
	for f := o.st.facts; f != nil && f != base; f = f.parent {
		res = append(res, f.t)
	}
	r := x.toTerm(o.st, o.res[idx], fn.Signature.Results().At(idx).Type())
	res = append(res, Eq(t, r))
	x.unfoldCache[t] = res
	return res
}

func (x *Exec) emptyState() *State {
	return &State{cells: map[int]Val{}, heap: map[string]*Term{}, backs: map[int]*Term{}, kids: map[int][]int{}, par: map[int]int{}, water: Var("W0", SInt), esc: map[int]bool{}, foreign: map[int]bool{}, pend: map[int]bool{}, stored: map[int]bool{}, slotVer: map[int]int{}}
}
