package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Obligation struct {
	Name   string
	Root   string
	Detail string
	Facts  []*Term
	Goal   *Term
	Status string // proved failed unknown trivial
	Solver string
	Ms     int64
	Model  string
	Out    string
	Kind   string
}

type Frame struct {
	fn      *ssa.Function
	env     map[ssa.Value]Val
	parent  *Frame
	path    string
	loops   map[*ssa.BasicBlock]*loopCtx
	unroll  map[*ssa.BasicBlock]int
	unrollC map[*ssa.BasicBlock]int
	bind    []Val
	args    []Val
	defers  []*ssa.Defer
	site    ssa.Instruction
	entry   *State
}

func (f *Frame) clone() *Frame {
	n := *f
	n.env = make(map[ssa.Value]Val, len(f.env))
	for k, v := range f.env {
		n.env[k] = v
	}
	n.loops = make(map[*ssa.BasicBlock]*loopCtx, len(f.loops))
	for k, v := range f.loops {
		n.loops[k] = v
	}
	n.unroll = make(map[*ssa.BasicBlock]int, len(f.unroll))
	for k, v := range f.unroll {
		n.unroll[k] = v
	}
	n.unrollC = make(map[*ssa.BasicBlock]int, len(f.unrollC))
	for k, v := range f.unrollC {
		n.unrollC[k] = v
	}
	n.defers = append([]*ssa.Defer{}, f.defers...)
	return &n
}

type Outcome struct {
	st  *State
	res []Val
}

type Exec struct {
	L           *Loader
	cellN       int
	backN       int
	iters       map[int]*mapIter
	iterN       int
	frames      map[*Term]frameInfo
	refAx       map[*Term]*Term
	byteTerm    map[*Term]bool
	termAx      map[*Term][]*Term
	obls        []*Obligation
	dry         int
	wlog        func(key string, ref *Term)
	writeOK     func(st *State, ref *Term, key string) *Term
	root        string
	con         *Contract
	entry       *State
	noInline    map[string]bool
	useCon      func(fn *ssa.Function) *Contract
	notes       map[string]bool
	assumed     map[string]bool
	inlined     map[string]bool
	called      map[string]bool
	loopNo      map[string]int
	feas        *Feas
	depth       int
	steps       int
	globals     map[*ssa.Global]int
	inInit      bool
	pure        int
	ghosts      map[string]ghostVar
	loopTrial   func(*Path, *loopCtx) *LoopSpec
	pool        []*LoopSpec
	oblPrefix   string
	exits       int
	logFrame    int
	specDepth   int
	clauseFr    *Frame
	keySort     map[string]Sort
	symMark     map[*State]int
	byteLike    map[*Term]bool
	reaches     []reachPt
	trialDepth  int
	trialStop   int
	trialStops  []*loopT
	cutStack    []string
	dryBody     []*loopT
	usedCon     map[*Contract]bool
	trusted     map[string]bool
	ufEns       map[*Term]bool
	unfoldCache map[*Term][]*Term
	rootNames   map[string]TV
	anyReach    []Outcome
	symCells    map[string]int
	symField    map[*Term]string
	symVals     map[int]Val
	foreign     map[int]string
}

type ghostVar struct {
	v Val
	t types.Type
}

func (x *Exec) note(f string, a ...interface{}) { x.notes[fmt.Sprintf(f, a...)] = true }
func (x *Exec) assumes(f string, a ...interface{}) {
	x.assumed[fmt.Sprintf(f, a...)] = true
}

func bigS(s string) *Term {
	b, _ := new(big.Int).SetString(s, 10)
	return BigC(b)
}

func (x *Exec) oblige(st *State, kind, name string, goal *Term, detail string) {
	if x.pure > 0 {
		return // spec functions are total: nothing is obliged and nothing assumed
	}
	if x.dry == 0 && x.pure == 0 {
		o := &Obligation{Name: x.oblPrefix + name, Root: x.root, Detail: detail, Goal: goal, Kind: kind}
		if goal == True {
			o.Status = "proved"
			o.Solver = "simplifier"
		} else {
			o.Facts = st.factList()
		}
		x.obls = append(x.obls, o)
	}
	st.assume(goal)
}

func (x *Exec) pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	ps := x.L.prog.Fset.Position(p)
	i := strings.LastIndex(ps.Filename, "/")
	return fmt.Sprintf("%s:%d", ps.Filename[i+1:], ps.Line)
}

// ---- paths

type Path struct {
	st     *State
	fr     *Frame
	blk    *ssa.BasicBlock
	prev   *ssa.BasicBlock
	i      int
	atHead bool // start at the head of a loop that was just cut
}

func (p *Path) fork() *Path {
	n := *p
	n.st = p.st.clone()
	n.fr = p.fr.clone()
	return &n
}

const maxDepth = 60

// call executes fn on args and returns every way it can return.
func (x *Exec) call(st *State, fn *ssa.Function, args, bind []Val, parent *Frame, site ssa.Instruction) []Outcome {
	if x.depth > maxDepth {
		unsup("call depth: %s", fn)
	}
	if parent != nil {
		n := 0
		for f := parent; f != nil; f = f.parent {
			if f.fn == fn {
				n++
			}
		}
		if n > 3 {
			unsup("recursion through %s needs a contract", fn)
		}
	}
	x.depth++
	defer func() { x.depth-- }()
	if len(fn.Blocks) == 0 {
		unsup("no body and no model for %s", fn)
	}
	fr := &Frame{fn: fn, env: map[ssa.Value]Val{}, parent: parent, loops: map[*ssa.BasicBlock]*loopCtx{}, unroll: map[*ssa.BasicBlock]int{}, unrollC: map[*ssa.BasicBlock]int{}, bind: bind, args: args, site: site}
	if parent != nil {
		fr.path = parent.path + ">" + fn.Name()
		if site != nil {
			fr.path += fmt.Sprintf("@%d.%d", site.Block().Index, instrIndex(site))
		}
	} else {
		fr.path = fn.Name()
	}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, fv := range fn.FreeVars {
		fr.env[fv] = bind[i]
	}
	if c := x.L.contracts[fn.String()]; c != nil && len(c.Loops) > 0 && x.pure == 0 {
		fr.entry = st.clone()
	}
	base := st.facts
	outs := x.run(&Path{st: st, fr: fr, blk: fn.Blocks[0]})
	if parent != nil || x.pure > 0 {
		outs = x.merge(base, outs, fn)
	}
	return outs
}

func instrIndex(i ssa.Instruction) int {
	for k, x := range i.Block().Instrs {
		if x == i {
			return k
		}
	}
	return -1
}

// nconds counts the open branches on the path.
func (x *Exec) nconds(st *State) int {
	n := 0
	for f := st.facts; f != nil; f = f.parent {
		if f.cond {
			n++
		}
	}
	return n
}

// merge joins outcomes that left the memory in the same state.
func (x *Exec) merge(base *fact, outs []Outcome, fn *ssa.Function) []Outcome {
	if len(outs) < 2 {
		return outs
	}
	var res []Outcome
	used := make([]bool, len(outs))
	for i := range outs {
		if used[i] {
			continue
		}
		grp := []Outcome{outs[i]}
		for j := i + 1; j < len(outs); j++ {
			if !used[j] && sameMem(outs[i].st, outs[j].st) && mergeable(outs[i].res, outs[j].res) {
				used[j] = true
				grp = append(grp, outs[j])
			}
		}
		if len(grp) == 1 {
			res = append(res, outs[i])
			continue
		}
		res = append(res, x.mergeGroup(base, grp, fn, len(grp) == len(outs)))
	}
	return res
}

func mergeable(a, b []Val) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if valKey(a[i]) == valKey(b[i]) {
			continue
		}
		switch u := a[i].(type) {
		case *Term:
			if t, ok := b[i].(*Term); !ok || t.Sort != u.Sort {
				return false
			}
		case SliceV:
			v, ok := b[i].(SliceV)
			if !ok || u.bid != 0 || v.bid != 0 {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func sameMem(a, b *State) bool {
	if a.alloc != b.alloc || a.water != b.water {
		return false
	}
	for k, v := range a.heap {
		w, ok := b.heap[k]
		if !ok {
			if v.Op != "var" {
				return false
			}
			continue
		}
		if v != w {
			return false
		}
	}
	for k, w := range b.heap {
		if _, ok := a.heap[k]; !ok && w.Op != "var" {
			return false
		}
	}
	for k, v := range a.backs {
		if w, ok := b.backs[k]; ok && w != v {
			return false
		}
	}
	for k, v := range a.cells {
		w, ok := b.cells[k]
		if ok && valKey(v) != valKey(w) {
			return false
		}
	}
	return true
}

func (x *Exec) mergeGroup(base *fact, grp []Outcome, fn *ssa.Function, all bool) Outcome {
	st := grp[0].st.clone()
	// cells, backings made on either side
	for _, g := range grp[1:] {
		for k, v := range g.st.cells {
			if _, ok := st.cells[k]; !ok {
				st.cells[k] = v
			}
		}
		for k, v := range g.st.backs {
			if _, ok := st.backs[k]; !ok {
				st.backs[k] = v
			}
		}
		for k, v := range g.st.heap {
			if _, ok := st.heap[k]; !ok {
				st.heap[k] = v
			}
		}
		for k := range g.st.esc {
			st.esc[k] = true
		}
	}
	st.facts = base
	type ax struct {
		c, t *Term
	}
	var axs []ax
	for _, g := range grp {
		var cs []*Term
		var fs []*fact
		for f := g.st.facts; f != base && f != nil; f = f.parent {
			fs = append(fs, f)
		}
		for k := len(fs) - 1; k >= 0; k-- {
			if fs[k].cond {
				cs = append(cs, fs[k].t)
			} else if !fs[k].derived {
				axs = append(axs, ax{And(cs...), fs[k].t})
			}
		}
	}
	done := map[*Term]bool{}
	for _, a := range axs {
		t := Implies(a.c, a.t)
		if !done[t] {
			done[t] = true
			st.assume(t)
		}
	}
	paths := make([][]*Term, len(grp))
	var ids []int
	for i, g := range grp {
		for f := g.st.facts; f != base && f != nil; f = f.parent {
			if f.cond {
				paths[i] = append(paths[i], f.t)
			}
		}
		for l, r := 0, len(paths[i])-1; l < r; l, r = l+1, r-1 {
			paths[i][l], paths[i][r] = paths[i][r], paths[i][l]
		}
		ids = append(ids, i)
	}
	res := make([]Val, len(grp[0].res))
	for k := range res {
		res[k] = mergeTree(grp, paths, ids, 0, k)
	}
	if !all {
		st.add(orTree(paths, ids, 0), true)
	} else if x.pure == 0 {
		st.assume(orTree(paths, ids, 0))
	}
	return Outcome{st, res}
}

// orTree is the disjunction of the paths, told along the tree of their branches.
func orTree(paths [][]*Term, ids []int, d int) *Term {
	tree := true
	for _, i := range ids {
		if len(paths[i]) == d {
			return True
		}
	}
	c := paths[ids[0]][d]
	var a, b []int
	for _, i := range ids {
		switch paths[i][d] {
		case c:
			a = append(a, i)
		case Not(c):
			b = append(b, i)
		default:
			tree = false
		}
	}
	if tree {
		if len(b) == 0 {
			return And(c, orTree(paths, a, d+1))
		}
		return Ite(c, orTree(paths, a, d+1), orTree(paths, b, d+1))
	}
	var os []*Term
	for _, i := range ids {
		os = append(os, And(paths[i][d:]...))
	}
	return Or(os...)
}

// mergeTree joins results along the tree of branches their paths took.
func mergeTree(grp []Outcome, paths [][]*Term, ids []int, d, k int) Val {
	same := true
	for _, i := range ids[1:] {
		same = same && valKey(grp[i].res[k]) == valKey(grp[ids[0]].res[k])
	}
	if same {
		return grp[ids[0]].res[k]
	}
	tree := true
	for _, i := range ids {
		tree = tree && len(paths[i]) > d
	}
	if tree {
		c := paths[ids[0]][d]
		var a, b []int
		for _, i := range ids {
			switch paths[i][d] {
			case c:
				a = append(a, i)
			case Not(c):
				b = append(b, i)
			default:
				tree = false
			}
		}
		if tree {
			if len(b) == 0 {
				return mergeTree(grp, paths, a, d+1, k)
			}
			return mergeVal(c, mergeTree(grp, paths, a, d+1, k), mergeTree(grp, paths, b, d+1, k))
		}
	}
	v := grp[ids[len(ids)-1]].res[k]
	for j := len(ids) - 2; j >= 0; j-- {
		var cs []*Term
		if d < len(paths[ids[j]]) {
			cs = paths[ids[j]][d:]
		}
		v = mergeVal(And(cs...), grp[ids[j]].res[k], v)
	}
	return v
}
func mergeVal(c *Term, a, b Val) Val {
	if valKey(a) == valKey(b) {
		return a
	}
	switch u := a.(type) {
	case *Term:
		return Ite(c, u, b.(*Term))
	case SliceV:
		w := b.(SliceV)
		return SliceV{seq: Ite(c, u.seq, w.seq), nilb: Ite(c, u.nilb, w.nilb), elem: u.elem}
	}
	panic("mergeVal")
}

var traceOn = os.Getenv("GOV_TRACE") != ""

// run executes a path to the end, forking where needed.
func (x *Exec) run(p *Path) []Outcome {
	for {
		if p.atHead {
			p.atHead = false
		} else if p.i == 0 {
			// loop header?
			if lp := x.L.loopsOf(p.fr.fn)[p.blk]; lp != nil {
				fromInside := p.prev != nil && lp.body[p.prev]
				if ctx := p.fr.loops[p.blk]; ctx != nil && fromInside {
					x.backEdge(p, ctx)
					return nil
				} else if fromInside || p.fr.unroll[p.blk] > 0 && fromInside {
					p.fr.unroll[p.blk]++
					if n := p.fr.unroll[p.blk]; n > 400 || n > 16 && x.nconds(p.st) >= p.fr.unrollC[p.blk]+n {
						unsup("loop at %s has no usable invariant (unrolled %d times)", x.pos(lp.pos()), n)
					}
				} else {
					// leave stale contexts of an earlier entry behind
					delete(p.fr.loops, p.blk)
					p.fr.unroll[p.blk] = 0
					p.fr.unrollC[p.blk] = x.nconds(p.st)
					if outs, done := x.enterLoop(p, lp); done {
						return outs
					}
				}
			}
		}
		for p.i < len(p.blk.Instrs) {
			ins := p.blk.Instrs[p.i]
			x.steps++
			if x.steps > 3000000 {
				unsup("step limit")
			}
			switch ins := ins.(type) {
			case *ssa.If:
				c := x.term(p, ins.Cond)
				return x.branch(p, c, ins)
			case *ssa.Jump:
				p.prev, p.blk, p.i = p.blk, p.blk.Succs[0], 0
				if x.leavesDry(p) {
					return nil
				}
				goto next
			case *ssa.Return:
				var res []Val
				for _, r := range ins.Results {
					res = append(res, x.val(p, r))
				}
				x.dropLocals(p)
				return []Outcome{{p.st, res}}
			case *ssa.Panic:
				x.oblige(p.st, "panic", fmt.Sprintf("panic in %s is unreachable", p.fr.fn.Name()), False, x.pos(ins.Pos()))
				return nil
			case *ssa.Call:
				outs := x.doCall(p, &ins.Call, ins)
				if len(outs) == 1 {
					p.st = outs[0].st
					p.fr.env[ins] = packRes(outs[0].res)
					p.i++
					continue
				}
				var all []Outcome
				for k, o := range outs {
					q := p
					if k < len(outs)-1 {
						q = &Path{fr: p.fr.clone(), blk: p.blk, prev: p.prev, i: p.i}
					}
					q.st = o.st
					q.fr.env[ins] = packRes(o.res)
					q.i++
					all = append(all, x.run(q)...)
				}
				return all
			case *ssa.Defer:
				p.fr.defers = append(p.fr.defers, ins)
			case *ssa.RunDefers:
				if len(p.fr.defers) > 0 {
					outs := []*Path{p}
					ds := p.fr.defers
					p.fr.defers = nil
					for k := len(ds) - 1; k >= 0; k-- {
						var nx []*Path
						for _, q := range outs {
							for _, o := range x.doCall(q, &ds[k].Call, ds[k]) {
								n := &Path{st: o.st, fr: q.fr.clone(), blk: q.blk, prev: q.prev, i: q.i}
								nx = append(nx, n)
							}
						}
						outs = nx
					}
					var all []Outcome
					for _, q := range outs {
						q.i++
						all = append(all, x.run(q)...)
					}
					return all
				}
			default:
				if r := x.instr(p, ins); r != nil {
					return r.outs
				}
			}
			p.i++
		}
		unsup("block without end")
	next:
	}
}

// dropLocals forgets the variables nobody can reach after the return.
func (x *Exec) dropLocals(p *Path) {
	if p.fr.parent == nil && x.pure == 0 {
		return
	}
	for _, a := range p.fr.fn.Locals {
		if a.Heap {
			continue
		}
		switch v := p.fr.env[a].(type) {
		case PtrCell:
			delete(p.st.cells, v.cell)
		case PtrElem:
			delete(p.st.backs, v.bid)
		}
	}
}

func packRes(r []Val) Val {
	switch len(r) {
	case 0:
		return nil
	case 1:
		return r[0]
	}
	return TupleV(r)
}

func (x *Exec) branch(p *Path, c *Term, ins *ssa.If) []Outcome {
	b := p.blk
	goTo := func(q *Path, k int) []Outcome {
		q.prev, q.blk, q.i = b, b.Succs[k], 0
		if x.leavesDry(q) {
			return nil
		}
		return x.run(q)
	}
	if c == True {
		return goTo(p, 0)
	}
	if c == False {
		return goTo(p, 1)
	}
	t, f := x.feas.check(x, p.st, c)
	switch {
	case t && !f:
		p.st.derive(c)
		return goTo(p, 0)
	case f && !t:
		p.st.derive(Not(c))
		return goTo(p, 1)
	case !t && !f:
		return nil
	}
	q := p.fork()
	p.st.add(c, true)
	q.st.add(Not(c), true)
	r := goTo(p, 0)
	return append(r, goTo(q, 1)...)
}

// ---- operands

func (x *Exec) val(p *Path, v ssa.Value) Val { return x.valIn(p.st, p.fr, v) }
func (x *Exec) valIn(st *State, fr *Frame, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(st, v)
	case *ssa.Function:
		return FuncV{fn: v}
	case *ssa.Global:
		return PtrCell{x.globalCell(st, v)}
	case *ssa.Builtin:
		return v
	}
	r, ok := fr.env[v]
	if !ok {
		unsup("no value for %s (%s) in %s", v.Name(), v, fr.fn)
	}
	return r
}
func (x *Exec) term(p *Path, v ssa.Value) *Term {
	t := x.val(p, v)
	return x.toTerm(p.st, t, v.Type())
}

func (x *Exec) constVal(st *State, c *ssa.Const) Val {
	if c.Value == nil {
		return x.zeroVal(st, c.Type())
	}
	switch u := under(c.Type()).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return BoolC(constant.BoolVal(c.Value))
		case u.Info()&types.IsString != 0:
			return StrC(constant.StringVal(c.Value))
		case u.Info()&types.IsInteger != 0:
			return bigS(constant.ToInt(c.Value).ExactString())
		}
	}
	unsup("constant %s of type %s", c, c.Type())
	return nil
}

// globalCell gives the cell of a package variable. Variables of /repo packages
// hold what package initialisation left there; others hold an arbitrary constant.
func (x *Exec) globalCell(st *State, g *ssa.Global) int {
	if id, ok := x.globals[g]; ok {
		if _, has := st.cells[id]; !has {
			st.cells[id] = x.globalInit(st, g)
		}
		return id
	}
	x.cellN++
	x.globals[g] = x.cellN
	st.cells[x.cellN] = x.globalInit(st, g)
	return x.cellN
}

var globalVals = map[string]Val{}

func (x *Exec) globalInit(st *State, g *ssa.Global) Val {
	if v, ok := globalVals[g.String()]; ok {
		return v
	}
	et := g.Type().(*types.Pointer).Elem()
	if x.inInit && x.L.isRepo(g.Pkg) {
		if isStructT(et) {
			return x.newObject(st, et)
		}
		return x.zeroVal(st, et)
	}
	// a variable of another package, such as io.EOF: one fixed value
	n := sanitize("global_" + g.String())
	var v Val
	switch u := under(et).(type) {
	case *types.Interface:
		t := Var(n, SIface)
		x.termAx[t] = []*Term{Lt(IntC(0), IfTag(t))}
		v = t
	case *types.Slice:
		v = SliceV{seq: Var(n, sortOf(et)), nilb: Var(n+"_nil", SBool), elem: u.Elem()}
	case *types.Signature:
		v = FuncV{sym: Var(n, SInt)}
	case *types.Struct:
		v = Var(n, SInt)
	default:
		v = Var(n, sortOf(et))
	}
	globalVals[g.String()] = v
	return v
}

func isStructT(t types.Type) bool { _, ok := under(t).(*types.Struct); return ok }
func isArrayT(t types.Type) bool  { _, ok := under(t).(*types.Array); return ok }

type stop struct{ outs []Outcome }

// instr executes one plain instruction; a non-nil result ends the path.
func (x *Exec) instr(p *Path, ins ssa.Instruction) *stop {
	st, fr := p.st, p.fr
	switch ins := ins.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		et := ins.Type().(*types.Pointer).Elem()
		switch {
		case isStructT(et):
			if _, has := fr.env[ins]; has && !ins.Heap {
				// re-zero the local
			}
			fr.env[ins] = x.newObject(st, et)
		case isArrayT(et):
			x.backN++
			st.backs[x.backN] = zeroTerm(et)
			fr.env[ins] = PtrElem{bid: x.backN, idx: nil, elem: et}
		default:
			if old, ok := fr.env[ins].(PtrCell); ok && !ins.Heap {
				st.cells[old.cell] = x.zeroVal(st, et)
				break
			}
			x.cellN++
			st.cells[x.cellN] = x.zeroVal(st, et)
			fr.env[ins] = PtrCell{x.cellN}
		}
	case *ssa.Store:
		x.store(p, x.val(p, ins.Addr), x.val(p, ins.Val), ins.Val.Type(), ins)
	case *ssa.UnOp:
		switch ins.Op {
		case token.MUL:
			fr.env[ins] = x.load(p, x.val(p, ins.X), ins.Type(), ins)
		case token.NOT:
			fr.env[ins] = Not(x.term(p, ins.X))
		case token.SUB:
			fr.env[ins] = x.wrap(p.st, Neg(x.term(p, ins.X)), ins.Type())
		case token.XOR:
			t := x.term(p, ins.X)
			if lo, hi, ok := intBounds(ins.Type()); ok && lo == "0" {
				fr.env[ins] = Sub(bigS(hi), t)
			} else {
				fr.env[ins] = Sub(IntC(-1), t)
			}
		default:
			unsup("unop %s", ins.Op)
		}
	case *ssa.BinOp:
		fr.env[ins] = x.binop(p, ins)
	case *ssa.FieldAddr:
		fr.env[ins] = x.fieldAddr(p, x.val(p, ins.X), ins.X.Type(), ins.Field, ins)
	case *ssa.Field:
		sv, ok := x.val(p, ins.X).(StructV)
		if !ok {
			unsup("field of %T", x.val(p, ins.X))
		}
		fr.env[ins] = sv.fs[ins.Field]
	case *ssa.IndexAddr:
		i := x.term(p, ins.Index)
		switch b := x.val(p, ins.X).(type) {
		case PtrElem: // *array
			n := SeqLen(st.backs[b.bid])
			x.oblige(st, "index", "index in range in "+fr.fn.Name(), And(Le(IntC(0), i), Lt(i, n)), x.pos(ins.Pos()))
			fr.env[ins] = PtrElem{b.bid, i, under(b.elem).(*types.Array).Elem()}
		case SliceV:
			x.oblige(st, "index", "index in range in "+fr.fn.Name(), And(Le(IntC(0), i), Lt(i, x.sliceLen(st, b))), x.pos(ins.Pos()))
			if b.bid != 0 {
				fr.env[ins] = PtrElem{b.bid, Add(b.off, i), b.elem}
			} else {
				fr.env[ins] = PtrElemVal{b.seq, i, b.elem, b.fromKey}
			}
		default:
			unsup("IndexAddr of %T", b)
		}
	case *ssa.Index:
		s := x.term(p, ins.X)
		i := x.term(p, ins.Index)
		x.oblige(st, "index", "index in range in "+fr.fn.Name(), And(Le(IntC(0), i), Lt(i, SeqLen(s))), x.pos(ins.Pos()))
		fr.env[ins] = x.nth(st, s, i, ins.Type())
	case *ssa.Lookup:
		if _, ok := under(ins.X.Type()).(*types.Map); ok {
			m := x.term(p, ins.X)
			k := x.term(p, ins.Index)
			ok, v := x.mapGet(st, m, ins.X.Type(), k)
			et := under(ins.X.Type()).(*types.Map).Elem()
			vv := x.fromMapElem(st, v, et, m, ins.X.Type())
			if ins.CommaOk {
				fr.env[ins] = TupleV{vv, ok}
			} else {
				fr.env[ins] = vv
			}
			break
		}
		s := x.term(p, ins.X)
		i := x.term(p, ins.Index)
		x.oblige(st, "index", "index in range in "+fr.fn.Name(), And(Le(IntC(0), i), Lt(i, SeqLen(s))), x.pos(ins.Pos()))
		fr.env[ins] = x.nth(st, s, i, ins.Type())
	case *ssa.MapUpdate:
		m := x.term(p, ins.Map)
		x.oblige(st, "nil", "map is not nil in "+fr.fn.Name(), Not(Eq(m, IntC(0))), x.pos(ins.Pos()))
		mk, _, _, _ := mapKeys(ins.Map.Type())
		x.writeCheck(st, m, mk)
		x.mapSet(st, m, ins.Map.Type(), x.term(p, ins.Key), x.term(p, ins.Value))
	case *ssa.MakeMap:
		fr.env[ins] = x.newMap(st, ins.Type())
	case *ssa.MakeSlice:
		n := x.term(p, ins.Len)
		x.oblige(st, "index", "make length in "+fr.fn.Name(), Le(IntC(0), n), x.pos(ins.Pos()))
		et := under(ins.Type()).(*types.Slice).Elem()
		var c *Term
		if k, ok := cval(n); ok && k <= 256 {
			var es []*Term
			z := zeroTerm(et)
			for i := int64(0); i < k; i++ {
				es = append(es, z)
			}
			c = seqOfElems(sortOf(ins.Type()), es)
		} else {
			c = Fresh("make", sortOf(ins.Type()))
			st.assume(Eq(SeqLen(c), n))
		}
		fr.env[ins] = x.owned(st, c, et)
	case *ssa.MakeInterface:
		if k := "box " + shortType(ins.X.Type()); x.pure == 0 && x.L.nonnilKey(k) {
			if tm, ok := x.val(p, ins.X).(*Term); ok && tm.Sort == SInt {
				x.oblige(st, "nil", "nil is never made a "+k+" in "+fr.fn.Name(), Not(Eq(tm, IntC(0))), x.pos(ins.Pos()))
			}
		}
		fr.env[ins] = x.makeIface(st, x.val(p, ins.X), ins.X.Type())
	case *ssa.MakeClosure:
		var b []Val
		for _, v := range ins.Bindings {
			b = append(b, x.val(p, v))
		}
		fr.env[ins] = FuncV{fn: ins.Fn.(*ssa.Function), bind: b}
	case *ssa.ChangeType, *ssa.ChangeInterface:
		fr.env[ins.(ssa.Value)] = x.val(p, (*ins.Operands(nil)[0]))
	case *ssa.Convert:
		fr.env[ins] = x.convert(p, x.val(p, ins.X), ins.X.Type(), ins.Type())
	case *ssa.Extract:
		tv, ok := x.val(p, ins.Tuple).(TupleV)
		if !ok {
			unsup("extract from %T in %s: %s", x.val(p, ins.Tuple), fr.fn, ins)
		}
		fr.env[ins] = tv[ins.Index]
	case *ssa.Slice:
		fr.env[ins] = x.slice(p, ins)
	case *ssa.Phi:
		for k, pr := range ins.Block().Preds {
			if pr == p.prev {
				fr.env[ins] = x.val(p, ins.Edges[k])
			}
		}
	case *ssa.TypeAssert:
		fr.env[ins] = x.typeAssert(p, ins)
	case *ssa.Range:
		x.iterN++
		x.cellN++
		it := &mapIter{cell: x.cellN, id: x.iterN, t: ins.X.Type(), x: x.val(p, ins.X)}
		st.cells[it.cell] = IntC(0)
		x.iters[it.id] = it
		x.startIter(st, it)
		fr.env[ins] = IterV{it.id}
	case *ssa.Next:
		return x.next(p, ins)
	default:
		unsup("instruction %T: %s", ins, ins)
	}
	return nil
}

func (x *Exec) fromMapElem(st *State, v *Term, et types.Type, m *Term, mt types.Type) Val {
	r := x.fromTerm(st, v, et)
	if s, ok := r.(SliceV); ok {
		n, _, _, _ := mapKeys(mt)
		s.fromKey, s.fromRef = n, m
		if v.Op == "seq.empty" {
			s.nilb = Fresh("nil", SBool)
		}
		return s
	}
	return r
}

func (x *Exec) owned(st *State, content *Term, et types.Type) SliceV {
	x.backN++
	st.backs[x.backN] = content
	return SliceV{bid: x.backN, off: IntC(0), ln: SeqLen(content), nilb: False, elem: et}
}

func (x *Exec) nth(st *State, s, i *Term, t types.Type) Val {
	e := SeqNth(s, i)
	if b, ok := under(t).(*types.Basic); ok && b.Kind() == types.Uint8 {
		x.byteNth(e)
		return e
	}
	return x.fromTerm(st, e, t)
}

// byteNth records that every element read inside e is a byte.
func (x *Exec) byteNth(e *Term) {
	switch e.Op {
	case "ite":
		x.byteNth(e.Args[1])
		x.byteNth(e.Args[2])
		return
	case "seq.nth":
		if _, ok := x.termAx[e]; !ok {
			x.byteTerm[e] = true
			x.termAx[e] = []*Term{And(Le(IntC(0), e), Le(e, IntC(255)))}
		}
	}
}

func (x *Exec) nonNil(p *Path, ref *Term, what string, pos token.Pos) {
	if c, ok := cval(ref); ok && c != 0 {
		return
	}
	if ref.Op == "+" { // watermark + n
		if d, ok := cval(Sub(ref, p.st.water)); ok && d > 0 {
			return
		}
	}
	x.oblige(p.st, "nil", "nil dereference of "+what+" in "+p.fr.fn.Name(), Not(Eq(ref, IntC(0))), x.pos(pos))
}

func (x *Exec) fieldAddr(p *Path, b Val, bt types.Type, fi int, ins ssa.Instruction) Val {
	pt := under(bt).(*types.Pointer)
	stt := under(pt.Elem()).(*types.Struct)
	f := stt.Field(fi)
	switch b := b.(type) {
	case *Term:
		x.nonNil(p, b, shortType(pt.Elem()), ins.Pos())
		return PtrField{ref: b, key: structKey(pt.Elem()) + "." + f.Name(), ft: f.Type()}
	case PtrField:
		return PtrField{ref: b.ref, key: b.key + "." + f.Name(), ft: f.Type()}
	case PtrCell: // global of struct type
		if r, ok := p.st.cells[b.cell].(*Term); ok {
			return PtrField{ref: r, key: structKey(pt.Elem()) + "." + f.Name(), ft: f.Type()}
		}
	}
	unsup("field address of %T", b)
	return nil
}

// notNil assumes that a value is not nil where the contracts say that it never is.
func (x *Exec) notNil(st *State, v Val, key string, ref *Term) Val {
	if !x.L.nonnilKey(key) {
		return v
	}
	tm, ok := v.(*Term)
	if !ok {
		return v
	}
	var c *Term
	switch tm.Sort {
	case SInt:
		c = Not(Eq(tm, IntC(0)))
	case SIface:
		c = Not(Eq(IfTag(tm), IntC(0)))
	default:
		return v
	}
	if ref != nil && x.entry != nil {
		c = Or(Lt(x.entry.mark(), ref), c)
	}
	if c != True && c != False {
		x.assumed["never nil: "+key] = true
		st.assume(c)
	}
	return v
}

func (x *Exec) load(p *Path, a Val, t types.Type, ins ssa.Instruction) Val {
	st := p.st
	switch a := a.(type) {
	case PtrCell:
		v, ok := st.cells[a.cell]
		if !ok {
			unsup("load of an unset cell")
		}
		if isStructT(t) {
			if r, ok := v.(*Term); ok {
				return x.loadStruct(st, r, t)
			}
		}
		return v
	case PtrField:
		return x.loadField(st, a.ref, a.key, a.ft)
	case PtrElem:
		if a.idx == nil {
			return st.backs[a.bid]
		}
		v := x.nth(st, st.backs[a.bid], a.idx, t)
		if s, ok := v.(SliceV); ok && s.bid == 0 {
			s.slotBid, s.slotIdx, s.slotVer = a.bid, a.idx, st.slotVer[a.bid]
			v = s
		}
		return x.notNil(st, v, "[]"+shortType(t), nil)
	case PtrElemVal:
		return x.notNil(st, x.nth(st, a.seq, a.idx, t), "[]"+shortType(t), nil)
	case *Term:
		if isStructT(t) {
			x.nonNil(p, a, shortType(t), ins.Pos())
			return x.loadStruct(st, a, t)
		}
		x.nonNil(p, a, shortType(t), ins.Pos())
		return x.loadField(st, a, "*"+string(sortOf(t)), t)
	}
	unsup("load through %T", a)
	return nil
}
func (x *Exec) loadStruct(st *State, ref *Term, t types.Type) Val {
	u := under(t).(*types.Struct)
	sv := StructV{typ: t}
	for i := 0; i < u.NumFields(); i++ {
		sv.fs = append(sv.fs, x.loadField(st, ref, structKey(t)+"."+u.Field(i).Name(), u.Field(i).Type()))
	}
	return sv
}

func (x *Exec) store(p *Path, a, v Val, t types.Type, ins ssa.Instruction) {
	st := p.st
	switch a := a.(type) {
	case PtrCell:
		if r, ok := st.cells[a.cell].(*Term); ok && isStructT(t) {
			x.storeStruct(st, r, t, v)
			return
		}
		if n, ok := x.foreign[a.cell]; ok && x.writeOK != nil {
			x.oblige(st, "frame", "frame: "+p.fr.fn.Name()+" writes "+n+", which outlives the call", False, x.pos(ins.Pos()))
		}
		if x.writeOK != nil {
			for g, id := range x.globals {
				if id == a.cell {
					x.oblige(st, "frame", "frame: "+p.fr.fn.Name()+" writes the global "+g.Name(), False, x.pos(ins.Pos()))
				}
			}
		}
		st.cells[a.cell] = v
	case PtrField:
		x.storeField(st, a.ref, a.key, a.ft, v)
	case PtrElem:
		if a.idx == nil {
			st.backs[a.bid] = x.toTerm(st, v, t)
			return
		}
		if s, ok := v.(SliceV); ok && x.pure == 0 {
			switch {
			case s.slotBid == a.bid && s.bid != 0:
				x.oblige(st, "frame", "an appended list goes back to its place in "+p.fr.fn.Name(), Eq(s.slotIdx, a.idx), x.pos(ins.Pos()))
				delete(st.pend, a.bid)
			case s.bid == 0 && s.nilb != True:
				st.foreign[a.bid] = true
			}
			if s.bid != 0 {
				st.stored[s.bid] = true
			}
			st.slotVer[a.bid]++
		}
		x.backWrite(st, a.bid, a.idx, x.toTerm(st, v, t))
	case PtrElemVal:
		x.oblige(st, "frame", "element store through a slice this function does not own ("+a.from+") in "+p.fr.fn.Name(), False, x.pos(ins.Pos()))
	case *Term:
		x.nonNil(p, a, shortType(t), ins.Pos())
		if isStructT(t) {
			x.storeStruct(st, a, t, v)
			return
		}
		x.storeField(st, a, "*"+string(sortOf(t)), t, v)
	default:
		unsup("store through %T", a)
	}
}
func (x *Exec) storeStruct(st *State, ref *Term, t types.Type, v Val) {
	sv, ok := v.(StructV)
	if !ok {
		unsup("store of %T as struct", v)
	}
	u := under(t).(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		x.storeField(st, ref, structKey(t)+"."+u.Field(i).Name(), u.Field(i).Type(), sv.fs[i])
	}
}

func (x *Exec) backWrite(st *State, bid int, i, v *Term) {
	if st.esc[bid] && x.pure == 0 {
		x.oblige(st, "frame", "element store to a slice that was already handed out", False, "")
	}
	st.backs[bid] = SeqUpd(st.backs[bid], i, v)
	taint := func(b int) {
		c := st.backs[b]
		n := Fresh("tainted", c.Sort)
		st.assume(Eq(SeqLen(n), SeqLen(c)))
		st.backs[b] = n
	}
	for _, k := range st.kids[bid] {
		taint(k)
	}
	for b := st.par[bid]; b != 0; b = st.par[b] {
		taint(b)
	}
}

// writeCheck obliges that the current root may write key of ref.
func (x *Exec) writeCheck(st *State, ref *Term, key string) {
	if x.writeOK == nil || x.pure > 0 {
		return
	}
	g := x.writeOK(st, ref, key)
	if g != True {
		x.oblige(st, "frame", "frame: write to "+key, g, "")
	}
}

func (x *Exec) makeIface(st *State, v Val, t types.Type) *Term {
	id := typeID(t)
	tag := IntC(id)
	switch u := under(t).(type) {
	case *types.Pointer, *types.Map, *types.Chan:
		return MkIf(tag, x.toTerm(st, v, t))
	case *types.Basic:
		tm := x.toTerm(st, v, t)
		switch {
		case u.Info()&types.IsBoolean != 0:
			return MkIf(tag, Ite(tm, IntC(1), IntC(0)))
		case u.Info()&types.IsString != 0:
			b := App("$box", SInt, tm)
			x.termAx[b] = []*Term{Eq(App("$unbox", SStr, b), tm)}
			return MkIf(tag, b)
		case u.Info()&types.IsInteger != 0:
			return MkIf(tag, tm)
		}
	case *types.Signature:
		return MkIf(tag, x.toTerm(st, v, t))
	case *types.Slice:
		if s, ok := v.(SliceV); ok && sortOf(t) == SStr {
			tm := x.content(st, s)
			b := App("$box", SInt, tm)
			x.termAx[b] = []*Term{Eq(App("$unbox", SStr, b), tm)}
			return MkIf(tag, b)
		}
	}
	return MkIf(tag, Fresh("boxed", SInt))
}

// unIface reads the payload of an interface value as a t.
func (x *Exec) unIface(st *State, i *Term, t types.Type) Val {
	pay := IfPay(i)
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return Eq(pay, IntC(1))
		case u.Info()&types.IsString != 0:
			if pay.Op == "app" && pay.Name == "$box" {
				return pay.Args[0]
			}
			return App("$unbox", SStr, pay)
		}
		return pay
	case *types.Slice:
		if sortOf(t) == SStr {
			s := App("$unbox", SStr, pay)
			if pay.Op == "app" && pay.Name == "$box" {
				s = pay.Args[0]
			}
			return SliceV{seq: s, nilb: Fresh("nil", SBool), elem: u.Elem()}
		}
		return x.freshVal(st, t, "unboxed")
	case *types.Struct:
		return x.freshVal(st, t, "unboxed")
	case *types.Pointer, *types.Map:
		x.refFacts(st, pay)
		return pay
	}
	return x.fromTerm(st, pay, t)
}

func (x *Exec) typeAssert(p *Path, ins *ssa.TypeAssert) Val {
	i := x.term(p, ins.X)
	tag := IfTag(i)
	var ok *Term
	var v Val
	if it, isI := under(ins.AssertedType).(*types.Interface); isI {
		if c, isC := cval(tag); isC {
			ok = BoolC(c != 0 && typeByID[c] != nil && types.Implements(typeByID[c], it))
		} else {
			in := "$implements_" + sanitize(typeName(ins.AssertedType))
			implIface[in] = it
			ok = And(Not(Eq(tag, IntC(0))), App(in, SBool, tag))
		}
		v = Ite(ok, i, NilIf)
	} else {
		ok = Eq(tag, IntC(typeID(ins.AssertedType)))
		v = x.unIface(p.st, i, ins.AssertedType)
		if k := "box " + shortType(ins.AssertedType); x.L.nonnilKey(k) {
			if tm, isT := v.(*Term); isT && tm.Sort == SInt {
				p.st.assume(Implies(ok, Not(Eq(tm, IntC(0)))))
				x.assumes("a value of type %s in an interface is never nil", shortType(ins.AssertedType))
			}
		}
	}
	if !ins.CommaOk {
		x.oblige(p.st, "panic", "type assertion in "+p.fr.fn.Name(), ok, x.pos(ins.Pos()))
		return v
	}
	if ok == False {
		return TupleV{x.zeroVal(p.st, ins.AssertedType), ok}
	}
	switch u := v.(type) {
	case *Term:
		v = Ite(ok, u, zeroTerm(ins.AssertedType))
		if b := under(ins.AssertedType); b != nil {
			switch b.(type) {
			case *types.Pointer, *types.Map:
				// the ite is bounded as its parts are
			}
		}
	case SliceV:
		v = SliceV{seq: Ite(ok, u.seq, SeqEmpty(u.seq.Sort)), nilb: Or(Not(ok), u.nilb), elem: u.elem}
	}
	return TupleV{v, ok}
}

// ---- bounds and arithmetic

func (x *Exec) bounds(t *Term) (lo, hi int64, ok bool) {
	if c, k := cval(t); k {
		return c, c, true
	}
	if x.byteTerm[t] {
		return 0, 255, true
	}
	switch t.Op {
	case "mod":
		if c, k := cval(t.Args[1]); k && c > 0 {
			return 0, c - 1, true
		}
	case "ite":
		a, b, k1 := x.bounds(t.Args[1])
		c, d, k2 := x.bounds(t.Args[2])
		if k1 && k2 {
			return min64(a, c), max64(b, d), true
		}
	case "+":
		for _, a := range t.Args {
			l, h, k := x.bounds(a)
			if !k {
				return 0, 0, false
			}
			lo += l
			hi += h
		}
		return lo, hi, true
	case "*":
		c, k1 := cval(t.Args[0])
		l, h, k2 := x.bounds(t.Args[1])
		if k1 && k2 && c < 1<<31 && c > -(1<<31) && h < 1<<31 && l > -(1<<31) {
			if c < 0 {
				return c * h, c * l, true
			}
			return c * l, c * h, true
		}
	}
	return 0, 0, false
}
func min64(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}
func max64(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}

// always says whether the path condition certainly implies c.
func (x *Exec) always(st *State, c *Term) bool {
	if c == True {
		return true
	}
	if st == nil || x.pure > 0 {
		return false
	}
	_, f := x.feas.check(x, st, c)
	return !f
}

// wrap reduces an arithmetic result to type t. 64-bit integers are taken as mathematical.
func (x *Exec) wrap(st *State, t *Term, ty types.Type) *Term {
	b, ok := under(ty).(*types.Basic)
	if !ok {
		return t
	}
	lo, hi, ok := intBounds(ty)
	if !ok {
		return t
	}
	if l, h, k := x.bounds(t); k {
		L, H := bigS(lo).I, bigS(hi).I
		if big.NewInt(l).Cmp(L) >= 0 && big.NewInt(h).Cmp(H) <= 0 {
			return t
		}
	}
	switch b.Kind() {
	case types.Int, types.Int64:
		x.assumes("64-bit integer arithmetic does not overflow (taken as mathematical)")
		return t
	case types.Uint8, types.Uint16, types.Uint32, types.Uint, types.Uint64, types.Uintptr:
		if x.always(st, And(Le(IntC(0), t), Le(t, bigS(hi)))) {
			return t
		}
		m := new(big.Int).Add(bigS(hi).I, big.NewInt(1))
		return Mod(t, BigC(m))
	}
	// signed: ((t - lo) mod 2^n) + lo
	m := new(big.Int).Add(new(big.Int).Sub(bigS(hi).I, bigS(lo).I), big.NewInt(1))
	if isC(t) || true {
		in := And(Le(bigS(lo), t), Le(t, bigS(hi)))
		if x.always(st, in) {
			return t
		}
		return Ite(in, t, Add(Mod(Sub(t, bigS(lo)), BigC(m)), bigS(lo)))
	}
	return t
}

func (x *Exec) binop(p *Path, ins *ssa.BinOp) Val {
	a, b := x.val(p, ins.X), x.val(p, ins.Y)
	return x.binVal(p.st, ins.Op, a, b, ins.X.Type(), ins.Y.Type(), ins.Type(), func(g *Term) {
		x.oblige(p.st, "div", "division by zero in "+p.fr.fn.Name(), g, x.pos(ins.Pos()))
	})
}

func (x *Exec) binVal(st *State, op token.Token, a, b Val, at, bt, rt types.Type, div func(*Term)) Val {
	switch op {
	case token.EQL, token.NEQ:
		e := x.equal(st, a, b, at, bt)
		if op == token.NEQ {
			return Not(e)
		}
		return e
	}
	l, r := x.toTerm(st, a, at), x.toTerm(st, b, bt)
	if l.Sort == SStr {
		switch op {
		case token.ADD:
			return SeqCat(l, r)
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			if s1, ok := goStr(l); ok {
				if s2, ok := goStr(r); ok {
					return BoolC(op == token.LSS && s1 < s2 || op == token.GTR && s1 > s2 || op == token.LEQ && s1 <= s2 || op == token.GEQ && s1 >= s2)
				}
			}
			lt := func(p, q *Term) *Term { return App("$strlt", SBool, p, q) }
			switch op {
			case token.LSS:
				return lt(l, r)
			case token.GTR:
				return lt(r, l)
			case token.LEQ:
				return Not(lt(r, l))
			}
			return Not(lt(l, r))
		}
	}
	if l.Sort == SBool {
		switch op {
		case token.AND, token.LAND:
			return And(l, r)
		case token.OR, token.LOR:
			return Or(l, r)
		}
	}
	switch op {
	case token.LSS:
		return Lt(l, r)
	case token.LEQ:
		return Le(l, r)
	case token.GTR:
		return Lt(r, l)
	case token.GEQ:
		return Le(r, l)
	case token.ADD:
		return x.wrap(st, Add(l, r), rt)
	case token.SUB:
		return x.wrap(st, Sub(l, r), rt)
	case token.MUL:
		return x.wrap(st, Mul(l, r), rt)
	case token.QUO, token.REM:
		if div != nil {
			div(Not(Eq(r, IntC(0))))
		}
		// Go truncates toward zero
		q := Ite(Le(IntC(0), l), Div(l, r), Neg(Div(Neg(l), r)))
		if op == token.QUO {
			return x.wrap(st, q, rt)
		}
		return Ite(Le(IntC(0), l), Mod(l, r), Neg(Mod(Neg(l), r)))
	case token.SHL:
		if c, ok := cval(r); ok && c >= 0 && c < 64 {
			return x.wrap(st, Mul(l, BigC(new(big.Int).Lsh(big.NewInt(1), uint(c)))), rt)
		}
	case token.SHR:
		if c, ok := cval(r); ok && c >= 0 && c < 64 {
			return Div(l, BigC(new(big.Int).Lsh(big.NewInt(1), uint(c))))
		}
	case token.OR, token.XOR:
		if c, ok := cval(l); ok {
			if d, ok := cval(r); ok {
				if op == token.OR {
					return IntC(c | d)
				}
				return IntC(c ^ d)
			}
		}
		for k := 0; k < 2; k++ {
			if m := powFactor(l); m > 1 {
				if lo, hi, ok := x.bounds(r); ok && lo >= 0 && hi < m {
					return Add(l, r)
				}
				if x.always(st, And(Le(IntC(0), r), Lt(r, IntC(m)))) {
					return Add(l, r)
				}
				f := App("$bitor", SInt, l, r)
				return Ite(And(Le(IntC(0), r), Lt(r, IntC(m))), Add(l, r), f)
			}
			l, r = r, l
		}
		return App(map[token.Token]string{token.OR: "$bitor", token.XOR: "$bitxor"}[op], SInt, l, r)
	case token.AND:
		if c, ok := cval(l); ok {
			l, r = r, l
			_ = c
		}
		if c, ok := cval(r); ok {
			if d, ok := cval(l); ok {
				return IntC(c & d)
			}
			if c > 0 && (c+1)&c == 0 { // low mask
				return Mod(l, IntC(c+1))
			}
		}
		return App("$bitand", SInt, l, r)
	case token.AND_NOT:
		return App("$bitandnot", SInt, l, r)
	}
	unsup("binary %s", op)
	return nil
}

// powFactor returns a power of two that certainly divides t.
func powFactor(t *Term) int64 {
	switch t.Op {
	case "*":
		if c, ok := cval(t.Args[0]); ok && c > 0 {
			return c & -c
		}
	case "+":
		m := int64(1) << 40
		for _, a := range t.Args {
			f := powFactor(a)
			if f < m {
				m = f
			}
		}
		return m
	case "const":
		if c, ok := cval(t); ok && c > 0 {
			return c & -c
		}
	case "mod":
		if c, ok := cval(t.Args[1]); ok {
			return min64(powFactor(t.Args[0]), c&-c)
		}
	case "ite":
		return min64(powFactor(t.Args[1]), powFactor(t.Args[2]))
	}
	return 1
}

func (x *Exec) equal(st *State, a, b Val, at, bt types.Type) *Term {
	switch u := a.(type) {
	case SliceV:
		if w, ok := b.(SliceV); ok {
			// Go only compares slices with nil
			if w.nilb == True {
				return u.nilb
			}
			if u.nilb == True {
				return w.nilb
			}
			return Eq(x.content(st, u), x.content(st, w)) // in clauses
		}
		if w, ok := b.(*Term); ok {
			return Eq(x.content(st, u), w)
		}
	case FuncV:
		w, ok := b.(FuncV)
		if ok {
			return Eq(x.toTerm(st, u, at), x.toTerm(st, w, bt))
		}
	case PtrCell:
		if w, ok := b.(PtrCell); ok {
			return BoolC(u.cell == w.cell)
		}
		return False
	case StructV:
		w, ok := b.(StructV)
		if ok {
			var c []*Term
			su := under(u.typ).(*types.Struct)
			for i := range u.fs {
				ft := su.Field(i).Type()
				c = append(c, x.equal(st, u.fs[i], w.fs[i], ft, ft))
			}
			return And(c...)
		}
	case *Term:
		switch w := b.(type) {
		case *Term:
			if u.Sort != w.Sort {
				if u.Sort == SIface && w.Sort == SInt {
					unsup("compare interface with pointer")
				}
			}
			return Eq(u, w)
		case PtrCell, PtrElem, PtrField, PtrElemVal:
			if u == IntC(0) {
				return False
			}
		case SliceV:
			return x.equal(st, b, a, bt, at)
		}
	case PtrField, PtrElem, PtrElemVal:
		if w, ok := b.(*Term); ok && w == IntC(0) {
			return False
		}
	}
	unsup("comparison of %T and %T", a, b)
	return nil
}

func (x *Exec) convert(p *Path, v Val, from, to types.Type) Val {
	st := p.st
	fu, tu := under(from), under(to)
	fb, fok := fu.(*types.Basic)
	tb, tok := tu.(*types.Basic)
	switch {
	case fok && tok && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
		t := v.(*Term)
		if tb.Kind() == types.Int || tb.Kind() == types.Int64 {
			if fb.Info()&types.IsUnsigned != 0 && (fb.Kind() == types.Uint || fb.Kind() == types.Uint64) {
				m := bigS("18446744073709551616")
				return Ite(Le(t, bigS("9223372036854775807")), t, Sub(t, m))
			}
			return t
		}
		return x.wrap(st, t, to)
	case fok && tok && fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
		return v
	case fok && tok && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsString != 0:
		t := v.(*Term)
		if c, ok := cval(t); ok {
			return StrC(string(rune(c)))
		}
		return App("$utf8", SStr, t)
	case fok && fb.Info()&types.IsString != 0:
		if sl, ok := tu.(*types.Slice); ok {
			t := v.(*Term)
			if e, ok := under(sl.Elem()).(*types.Basic); ok && e.Kind() == types.Uint8 {
				return x.owned(st, t, sl.Elem())
			}
			if s, ok := goStr(t); ok {
				var r []int64
				for _, c := range s {
					r = append(r, int64(c))
				}
				return x.owned(st, Lit(SStr, r), sl.Elem())
			}
			return x.owned(st, App("$runes", SStr, t), sl.Elem())
		}
	case tok && tb.Info()&types.IsString != 0:
		if sl, ok := fu.(*types.Slice); ok {
			t := x.content(st, v.(SliceV))
			if e, ok := under(sl.Elem()).(*types.Basic); ok && e.Kind() == types.Uint8 {
				return t
			}
			return App("$utf8s", SStr, t)
		}
	case fok && fb.Kind() == types.UnsafePointer, tok && tb.Kind() == types.UnsafePointer:
		unsup("unsafe")
	}
	if types.Identical(fu, tu) {
		return v
	}
	unsup("conversion %s to %s", from, to)
	return nil
}

func (x *Exec) slice(p *Path, ins *ssa.Slice) Val {
	st := p.st
	opt := func(v ssa.Value, d *Term) *Term {
		if v == nil {
			return d
		}
		return x.term(p, v)
	}
	v := x.val(p, ins.X)
	if pe, ok := v.(PtrElem); ok && pe.idx == nil { // *array
		n := SeqLen(st.backs[pe.bid])
		lo, hi := opt(ins.Low, IntC(0)), opt(ins.High, n)
		x.oblige(st, "index", "slice bounds in "+p.fr.fn.Name(), And(Le(IntC(0), lo), Le(lo, hi), Le(hi, n)), x.pos(ins.Pos()))
		return SliceV{bid: pe.bid, off: lo, ln: Sub(hi, lo), nilb: False, elem: under(pe.elem).(*types.Array).Elem()}
	}
	switch b := v.(type) {
	case *Term: // string
		n := SeqLen(b)
		lo, hi := opt(ins.Low, IntC(0)), opt(ins.High, n)
		x.oblige(st, "index", "slice bounds in "+p.fr.fn.Name(), And(Le(IntC(0), lo), Le(lo, hi), Le(hi, n)), x.pos(ins.Pos()))
		return SeqSub(b, lo, hi)
	case SliceV:
		n := x.sliceLen(st, b)
		lo, hi := opt(ins.Low, IntC(0)), opt(ins.High, n)
		// bounded by cap in Go; this checks the stronger bound len
		x.oblige(st, "index", "slice bounds in "+p.fr.fn.Name(), And(Le(IntC(0), lo), Le(lo, hi), Le(hi, n)), x.pos(ins.Pos()))
		if b.bid != 0 {
			r := b
			r.off, r.ln = Add(b.off, lo), Sub(hi, lo)
			return r
		}
		r := b
		r.seq = SeqSub(b.seq, lo, hi)
		if ins.Max != nil {
			r.fromKey, r.fromRef = "", nil
		}
		return r
	}
	unsup("slice of %T", v)
	return nil
}

// ---- range over maps and strings

type mapIter struct {
	id, cell int
	t        types.Type
	x        Val
	dom, val *Term
	order    *Term
	str      *Term
	ord      int
}

func (x *Exec) startIter(st *State, it *mapIter) {
	if _, ok := under(it.t).(*types.Map); !ok {
		it.str = it.x.(*Term)
		return
	}
	ref := it.x.(*Term)
	_, ks, _, _ := mapKeys(it.t)
	it.dom = x.mapDom(st, ref, it.t)
	it.val = x.mapVal(st, ref, it.t)
	if a := ref; a == IntC(0) {
		it.dom = ConstArr(mkArr(ks, SBool), False)
	}
	it.order = Fresh("order", seqOf(ks))
	// a nil map has no entries
	st.assume(Implies(Eq(ref, IntC(0)), Eq(SeqLen(it.order), IntC(0))))
}

func (it *mapIter) pos(k *Term) *Term {
	return App(fmt.Sprintf("$pos_%s_%s", sanitize(string(k.Sort)), sanitize(string(it.order.Sort))), SInt, it.order, k)
}

// covered instantiates "the enumeration contains every key exactly once" at k.
func (x *Exec) covered(st *State, it *mapIter, k *Term) {
	p := it.pos(k)
	ref := it.x.(*Term)
	in := And(Not(Eq(ref, IntC(0))), Select(it.dom, k))
	st.assume(Implies(in, And(Le(IntC(0), p), Lt(p, SeqLen(it.order)), Eq(SeqNth(it.order, p), k))))
}

// at instantiates the facts about the j-th key (0 <= j < len).
func (x *Exec) orderAt(st *State, it *mapIter, j *Term) *Term {
	k := SeqNth(it.order, j)
	in := And(Le(IntC(0), j), Lt(j, SeqLen(it.order)))
	st.assume(Implies(in, And(Select(it.dom, k), Eq(it.pos(k), j), Not(Eq(it.x.(*Term), IntC(0))))))
	return k
}

func (x *Exec) next(p *Path, ins *ssa.Next) *stop {
	st := p.st
	it := x.iters[x.val(p, ins.Iter).(IterV).id]
	j := st.cells[it.cell].(*Term)
	if ins.IsString {
		return x.nextString(p, ins, it, j)
	}
	if d := x.mapDom(st, it.x.(*Term), it.t); d != it.dom && it.x.(*Term) != IntC(0) {
		if x.dry > 0 {
		} else if same, changed := x.feas.check(x, st, Eq(d, it.dom)); !same || changed {
			unsup("the map is changed while it is ranged over in %s", p.fr.fn)
		}
	}
	mt := under(it.t).(*types.Map)
	ok := Lt(j, SeqLen(it.order))
	k := x.orderAt(st, it, j)
	x.typeFacts(st, k, mt.Key())
	v := Select(it.val, k)
	st.cells[it.cell] = Add(j, Ite(ok, IntC(1), IntC(0)))
	// fork on ok right here so that the counter stays linear
	t, f := x.feas.check(x, st, ok)
	var all []Outcome
	if f {
		q := p.fork()
		if t {
			q.st.add(Not(ok), true)
		}
		q.st.cells[it.cell] = j
		q.fr.env[ins] = TupleV{False, x.zeroVal(q.st, mt.Key()), x.zeroVal(q.st, mt.Elem())}
		q.i++
		all = append(all, x.run(q)...)
	}
	if t {
		if f {
			st.add(ok, true)
		}
		st.cells[it.cell] = Add(j, IntC(1))
		p.fr.env[ins] = TupleV{True, x.fromTerm(st, k, mt.Key()), x.fromMapElem(st, v, mt.Elem(), it.x.(*Term), it.t)}
		p.i++
		all = append(x.run(p), all...)
	}
	return &stop{all}
}

func (x *Exec) nextString(p *Path, ins *ssa.Next, it *mapIter, j *Term) *stop {
	st := p.st
	if s, ok := goStr(it.str); ok {
		c, ok2 := cval(j)
		if ok2 {
			if int(c) >= len(s) {
				p.fr.env[ins] = TupleV{False, IntC(0), IntC(0)}
				return nil
			}
			for i, r := range s[c:] {
				_ = i
				n := len(string(r))
				if r == 0xFFFD && s[c] != 0xEF {
					n = 1
				}
				p.fr.env[ins] = TupleV{True, j, IntC(int64(r))}
				st.cells[it.cell] = IntC(c + int64(n))
				return nil
			}
		}
	}
	ok := Lt(j, SeqLen(it.str))
	b := SeqNth(it.str, j)
	x.byteNth(b)
	r := App("$runeat", SInt, it.str, j)
	w := App("$runewidth", SInt, it.str, j)
	st.assume(Implies(And(ok, Lt(b, IntC(128))), And(Eq(r, b), Eq(w, IntC(1)))))
	st.assume(Implies(And(ok, Le(IntC(128), b)), And(Le(IntC(128), r), Le(r, IntC(0x10FFFF)))))
	st.assume(And(Le(IntC(1), w), Le(w, IntC(4))))
	st.assume(Implies(ok, Le(Add(j, w), SeqLen(it.str))))
	t, f := x.feas.check(x, st, ok)
	var all []Outcome
	if f {
		q := p.fork()
		if t {
			q.st.add(Not(ok), true)
		}
		q.fr.env[ins] = TupleV{False, IntC(0), IntC(0)}
		q.i++
		all = append(all, x.run(q)...)
	}
	if t {
		if f {
			st.add(ok, true)
		}
		st.cells[it.cell] = Add(j, w)
		p.fr.env[ins] = TupleV{True, j, r}
		p.i++
		all = append(x.run(p), all...)
	}
	return &stop{all}
}

func sortedKeys(m map[string]bool) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// leavesDry: in a dry run (or a trial) of a loop, paths that leave the loop are not followed.
func (x *Exec) leavesDry(p *Path) bool {
	if n := len(x.dryBody); n > 0 {
		lp := x.dryBody[n-1]
		if p.fr.fn == lp.header.Parent() && !lp.body[p.blk] && lp.body[p.prev] {
			return true
		}
	}
	if n := len(x.trialStops); n > 0 && len(x.dryBody) == 0 {
		lp := x.trialStops[n-1]
		if p.fr.fn == lp.header.Parent() && !lp.body[p.blk] && lp.body[p.prev] {
			return true
		}
	}
	return false
}
