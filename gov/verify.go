package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Result struct {
	Con     *Contract
	Obls    []*Obligation
	Reaches []reachPt
	Err     string
	Trusted map[string]bool
	Inlined map[string]bool
	Called  map[string]bool
	Assumed map[string]bool
	Used    map[*Contract]bool
	Paths   int
	Name    string
	x       *Exec
	Ms      int64
}

func (r *Result) ok() bool {
	if r.Err != "" {
		return false
	}
	for _, o := range r.Obls {
		if o.Status != "proved" {
			return false
		}
	}
	return true
}

func (L *Loader) newExec(name string, con *Contract) *Exec {
	x := &Exec{L: L, iters: map[int]*mapIter{}, frames: map[*Term]frameInfo{}, refAx: map[*Term]*Term{}, byteTerm: map[*Term]bool{}, termAx: map[*Term][]*Term{},
		root: name, con: con, notes: map[string]bool{}, assumed: map[string]bool{}, inlined: map[string]bool{}, called: map[string]bool{}, loopNo: map[string]int{},
		globals: map[*ssa.Global]int{}, ghosts: map[string]ghostVar{}, keySort: map[string]Sort{}, symMark: map[*State]int{}, byteLike: map[*Term]bool{},
		usedCon: map[*Contract]bool{}, trusted: map[string]bool{}, ufEns: map[*Term]bool{}, unfoldCache: map[*Term][]*Term{}, rootNames: map[string]TV{}}
	x.symCells, x.symVals, x.foreign = map[string]int{}, map[int]Val{}, map[int]string{}
	x.symField = map[*Term]string{}
	x.feas = newFeas()
	return x
}

// startState is the state before a root: what package initialisation left.
func (x *Exec) startState() *State {
	st := x.emptyState()
	if x.L.initDone != nil {
		for g, v := range x.L.initDone.globals {
			x.globals[g] = v
		}
		i := x.L.initDone
		x.cellN, x.backN = i.cellN, i.backN
		for k, v := range i.st.cells {
			st.cells[k] = v
		}
		for k, v := range i.st.heap {
			st.heap[k] = v
		}
		for k, v := range i.st.backs {
			st.backs[k] = v
		}
		for k, v := range i.keySort {
			x.keySort[k] = v
		}
		for k, v := range i.termAx {
			x.termAx[k] = v
		}
		for k, v := range i.refAx {
			x.refAx[k] = v
		}
		for f := i.st.facts; f != nil; f = f.parent {
			if !f.cond {
				st.assume(f.t)
			}
		}
		st.assume(Le(Add(i.st.water, IntC(i.st.alloc)), st.water))
		st.assume(Le(IntC(0), i.st.water))
	}
	st.assume(Le(IntC(0), st.water))
	st.heap["$IOERR"] = False
	return st
}

type initState struct {
	st      *State
	globals map[*ssa.Global]int
	cellN   int
	backN   int
	keySort map[string]Sort
	termAx  map[*Term][]*Term
	refAx   map[*Term]*Term
}

// runInit executes the package initialisers of /repo in dependency order.
func (L *Loader) runInit() error {
	x := L.newExec("package initialisation", nil)
	defer x.feas.close()
	x.inInit = true
	st := x.emptyState()
	st.water = IntC(0)
	var paths []string
	for k, p := range L.spkgs {
		if L.isRepo(p) {
			paths = append(paths, k)
		}
	}
	sort.Strings(paths)
	done := map[*ssa.Package]bool{}
	var rec func(p *ssa.Package) error
	rec = func(p *ssa.Package) (err error) {
		if done[p] {
			return nil
		}
		done[p] = true
		imps := p.Pkg.Imports()
		sort.Slice(imps, func(i, j int) bool { return imps[i].Path() < imps[j].Path() })
		for _, i := range imps {
			if q := L.spkgs[i.Path()]; q != nil && L.isRepo(q) {
				if err := rec(q); err != nil {
					return err
				}
			}
		}
		// the guard and calls to other packages' init are skipped by the model of init
		fn := p.Func("init")
		if fn == nil || len(fn.Blocks) == 0 {
			return nil
		}
		defer func() {
			if r := recover(); r != nil {
				switch r := r.(type) {
				case unsupported:
					err = fmt.Errorf("init of %s: %s", p.Pkg.Path(), r.msg)
				case evalError:
					err = fmt.Errorf("init of %s: %s", p.Pkg.Path(), r.msg)
				default:
					panic(r)
				}
			}
		}()
		for _, m := range p.Members {
			if g, ok := m.(*ssa.Global); ok {
				x.globalCell(st, g)
			}
		}
		outs := x.call(st, fn, nil, nil, nil, nil)
		if len(outs) != 1 {
			return fmt.Errorf("init of %s has %d outcomes", p.Pkg.Path(), len(outs))
		}
		st = outs[0].st
		return nil
	}
	for _, k := range paths {
		if err := rec(L.spkgs[k]); err != nil {
			L.initErr = append(L.initErr, err.Error())
		}
	}
	// variables that the code never writes after initialisation keep their values
	written := L.writtenGlobals()
	for g, c := range x.globals {
		if written[g] {
			st.cells[c] = x.freshVal(st, g.Type().(*types.Pointer).Elem(), "global_"+g.Name())
		}
	}
	L.initDone = &initState{st: st, globals: x.globals, cellN: x.cellN, backN: x.backN, keySort: x.keySort, termAx: x.termAx, refAx: x.refAx}
	return nil
}

// writtenGlobals: package variables stored to outside initialisers.
func (L *Loader) writtenGlobals() map[*ssa.Global]bool {
	res := map[*ssa.Global]bool{}
	initOnly := map[*ssa.Function]bool{}
	var fns []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var addFn func(f *ssa.Function)
	addFn = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		fns = append(fns, f)
		for _, a := range f.AnonFuncs {
			addFn(a)
		}
	}
	for _, p := range L.spkgs {
		if !L.isRepo(p) {
			continue
		}
		for _, m := range p.Members {
			switch m := m.(type) {
			case *ssa.Function:
				addFn(m)
			case *ssa.Type:
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := L.prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						addFn(L.prog.MethodValue(ms.At(i)))
					}
				}
			}
		}
	}
	callers := map[*ssa.Function][]*ssa.Function{}
	taken := map[*ssa.Function]bool{}
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				var callee *ssa.Function
				if c, ok := i.(ssa.CallInstruction); ok {
					callee = c.Common().StaticCallee()
					if callee != nil {
						callers[callee] = append(callers[callee], f)
					}
				}
				for _, op := range i.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && g != callee {
						taken[g] = true
					}
				}
			}
		}
	}
	isInit := func(f *ssa.Function) bool { return f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") }
	for changed := true; changed; {
		changed = false
		for _, f := range fns {
			if initOnly[f] {
				continue
			}
			ok := isInit(f)
			if !ok && !taken[f] && len(callers[f]) > 0 {
				ok = true
				for _, c := range callers[f] {
					ok = ok && initOnly[c]
				}
			}
			if ok {
				initOnly[f] = true
				changed = true
			}
		}
	}
	for _, f := range fns {
		if initOnly[f] {
			continue
		}
		// registration functions are exported but only used by initialisers; a
		// program that registers more is outside what is checked
		if strings.HasPrefix(f.Name(), "Register") && onlyInitCallers(f, callers, initOnly) {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if s, ok := i.(*ssa.Store); ok {
					if g, ok := s.Addr.(*ssa.Global); ok {
						res[g] = true
					}
				}
			}
		}
	}
	return res
}
func onlyInitCallers(f *ssa.Function, callers map[*ssa.Function][]*ssa.Function, initOnly map[*ssa.Function]bool) bool {
	for _, c := range callers[f] {
		if !initOnly[c] {
			return false
		}
	}
	return true
}

func (x *Exec) lemmaHolds(c *Contract) bool {
	if ok, has := x.L.lemma[c]; has {
		return ok
	}
	x.L.lemma[c] = false // recursion: not available to itself
	r := x.L.verify(c)
	solveAll(r.x, r.Obls, 4000)
	ok := r.ok()
	x.L.lemma[c] = ok
	x.L.lemmaRes[c] = r
	if !ok && os.Getenv("GOV_V") != "" {
		fmt.Fprintf(os.Stderr, "lemma %s does not hold here, its function is inlined: %s\n", c.Name, r.Err)
		for _, o := range r.Obls {
			if o.Status != "proved" {
				fmt.Fprintf(os.Stderr, "   %s: %s\n", o.Name, o.Status)
			}
		}
	}
	return ok
}

// verify generates the obligations of one contract.
func (L *Loader) verify(c *Contract) (res *Result) {
	if c.Kind == "iface" && c.implType == nil {
		panic("verify of an interface contract")
	}
	fn := c.Fn
	if fn == nil {
		fn = L.funcNamed(c.Name)
		c.Fn = fn
	}
	res = &Result{Con: c, Name: rootID(c)}
	if fn == nil {
		res.Err = "there is no function " + c.Name
		return
	}
	return L.verifyFn(c, fn, res)
}

func (L *Loader) verifyFn(c *Contract, fn *ssa.Function, res *Result) (out *Result) {
	out = res
	t0 := time.Now()
	x := L.newExec(res.Name, c)
	res.x = x
	defer x.feas.close()
	defer func() {
		res.Obls, res.Reaches = x.obls, x.reaches
		res.Trusted, res.Inlined, res.Called, res.Assumed, res.Used = x.trusted, x.inlined, x.called, x.assumed, x.usedCon
		res.Ms = time.Since(t0).Milliseconds()
		if r := recover(); r != nil {
			switch r := r.(type) {
			case unsupported:
				res.Err = "not within reach of the verifier: " + r.msg
			case evalError:
				res.Err = "a clause cannot be evaluated: " + r.msg
			default:
				if os.Getenv("GOV_PANIC") != "" {
					panic(r)
				}
				res.Err = fmt.Sprintf("verifier error: %v", r)
			}
		}
	}()
	st := x.startState()
	var args []Val
	var ts []types.Type
	for _, p := range fn.Params {
		args = append(args, x.freshVal(st, p.Type(), p.Name()))
		ts = append(ts, p.Type())
	}
	var bind []Val
	entry := st.clone()
	x.entry = entry
	if fn.Signature.Recv() != nil && len(args) > 0 {
		if t, ok := args[0].(*Term); ok {
			if _, isP := under(ts[0]).(*types.Pointer); isP {
				st.assume(Lt(IntC(0), t))
			}
		}
	}
	params := c.Params
	if c.Kind == "client" {
		params = nil
		for _, p := range fn.Params {
			params = append(params, p.Name())
		}
	}
	env := &Env{x: x, st: st, old: entry, names: x.rootNames, pkg: c.Pkg}
	for i, n := range params {
		if i < len(args) {
			v, t := args[i], ts[i]
			// interface contracts speak about the value as an interface
			if c.Kind == "iface" && i == 0 {
				if tm, ok := v.(*Term); ok {
					x.rootNames[n] = TV{x.makeIface(st, tm, t), c.selfType}
					continue
				}
			}
			x.rootNames[n] = TV{v, t}
		}
	}
	for _, g := range c.Ghosts {
		e, err := parseClause(g.Type)
		if err != nil {
			evalErr("ghost type %s", g.Type)
		}
		t := L.resolveType(c.Pkg, e)
		if t == nil {
			evalErr("ghost type %s", g.Type)
		}
		x.ghosts[g.Name] = ghostVar{x.freshVal(st, t, "ghost_"+g.Name), t}
	}
	for _, cl := range c.Requires {
		st.assume(env.bool(cl.Expr))
	}
	x.reach(st, res.Name+": precondition")
	entry.facts = st.facts
	for k, v := range st.heap {
		if _, ok := entry.heap[k]; !ok {
			entry.heap[k] = v
		}
	}
	st.symMark = symN
	// the frame
	if !c.NoCheck {
		var ls []loc
		if !c.ModAny {
			e2 := *env
			e2.st = entry
			for _, m := range c.Modifies {
				ls = append(ls, e2.locs(m.Expr)...)
			}
		}
		mark := entry.mark()
		x.writeOK = func(s *State, ref *Term, key string) *Term {
			if d, ok := cval(Sub(ref, mark)); ok && d > 0 {
				return True
			}
			if c.ModAny {
				if !L.protectedKey(key) || c.Writes.has(key) {
					return True
				}
				return Lt(mark, ref)
			}
			g := Lt(mark, ref)
			for _, l := range ls {
				if l.key == key || strings.HasPrefix(key, l.key+".") || strings.HasPrefix(l.key, key+".") {
					g = Or(g, Eq(ref, l.ref))
				}
			}
			return g
		}
	}
	st.facts = entry.facts
	outs := x.call(st, fn, args, bind, nil, nil)
	res.Paths = len(outs)
	for _, o := range outs {
		e := &Env{x: x, st: o.st, old: entry, names: map[string]TV{}, pkg: c.Pkg}
		for k, v := range x.rootNames {
			e.names[k] = v
		}
		rs := fn.Signature.Results()
		for i, n := range c.Results {
			if i < rs.Len() {
				e.names[n] = TV{o.res[i], rs.At(i).Type()}
			}
		}
		for i, cl := range c.Ensures {
			x.oblige(o.st, "ensures", fmt.Sprintf("%s: postcondition %d: %s", res.Name, i+1, cl.Text), e.bool(cl.Expr), cl.Line)
		}
		if c.Kind == "client" {
			continue
		}
		// ghost state: what the contract tells callers, and nothing else
		eff := map[string]bool{}
		for _, g := range c.Effects {
			eff[g.Name] = true
			x.oblige(o.st, "ensures", fmt.Sprintf("%s: effect on %s: %s", res.Name, g.Name, g.C.Text), Eq(x.ghost(o.st, g.Name, ghostSort(g.Name)), e.term(g.C.Expr)), g.C.Line)
		}
		if !c.Use && c.Kind != "iface" {
			continue
		}
		var ks []string
		for k := range o.st.heap {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			if !strings.HasPrefix(k, "$") || k == "$IOERR" || eff[k[1:]] || k == "$LOG" && len(c.Log) > 0 {
				continue
			}
			was, ok := entry.heap[k]
			if !ok {
				was = Var("G_"+k[1:], o.st.heap[k].Sort)
			}
			if was != o.st.heap[k] {
				x.oblige(o.st, "ensures", fmt.Sprintf("%s: the ghost %s is left alone", res.Name, k[1:]), Eq(was, o.st.heap[k]), "")
			}
		}
	}
	if len(outs) > 0 {
		// vacuity: at least one way to return must be possible
		x.anyReach = append(x.anyReach, outs...)
	}
	return res
}

func ghostSort(n string) Sort {
	switch {
	case strings.HasPrefix(n, "GI_"):
		return SInt
	case strings.HasPrefix(n, "GB_"):
		return SBool
	case strings.HasPrefix(n, "GS_"):
		return SStr
	}
	return seqOf(SIface)
}
