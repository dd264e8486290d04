package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- natural loops

type loopT struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	n      int // ordinal in the function, 1-based, by header index
}

func (l *loopT) pos() token.Pos {
	for _, i := range l.header.Instrs {
		if i.Pos().IsValid() {
			return i.Pos()
		}
	}
	for b := range l.body {
		for _, i := range b.Instrs {
			if i.Pos().IsValid() {
				return i.Pos()
			}
		}
	}
	return token.NoPos
}

func (L *Loader) loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]*loopT {
	if m, ok := L.loops[fn]; ok {
		return m
	}
	m := map[*ssa.BasicBlock]*loopT{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				lp := m[s]
				if lp == nil {
					lp = &loopT{header: s, body: map[*ssa.BasicBlock]bool{s: true}}
					m[s] = lp
				}
				var add func(x *ssa.BasicBlock)
				add = func(x *ssa.BasicBlock) {
					if lp.body[x] {
						return
					}
					lp.body[x] = true
					for _, p := range x.Preds {
						add(p)
					}
				}
				add(b)
			}
		}
	}
	var hs []*ssa.BasicBlock
	for h := range m {
		hs = append(hs, h)
	}
	sort.Slice(hs, func(i, j int) bool {
		a, b := m[hs[i]].pos(), m[hs[j]].pos()
		if a != b {
			return a < b
		}
		return hs[i].Index < hs[j].Index
	})
	for i, h := range hs {
		m[h].n = i + 1
	}
	L.loops[fn] = m
	return m
}

// ---- cutting a loop with its invariants

type loopCtx struct {
	lp      *loopT
	spec    *LoopSpec
	name    string
	k       *Term // iterations completed at the head
	dec     []*Term
	pre     *State // state before the loop
	fr      *Frame
	collect *[]*Path // dry run: back-edge paths
	head    *State
	subst   map[string]string
	autoInv func(p *Path) []*Term
	headFr  *Frame
}

type modSet struct {
	cells  map[int]bool
	heap   map[string]*modRefs
	ghost  map[string]bool
	backs  map[int]bool
	epoch  bool
	writes []*writeSet
	induc  map[int]*Term // cell -> step
	owned  map[int]bool
}
type modRefs struct {
	all  bool
	refs []*Term
	anew bool // written at objects allocated in the loop
}

func (x *Exec) enterLoop(p *Path, lp *loopT) ([]Outcome, bool) {
	if x.pure > 0 {
		return nil, false
	}
	key := fmt.Sprintf("%s#%d", p.fr.path, lp.header.Index)
	specs := x.loopSpecs(p, lp, key)
	if x.con != nil && x.con.AnyLoop && !x.L.specFn[p.fr.fn] {
		specs = append(specs, noInv)
		if len(x.con.Ensures) == 0 && x.con.Kind == "iface" {
			specs = specs[len(specs)-1:]
		}
	}
	if len(specs) == 0 {
		if os.Getenv("GOV_LOOPS") != "" && x.dry == 0 {
			fmt.Fprintf(os.Stderr, "loop %s of %s at %s: unrolled\n", key, p.fr.fn, x.pos(lp.pos()))
		}
		return nil, false
	}
	// a loop whose bound is concrete here is simply unrolled when the spec allows it
	if len(specs) == 1 && !specs[0].pooled {
		if x.resolvable(p, lp, specs[0], nil) {
			return x.cutLoop(p, lp, specs[0], key, nil), true
		}
	}
	// several candidates or renamed variables: take the first that proves
	type cand struct {
		s   *LoopSpec
		sub map[string]string
	}
	var cands []cand
	for _, s := range specs {
		for _, sub := range x.substitutions(p, lp, s) {
			cands = append(cands, cand{s, sub})
		}
	}
	if os.Getenv("GOV_LOOPS") != "" && x.dry == 0 {
		fmt.Fprintf(os.Stderr, "loop %s of %s at %s: %d candidates\n", key, p.fr.fn, x.pos(lp.pos()), len(cands))
	}
	if len(cands) == 0 {
		return nil, false
	}
	if ids := x.loopIdents(p.fr.fn, lp); ids != nil {
		rank := func(c cand) int {
			if !c.s.pooled {
				return -1
			}
			n := 0
			if len(c.s.In) > 0 {
				n = 10
				for _, s := range c.s.In {
					if s == p.fr.fn.Name() {
						n = -10
					}
				}
			}
			for _, v := range c.s.Vars {
				m := v.Name
				if s, ok := c.sub[m]; ok {
					m = s
				}
				if !ids[m] {
					n++
				}
			}
			return n
		}
		sort.SliceStable(cands, func(i, j int) bool { return rank(cands[i]) < rank(cands[j]) })
	}
	key = strings.Join(x.cutStack, "|") + "|" + key
	if len(cands) == 1 && cands[0].s == noInv {
		return x.cutLoop(p, lp, noInv, key, cands[0].sub), true
	}
	if ch, ok := x.L.loopChoice[x.root+key]; ok {
		for _, c := range cands {
			if choiceKey(c.s, c.sub) == ch {
				return x.cutLoop(p, lp, c.s, key, c.sub), true
			}
		}
	}
	if x.dry > 0 || x.trialDepth > 2 {
		c := cands[0]
		return x.cutLoop(p, lp, c.s, key, c.sub), true
	}
	rounds := []int{1500, 6000}
	if x.trialDepth > 0 {
		rounds = rounds[:1]
	}
	for _, ms := range rounds {
		for ci, c := range cands {
			if ci > 40 {
				break
			}
			if x.tryLoop(p, lp, c.s, key, c.sub, ms) {
				x.L.loopChoice[x.root+key] = choiceKey(c.s, c.sub)
				return x.cutLoop(p, lp, c.s, key, c.sub), true
			}
		}
	}
	c := cands[0]
	x.L.loopChoice[x.root+key] = choiceKey(c.s, c.sub)
	return x.cutLoop(p, lp, c.s, key, c.sub), true
}

// noInv says nothing about a loop: all it changes is forgotten.
var noInv = &LoopSpec{pooled: true, label: "(no invariant)"}

func choiceKey(s *LoopSpec, sub map[string]string) string {
	var l []string
	for k, v := range sub {
		l = append(l, k+"="+v)
	}
	sort.Strings(l)
	return fmt.Sprintf("%p %s", s, strings.Join(l, ","))
}

// tryLoop runs the loop with a candidate invariant and proves the loop's own obligations at once.
func (x *Exec) tryLoop(p *Path, lp *loopT, s *LoopSpec, key string, sub map[string]string, ms int) (ok bool) {
	saved := x.obls
	x.obls = nil
	x.trialDepth++
	defer func() {
		x.trialDepth--
		x.obls = saved
		if r := recover(); r != nil {
			_, is := r.(unsupported)
			_, is2 := r.(evalError)
			if is || is2 {
				if os.Getenv("GOV_LOOPS") != "" {
					fmt.Fprintf(os.Stderr, "  candidate %s fails: %v\n", choiceKey(s, sub), r)
				}
				ok = false
				return
			}
			panic(r)
		}
	}()
	q := p.fork()
	x.trialStop = len(x.trialStops) + 1
	x.trialStops = append(x.trialStops, lp)
	defer func() { x.trialStops = x.trialStops[:len(x.trialStops)-1] }()
	x.cutLoop(q, lp, s, key, sub)
	var mine []*Obligation
	for _, o := range x.obls {
		if o.Kind == "inv" || o.Kind == "dec" {
			mine = append(mine, o)
		}
	}
	sort.SliceStable(mine, func(i, j int) bool {
		return strings.Contains(mine[i].Name, "holds on entry") && !strings.Contains(mine[j].Name, "holds on entry")
	})
	solveUntil(x, mine, ms, true)
	for _, o := range mine {
		if o.Status != "proved" {
			if os.Getenv("GOV_LOOPS") != "" {
				fmt.Fprintf(os.Stderr, "  candidate %s fails: %s\n", choiceKey(s, sub), o.Name)
				if w := os.Getenv("GOV_CAND"); w != "" && strings.Contains(o.Name, w) {
					dumpObl(x, o)
				}
			}
			return false
		}
	}
	return true
}

func (x *Exec) cutLoop(p *Path, lp *loopT, spec *LoopSpec, key string, sub map[string]string) []Outcome {
	name := spec.label
	if name == "" {
		name = fmt.Sprintf("%s loop %d", p.fr.fn.Name(), lp.n)
	}
	pre := p.st.clone()
	preFr := p.fr.clone()

	// 1. what does the body change?
	mod := &modSet{cells: map[int]bool{}, heap: map[string]*modRefs{}, ghost: map[string]bool{}, backs: map[int]bool{}, induc: map[int]*Term{}, owned: map[int]bool{}}
	first := true
	for round := 0; ; round++ {
		if round > 8 {
			unsup("loop effect inference does not converge")
		}
		if !x.dryRound(pre, preFr, lp, spec, name, mod, first, sub) {
			break
		}
		first = false
	}
	// 2. the invariant holds on entry
	k0 := IntC(0)
	ctx0 := &loopCtx{lp: lp, spec: spec, name: name, k: k0, pre: pre, subst: sub}
	for i, c := range spec.Inv {
		g := x.evalLoopClause(p, ctx0, c)
		x.oblige(p.st, "inv", fmt.Sprintf("%s: invariant %d holds on entry: %s", name, i+1, c.Text), g, x.pos(lp.pos()))
	}
	// 3. an arbitrary iteration
	st := pre.clone()
	fr := preFr.clone()
	k := Fresh("k", SInt)
	st.assume(Le(IntC(0), k))
	x.havoc(st, pre, mod, k)
	ctx := &loopCtx{lp: lp, spec: spec, name: name, k: k, pre: pre, subst: sub}
	q := &Path{st: st, fr: fr, blk: p.blk, prev: p.prev, i: 0}
	for _, c := range spec.Inv {
		st.assume(x.evalLoopClause(q, ctx, c))
	}
	for _, d := range spec.Dec {
		ctx.dec = append(ctx.dec, x.evalLoopTerm(q, ctx, d))
	}
	ctx.head = st.clone()
	ctx.headFr = fr.clone()
	fr.loops[p.blk] = ctx
	if x.dry == 0 && x.trialDepth == 0 {
		// the head must be reachable: contradictory invariants prove nothing
		x.reach(st, name+": loop head")
	}
	x.cutStack = append(x.cutStack, choiceKey(spec, sub))
	defer func() { x.cutStack = x.cutStack[:len(x.cutStack)-1] }()
	return x.run(&Path{st: st, fr: fr, blk: p.blk, prev: p.prev, i: 0, atHead: true})
}

// loopIdents lists the names that the source of a loop mentions.
func (x *Exec) loopIdents(fn *ssa.Function, lp *loopT) map[string]bool {
	n := fn.Syntax()
	if n == nil {
		return nil
	}
	// the innermost loop statement around an instruction of the header
	pos := lp.pos()
	var best ast.Node
	ast.Inspect(n, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.ForStmt, *ast.RangeStmt:
			if n.Pos() <= pos && pos < n.End() && (best == nil || n.End()-n.Pos() < best.End()-best.Pos()) {
				best = n
			}
		}
		return true
	})
	if best == nil {
		return nil
	}
	ids := map[string]bool{}
	ast.Inspect(best, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok {
			ids[id.Name] = true
		}
		return true
	})
	return ids
}

func (x *Exec) reach(st *State, name string) {
	x.reaches = append(x.reaches, reachPt{name, st.factList()})
}

type reachPt struct {
	name  string
	facts []*Term
}

// backEdge closes an iteration of a cut loop.
func (x *Exec) backEdge(p *Path, ctx *loopCtx) {
	if ctx.collect != nil {
		*ctx.collect = append(*ctx.collect, p)
		return
	}
	for b := range ctx.head.backs {
		if p.st.foreign[b] && !ctx.head.foreign[b] || p.st.pend[b] != ctx.head.pend[b] || p.st.stored[b] && !ctx.head.stored[b] {
			unsup("a loop mixes up who owns the slices in a list")
		}
	}
	c2 := *ctx
	c2.k = Add(ctx.k, IntC(1))
	for i, c := range ctx.spec.Inv {
		g := x.evalLoopClause(p, &c2, c)
		x.oblige(p.st, "inv", fmt.Sprintf("%s: invariant %d is preserved: %s", ctx.name, i+1, c.Text), g, x.pos(ctx.lp.pos()))
	}
	if len(ctx.dec) > 0 {
		// lexicographic
		goal := False
		eq := True
		for i, d := range ctx.spec.Dec {
			now := x.evalLoopTerm(p, &c2, d)
			goal = Or(goal, And(eq, Lt(now, ctx.dec[i]), Le(IntC(0), ctx.dec[i])))
			eq = And(eq, Eq(now, ctx.dec[i]))
		}
		x.oblige(p.st, "dec", fmt.Sprintf("%s: variant decreases: %s", ctx.name, ctx.spec.decText()), goal, x.pos(ctx.lp.pos()))
	} else if x.dry == 0 {
		x.assumes("termination of %s is not proved", ctx.name)
	}
}

func (x *Exec) dryRound(pre *State, preFr *Frame, lp *loopT, spec *LoopSpec, name string, mod *modSet, first bool, sub map[string]string) bool {
	x.dry++
	oldW := x.wlog
	type wr struct {
		key string
		ref *Term
	}
	var writes []wr
	x.wlog = func(key string, ref *Term) { writes = append(writes, wr{key, ref}) }
	defer func() { x.dry--; x.wlog = oldW }()
	st := pre.clone()
	fr := preFr.clone()
	k := Fresh("k", SInt)
	x.havoc(st, pre, mod, k)
	symAt := symN
	_ = symAt
	ctx := &loopCtx{lp: lp, spec: spec, name: name, k: k, pre: pre, subst: sub}
	var backs []*Path
	ctx.collect = &backs
	fr.loops[lp.header] = ctx
	head := st.clone()
	if !first {
		q := &Path{st: st, fr: fr, blk: lp.header, i: 0}
		for _, c := range spec.Inv {
			func() {
				defer func() {
					if r := recover(); r != nil {
						if _, ok := r.(evalError); !ok {
							panic(r)
						}
					}
				}()
				st.assume(x.evalLoopClause(q, ctx, c))
			}()
		}
	}
	x.dryBody = append(x.dryBody, lp)
	x.run(&Path{st: st, fr: fr, blk: lp.header, i: 0, atHead: true})
	x.dryBody = x.dryBody[:len(x.dryBody)-1]
	changed := false
	inductive := map[int]*Term{}
	notInd := map[int]bool{}
	for _, b := range backs {
		if b.st.epoch != head.epoch && !mod.epoch {
			mod.epoch = true
			changed = true
		}
		for _, w := range b.st.wmods[len(head.wmods):] {
			if !mod.hasWrites(w.ws) {
				mod.writes = append(mod.writes, w.ws)
				changed = true
			}
		}
		for c, v := range head.cells {
			w, ok := b.st.cells[c]
			if !ok {
				continue
			}
			ow := isOwned(w)
			if !ow {
				if mod.owned[c] {
					// was assumed owned
					delete(mod.owned, c)
					mod.owned[-c-1] = true
					changed = true
				}
			}
			if valKey(v) == valKey(w) {
				if _, isI := mod.induc[c]; isI {
					notInd[c] = true
				}
				continue
			}
			if !mod.cells[c] {
				mod.cells[c] = true
				changed = true
				if !mod.owned[-c-1] && ow && isOwned(pre.cells[c]) {
					mod.owned[c] = true
				}
			}
			if tv, ok := v.(*Term); ok && tv.Sort == SInt {
				if tw, ok := w.(*Term); ok && tw.Sort == SInt {
					d := Sub(tw, tv)
					if isC(d) && !notInd[c] {
						if o, has := inductive[c]; has && o != d {
							notInd[c] = true
						}
						inductive[c] = d
						continue
					}
				}
			}
			notInd[c] = true
		}
		for k, v := range head.heap {
			if w, ok := b.st.heap[k]; ok && w != v && strings.HasPrefix(k, "$") && !mod.ghost[k] {
				mod.ghost[k] = true
				changed = true
			}
		}
		for k, w := range b.st.heap {
			if _, ok := head.heap[k]; !ok && strings.HasPrefix(k, "$") && !mod.ghost[k] && w.Op != "var" {
				mod.ghost[k] = true
				changed = true
			}
		}
		for k, v := range head.backs {
			if w, ok := b.st.backs[k]; ok && w != v && !mod.backs[k] {
				mod.backs[k] = true
				changed = true
			}
		}
	}
	for c, d := range inductive {
		if notInd[c] {
			continue
		}
		if o, has := mod.induc[c]; !has && !mod.owned[-100000-c] {
			mod.induc[c] = d
			changed = true
		} else if has && o != d {
			notInd[c] = true
		}
	}
	for c := range mod.induc {
		if _, still := inductive[c]; (!still || notInd[c]) && len(backs) > 0 {
			delete(mod.induc, c)
			mod.owned[-100000-c] = true // never again
			changed = true
		}
	}
	for _, w := range writes {
		if strings.HasPrefix(w.key, "$") {
			continue
		}
		m := mod.heap[w.key]
		if m == nil {
			m = &modRefs{}
			mod.heap[w.key] = m
			changed = true
		}
		if m.all {
			continue
		}
		if d := Sub(w.ref, head.water); true {
			if c, ok := cval(d); ok && c > head.alloc {
				if !m.anew {
					m.anew = true
					changed = true
				}
				continue
			}
		}
		if !x.isOld(w.ref, pre, head, mod) {
			m.all = true
			changed = true
			continue
		}
		has := false
		for _, r := range m.refs {
			if r == w.ref {
				has = true
			}
		}
		if !has {
			m.refs = append(m.refs, w.ref)
			changed = true
		}
	}
	return changed
}

func isOwned(v Val) bool {
	s, ok := v.(SliceV)
	return ok && (s.bid != 0 || s.nilb == True)
}

// isOld: the reference does not depend on anything the loop changes.
func (x *Exec) isOld(ref *Term, pre, head *State, mod *modSet) bool {
	limit := x.symMark[head]
	_ = limit
	ok := true
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] || !ok {
			return
		}
		seen[t] = true
		if t.Op == "var" {
			var n int
			if i := strings.LastIndexByte(t.Name, '!'); i >= 0 {
				fmt.Sscanf(t.Name[i+1:], "%d", &n)
			}
			if n > pre.symMark {
				ok = false
			}
			if strings.HasPrefix(t.Name, "H_") && n == 0 {
				// an initial heap array: unchanged by definition
			}
		}
		for _, a := range t.Args {
			rec(a)
		}
	}
	rec(ref)
	return ok
}

// havoc makes st the state after an arbitrary number k of iterations.
func (x *Exec) havoc(st, pre *State, mod *modSet, k *Term) {
	st.symMark = symN
	pre.symMark = symN
	entryMark := pre.mark()
	if mod.epoch {
		x.havocAll(st)
	}
	for _, w := range mod.writes {
		x.havocWrites(st, w)
	}
	anyAlloc := mod.epoch
	for _, m := range mod.heap {
		if m.anew || m.all {
			anyAlloc = true
		}
	}
	// objects allocated by earlier iterations
	_ = anyAlloc
	w := Fresh("w", SInt)
	st.assume(Le(entryMark, w))
	st.water, st.alloc = w, 0
	for c := range mod.cells {
		old := pre.cells[c]
		if d, ok := mod.induc[c]; ok {
			st.cells[c] = Add(old.(*Term), Mul(d, k))
			continue
		}
		st.cells[c] = x.havocVal(st, old, mod.owned[c], fmt.Sprintf("v%d", c))
	}
	for b := range mod.backs {
		c := pre.backs[b]
		if es, ok := seqElems(c); ok && len(es) > 0 && len(es) <= 16 {
			ns := make([]*Term, len(es))
			for i := range es {
				ns[i] = Fresh("arr", es[i].Sort)
			}
			st.backs[b] = seqOfElems(c.Sort, ns)
			continue
		}
		n := Fresh("arr", c.Sort)
		st.assume(Eq(SeqLen(n), SeqLen(c)))
		st.backs[b] = n
	}
	for g := range mod.ghost {
		var s Sort
		if t, ok := pre.heap[g]; ok {
			s = t.Sort
		} else {
			s = ghostSort(strings.TrimPrefix(g, "$"))
		}
		st.heap[g] = Fresh("g", s)
	}
	var keys []string
	for key := range mod.heap {
		keys = append(keys, key)
	}
	sort.Strings(keys)
	for _, key := range keys {
		m := mod.heap[key]
		if x.L.protectedKey(key) {
			skip := false
			for _, w := range mod.writes {
				skip = skip || w.has(key)
			}
			if skip {
				continue
			}
		} else if mod.epoch {
			continue // all of it is forgotten
		}
		old, ok := pre.heap[key]
		if !ok {
			if t, ok2 := x.keySort[key]; ok2 {
				old = x.heapArr(pre, key, t)
			} else {
				continue
			}
		}
		if m.all {
			st.heap[key] = Fresh("H_"+key, old.Sort)
			continue
		}
		h := old
		if m.anew {
			n := Fresh("H_"+key, old.Sort)
			x.frames[n] = frameInfo{old: old, water: entryMark}
			h = n
		}
		for _, r := range m.refs {
			h = Store(h, r, Fresh("hv_"+key, arrSorts[old.Sort].v))
		}
		st.heap[key] = h
	}
}

func (x *Exec) havocVal(st *State, old Val, owned bool, hint string) Val {
	switch o := old.(type) {
	case *Term:
		n := Fresh(hint, o.Sort)
		if t, ok := x.cellTypeOf(o); ok {
			x.typeFacts(st, n, t)
		}
		if o.Sort == SInt && x.byteLike[o] {
			x.termAx[n] = []*Term{And(Le(IntC(0), n), Le(n, IntC(255)))}
		}
		return n
	case SliceV:
		srt := SStr
		if o.bid != 0 {
			srt = st.backs[o.bid].Sort
		} else {
			srt = o.seq.Sort
		}
		n := Fresh(hint, srt)
		nb := Fresh(hint+"_nil", SBool)
		st.assume(Implies(nb, Eq(SeqLen(n), IntC(0))))
		if owned {
			r := x.owned(st, n, o.elem)
			r.nilb = nb
			return r
		}
		return SliceV{seq: n, nilb: nb, elem: o.elem}
	case StructV:
		r := StructV{typ: o.typ}
		for i, f := range o.fs {
			r.fs = append(r.fs, x.havocVal(st, f, false, fmt.Sprintf("%s_%d", hint, i)))
		}
		return r
	case FuncV:
		return FuncV{sym: Fresh(hint, SInt)}
	}
	unsup("loop changes a local of kind %T", old)
	return nil
}

func (x *Exec) cellTypeOf(o *Term) (types.Type, bool) { return nil, false }

func (m *modSet) hasWrites(w *writeSet) bool {
	for _, v := range m.writes {
		if v == w {
			return true
		}
	}
	return false
}

// havocWrites forgets the protected memory that a writes clause names.
func (x *Exec) havocWrites(st *State, ws *writeSet) {
	if ws == nil {
		return
	}
	symN++
	st.wmods = append(st.wmods[:len(st.wmods):len(st.wmods)], wmod{ws, symN})
	for k, h := range st.heap {
		if !strings.HasPrefix(k, "$") && x.L.protectedKey(k) && ws.has(k) {
			st.heap[k] = Fresh("H_"+k, h.Sort)
		}
	}
}

// havocAll forgets every unprotected memory location.
func (x *Exec) havocAll(st *State) {
	symN++
	st.epoch = symN
	if x.wlog != nil {
		x.wlog("$epoch", nil)
	}
	for k, h := range st.heap {
		if strings.HasPrefix(k, "$") || x.L.protectedKey(k) {
			continue
		}
		st.heap[k] = Fresh("H_"+k, h.Sort)
	}
	w := Fresh("w", SInt)
	st.assume(Le(st.mark(), w))
	st.water, st.alloc = w, 0
}
