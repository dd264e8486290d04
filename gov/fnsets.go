package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Which functions can a function-typed field hold? The stores of the whole
// module are followed backwards through parameters, results, locals and
// captured variables. A nil answer means: unknown.

type fnSet struct {
	fns     map[*ssa.Function]bool
	unknown bool
}

type fnFlow struct {
	L      *Loader
	stores map[string][]ssa.Value // field key -> values stored
	calls  map[*ssa.Function][]*ssa.CallCommon
	taken  map[*ssa.Function]bool // used as a value other than by being called
	makes  map[*ssa.Function][]*ssa.MakeClosure
	cells  map[ssa.Value][]ssa.Value
	memo   map[string]*fnSet
}

func (L *Loader) flow() *fnFlow {
	if L.fnFlow != nil {
		return L.fnFlow
	}
	f := &fnFlow{L: L, stores: map[string][]ssa.Value{}, calls: map[*ssa.Function][]*ssa.CallCommon{}, taken: map[*ssa.Function]bool{}, makes: map[*ssa.Function][]*ssa.MakeClosure{}, cells: map[ssa.Value][]ssa.Value{}, memo: map[string]*fnSet{}}
	L.fnFlow = f
	var visit func(fn *ssa.Function)
	visit = func(fn *ssa.Function) {
		if _, ok := L.overlay[L.prog.Fset.Position(fn.Pos()).Filename]; ok && fn.Pos() != token.NoPos {
			return
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				switch i := i.(type) {
				case *ssa.Store:
					if fa, ok := i.Addr.(*ssa.FieldAddr); ok {
						k := fieldKeyOf(fa)
						f.stores[k] = append(f.stores[k], i.Val)
					} else {
						f.cells[i.Addr] = append(f.cells[i.Addr], i.Val)
					}
				case *ssa.MakeClosure:
					c := i.Fn.(*ssa.Function)
					f.makes[c] = append(f.makes[c], i)
				}
				if c, ok := i.(ssa.CallInstruction); ok {
					cc := c.Common()
					if s := cc.StaticCallee(); s != nil {
						f.calls[s] = append(f.calls[s], cc)
					}
				}
				if _, ok := i.(*ssa.DebugRef); ok {
					continue
				}
				for _, op := range i.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						if c, isCall := i.(ssa.CallInstruction); isCall && c.Common().Value == *op {
							same := 0
							for _, a := range c.Common().Args {
								if a == *op {
									same++
								}
							}
							if same == 0 {
								continue
							}
						}
						f.taken[g] = true
					}
				}
			}
		}
		for _, a := range fn.AnonFuncs {
			visit(a)
		}
	}
	for _, p := range L.spkgs {
		if !L.isRepo(p) {
			continue
		}
		for _, m := range p.Members {
			switch m := m.(type) {
			case *ssa.Function:
				visit(m)
			case *ssa.Type:
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := L.prog.MethodSets.MethodSet(t)
					for k := 0; k < ms.Len(); k++ {
						if fn := L.prog.MethodValue(ms.At(k)); fn != nil && fn.Synthetic == "" {
							if _, ok := t.(*types.Pointer); ok || fn.Signature.Recv() != nil {
								visit(fn)
							}
						}
					}
				}
			}
		}
	}
	return f
}

func fieldKeyOf(fa *ssa.FieldAddr) string {
	pt := fa.X.Type().Underlying().(*types.Pointer)
	st := pt.Elem().Underlying().(*types.Struct)
	return shortType(pt.Elem()) + "." + st.Field(fa.Field).Name()
}

func (f *fnFlow) field(key string) *fnSet {
	if s, ok := f.memo[key]; ok {
		return s
	}
	s := &fnSet{fns: map[*ssa.Function]bool{}}
	f.memo[key] = s
	seen := map[ssa.Value]bool{}
	for _, v := range f.stores[key] {
		f.value(v, s, seen)
	}
	return s
}

func (f *fnFlow) value(v ssa.Value, s *fnSet, seen map[ssa.Value]bool) {
	if seen[v] {
		return
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Const: // nil
	case *ssa.Function:
		s.fns[v] = true
	case *ssa.MakeClosure:
		s.fns[v.Fn.(*ssa.Function)] = true
	case *ssa.ChangeType:
		f.value(v.X, s, seen)
	case *ssa.Phi:
		for _, e := range v.Edges {
			f.value(e, s, seen)
		}
	case *ssa.Call:
		if c := v.Call.StaticCallee(); c != nil && len(c.Blocks) > 0 {
			for _, b := range c.Blocks {
				if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) == 1 {
					f.value(r.Results[0], s, seen)
				}
			}
			return
		}
		s.unknown = true
	case *ssa.Parameter:
		fn := v.Parent()
		if f.taken[fn] {
			s.unknown = true
			return
		}
		k := -1
		for i, p := range fn.Params {
			if p == v {
				k = i
			}
		}
		if o := fn.Object(); o != nil && o.Exported() {
			// hosts may call it too: what they pass is outside the module
			s.unknown = true
		}
		for _, c := range f.calls[fn] {
			f.value(c.Args[k], s, seen)
		}
	case *ssa.UnOp:
		switch a := v.X.(type) {
		case *ssa.FieldAddr:
			for fn := range f.field(fieldKeyOf(a)).fns {
				s.fns[fn] = true
			}
			s.unknown = s.unknown || f.field(fieldKeyOf(a)).unknown
		case *ssa.Alloc:
			for _, w := range f.cells[a] {
				f.value(w, s, seen)
			}
		case *ssa.FreeVar:
			fn := a.Parent()
			for i, fv := range fn.FreeVars {
				if fv == a {
					for _, m := range f.makes[fn] {
						for _, w := range f.cells[m.Bindings[i]] {
							f.value(w, s, seen)
						}
					}
				}
			}
		default:
			s.unknown = true
		}
	default:
		s.unknown = true
	}
}
