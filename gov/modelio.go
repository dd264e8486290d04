package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// modelIO: buffers, readers and files. A bytes.Buffer holds its unread bytes;
// a reader or a file holds all its bytes and a position.
func (x *Exec) modelIO(p *Path, fn *ssa.Function, name string, args []Val, ins ssa.Instruction) ([]Outcome, bool) {
	st := p.st
	ret := func(v ...Val) ([]Outcome, bool) { return []Outcome{{st, v}}, true }
	tm := func(i int) *Term { return x.seqArg(st, args[i]) }
	tErr := types.Universe.Lookup("error").Type()
	pos := "?"
	if ins != nil {
		pos = x.pos(ins.Pos())
	}
	ioFail := func(s *State) { x.setGhost(s, "IOERR", True) }
	// the methods of os.File refuse a nil file
	if strings.HasPrefix(name, "(*os.File).") && name != "(*os.File).Name" {
		r := tm(0)
		if ok, no := x.feas.check(x, st, Eq(r, IntC(0))); ok {
			b := st.clone()
			if no {
				b.add(Eq(r, IntC(0)), true)
			}
			e := x.someErr(b)
			rs := x.freshResults(b, fn)
			rs[len(rs)-1] = e
			if len(rs) == 2 {
				rs[0] = IntC(0)
			}
			if !no {
				return []Outcome{{b, rs}}, true
			}
			st.add(Lt(IntC(0), r), true)
			q := *p
			q.st = st
			outs, done := x.modelIO(&q, fn, name, args, ins)
			return append([]Outcome{{b, rs}}, outs...), done
		}
	}
	nonNil := func() *Term {
		r := tm(0)
		x.oblige(st, "nil", "nil "+fn.Name()+" receiver in "+p.fr.fn.Name(), Lt(IntC(0), r), pos)
		return r
	}
	set := func(r, v *Term) {
		x.writeCheck(st, r, kData)
		x.libSet(st, r, kData, SStr, v)
	}
	setPos := func(r, v *Term) {
		x.writeCheck(st, r, kPos)
		x.libSet(st, r, kPos, SInt, v)
	}
	data := func(r *Term) *Term { return x.libData(st, r, nil) }
	eof := func() *Term {
		t := Var(sanitize("global_io.EOF"), SIface)
		x.termAx[t] = []*Term{Lt(IntC(0), IfTag(t))}
		return t
	}
	// copy bytes b into the caller's slice
	into := func(v Val, b *Term) {
		d, ok := v.(SliceV)
		if !ok || d.bid == 0 {
			unsup("%s into a slice this function does not own", name)
		}
		back := st.backs[d.bid]
		st.backs[d.bid] = SeqCat(SeqSub(back, IntC(0), d.off), b, SeqSub(back, Add(d.off, SeqLen(b)), SeqLen(back)))
	}
	switch name {
	case "bytes.NewBuffer", "bytes.NewBufferString", "bytes.NewReader", "strings.NewReader":
		return ret(x.newLib(st, tm(0)))
	case "bufio.NewReader":
		src := tm(0)
		if v, ok := cval(IfTag(src)); ok && typeByID[v] != nil && isLibObj(strings.TrimPrefix(typeName(typeByID[v]), "*")) {
			r := x.newLib(st, data(IfPay(src)))
			return ret(r)
		}
		// some stream: its bytes are fixed but unknown
		return ret(x.newLib(st, App("$stream", SStr, src)))
	case "(*bytes.Buffer).Write", "(*strings.Builder).Write", "(*bytes.Buffer).WriteString", "(*strings.Builder).WriteString":
		r := nonNil()
		set(r, SeqCat(data(r), tm(1)))
		return ret(SeqLen(tm(1)), NilIf)
	case "(*bytes.Buffer).WriteByte", "(*strings.Builder).WriteByte":
		r := nonNil()
		set(r, SeqCat(data(r), SeqUnit(tm(1))))
		return ret(NilIf)
	case "(*bytes.Buffer).WriteRune", "(*strings.Builder).WriteRune":
		r := nonNil()
		e := App("$utf8", SStr, tm(1))
		set(r, SeqCat(data(r), e))
		return ret(SeqLen(e), NilIf)
	case "(*bytes.Buffer).String":
		return ret(Ite(Eq(tm(0), IntC(0)), StrC("<nil>"), data(tm(0))))
	case "(*strings.Builder).String":
		return ret(data(nonNil()))
	case "(*bytes.Buffer).Len", "(*strings.Builder).Len":
		return ret(SeqLen(data(nonNil())))
	case "(*bytes.Buffer).Grow", "(*strings.Builder).Grow":
		nonNil()
		return ret()
	case "(*bytes.Buffer).Reset", "(*strings.Builder).Reset":
		set(nonNil(), SeqEmpty(SStr))
		return ret()
	case "(*bytes.Buffer).Truncate":
		r := nonNil()
		x.oblige(st, "panic", "Truncate within the buffer in "+p.fr.fn.Name(), And(Le(IntC(0), tm(1)), Le(tm(1), SeqLen(data(r)))), pos)
		set(r, SeqSub(data(r), IntC(0), tm(1)))
		return ret()
	case "(*bytes.Buffer).Bytes":
		d := data(nonNil())
		nb := Fresh("nil", SBool)
		st.assume(Implies(nb, Eq(SeqLen(d), IntC(0))))
		return ret(SliceV{seq: d, nilb: nb, elem: types.Typ[types.Uint8]})
	case "(*bytes.Reader).Len", "(*strings.Reader).Len":
		r := nonNil()
		return ret(Sub(SeqLen(data(r)), x.libGet(st, r, kPos, SInt)))
	case "(*bytes.Reader).Read", "(*os.File).Read", "(*bytes.Buffer).Read":
		r := nonNil()
		at := IntC(0)
		buf := strings.HasPrefix(name, "(*bytes.Buffer)")
		if !buf {
			at = x.libGet(st, r, kPos, SInt)
			st.assume(Le(IntC(0), at))
		}
		d := data(r)
		dst, ok := args[1].(SliceV)
		if !ok {
			unsup("Read into %T", args[1])
		}
		room := x.sliceLen(st, dst)
		left := Sub(SeqLen(d), at)
		var outs []Outcome
		if strings.HasPrefix(name, "(*os.File)") {
			b := st.clone()
			ioFail(b)
			outs = append(outs, Outcome{b, []Val{IntC(0), x.someErr(b)}})
		}
		// at the end
		if ok, _ := x.feas.check(x, st, Le(left, IntC(0))); ok {
			b := st.clone()
			b.add(Le(left, IntC(0)), true)
			e := eof()
			outs = append(outs, Outcome{b, []Val{IntC(0), Ite(Eq(room, IntC(0)), NilIf, e)}})
		}
		st.add(Lt(IntC(0), left), true)
		n := Ite(Le(left, room), left, room)
		if strings.HasPrefix(name, "(*os.File)") {
			// a file may give less than was asked for
			m := Fresh("n", SInt)
			st.assume(And(Le(m, n), Le(IntC(0), m), Implies(Lt(IntC(0), room), Lt(IntC(0), m))))
			n = m
		}
		part := SeqSub(d, at, Add(at, n))
		if dst.bid == 0 {
			unsup("Read into a slice this function does not own")
		}
		into(dst, part)
		if buf {
			set(r, SeqSub(d, n, SeqLen(d)))
		} else {
			setPos(r, Add(at, n))
		}
		outs = append(outs, Outcome{st, []Val{n, NilIf}})
		return outs, true
	case "(*bytes.Reader).Seek", "(*os.File).Seek":
		r := nonNil()
		off, wh := tm(1), tm(2)
		b := st.clone()
		e := x.someErr(b)
		at := x.libGet(st, r, kPos, SInt)
		to := Ite(Eq(wh, IntC(0)), off, Ite(Eq(wh, IntC(1)), Add(at, off), Add(SeqLen(data(r)), off)))
		var outs []Outcome
		bad := Or(Lt(wh, IntC(0)), Lt(IntC(2), wh), Lt(to, IntC(0)))
		if name == "(*os.File).Seek" {
			if bad != False {
				c := st.clone()
				c.add(bad, true)
				outs = append(outs, Outcome{c, []Val{Fresh("off", SInt), x.someErr(c)}})
			}
			ioFail(b)
			outs = append(outs, Outcome{b, []Val{Fresh("off", SInt), e}})
		} else if bad != False {
			b.add(bad, true)
			outs = append(outs, Outcome{b, []Val{IntC(0), e}})
		}
		st.add(Not(bad), true)
		setPos(r, to)
		return append(outs, Outcome{st, []Val{to, NilIf}}), true
	case "(*os.File).Write", "(*os.File).WriteString":
		r := nonNil()
		at := x.libGet(st, r, kPos, SInt)
		d := data(r)
		b := tm(1)
		// writes happen at the end of what was written (obliged: no holes, no overwrite)
		wr := func(s *State, c *Term) {
			x.writeCheck(s, r, kData)
			end := Add(at, SeqLen(c))
			x.libSet(s, r, kData, SStr, SeqCat(SeqSub(d, IntC(0), at), c, Ite(Lt(end, SeqLen(d)), SeqSub(d, end, SeqLen(d)), SeqEmpty(SStr))))
			x.writeCheck(s, r, kPos)
			x.libSet(s, r, kPos, SInt, end)
		}
		bad := st.clone()
		n := Fresh("n", SInt)
		bad.assume(And(Le(IntC(0), n), Le(n, SeqLen(b))))
		wr(bad, SeqSub(b, IntC(0), n))
		ioFail(bad)
		e := x.someErr(bad)
		wr(st, b)
		return []Outcome{{bad, []Val{n, e}}, {st, []Val{SeqLen(b), NilIf}}}, true
	case "(*os.File).Close":
		e := x.freshVal(st, tErr, "err").(*Term)
		x.setGhost(st, "IOERR", Or(x.ghost(st, "IOERR", SBool), Not(Eq(IfTag(e), IntC(0)))))
		return ret(e)
	case "(*os.File).Name":
		return ret(App("$os.File.Name", SStr, nonNil()))
	case "io/ioutil.TempFile", "os.CreateTemp":
		b := st.clone()
		ioFail(b)
		e := x.someErr(b)
		f := x.newLib(st, SeqEmpty(SStr))
		return []Outcome{{b, []Val{IntC(0), e}}, {st, []Val{f, NilIf}}}, true
	case "os.Remove", "os.MkdirAll", "os.RemoveAll", "os.Mkdir":
		e := x.freshVal(st, tErr, "err").(*Term)
		x.setGhost(st, "IOERR", Or(x.ghost(st, "IOERR", SBool), Not(Eq(IfTag(e), IntC(0)))))
		return ret(e)
	case "os.Removeall":
		return ret(x.freshVal(st, tErr, "err"))
	case "os.Stat":
		return ret(x.freshResults(st, fn)...)
	case "(*bufio.Reader).ReadByte", "(*bytes.Buffer).ReadByte", "(*bytes.Reader).ReadByte":
		r := nonNil()
		at := x.libGet(st, r, kPos, SInt)
		d := data(r)
		if name == "(*bytes.Buffer).ReadByte" {
			unsup("%s", name)
		}
		st.assume(And(Le(IntC(0), at), Le(at, SeqLen(d))))
		end := Le(SeqLen(d), at)
		var outs []Outcome
		if ok, _ := x.feas.check(x, st, end); ok {
			b := st.clone()
			b.add(end, true)
			outs = append(outs, Outcome{b, []Val{IntC(0), eof()}})
		}
		if _, ok := x.feas.check(x, st, end); ok {
			st.add(Not(end), true)
			v := SeqNth(d, at)
			x.byteNth(v)
			setPos(r, Add(at, IntC(1)))
			outs = append(outs, Outcome{st, []Val{v, NilIf}})
		}
		return outs, true
	case "(*bufio.Reader).UnreadByte":
		r := nonNil()
		at := x.libGet(st, r, kPos, SInt)
		var outs []Outcome
		if ok, no := x.feas.check(x, st, Lt(IntC(0), at)); ok {
			if no {
				b := st.clone()
				b.add(Le(at, IntC(0)), true)
				outs = append(outs, Outcome{b, []Val{x.someErr(b)}})
				st.add(Lt(IntC(0), at), true)
			}
			setPos(r, Sub(at, IntC(1)))
			outs = append(outs, Outcome{st, []Val{NilIf}})
			return outs, true
		}
		return ret(x.someErr(st))
	case "io.Copy":
		return x.modelCopy(p, args, ins)
	case "(*bytes.Reader).WriteTo":
		r := nonNil()
		at := x.libGet(st, r, kPos, SInt)
		d := data(r)
		part := SeqSub(d, at, SeqLen(d))
		return x.modelSink(p, args[1].(*Term), part, func(s *State, n *Term) {
			x.writeCheck(s, r, kPos)
			x.libSet(s, r, kPos, SInt, Add(at, n))
		})
	case "mime/multipart.NewReader":
		r := x.newLib(st, SeqEmpty(SStr))
		src := tm(0)
		var c *Term
		if v, ok := cval(IfTag(src)); ok && typeByID[v] != nil {
			c = x.readerContent(st, src, typeByID[v])
		}
		if c == nil {
			c = App("$stream", SStr, src)
		}
		w := x.wlog
		x.wlog = nil
		x.libSet(st, r, kData, SStr, App("$multipart", SStr, c, tm(1)))
		x.wlog = w
		return ret(r)
	case "(*mime/multipart.Reader).ReadForm":
		// (form, err): exactly one of the two, as a function of the stream, the boundary and the memory bound
		r := nonNil()
		d := data(r)
		e := App("$multipart.err", SIface, d, tm(1))
		x.termAx[e] = []*Term{Le(IntC(0), IfTag(e))}
		b := st.clone()
		b.add(Lt(IntC(0), IfTag(e)), true)
		st.add(Eq(IfTag(e), IntC(0)), true)
		ft := fn.Signature.Results().At(0).Type().(*types.Pointer).Elem()
		f := x.newObject(st, ft)
		u := under(ft).(*types.Struct)
		w := x.wlog
		x.wlog = nil
		for i := 0; i < u.NumFields(); i++ {
			if m, ok := under(u.Field(i).Type()).(*types.Map); ok {
				_ = m
				v := x.ufLib(st, "multipart."+u.Field(i).Name(), []*Term{d}, types.NewTuple(u.Field(i)))[0]
				x.storeFieldRaw(st, f, structKey(ft)+"."+u.Field(i).Name(), u.Field(i).Type(), v)
			}
		}
		x.wlog = w
		return []Outcome{{b, []Val{IntC(0), e}}, {st, []Val{f, NilIf}}}, true
	}
	return nil, false
}

// readerContent: the unread bytes of a reader of the code under check or of the library.
func (x *Exec) readerContent(st *State, src *Term, t types.Type) *Term {
	n := strings.TrimPrefix(typeName(t), "*")
	switch n {
	case "bytes.Buffer":
		return x.libData(st, IfPay(src), nil)
	case "bytes.Reader", "strings.Reader", "os.File":
		r := IfPay(src)
		d := x.libData(st, r, nil)
		return SeqSub(d, x.libGet(st, r, kPos, SInt), SeqLen(d))
	}
	return nil
}

// modelSink writes part to a writer.
func (x *Exec) modelSink(p *Path, w *Term, part *Term, done func(*State, *Term)) ([]Outcome, bool) {
	st := p.st
	if v, ok := cval(IfTag(w)); ok && typeByID[v] != nil && strings.HasSuffix(typeName(typeByID[v]), "bytes.Buffer") {
		r := IfPay(w)
		x.writeCheck(st, r, kData)
		x.libSet(st, r, kData, SStr, SeqCat(x.libData(st, r, nil), part))
		done(st, SeqLen(part))
		return []Outcome{{st, []Val{SeqLen(part), NilIf}}}, true
	}
	// an unknown writer: either it takes all of it or it fails
	sink := func(s *State, c *Term) {
		k := "lib.sink"
		x.heapArr(s, k, SStr)
		r := App("$sinkref", SInt, w)
		x.setHeap(s, k, r, SeqCat(x.heapSel(s, x.heapArr(s, k, SStr), r), c))
	}
	b := st.clone()
	n := Fresh("n", SInt)
	b.assume(And(Le(IntC(0), n), Le(n, SeqLen(part))))
	sink(b, SeqSub(part, IntC(0), n))
	done(b, n)
	e := x.someErr(b)
	sink(st, part)
	done(st, SeqLen(part))
	return []Outcome{{b, []Val{n, e}}, {st, []Val{SeqLen(part), NilIf}}}, true
}

func (x *Exec) modelCopy(p *Path, args []Val, ins ssa.Instruction) ([]Outcome, bool) {
	st := p.st
	src := args[1].(*Term)
	v, ok := cval(IfTag(src))
	if !ok || typeByID[v] == nil {
		unsup("io.Copy from an unknown reader")
	}
	c := x.readerContent(st, src, typeByID[v])
	if c == nil {
		unsup("io.Copy from %s", typeByID[v])
	}
	r := IfPay(src)
	buf := strings.HasSuffix(typeName(typeByID[v]), "bytes.Buffer")
	at := x.libGet(st, r, kPos, SInt)
	d := x.libData(st, r, nil)
	outs, k := x.modelSink(p, args[0].(*Term), c, func(s *State, n *Term) {
		if buf {
			x.writeCheck(s, r, kData)
			x.libSet(s, r, kData, SStr, SeqSub(d, n, SeqLen(d)))
		} else {
			x.writeCheck(s, r, kPos)
			x.libSet(s, r, kPos, SInt, Add(at, n))
		}
	})
	if strings.HasSuffix(typeName(typeByID[v]), "os.File") {
		// reading the file may fail part way
		b := st.clone()
		n := Fresh("n", SInt)
		b.assume(And(Le(IntC(0), n), Le(n, SeqLen(c))))
		x.setGhost(b, "IOERR", True)
		outs = append(outs, Outcome{b, []Val{n, x.someErr(b)}})
	}
	return outs, k
}
