package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Models of the library functions the code calls: the trusted base. Functions
// listed in pureLib are uninterpreted functions of their arguments; those with
// a spec function lib_<name> in a contract file are that function.

type libKey struct {
	key string
	srt Sort
}

const kData = "lib.data" // the bytes a bytes.Buffer, reader or file holds
const kPos = "lib.pos"
const kSrc = "lib.src" // ref of the buffer a reader drains

func libKeys(t types.Type) []libKey {
	return []libKey{{kData, SStr}, {kPos, SInt}}
}

func (x *Exec) libData(st *State, ref *Term, t types.Type) *Term {
	return x.libGet(st, ref, kData, SStr)
}
func (x *Exec) libGet(st *State, ref *Term, key string, s Sort) *Term {
	return x.heapSel(st, x.heapArr(st, key, s), ref)
}
func (x *Exec) libSet(st *State, ref *Term, key string, s Sort, v *Term) {
	x.heapArr(st, key, s)
	x.setHeap(st, key, ref, v)
}
func (x *Exec) newLib(st *State, data *Term) *Term {
	r := st.newRef()
	w := x.wlog
	x.wlog = nil
	x.libSet(st, r, kData, SStr, data)
	x.libSet(st, r, kPos, SInt, IntC(0))
	x.wlog = w
	return r
}

func isLibObj(n string) bool {
	switch n {
	case "bytes.Buffer", "strings.Builder", "bytes.Reader", "strings.Reader", "os.File", "bufio.Reader":
		return true
	}
	return false
}

func (x *Exec) initModel(st *State, ref *Term, n *types.Named) bool {
	if n.Obj().Pkg() == nil || x.L.isRepo(x.L.prog.Package(n.Obj().Pkg())) {
		return false
	}
	w := x.wlog
	x.wlog = nil
	defer func() { x.wlog = w }()
	name := typeName(n)
	if isLibObj(name) {
		x.libSet(st, ref, kData, SStr, SeqEmpty(SStr))
		x.libSet(st, ref, kPos, SInt, IntC(0))
		return true
	}
	return false
}

// ---- errors

var errType = types.NewPointer(types.NewNamed(types.NewTypeName(token.NoPos, types.NewPackage("errors", "errors"), "errorString", nil), types.NewStruct(nil, nil), nil))

func (x *Exec) newError(st *State) *Term {
	return MkIf(IntC(typeID(errType)), st.newRef())
}

// someErr is a non-nil error nobody knows more about.
func (x *Exec) someErr(st *State) *Term {
	e := Fresh("err", SIface)
	st.assume(Lt(IntC(0), IfTag(e)))
	return e
}

// mayFail forks into success and failure.
func (x *Exec) mayFail(st *State) (okSt, badSt *State, err *Term) {
	b := st.clone()
	e := x.someErr(b)
	return st, b, e
}

// pureLib functions depend on nothing but their arguments.
var pureLib = map[string]bool{
	"strings.TrimSpace": true, "strings.ToLower": true, "strings.ToUpper": true, "strings.Count": true,
	"strings.EqualFold": true, "strings.Replace": true, "strings.ReplaceAll": true, "strings.Repeat": true, "strings.Title": true,
	"strings.Trim": true, "strings.TrimLeft": true, "strings.TrimRight": true, "strings.Fields": true,
	"strings.LastIndex": true, "strings.LastIndexByte": true, "strings.ContainsRune": true, "strings.IndexRune": true,
	"strconv.Itoa": true, "strconv.FormatInt": true, "strconv.Atoi": true, "strconv.ParseInt": true, "strconv.ParseUint": true, "strconv.ParseBool": true, "strconv.Quote": true,
	"regexp.Compile": true, "regexp.MustCompile": true, "regexp.MatchString": true, "regexp.QuoteMeta": true, "(*regexp.Regexp).String": true, "(*regexp.Regexp).FindString": true,
	"(*regexp.Regexp).MatchString": true, "(*regexp.Regexp).Match": true,
	"unicode.ToLower": true, "unicode.ToUpper": true, "unicode.IsSpace": true, "unicode.IsDigit": true, "unicode.IsLetter": true,
	"unicode/utf8.RuneLen": true, "unicode/utf8.RuneCountInString": true, "unicode/utf8.ValidString": true,
	"net/url.QueryUnescape": true, "net/url.PathUnescape": true,
	"mime.ParseMediaType": true, "net/url.ParseQuery": true,
	"net/textproto.CanonicalMIMEHeaderKey": true, "net/http.CanonicalHeaderKey": true,
	"errors.Is": true, "os.IsNotExist": true, "os.IsExist": true,
	"path/filepath.Base": true, "path/filepath.Join": true, "path/filepath.Clean": true, "path.Base": true,
}

func (x *Exec) seqArg(st *State, v Val) *Term {
	switch v := v.(type) {
	case SliceV:
		return x.content(st, v)
	case *Term:
		return v
	case FuncV:
		return x.toTerm(st, v, nil)
	}
	unsup("library argument %T", v)
	return nil
}

// uf applies the library function as an uninterpreted one.
func (x *Exec) ufLib(st *State, name string, args []*Term, rs *types.Tuple) []Val {
	var res []Val
	for i := 0; i < rs.Len(); i++ {
		t := rs.At(i).Type()
		if _, ok := under(t).(*types.Map); ok {
			// a new map whose content is a function of the arguments
			kn, ks, vs, _ := mapKeys(t)
			r := st.newRef()
			w := x.wlog
			x.wlog = nil
			ds, vsrt := mkArr(ks, SBool), mkArr(ks, vs)
			x.heapArr(st, kn+".dom", ds)
			x.setHeap(st, kn+".dom", r, App(fmt.Sprintf("$%s.%d.dom", name, i), ds, args...))
			x.heapArr(st, kn+".val", vsrt)
			x.setHeap(st, kn+".val", r, App(fmt.Sprintf("$%s.%d.val", name, i), vsrt, args...))
			x.wlog = w
			res = append(res, r)
			continue
		}
		tm := App(fmt.Sprintf("$%s.%d", name, i), sortOf(t), args...)
		if s, ok := under(t).(*types.Slice); ok {
			v := SliceV{seq: tm, nilb: Eq(SeqLen(tm), IntC(0)), elem: s.Elem()}
			if x.pure == 0 {
				o := x.owned(st, tm, s.Elem())
				o.nilb = Fresh("nil", SBool)
				st.assume(Implies(o.nilb, Eq(SeqLen(tm), IntC(0))))
				v = o
			}
			res = append(res, v)
			continue
		}
		if b, ok := under(t).(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			if lo, hi, ok := intBounds(t); ok {
				x.termAx[tm] = []*Term{And(Le(bigS(lo), tm), Le(tm, bigS(hi)))}
			}
		}
		if types.IsInterface(t) {
			x.termAx[tm] = []*Term{Le(IntC(0), IfTag(tm))}
		}
		res = append(res, tm)
	}
	return res
}

func idx(s, sep *Term) *Term { return mk("seq.indexof", "", SInt, s, sep, IntC(0)) }
func pre(sep, s *Term) *Term { return mk("seq.prefixof", "", SBool, sep, s) }
func suf(sep, s *Term) *Term { return mk("seq.suffixof", "", SBool, sep, s) }
func contains(s, sep *Term) *Term {
	return mk("seq.contains", "", SBool, s, sep)
}

func libName(n string) string {
	return "lib_" + sanitize(strings.NewReplacer("(*", "", ")", "", ".", "_", "/", "_").Replace(n))
}

func (x *Exec) libSpec(name string) *ssa.Function {
	n := libName(name)
	for f := range x.L.specFn {
		if f.Name() == n {
			return f
		}
	}
	return nil
}

func (x *Exec) modelOrNil(st *State, fn *ssa.Function, args []Val) ([]Outcome, bool) {
	if fn.Pkg != nil && x.L.isRepo(fn.Pkg) || x.L.specFn[fn] {
		return nil, false
	}
	fr := &Frame{fn: fn, env: map[ssa.Value]Val{}}
	return x.model(&Path{st: st, fr: fr}, fn, args, nil)
}

func (x *Exec) model(p *Path, fn *ssa.Function, args []Val, ins ssa.Instruction) ([]Outcome, bool) {
	st := p.st
	if fn.Name() == "init" && fn.Synthetic != "" && fn.Signature.Recv() == nil {
		return []Outcome{{st, nil}}, true // package initialisers run once, in order
	}
	if x.L.isRepo(fn.Pkg) || fn.Parent() != nil {
		return nil, false
	}
	name := fn.String()
	ret := func(v ...Val) ([]Outcome, bool) { return []Outcome{{st, v}}, true }
	pos := "?"
	if ins != nil {
		pos = x.pos(ins.Pos())
	}
	tm := func(i int) *Term { return x.seqArg(st, args[i]) }
	nonNil := func(i int) {
		if p.fr != nil {
			x.oblige(st, "nil", "nil "+fn.Name()+" receiver in "+p.fr.fn.Name(), Lt(IntC(0), tm(i)), pos)
		}
	}
	if sp := x.libSpec(name); sp != nil {
		r := x.pureEval(st, sp, args, nil)
		for i := range r {
			// a slice the library returns is the caller's own
			if s, ok := r[i].(SliceV); ok && x.pure == 0 && s.bid == 0 {
				r[i] = x.owned(st, x.content(st, s), s.elem)
			}
		}
		return ret(r...)
	}
	switch name {
	case "regexp.MustCompile":
		r := x.ufLib(st, "regexp.Compile", []*Term{tm(0)}, tuple2(fn.Signature.Results().At(0).Type()))
		return ret(r[0])
	}
	if pureLib[name] {
		var ts []*Term
		allC := true
		for i := range args {
			if fn.Signature.Recv() == nil && fn.Signature.Variadic() && i == len(args)-1 {
				ts = append(ts, tm(i))
				continue
			}
			ts = append(ts, tm(i))
		}
		for _, t := range ts {
			_, isS := goStr(t)
			allC = allC && (isS || isC(t))
		}
		if allC {
			if r, ok := evalLib(name, ts); ok {
				return ret(r...)
			}
		}
		r := x.ufLib(st, name, ts, fn.Signature.Results())
		if name == "regexp.Compile" {
			re, e := r[0].(*Term), r[1].(*Term)
			x.termAx[re] = []*Term{Le(IntC(0), re), Eq(Eq(re, IntC(0)), Not(Eq(IfTag(e), IntC(0)))), Le(re, IntC(0x7fffffff))}
		}
		if name == "mime.ParseMediaType" {
			// on error other than an invalid parameter there is no media type
		}
		return ret(r...)
	}
	switch name {
	case "strings.HasPrefix", "bytes.HasPrefix":
		return ret(pre(tm(1), tm(0)))
	case "strings.HasSuffix", "bytes.HasSuffix":
		return ret(suf(tm(1), tm(0)))
	case "strings.Contains", "bytes.Contains":
		if c, ok := constOf(tm(0), tm(1), strings.Contains); ok {
			return ret(BoolC(c))
		}
		return ret(contains(tm(0), tm(1)))
	case "strings.Index", "bytes.Index":
		if a, ok := goStr(tm(0)); ok {
			if b, ok := goStr(tm(1)); ok {
				return ret(IntC(int64(strings.Index(a, b))))
			}
		}
		return ret(idx(tm(0), tm(1)))
	case "strings.IndexByte", "bytes.IndexByte":
		return ret(idx(tm(0), SeqUnit(tm(1))))
	case "strings.TrimPrefix":
		c := pre(tm(1), tm(0))
		return ret(Ite(c, SeqSub(tm(0), SeqLen(tm(1)), SeqLen(tm(0))), tm(0)))
	case "strings.TrimSuffix":
		c := suf(tm(1), tm(0))
		return ret(Ite(c, SeqSub(tm(0), IntC(0), Sub(SeqLen(tm(0)), SeqLen(tm(1)))), tm(0)))
	case "errors.New":
		return ret(x.newError(st))
	case "fmt.Errorf":
		return ret(x.newError(st))
	case "fmt.Sprintf":
		return ret(x.sprintf(st, tm(0), tm(1)))
	case "fmt.Sprint", "fmt.Sprintln":
		return ret(App("$"+name, SStr, tm(0)))
	case "fmt.Fprintf":
		w := tm(0)
		s := x.sprintf(st, tm(1), tm(2))
		if v, ok := cval(IfTag(w)); ok && typeByID[v] != nil && isLibObj(strings.TrimPrefix(typeName(typeByID[v]), "*")) {
			r := IfPay(w)
			x.writeCheck(st, r, kData)
			x.libSet(st, r, kData, SStr, SeqCat(x.libData(st, r, nil), s))
			return ret(SeqLen(s), NilIf)
		}
		n := Fresh("n", SInt)
		st.assume(Le(IntC(0), n))
		return ret(n, x.freshVal(st, types.Universe.Lookup("error").Type(), "err"))
	case "fmt.Println", "fmt.Printf", "fmt.Print":
		return ret(Fresh("n", SInt), NilIf)
	case "unicode/utf8.EncodeRune":
		d, ok := args[0].(SliceV)
		if !ok || d.bid == 0 {
			unsup("utf8.EncodeRune into %T", args[0])
		}
		e := App("$utf8", SStr, tm(1))
		n := SeqLen(e)
		x.oblige(st, "index", "room for the encoded rune in "+p.fr.fn.Name(), Le(n, d.ln), pos)
		back := st.backs[d.bid]
		st.backs[d.bid] = SeqCat(SeqSub(back, IntC(0), d.off), e, SeqSub(back, Add(d.off, n), SeqLen(back)))
		return ret(n)
	case "(net/http.Header).Get":
		h := tm(0)
		t := fn.Signature.Recv().Type()
		k := App("$net/textproto.CanonicalMIMEHeaderKey.0", SStr, tm(1))
		has, v := x.mapGet(st, h, t, k)
		return ret(Ite(And(has, Lt(IntC(0), SeqLen(v))), SeqNth(v, IntC(0)), StrC("")))
	case "(*net/url.URL).String":
		nonNil(0)
		return ret(App("$net/url.URL.String", SStr, x.objTerms(st, tm(0), fn.Signature.Recv().Type())...))
	case "(*net/url.URL).Query":
		nonNil(0)
		q := x.loadField(st, tm(0), structKey(fn.Signature.Recv().Type().(*types.Pointer).Elem())+".RawQuery", types.Typ[types.String]).(*Term)
		// Query discards ParseQuery's error and keeps its map
		rs := types.NewTuple(fn.Signature.Results().At(0), types.NewVar(token.NoPos, nil, "", types.Universe.Lookup("error").Type()))
		return ret(x.ufLib(st, "net/url.ParseQuery", []*Term{q}, rs)[0])
	}
	if o, ok := x.modelIO(p, fn, name, args, ins); ok {
		return o, true
	}
	if strings.HasPrefix(name, "github.com/sirupsen/logrus.") || strings.HasPrefix(name, "log.Print") || strings.HasPrefix(name, "(*github.com/sirupsen/logrus.") {
		return ret(x.freshResults(st, fn)...)
	}
	if strings.Contains(name, "go-spew/spew") {
		return ret(x.freshResults(st, fn)...)
	}
	if fn.Name() == "Lock" || fn.Name() == "Unlock" || fn.Name() == "RLock" || fn.Name() == "RUnlock" {
		if strings.HasPrefix(name, "(*sync.") {
			return ret()
		}
	}
	if strings.HasPrefix(name, "time.") || strings.HasPrefix(name, "(time.") {
		return ret(x.freshResults(st, fn)...)
	}
	return nil, false
}

// sprintf formats: plain %s, %d and %v of strings and integers are spelled out.
func (x *Exec) sprintf(st *State, f, args *Term) *Term {
	whole := App("$fmt.Sprintf", SStr, f, args)
	c, ok := goStr(f)
	if !ok {
		return whole
	}
	var es []*Term
	if args.Op != "seq.empty" {
		if es, ok = seqElems(args); !ok {
			return whole
		}
	}
	var parts []*Term
	lit := ""
	for i := 0; i < len(c); i++ {
		if c[i] != '%' {
			lit += c[i : i+1]
			continue
		}
		i++
		if i == len(c) {
			return whole
		}
		if c[i] == '%' {
			lit += "%"
			continue
		}
		if len(es) == 0 || c[i] != 's' && c[i] != 'd' && c[i] != 'v' {
			return whole
		}
		tg, ok := cval(IfTag(es[0]))
		if !ok || typeByID[tg] == nil {
			return whole
		}
		t := typeByID[tg]
		b, ok := t.(*types.Basic)
		if !ok {
			return whole
		}
		v, isT := x.unIface(st, es[0], t).(*Term)
		es = es[1:]
		switch {
		case isT && b.Kind() == types.String && c[i] != 'd':
		case isT && b.Info()&types.IsInteger != 0 && c[i] != 's':
			if k, ok := cval(v); ok {
				v = StrC(fmt.Sprint(k))
			} else {
				v = App("$strconv.Itoa.0", SStr, v)
			}
		default:
			return whole
		}
		if lit != "" {
			parts = append(parts, StrC(lit))
			lit = ""
		}
		parts = append(parts, v)
	}
	if len(es) > 0 {
		return whole
	}
	if lit != "" {
		parts = append(parts, StrC(lit))
	}
	if len(parts) == 0 {
		return StrC("")
	}
	return SeqCat(parts...)
}

func tuple2(t types.Type) *types.Tuple {
	return types.NewTuple(types.NewVar(token.NoPos, nil, "", t), types.NewVar(token.NoPos, nil, "", types.Universe.Lookup("error").Type()))
}

func (x *Exec) freshResults(st *State, fn *ssa.Function) []Val {
	var r []Val
	rs := fn.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		r = append(r, x.freshVal(st, rs.At(i).Type(), fn.Name()))
	}
	return r
}

func constOf(a, b *Term, f func(a, b string) bool) (bool, bool) {
	s, ok := goStr(a)
	t, ok2 := goStr(b)
	if ok && ok2 {
		return f(s, t), true
	}
	return false, false
}

// objTerms lists the fields of a library struct.
func (x *Exec) objTerms(st *State, ref *Term, t types.Type) []*Term {
	e := t.(*types.Pointer).Elem()
	u := under(e).(*types.Struct)
	var l []*Term
	for i := 0; i < u.NumFields(); i++ {
		f := u.Field(i)
		v := x.loadField(st, ref, structKey(e)+"."+f.Name(), f.Type())
		if s, ok := v.(StructV); ok {
			_ = s
			continue
		}
		l = append(l, x.toTerm(st, v, f.Type()))
	}
	return l
}

// evalLib runs a library function on constants.
func evalLib(name string, ts []*Term) ([]Val, bool) {
	s := func(i int) string { r, _ := goStr(ts[i]); return r }
	for _, t := range ts {
		if _, ok := goStr(t); !ok && t.Sort == SStr {
			return nil, false
		}
	}
	switch name {
	case "strings.TrimSpace":
		return []Val{StrC(strings.TrimSpace(s(0)))}, true
	case "strings.ToLower":
		return []Val{StrC(strings.ToLower(s(0)))}, true
	case "strings.ToUpper":
		return []Val{StrC(strings.ToUpper(s(0)))}, true
	case "strings.Count":
		return []Val{IntC(int64(strings.Count(s(0), s(1))))}, true
	case "strconv.Itoa":
		if v, ok := cval(ts[0]); ok {
			return []Val{StrC(fmt.Sprint(v))}, true
		}
	}
	return nil, false
}

// modelInvoke: methods of library interfaces.
func (x *Exec) modelInvoke(p *Path, name string, recv *Term, args []Val, c *ssa.CallCommon, ins ssa.Instruction) ([]Outcome, bool) {
	st := p.st
	switch name {
	case "error.Error":
		return []Outcome{{st, []Val{App("$error.Error", SStr, recv)}}}, true
	case "fmt.Stringer.String":
		return []Outcome{{st, []Val{App("$Stringer.String", SStr, recv)}}}, true
	case "io.Writer.Write":
		n := Fresh("n", SInt)
		b := x.seqArg(st, args[0])
		st.assume(And(Le(IntC(0), n), Le(n, SeqLen(b))))
		return []Outcome{{st, []Val{n, x.freshVal(st, types.Universe.Lookup("error").Type(), "err")}}}, true
	}
	return nil, false
}
