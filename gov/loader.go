package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"io/ioutil"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/senghoo/modsecurity-go"

type Loader struct {
	repo, cdir string
	prog       *ssa.Program
	pkgs       []*packages.Package
	spkgs      map[string]*ssa.Package
	loops      map[*ssa.Function]map[*ssa.BasicBlock]*loopT
	loopChoice map[string]string
	contracts  map[string]*Contract // by function name
	order      []*Contract
	specFn     map[*ssa.Function]bool
	recursive  map[*ssa.Function]bool
	protected  []*regexp.Regexp
	nonnil     []*regexp.Regexp
	pool       []*LoopSpec
	overlay    map[string][]byte
	implCache  map[string][]types.Type
	funcTypes  map[string]string
	initDone   *initState
	initErr    []string
	lemma      map[*Contract]bool
	lemmaRes   map[*Contract]*Result
	dropped    []string
	droppedFor map[string]bool // properties with a contract in a dropped file
	missing    []*Contract
	rootList   []*Contract
	fnFlow     *fnFlow
}

type Clause struct {
	Text string
	Expr ast.Expr
	Line string
}

type LoopVar struct {
	Name string
	Type string
}
type LoopSpec struct {
	In     []string
	Inv    []Clause
	Dec    []Clause
	Vars   []LoopVar
	label  string
	pooled bool
	con    *Contract
	n      int
}

func (s *LoopSpec) decText() string {
	var l []string
	for _, d := range s.Dec {
		l = append(l, d.Text)
	}
	return strings.Join(l, ", ")
}

type Contract struct {
	Name     string // ssa function name, or package.Iface.Method
	Kind     string // func, iface, client
	Pkg      *packages.Package
	SPkg     *ssa.Package
	Fn       *ssa.Function
	Params   []string
	Results  []string
	Props    []string
	Requires []Clause
	Ensures  []Clause
	Modifies []Clause
	ModAny   bool
	Writes   *writeSet // protected memory it may change all the same
	ModNone  bool
	NoCheck  bool
	Loops    []*LoopSpec
	Log      []Clause
	Sets     []ghostSet
	Effects  []ghostSet
	Defines  []Clause
	PureUF   bool
	Fresh    bool
	Lemma    bool // only used at call sites when proved
	Use      bool // use this contract at call sites
	Where    string
	Inline   []string
	NoUse    []string
	Ghosts   []LoopVar
	Conform  bool
	AnyLoop  bool // a loop without a fitting invariant is cut with none
	Timeout  int
	Split    bool
	Replay   string
	Known    []string
	selfType types.Type // interface, for conformance roots
	implType types.Type
}
type ghostSet struct {
	Name string
	C    Clause
}

func (c *Contract) hasProp(p string) bool {
	for _, q := range c.Props {
		if q == p || strings.HasPrefix(q, p+"/") {
			return true
		}
	}
	return false
}

// propKind is the kind of obligations that count for the property ("" for all),
// which a prop clause gives after a slash.
func (c *Contract) propKind(p string) string {
	k := ""
	for _, q := range c.Props {
		if q == p {
			return ""
		}
		if strings.HasPrefix(q, p+"/") {
			k = q[len(p)+1:]
		}
	}
	return k
}

func (L *Loader) isRepo(p *ssa.Package) bool {
	return p != nil && p.Pkg != nil && strings.HasPrefix(p.Pkg.Path(), modPath)
}
func (L *Loader) nonnilKey(k string) bool {
	for _, r := range L.nonnil {
		if r.MatchString(k) {
			return true
		}
	}
	return false
}

func (L *Loader) protectedKey(k string) bool {
	for _, r := range L.protected {
		if r.MatchString(k) {
			return true
		}
	}
	return false
}

// Load builds the SSA form of the code under /repo with the contract files laid over it.
func Load(repo, cdir string) (*Loader, error) {
	L := &Loader{repo: repo, cdir: cdir, spkgs: map[string]*ssa.Package{}, loops: map[*ssa.Function]map[*ssa.BasicBlock]*loopT{},
		loopChoice: map[string]string{}, contracts: map[string]*Contract{}, specFn: map[*ssa.Function]bool{}, recursive: map[*ssa.Function]bool{},
		overlay: map[string][]byte{}, implCache: map[string][]types.Type{}, lemma: map[*Contract]bool{}, lemmaRes: map[*Contract]*Result{}}
	files := map[string]string{} // overlay path -> source path
	err := filepath.Walk(cdir, func(p string, i os.FileInfo, err error) error {
		if err != nil || i.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return err
		}
		rel, _ := filepath.Rel(cdir, p)
		b, err := ioutil.ReadFile(p)
		if err != nil {
			return err
		}
		dst := filepath.Join(repo, filepath.Dir(rel), "zz_verif_"+filepath.Base(rel))
		L.overlay[dst] = b
		files[dst] = p
		return nil
	})
	if err != nil {
		return nil, err
	}
	L.droppedFor = map[string]bool{}
	var ps []*packages.Package
	for round := 0; ; round++ {
		cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Overlay: L.overlay,
			Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0")}
		ps, err = packages.Load(cfg, "./...")
		if err != nil {
			return nil, err
		}
		var bad []string
		drop := false
		for _, p := range ps {
			for _, e := range p.Errors {
				bad = append(bad, e.Error())
				f := e.Pos
				if k := strings.Index(f, ".go:"); k >= 0 {
					f = f[:k+3]
				}
				if src, ok := files[f]; ok && L.overlay[f] != nil {
					drop = true
					L.dropped = append(L.dropped, src+": "+e.Error())
					for _, l := range strings.Split(string(L.overlay[f]), "\n") {
						if strings.HasPrefix(l, "//@ prop ") {
							for _, w := range strings.Fields(l[9:]) {
								L.droppedFor[w] = true
							}
						}
					}
					delete(L.overlay, f)
					delete(files, f)
				}
			}
		}
		if len(bad) == 0 {
			break
		}
		if !drop || round > 10 {
			return nil, fmt.Errorf("the sources do not load: %s", strings.Join(bad, "; "))
		}
	}
	L.pkgs = ps
	prog, sp := ssautil.Packages(ps, ssa.NaiveForm|ssa.GlobalDebug)
	prog.Build()
	L.prog = prog
	for _, p := range sp {
		if p != nil {
			L.spkgs[p.Pkg.Path()] = p
		}
	}
	for _, p := range ps {
		for i, f := range p.CompiledGoFiles {
			src, ok := files[f]
			if !ok {
				continue
			}
			_ = i
			if err := L.parseContracts(p, string(L.overlay[f]), src); err != nil {
				return nil, err
			}
			for _, af := range p.Syntax {
				if prog.Fset.Position(af.Pos()).Filename != f {
					continue
				}
				for _, d := range af.Decls {
					fd, ok := d.(*ast.FuncDecl)
					if !ok || fd.Recv != nil {
						continue
					}
					fn := L.spkgs[p.PkgPath].Func(fd.Name.Name)
					if fn != nil && !strings.HasPrefix(fd.Name.Name, "verif") && fd.Name.Name[0] != 'v' {
						L.specFn[fn] = true
					}
				}
			}
		}
	}
	L.findRecursive()
	return L, nil
}

// findRecursive marks the spec functions that can call themselves.
func (L *Loader) findRecursive() {
	calls := map[*ssa.Function][]*ssa.Function{}
	for f := range L.specFn {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if c, ok := i.(*ssa.Call); ok {
					if g := c.Call.StaticCallee(); g != nil && L.specFn[g] {
						calls[f] = append(calls[f], g)
					}
				}
			}
		}
	}
	for f := range L.specFn {
		seen := map[*ssa.Function]bool{}
		var rec func(g *ssa.Function) bool
		rec = func(g *ssa.Function) bool {
			for _, h := range calls[g] {
				if h == f {
					return true
				}
				if !seen[h] {
					seen[h] = true
					if rec(h) {
						return true
					}
				}
			}
			return false
		}
		if rec(f) {
			L.recursive[f] = true
		}
	}
}

var reFuncHdr = regexp.MustCompile(`^(\S.*?)\s*\(([^()]*)\)\s*(?:\(([^()]*)\))?$`)

func splitNames(s string) []string {
	var l []string
	for _, x := range strings.Split(s, ",") {
		x = strings.TrimSpace(x)
		if x != "" {
			l = append(l, x)
		}
	}
	return l
}

func (L *Loader) parseContracts(p *packages.Package, text, file string) error {
	var cur *Contract
	var loop *LoopSpec
	lines := strings.Split(text, "\n")
	for n := 0; n < len(lines); n++ {
		ln := strings.TrimSpace(lines[n])
		if !strings.HasPrefix(ln, "//@") {
			// a client function follows its clauses directly
			if strings.HasPrefix(ln, "func ") && cur != nil && cur.Kind == "client" && cur.Name == "" {
				name := ln[5:strings.IndexByte(ln, '(')]
				fn := L.spkgs[p.PkgPath].Func(name)
				if fn == nil {
					return fmt.Errorf("%s: no function %s", file, name)
				}
				cur.Fn = fn
				cur.Name = fn.String()
				L.addContract(cur)
			}
			if ln != "" && !strings.HasPrefix(ln, "//") {
				cur, loop = nil, nil
			}
			continue
		}
		body := strings.TrimSpace(ln[3:])
		where := fmt.Sprintf("%s:%d", filepath.Base(file), n+1)
		// continuation lines
		for strings.HasSuffix(body, "\\") && n+1 < len(lines) {
			n++
			body = strings.TrimSpace(body[:len(body)-1]) + " " + strings.TrimSpace(strings.TrimPrefix(strings.TrimSpace(lines[n]), "//@"))
		}
		if body == "" {
			continue
		}
		word, rest := body, ""
		if i := strings.IndexByte(body, ' '); i >= 0 {
			word, rest = body[:i], strings.TrimSpace(body[i+1:])
		}
		newC := func(kind string) error {
			cur = &Contract{Kind: kind, Pkg: p, SPkg: L.spkgs[p.PkgPath], Where: where}
			loop = nil
			if kind == "client" {
				cur.NoCheck = true
				return nil
			}
			m := reFuncHdr.FindStringSubmatch(rest)
			if m == nil {
				return fmt.Errorf("%s: bad header %q", where, rest)
			}
			cur.Params, cur.Results = splitNames(m[2]), splitNames(m[3])
			name := strings.TrimSpace(m[1])
			if kind == "iface" {
				if !strings.Contains(strings.TrimPrefix(name, modPath), "/") && strings.Count(name, ".") == 1 {
					name = p.PkgPath + "." + name
				}
				cur.Name = name
			} else {
				cur.Name = L.fullName(p.PkgPath, name)
			}
			L.addContract(cur)
			return nil
		}
		cl := func(s string) (Clause, error) {
			label := ""
			if len(s) > 2 && s[0] == '[' && s[1] != ']' {
				// [what the clause says]
				i := strings.IndexByte(s, ']')
				label, s = s[1:i]+": ", strings.TrimSpace(s[i+1:])
			}
			e, err := parseClause(s)
			if err != nil {
				return Clause{}, fmt.Errorf("%s: %q: %v", where, s, err)
			}
			return Clause{Text: label + s, Expr: e, Line: where}, nil
		}
		var err error
		switch word {
		case "func", "iface", "client":
			if err = newC(word); err != nil {
				return err
			}
			continue
		case "protected":
			for _, w := range strings.Fields(rest) {
				L.protected = append(L.protected, regexp.MustCompile("^(?:"+w+")$"))
			}
			continue
		case "nonnil": // list elements (by type) and fields (by key) that are never nil
			for _, w := range strings.Fields(rest) {
				L.nonnil = append(L.nonnil, regexp.MustCompile("^(?:"+w+")$"))
			}
			continue
		case "pool":
			loop = &LoopSpec{pooled: true, label: rest}
			loop.con = &Contract{Pkg: p, SPkg: L.spkgs[p.PkgPath], Kind: "pool"}
			L.pool = append(L.pool, loop)
			cur = nil
			continue
		case "//":
			continue
		}
		if cur == nil && loop == nil {
			return fmt.Errorf("%s: clause %q outside a contract", where, body)
		}
		var c Clause
		switch word {
		case "prop":
			cur.Props = append(cur.Props, strings.Fields(rest)...)
		case "requires":
			c, err = cl(rest)
			cur.Requires = append(cur.Requires, c)
		case "ensures":
			c, err = cl(rest)
			cur.Ensures = append(cur.Ensures, c)
		case "modifies":
			switch rest {
			case "anything":
				cur.ModAny = true
			case "nothing":
				cur.ModNone = true
			case "unchecked":
				cur.NoCheck = true
			default:
				for _, s := range splitTop(rest) {
					c, err = cl(strings.Replace(s, ".*", ".ALL", -1))
					if err != nil {
						return err
					}
					cur.Modifies = append(cur.Modifies, c)
				}
			}
		case "log":
			c, err = cl(rest)
			cur.Log = append(cur.Log, c)
		case "set":
			i := strings.Index(rest, "=")
			c, err = cl(strings.TrimSpace(rest[i+1:]))
			cur.Sets = append(cur.Sets, ghostSet{strings.TrimSpace(rest[:i]), c})
		case "defines": // a name for the result; not an obligation of the body
			c, err = cl(rest)
			cur.Defines = append(cur.Defines, c)
		case "effect": // like set, and the body has to have this effect
			i := strings.Index(rest, "=")
			c, err = cl(strings.TrimSpace(rest[i+1:]))
			cur.Sets = append(cur.Sets, ghostSet{strings.TrimSpace(rest[:i]), c})
			cur.Effects = append(cur.Effects, ghostSet{strings.TrimSpace(rest[:i]), c})
		case "pureuf":
			cur.PureUF = true
			cur.ModNone = true
			cur.Use = true
		case "fresh":
			cur.Fresh = true
		case "writes":
			if cur.Writes == nil {
				cur.Writes = &writeSet{}
			}
			for _, w := range strings.Fields(rest) {
				cur.Writes.src = append(cur.Writes.src, w)
				cur.Writes.re = append(cur.Writes.re, regexp.MustCompile("^(?:"+w+")(?:#nil)?$"))
			}
		case "use":
			cur.Use = true
		case "lemma":
			cur.Use, cur.Lemma = true, true
		case "inline":
			cur.Inline = append(cur.Inline, strings.Fields(rest)...)
		case "nouse":
			cur.NoUse = append(cur.NoUse, strings.Fields(rest)...)
		case "replay":
			cur.Replay = rest
		case "anyloop":
			cur.AnyLoop = true
		case "conform":
			cur.Conform = true
		case "timeout":
			fmt.Sscan(rest, &cur.Timeout)
		case "ghost":
			f := strings.Fields(rest)
			cur.Ghosts = append(cur.Ghosts, LoopVar{f[0], strings.Join(f[1:], " ")})
		case "loop":
			loop = &LoopSpec{con: cur, label: rest}
			fmt.Sscan(rest, &loop.n)
			cur.Loops = append(cur.Loops, loop)
		case "vars":
			for _, v := range strings.Split(rest, ";") {
				f := strings.Fields(v)
				if len(f) >= 2 {
					loop.Vars = append(loop.Vars, LoopVar{f[0], strings.Join(f[1:], " ")})
				}
			}
		case "in": // the functions whose loops it is written for
			loop.In = append(loop.In, strings.Fields(rest)...)
		case "inv":
			c, err = cl(rest)
			loop.Inv = append(loop.Inv, c)
		case "dec":
			for _, s := range splitTop(rest) {
				c, err = cl(s)
				if err != nil {
					return err
				}
				loop.Dec = append(loop.Dec, c)
			}
		default:
			return fmt.Errorf("%s: unknown clause %q", where, word)
		}
		if err != nil {
			return err
		}
	}
	return nil
}

func (L *Loader) addContract(c *Contract) {
	L.order = append(L.order, c)
	if c.Kind != "client" {
		L.contracts[c.Name] = c
	}
}

// fullName turns "F" or "(*T).M" into the ssa name within the package.
func (L *Loader) fullName(pkg, name string) string {
	switch {
	case strings.Contains(name, "/"):
		return name
	case strings.HasPrefix(name, "(*"):
		return "(*" + pkg + "." + name[2:]
	case strings.HasPrefix(name, "("):
		return "(" + pkg + "." + name[1:]
	}
	return pkg + "." + name
}

// funcNamed finds a function or method by its ssa name.
func (L *Loader) funcNamed(name string) *ssa.Function {
	for _, p := range L.spkgs {
		for _, m := range p.Members {
			switch m := m.(type) {
			case *ssa.Function:
				if m.String() == name {
					return m
				}
			case *ssa.Type:
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := L.prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						f := L.prog.MethodValue(ms.At(i))
						if f != nil && f.String() == name {
							return f
						}
					}
				}
			}
		}
	}
	return nil
}

// splitTop splits at commas outside brackets.
func splitTop(s string) []string {
	var l []string
	d, last := 0, 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		case ',':
			if d == 0 {
				l = append(l, strings.TrimSpace(s[last:i]))
				last = i + 1
			}
		}
	}
	return append(l, strings.TrimSpace(s[last:]))
}

// parseClause parses a Go expression extended with a ==> b.
func parseClause(s string) (ast.Expr, error) {
	return parser.ParseExpr(rewriteImplies(s))
}
func rewriteImplies(s string) string {
	// handle parenthesised parts first
	var b strings.Builder
	d := 0
	start := 0
	inStr := byte(0)
	type part struct{ s string }
	var top []string
	last := 0
	for i := 0; i < len(s); i++ {
		c := s[i]
		if inStr != 0 {
			if c == '\\' && inStr != '`' {
				i++
			} else if c == inStr {
				inStr = 0
			}
			continue
		}
		switch c {
		case '"', '\'', '`':
			inStr = c
		case '(', '[', '{':
			if d == 0 {
				start = i
			}
			d++
		case ')', ']', '}':
			d--
			_ = start
		case '=':
			if d == 0 && strings.HasPrefix(s[i:], "==>") {
				top = append(top, s[last:i])
				last = i + 3
				i += 2
			}
		}
	}
	top = append(top, s[last:])
	for i := range top {
		top[i] = rewriteInner(top[i])
	}
	r := top[len(top)-1]
	for i := len(top) - 2; i >= 0; i-- {
		r = "implies(" + top[i] + ", " + r + ")"
	}
	b.WriteString(r)
	return b.String()
}
func rewriteInner(s string) string {
	var b strings.Builder
	d, start := 0, 0
	inStr := byte(0)
	for i := 0; i < len(s); i++ {
		c := s[i]
		if inStr != 0 {
			if d == 0 {
				b.WriteByte(c)
			}
			if c == '\\' && inStr != '`' {
				i++
				if d == 0 {
					b.WriteByte(s[i])
				}
			} else if c == inStr {
				inStr = 0
			}
			continue
		}
		switch c {
		case '"', '\'', '`':
			inStr = c
			if d == 0 {
				b.WriteByte(c)
			}
		case '(', '[', '{':
			if d == 0 {
				b.WriteByte(c)
				start = i + 1
			}
			d++
		case ')', ']', '}':
			d--
			if d == 0 {
				var parts []string
				for _, p := range splitTop(s[start:i]) {
					parts = append(parts, rewriteImplies(p))
				}
				b.WriteString(strings.Join(parts, ", "))
				b.WriteByte(c)
			}
		default:
			if d == 0 {
				b.WriteByte(c)
			}
		}
	}
	return b.String()
}

// resolveType reads a type expression in the scope of a package.
func (L *Loader) resolveType(p *packages.Package, e ast.Expr) types.Type {
	switch e := e.(type) {
	case *ast.Ident:
		if o := types.Universe.Lookup(e.Name); o != nil {
			if tn, ok := o.(*types.TypeName); ok {
				return tn.Type()
			}
		}
		if p != nil {
			if o, ok := p.Types.Scope().Lookup(e.Name).(*types.TypeName); ok {
				return o.Type()
			}
		}
	case *ast.SelectorExpr:
		if id, ok := e.X.(*ast.Ident); ok {
			if q := L.importNamed(p, id.Name); q != nil {
				if o, ok := q.Scope().Lookup(e.Sel.Name).(*types.TypeName); ok {
					return o.Type()
				}
			}
		}
	case *ast.StarExpr:
		if t := L.resolveType(p, e.X); t != nil {
			return types.NewPointer(t)
		}
	case *ast.ArrayType:
		if t := L.resolveType(p, e.Elt); t != nil && e.Len == nil {
			return types.NewSlice(t)
		}
	case *ast.MapType:
		k, v := L.resolveType(p, e.Key), L.resolveType(p, e.Value)
		if k != nil && v != nil {
			return types.NewMap(k, v)
		}
	case *ast.ParenExpr:
		return L.resolveType(p, e.X)
	case *ast.InterfaceType:
		return types.NewInterfaceType(nil, nil)
	}
	return nil
}
func (L *Loader) importNamed(p *packages.Package, name string) *types.Package {
	if p == nil {
		return nil
	}
	if p.Types.Name() == name {
		return p.Types
	}
	var ks []string
	for k := range p.Imports {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if q := p.Imports[k]; q.Types != nil && q.Types.Name() == name {
			return q.Types
		}
	}
	// any package of the program
	for _, q := range L.prog.AllPackages() {
		if q.Pkg.Name() == name && (L.isRepo(q) || !strings.Contains(q.Pkg.Path(), "/")) {
			return q.Pkg
		}
	}
	return nil
}

// implementers lists the concrete types of /repo (tests and contract files
// aside) that implement an interface.
func (L *Loader) implementers(it *types.Interface) []types.Type {
	var res []types.Type
	var paths []string
	for k := range L.spkgs {
		paths = append(paths, k)
	}
	sort.Strings(paths)
	for _, k := range paths {
		p := L.spkgs[k]
		if !L.isRepo(p) {
			continue
		}
		var names []string
		for n := range p.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			t, ok := p.Members[n].(*ssa.Type)
			if !ok || types.IsInterface(t.Type()) {
				continue
			}
			if _, ok := L.overlay[L.prog.Fset.Position(t.Pos()).Filename]; ok {
				continue
			}
			switch {
			case types.Implements(t.Type(), it):
				res = append(res, t.Type())
			case types.Implements(types.NewPointer(t.Type()), it):
				res = append(res, types.NewPointer(t.Type()))
			}
		}
	}
	return res
}

var _ = token.NoPos

// roots lists what is to be proved: functions, clients, and the methods that
// have to conform to the contract of their interface.
func (L *Loader) roots() []*Contract {
	if L.rootList != nil {
		return L.rootList
	}
	for _, c := range L.order {
		if c.Kind != "iface" {
			c.Fn = L.funcNamed(c.Name)
			if c.Fn == nil {
				L.missing = append(L.missing, c)
				continue
			}
			L.rootList = append(L.rootList, c)
			continue
		}
		if !c.Conform {
			continue
		}
		it, m := L.ifaceOf(c)
		if it == nil {
			L.missing = append(L.missing, c)
			continue
		}
		for _, t := range L.implementers(it.Underlying().(*types.Interface)) {
			d := *c
			d.selfType = it
			d.implType = t
			ms := L.prog.MethodSets.MethodSet(t)
			sel := ms.Lookup(it.Obj().Pkg(), m)
			if sel == nil {
				continue
			}
			d.Fn = L.prog.MethodValue(sel)
			L.rootList = append(L.rootList, &d)
		}
	}
	return L.rootList
}

// ifaceOf finds the interface type and method name of an interface contract.
func (L *Loader) ifaceOf(c *Contract) (*types.Named, string) {
	k := strings.LastIndex(c.Name, ".")
	q := c.Name[:k]
	d := strings.LastIndex(q, ".")
	sp := L.spkgs[q[:d]]
	if sp == nil {
		return nil, ""
	}
	o := sp.Pkg.Scope().Lookup(q[d+1:])
	if o == nil {
		return nil, ""
	}
	n, _ := o.Type().(*types.Named)
	return n, c.Name[k+1:]
}
