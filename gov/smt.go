package main

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"go/types"
	"io"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

const ifaceDecl = "(declare-datatypes ((Iface 0)) (((mkif (iftag Int) (ifpay Int)))))\n"

// interfaces named by $implements_ functions
var implIface = map[string]*types.Interface{}

// axiomsOf gives what is known about one term wherever it occurs.
func (x *Exec) axiomsOf(t *Term) []*Term {
	var r []*Term
	if a, ok := x.refAx[t]; ok {
		r = append(r, a)
	}
	r = append(r, x.termAx[t]...)
	if t.Op == "app" {
		switch {
		case t.Name == "$utf8":
			r = append(r, utf8Def(t))
		case strings.HasPrefix(t.Name, "$map_"):
			r = append(r, mapBytesAx(t)...)
		}
	}
	return r
}

// utf8Def: string(rune(r)) byte by byte.
func utf8Def(t *Term) *Term {
	r := t.Args[0]
	u := func(e *Term) *Term { return SeqUnit(e) }
	lo := func(k int64) *Term { return Add(IntC(128), Mod(Div(r, IntC(k)), IntC(64))) }
	bad := StrC("\uFFFD")
	d := Ite(Or(Lt(r, IntC(0)), Lt(IntC(0x10FFFF), r), And(Le(IntC(0xD800), r), Le(r, IntC(0xDFFF)))), bad,
		Ite(Lt(r, IntC(0x80)), u(r),
			Ite(Lt(r, IntC(0x800)), SeqCat(u(Add(IntC(192), Div(r, IntC(64)))), u(lo(1))),
				Ite(Lt(r, IntC(0x10000)), SeqCat(u(Add(IntC(224), Div(r, IntC(4096)))), u(lo(64)), u(lo(1))),
					SeqCat(u(Add(IntC(240), Div(r, IntC(262144)))), u(lo(4096)), u(lo(64)), u(lo(1)))))))
	return Eq(t, d)
}

func mapBytesAx(t *Term) []*Term { return nil }

// close adds to ts the axioms of every term occurring, unfolding spec functions.
func (x *Exec) closeTerms(ts []*Term, fuel int) []*Term { return x.closeTermsF(ts, fuel, nil) }

// closeTermsF unfolds at the first level only what only allows.
func (x *Exec) closeTermsF(ts []*Term, fuel int, only func(*Term) bool) []*Term {
	if fuel > 0 {
		// collect the new axioms
	}
	seen := map[*Term]int{}
	have := map[*Term]bool{}
	out := append([]*Term{}, ts...)
	for _, t := range ts {
		have[t] = true
	}
	var queue []*Term
	depth := map[*Term]int{}
	free := 0
	push := func(root *Term, d int) {
		var order []*Term
		collect([]*Term{root}, seen, &order)
		for _, t := range order {
			depth[t] = d
			queue = append(queue, t)
		}
	}
	for _, t := range ts {
		push(t, 0)
	}
	add := func(a *Term, d int) {
		if a == True || have[a] {
			return
		}
		have[a] = true
		out = append(out, a)
		push(a, d)
	}
	for len(queue) > 0 {
		t := queue[0]
		queue = queue[1:]
		for _, a := range x.axiomsOf(t) {
			add(a, depth[t])
		}
		if t.Op == "app" && strings.HasPrefix(t.Name, "sp_") && depth[t] < fuel*100 && (only == nil || depth[t] > 0 || only(t)) {
			u := x.unfold(t)
			cost := 100
			if len(u) > 0 && free < 200 {
				// a definition without a case distinction: the recursion is over constants
				if e := u[len(u)-1]; e.Op == "=" && e.Args[0].Op != "ite" && e.Args[1].Op != "ite" {
					cost = 1
					free++
				}
			}
			for _, a := range u {
				add(a, depth[t]+cost)
			}
		}
	}
	// facts about type tags
	isref := false
	impl := map[string]bool{}
	for t := range seen {
		if t.Op == "app" {
			if t.Name == "$isref" {
				isref = true
			}
			if strings.HasPrefix(t.Name, "$implements_") {
				impl[t.Name] = true
			}
		}
	}
	if isref {
		for id, t := range typeByID {
			r := false
			switch under(t).(type) {
			case *types.Pointer, *types.Map, *types.Chan:
				r = true
			}
			a := App("$isref", SBool, IntC(id))
			if !r {
				a = Not(a)
			}
			add(a, 99)
		}
	}
	for n := range impl {
		it := implIface[n]
		if it == nil {
			continue
		}
		for id, t := range typeByID {
			a := App(n, SBool, IntC(id))
			if !types.Implements(t, it) {
				a = Not(a)
			}
			add(a, 99)
		}
	}
	return out
}

// emit prints declarations for what occurs in ts and asserts each of them.
func emit(ts []*Term, declared map[string]bool, named map[*Term]string, assert bool) string {
	var b strings.Builder
	seen := map[*Term]int{}
	var order []*Term
	collect(ts, seen, &order)
	for _, t := range order {
		switch t.Op {
		case "var":
			if !declared[t.Name] {
				declared[t.Name] = true
				fmt.Fprintf(&b, "(declare-fun |%s| () %s)\n", t.Name, t.Sort)
			}
			continue
		case "app":
			if !declared[t.Name] {
				declared[t.Name] = true
				sig := funSigs[t.Name]
				fmt.Fprintf(&b, "(declare-fun |%s| %s)\n", t.Name, sig)
			}
		}
		if len(t.Args) == 0 && (t.Op != "lit" || len(t.Ints) < 8) {
			continue
		}
		if _, ok := named[t]; ok {
			continue
		}
		if seen[t] > 1 {
			n := fmt.Sprintf("t!%d", t.id)
			fmt.Fprintf(&b, "(define-fun %s () %s %s)\n", n, t.Sort, printTerm(t, named))
			named[t] = n
		}
	}
	if assert {
		for _, t := range ts {
			fmt.Fprintf(&b, "(assert %s)\n", printTerm(t, named))
		}
	}
	return b.String()
}

// ---- one-shot queries

var buildMu sync.Mutex

func query(x *Exec, facts []*Term, goal *Term, fuel int) string {
	return queryF(x, facts, goal, fuel, 0)
}

// queryF restricts unfolding: 1 to the applications among the facts that are not in the goal, 2 to those only in the goal.
func queryF(x *Exec, facts []*Term, goal *Term, fuel, mode int) string {
	buildMu.Lock()
	defer buildMu.Unlock()
	ts := append([]*Term{}, facts...)
	if goal != nil {
		ts = append(ts, Not(goal))
	}
	var only func(*Term) bool
	if mode > 0 {
		inF, inG := map[*Term]int{}, map[*Term]int{}
		var o []*Term
		collect(facts, inF, &o)
		collect([]*Term{goal}, inG, &o)
		only = func(t *Term) bool {
			_, f := inF[t]
			_, g := inG[t]
			return mode == 1 && f && !g || mode == 2 && g && !f
		}
	}
	ts = x.closeTermsF(ts, fuel, only)
	return ifaceDecl + emit(ts, map[string]bool{}, map[*Term]string{}, true) + "(check-sat)\n"
}

type solver struct {
	name string
	args func(ms int) []string
	pre  string
}

var solvers = []solver{
	{"z3-new", func(ms int) []string { return []string{"z3-new", "-in", fmt.Sprintf("-t:%d", ms)} }, ""},
	{"z3", func(ms int) []string { return []string{"z3", "-in", fmt.Sprintf("-t:%d", ms)} }, ""},
	{"cvc5", func(ms int) []string {
		return []string{"cvc5", "--lang=smt2", "--strings-exp", "--produce-models", fmt.Sprintf("--tlimit=%d", ms), "-"}
	}, "(set-logic ALL)\n"},
}

var solverSem = make(chan struct{}, 8)

var solverTime sync.Map // name -> *int64 via mutex below
var timeMu sync.Mutex
var timeBy = map[string]int64{}

func runSolver(ctx context.Context, s solver, q string, ms int) (status, out string) {
	solverSem <- struct{}{}
	defer func() { <-solverSem }()
	if ctx.Err() != nil {
		return "unknown", "cancelled"
	}
	a := s.args(ms)
	c2, cancel := context.WithTimeout(ctx, time.Duration(ms+2000)*time.Millisecond)
	defer cancel()
	cmd := exec.CommandContext(c2, a[0], a[1:]...)
	cmd.Stdin = strings.NewReader(s.pre + q)
	var ob bytes.Buffer
	cmd.Stdout = &ob
	cmd.Stderr = &ob
	t0 := time.Now()
	cmd.Run()
	timeMu.Lock()
	timeBy[s.name] += time.Since(t0).Milliseconds()
	timeMu.Unlock()
	out = ob.String()
	f := strings.TrimSpace(out)
	switch {
	case strings.HasPrefix(f, "unsat"):
		return "unsat", out
	case strings.HasPrefix(f, "sat"):
		return "sat", out
	}
	return "unknown", out
}

func hasSpec(x *Exec, o *Obligation) bool {
	seen := map[*Term]int{}
	var order []*Term
	collect(append(append([]*Term{}, o.Facts...), o.Goal), seen, &order)
	for _, t := range order {
		if t.Op == "app" && strings.HasPrefix(t.Name, "sp_") {
			return true
		}
	}
	return false
}

func solveOne(x *Exec, o *Obligation, ms int) {
	if o.Status == "proved" {
		return
	}
	if o.Goal == True {
		o.Status, o.Solver = "proved", "simplifier"
		return
	}
	for _, f := range o.Facts {
		if f == o.Goal || f == False {
			o.Status, o.Solver = "proved", "simplifier"
			return
		}
	}
	t0 := time.Now()
	defer func() { o.Ms = time.Since(t0).Milliseconds() }()
	buildMu.Lock()
	spec := hasSpec(x, o)
	buildMu.Unlock()
	dump := os.Getenv("GOV_DUMP")
	q1 := query(x, o.Facts, o.Goal, 1)
	if dump != "" && strings.Contains(o.Name, dump) {
		os.WriteFile(fmt.Sprintf("/tmp/gov_%d.smt2", time.Now().UnixNano()), []byte("; "+o.Name+"\n"+q1), 0644)
	}
	first := ms / 3
	if first > 1500 {
		first = 1500
	}
	st, out := runSolver(context.Background(), solvers[0], q1, first)
	if st == "unsat" {
		o.Status, o.Solver = "proved", "z3-new"
		return
	}
	if st == "sat" && !spec {
		o.Status, o.Solver = "failed", "z3-new"
		_, m := runSolver(context.Background(), solvers[0], q1+"(get-model)\n", first)
		o.Model = m
		return
	}
	_ = out
	type job struct {
		s solver
		q string
	}
	jobs := []job{{solvers[0], q1}, {solvers[1], q1}, {solvers[2], q1}}
	if spec {
		for mode := 1; mode <= 2; mode++ {
			q := queryF(x, o.Facts, o.Goal, 1, mode)
			if q == q1 {
				continue
			}
			if s, _ := runSolver(context.Background(), solvers[0], q, first); s == "unsat" {
				o.Status, o.Solver = "proved", "z3-new"
				return
			}
		}
		q2, q3 := query(x, o.Facts, o.Goal, 2), query(x, o.Facts, o.Goal, 3)
		jobs = []job{{solvers[0], q2}, {solvers[0], q3}, {solvers[2], q2}, {solvers[1], q2}}
		if st != "sat" {
			jobs = append(jobs, job{solvers[0], q1}, job{solvers[2], q1})
		}
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	type ans struct {
		st, out, by string
	}
	ch := make(chan ans, len(jobs))
	for _, j := range jobs {
		go func(j job) {
			s, out := runSolver(ctx, j.s, j.q, ms)
			ch <- ans{s, out, j.s.name}
		}(j)
	}
	res := ans{"unknown", "", ""}
	for range jobs {
		a := <-ch
		if a.st == "unsat" {
			o.Status, o.Solver = "proved", a.by
			return
		}
		if a.st == "sat" || res.out == "" {
			res = a
		}
		if a.st == "sat" && !spec {
			break
		}
	}
	o.Solver = res.by
	o.Out = res.out
	if res.st == "sat" {
		o.Status = "failed"
	} else {
		o.Status = "unknown"
	}
}

func solveAll(x *Exec, obls []*Obligation, ms int) { solveUntil(x, obls, ms, false) }

// solveUntil solves the obligations, giving up at the first failure if told to.
func solveUntil(x *Exec, obls []*Obligation, ms int, stop bool) bool {
	var failed int32
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	for _, o := range obls {
		if o.Status == "proved" {
			continue
		}
		sem <- struct{}{}
		if stop && atomic.LoadInt32(&failed) > 0 {
			<-sem
			break
		}
		wg.Add(1)
		go func(o *Obligation) {
			defer wg.Done()
			defer func() { <-sem }()
			solveOne(x, o, ms)
			if o.Status != "proved" {
				atomic.AddInt32(&failed, 1)
			}
		}(o)
	}
	wg.Wait()
	return failed == 0
}

// unsatFacts says whether the facts contradict each other.
func unsatFacts(x *Exec, facts []*Term, ms int) bool {
	for _, f := range facts {
		if f == False {
			return true
		}
	}
	st, _ := runSolver(context.Background(), solvers[0], query(x, facts, nil, 1), ms)
	return st == "unsat"
}

// ---- feasibility of branches, incrementally

type Feas struct {
	cmd      *exec.Cmd
	in       io.WriteCloser
	out      *bufio.Reader
	declared map[string]bool
	named    map[*Term]string
	stack    []*Term
	axs      []map[*Term]bool // axioms asserted per level
	memo     map[string][2]bool
	calls    int
	ms       int64
}

func newFeas() *Feas { return &Feas{memo: map[string][2]bool{}} }

func (f *Feas) start() {
	f.cmd = exec.Command("z3-new", "-in")
	f.in, _ = f.cmd.StdinPipe()
	o, _ := f.cmd.StdoutPipe()
	f.out = bufio.NewReaderSize(o, 1<<16)
	f.cmd.Start()
	f.declared = map[string]bool{}
	f.named = map[*Term]string{}
	f.stack = nil
	f.axs = nil
	io.WriteString(f.in, "(set-option :global-declarations true)\n(set-option :timeout 200)\n"+ifaceDecl)
}
func (f *Feas) close() {
	if f.cmd != nil {
		f.in.Close()
		f.cmd.Process.Kill()
		f.cmd.Wait()
		f.cmd = nil
	}
}

func (f *Feas) check(x *Exec, st *State, c *Term) (bool, bool) {
	if c == False {
		return false, true
	}
	n := Not(c)
	for g := st.facts; g != nil; g = g.parent {
		if g.t == c && c != True {
			return true, false
		}
		if g.t == n && n != False {
			return false, true
		}
		if g.t == False && x.pure == 0 {
			return false, false
		}
	}
	if c == True {
		if x.pure > 0 {
			return true, false
		}
		return f.sat(x, st, True), false
	}
	if x.pure > 0 {
		return true, true
	}
	k := fmt.Sprintf("%p %d", st.facts, c.id)
	if m, ok := f.memo[k]; ok {
		return m[0], m[1]
	}
	t := f.sat(x, st, c)
	fl := true
	if t {
		fl = f.sat(x, st, n)
	}
	f.memo[k] = [2]bool{t, fl}
	return t, fl
}

func (f *Feas) sat(x *Exec, st *State, c *Term) bool {
	t0 := time.Now()
	defer func() { f.ms += time.Since(t0).Milliseconds(); f.calls++ }()
	if f.cmd == nil {
		f.start()
	}
	facts := st.factList()
	n := 0
	for n < len(facts) && n < len(f.stack) && facts[n] == f.stack[n] {
		n++
	}
	var b strings.Builder
	if k := len(f.stack) - n; k > 0 {
		fmt.Fprintf(&b, "(pop %d)\n", k)
		f.stack = f.stack[:n]
		f.axs = f.axs[:n]
	}
	have := func(t *Term) bool {
		for _, m := range f.axs {
			if m[t] {
				return true
			}
		}
		return false
	}
	buildMu.Lock()
	defer buildMu.Unlock()
	push := func(t *Term) {
		b.WriteString("(push 1)\n")
		m := map[*Term]bool{}
		f.axs = append(f.axs, m)
		ts := []*Term{t}
		for _, a := range x.closeTerms([]*Term{t}, 0)[1:] {
			if !have(a) {
				m[a] = true
				ts = append(ts, a)
			}
		}
		b.WriteString(emit(ts, f.declared, f.named, true))
	}
	for ; n < len(facts); n++ {
		push(facts[n])
		f.stack = append(f.stack, facts[n])
	}
	if c != True {
		push(c)
		b.WriteString("(check-sat)\n(pop 1)\n")
		f.axs = f.axs[:len(f.axs)-1]
	} else {
		b.WriteString("(check-sat)\n")
	}
	if _, err := io.WriteString(f.in, b.String()); err != nil {
		f.close()
		return true
	}
	for {
		l, err := f.out.ReadString('\n')
		if err != nil {
			f.close()
			return true
		}
		l = strings.TrimSpace(l)
		switch l {
		case "sat", "unknown", "timeout":
			return true
		case "unsat":
			return false
		}
		if strings.HasPrefix(l, "(error") {
			if os.Getenv("GOV_V") != "" {
				fmt.Fprintln(os.Stderr, "feas:", l)
			}
			if !strings.Contains(l, "canceled") {
				f.close()
				return true
			}
		}
	}
}

func sortedTimes() []string {
	var l []string
	for k, v := range timeBy {
		l = append(l, fmt.Sprintf("%s %dms", k, v))
	}
	sort.Strings(l)
	return l
}
