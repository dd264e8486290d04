package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// ---- one root, run in a process of its own

type OblJ struct {
	Name, Kind, Status, Solver, Line string
	Ms                               int64
	Out                              string `json:",omitempty"`
	Model                            string `json:",omitempty"`
}

type RootJ struct {
	Name, Err string
	Kind      string
	Where     string
	Obls      []OblJ
	Vacuous   []string
	Trusted   []string
	Inlined   []string
	Called    []string
	Assumed   []string
	Notes     []string
	Lemmas    []string
	Used      []string
	Solver    map[string]int64
	Paths     int
	Reaches   int
	Feas      int
	GenMs     int64
	WallMs    int64
}

func keys(m map[string]bool) []string {
	l := []string{}
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func solverMs(c *Contract) int {
	ms := 20000
	if os.Getenv("VERIF_TIER") == "thorough" {
		ms = 60000
	}
	if c.Timeout > 0 {
		ms = c.Timeout * 1000
	}
	return ms
}

func (L *Loader) toJSON(r *Result, t0 time.Time) RootJ {
	j := RootJ{Name: r.Name, Err: r.Err, Paths: r.Paths, GenMs: r.Ms, Kind: r.Con.Kind, Where: r.Con.Where, Reaches: len(r.Reaches)}
	for _, o := range r.Obls {
		q := OblJ{Name: o.Name, Kind: o.Kind, Status: o.Status, Solver: o.Solver, Line: o.Detail, Ms: o.Ms}
		if o.Status != "proved" {
			q.Out, q.Model = o.Out, o.Model
			if len(q.Out) > 4000 {
				q.Out = q.Out[:4000]
			}
			if len(q.Model) > 20000 {
				q.Model = q.Model[:20000]
			}
		}
		j.Obls = append(j.Obls, q)
	}
	j.Trusted, j.Inlined, j.Called, j.Assumed = keys(r.Trusted), keys(r.Inlined), keys(r.Called), keys(r.Assumed)
	for c := range r.Used {
		j.Used = append(j.Used, shortName(c.Name))
	}
	sort.Strings(j.Used)
	if r.x != nil {
		j.Notes = keys(r.x.notes)
		j.Feas = r.x.feas.calls
	}
	j.WallMs = time.Since(t0).Milliseconds()
	j.Solver = timeBy
	return j
}

func rootCmd(name string) {
	L := mustLoad()
	L.runInit()
	var out []RootJ
	for _, c := range L.roots() {
		if rootID(c) != name {
			continue
		}
		t0 := time.Now()
		r := L.verify(c)
		if r.x != nil {
			if r.Err == "" {
				solveAll(r.x, r.Obls, solverMs(c))
			}
		}
		j := L.toJSON(r, t0)
		j.Name = rootID(c)
		bad := r.Err != ""
		for _, o := range r.Obls {
			bad = bad || o.Status != "proved"
		}
		if !bad {
			var wg sync.WaitGroup
			var mu sync.Mutex
			for _, rp := range r.Reaches {
				wg.Add(1)
				go func(rp reachPt) {
					defer wg.Done()
					if unsatFacts(r.x, rp.facts, 1000) {
						mu.Lock()
						j.Vacuous = append(j.Vacuous, rp.name)
						mu.Unlock()
					}
				}(rp)
			}
			wg.Wait()
			// at least one way out
			alive := len(r.x.anyReach) == 0
			for _, o := range r.x.anyReach {
				if alive {
					break
				}
				if !unsatFacts(r.x, o.st.factList(), 1000) {
					alive = true
				}
			}
			if !alive || r.Paths == 0 {
				j.Vacuous = append(j.Vacuous, "no way to return is possible")
			}
		}
		for lc, ok := range L.lemma {
			if ok {
				lr := L.toJSON(L.lemmaRes[lc], t0)
				j.Lemmas = append(j.Lemmas, fmt.Sprintf("%s (%d obligations)", lr.Name, len(lr.Obls)))
				j.Trusted = union(j.Trusted, lr.Trusted)
				j.Inlined = union(j.Inlined, lr.Inlined)
				j.Assumed = union(j.Assumed, lr.Assumed)
				for i := range lr.Obls {
					lr.Obls[i].Name = "lemma " + lr.Obls[i].Name
				}
				j.Obls = append(j.Obls, lr.Obls...)
			}
		}
		sort.Strings(j.Lemmas)
		j.Solver = timeBy
		j.WallMs = time.Since(t0).Milliseconds()
		out = append(out, j)
	}
	json.NewEncoder(os.Stdout).Encode(out)
}

func union(a, b []string) []string {
	m := map[string]bool{}
	for _, s := range a {
		m[s] = true
	}
	for _, s := range b {
		m[s] = true
	}
	return keys(m)
}

func rootID(c *Contract) string {
	n := shortName(c.Name)
	if c.implType != nil {
		n += " by " + shortName(c.implType.String())
	}
	return n
}

// ---- known findings

type finding struct {
	prop, obl, text string
	used            bool
}

func readFindings() (l []*finding) {
	b, err := os.ReadFile(verifDir() + "/known-findings.txt")
	if err != nil {
		return nil
	}
	re := regexp.MustCompile(`^finding: property=(\S+) obligation="([^"]*)" (.*)$`)
	for _, s := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(s); m != nil {
			l = append(l, &finding{prop: m[1], obl: m[2], text: m[3]})
		}
	}
	return
}

// ---- check

func check(prop string) int {
	start := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	budget := 800 * time.Second
	if tier == "thorough" {
		budget = 3000 * time.Second
	}
	ctx, cancel := context.WithTimeout(context.Background(), budget-120*time.Second)
	defer cancel()
	L, lerr := Load(repoDir(), verifDir()+"/contracts")
	var broken []string // obligations that failed: "root: name"
	var report bytes.Buffer
	var models []string
	var results []RootJ
	if lerr != nil {
		broken = append(broken, "the contracts of this property no longer fit the code")
		fmt.Fprintln(&report, lerr)
	} else {
		var ids []string
		seen := map[string]bool{}
		kindOf := map[string]string{} // only obligations of this kind count
		isDeclared := map[string]bool{}
		for _, c := range L.roots() {
			if c.hasProp(prop) && !seen[rootID(c)] {
				seen[rootID(c)] = true
				ids = append(ids, rootID(c))
				kindOf[rootID(c)] = c.propKind(prop)
				isDeclared[rootID(c)] = true
			}
		}
		for _, d := range L.dropped {
			fmt.Fprintln(&report, "dropped:", d)
		}
		if L.droppedFor[prop] {
			broken = append(broken, "a contract file no longer fits the code: "+strings.Join(L.dropped, "; "))
		}
		for _, m := range L.missing {
			if m.hasProp(prop) {
				broken = append(broken, shortName(m.Name)+": the function under contract is gone")
			}
		}
		if len(ids) == 0 && len(broken) == 0 {
			broken = append(broken, "no contract states this property")
		}
		// what the proofs rest on is proved as well: the contracts of the functions they call
		for len(ids) > 0 {
			round := make([]RootJ, len(ids))
			var wg sync.WaitGroup
			par := 4
			sem := make(chan struct{}, par)
			for i, id := range ids {
				wg.Add(1)
				go func(i int, id string) {
					defer wg.Done()
					sem <- struct{}{}
					defer func() { <-sem }()
					round[i] = runRoot(ctx, id)
				}(i, id)
			}
			wg.Wait()
			ids = nil
			used := map[string]bool{}
			for i := range round {
				r := &round[i]
				k, declared := kindOf[r.Name]
				for _, u := range r.Used {
					used[u] = true
					if o, has := kindOf[u]; !has {
						kindOf[u] = k
					} else if o != k && !isDeclared[u] {
						kindOf[u] = ""
					}
				}
				if declared && k != "" {
					var l []OblJ
					for _, o := range r.Obls {
						if o.Kind == k {
							l = append(l, o)
						}
					}
					r.Obls = l
				}
			}
			results = append(results, round...)
			for _, c := range L.roots() {
				if c.Kind == "func" && used[shortName(c.Name)] && !seen[rootID(c)] {
					seen[rootID(c)] = true
					ids = append(ids, rootID(c))
				}
			}
		}
	}
	kf := readFindings()
	counted := map[string]bool{}
	lemmaSeen := map[string]int{}
	obl, done := 0, 0
	var knownLines []string
	bounded := 0
	for _, r := range results {
		fail := func(name string) {
			full := r.Name + ": " + name
			for _, k := range kf {
				if k.prop == prop && k.obl == full {
					if !k.used {
						knownLines = append(knownLines, fmt.Sprintf("KNOWN-FINDING: property=%s %s", prop, k.text))
					}
					k.used = true
					return
				}
			}
			broken = append(broken, full)
		}
		if r.Err != "" {
			obl++
			fail(r.Err)
			fmt.Fprintf(&report, "%s: %s\n", r.Name, r.Err)
			continue
		}
		for _, o := range r.Obls {
			if strings.HasPrefix(o.Name, "lemma ") {
				// a lemma several functions rest on counts once
				k := o.Name + o.Line + o.Kind
				lemmaSeen[r.Name+k]++
				k += fmt.Sprint(lemmaSeen[r.Name+k])
				if counted[k] {
					continue
				}
				counted[k] = true
			}
			obl++
			if o.Status == "proved" {
				done++
				continue
			}
			fail(o.Name)
			fmt.Fprintf(&report, "%s: [%s] %s (%s): %s by %s after %d ms\n%s\n", r.Name, o.Kind, o.Name, o.Line, o.Status, o.Solver, o.Ms, o.Out)
			if o.Model != "" {
				fmt.Fprintln(&report, "counterexample of the solver:", o.Model)
				models = append(models, o.Model)
			}
		}
		for _, v := range r.Vacuous {
			fail("vacuous: " + v)
			fmt.Fprintf(&report, "%s: vacuous: %s\n", r.Name, v)
		}
	}
	code := 0
	var out []string
	out = append(out, knownLines...)
	replayNote := "there is none"
	tests := replayTests(prop)
	if len(broken) > 0 || len(tests) > 0 {
		left := budget - time.Since(start) - 15*time.Second
		if left > 120*time.Second && tier != "thorough" {
			left = 120 * time.Second
		}
		if left < 30*time.Second {
			left = 30 * time.Second
		}
		if len(broken) == 0 && tier != "thorough" {
			// only a short run, to exercise what the proofs trust
			left = 8 * time.Second
		}
		failed, txt := runReplay(prop, tests, models, seed, left)
		replayNote = fmt.Sprintf("%d replay tests of the real code run (a bounded search, never counted as proof), failing input found: %v", len(tests), failed)
		if len(broken) > 0 || failed {
			code = 1
			os.MkdirAll(verifDir()+"/replays", 0755)
			path := fmt.Sprintf("%s/replays/%s.txt", verifDir(), prop)
			var b bytes.Buffer
			fmt.Fprintf(&b, "property %s\n\n", prop)
			if failed {
				fmt.Fprintf(&b, "FAILING INPUT on the code in %s (run again: cd %s && VERIF_SEED=%d sh check.sh %s):\n%s\n\n", repoDir(), verifDir(), seed, prop, txt)
			} else {
				fmt.Fprintf(&b, "no failing input found\n%s\n", txt)
			}
			fmt.Fprintf(&b, "failed obligations (%d):\n", len(broken))
			for _, s := range broken {
				fmt.Fprintf(&b, "  %s\n", s)
			}
			fmt.Fprintf(&b, "\nverifier output:\n%s\n", report.String())
			os.WriteFile(path, b.Bytes(), 0644)
			for i, s := range broken {
				if i == 12 {
					out = append(out, fmt.Sprintf("  ... and %d more", len(broken)-i))
					break
				}
				out = append(out, "failed obligation: "+s)
			}
			line := fmt.Sprintf("VIOLATION property=%s replay=%s", prop, path)
			if !failed {
				line += " no-failing-input-found"
			}
			out = append(out, line)
		}
	}
	writeEvidence(prop, tier, seed, results, obl, done, bounded, replayNote, knownLines, broken, start, L)
	for _, s := range out {
		fmt.Println(s)
	}
	if code == 0 {
		fmt.Printf("property %s holds: %d functions under contract, %d of %d obligations discharged, %.1f s\n", prop, len(results), done, obl, time.Since(start).Seconds())
	}
	return code
}

func runRoot(ctx context.Context, id string) RootJ {
	self, _ := os.Executable()
	c2, cancel := context.WithTimeout(ctx, 600*time.Second)
	defer cancel()
	cmd := exec.CommandContext(c2, self, "root", id)
	cmd.Env = append(os.Environ(), "GOMAXPROCS=4", "GOMEMLIMIT=6GiB")
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	err := cmd.Run()
	var l []RootJ
	if err == nil {
		err = json.Unmarshal(o.Bytes(), &l)
	}
	if err != nil || len(l) != 1 {
		s := e.String()
		if len(s) > 3000 {
			s = s[:3000]
		}
		return RootJ{Name: id, Err: fmt.Sprintf("the verifier gave no answer (%v) %s", err, s)}
	}
	return l[0]
}

// replayTests finds the packages with a replay for the property.
func replayTests(prop string) (l []string) {
	root := verifDir() + "/replay"
	want := []byte("func TestReplay" + prop)
	filepath.Walk(root, func(p string, i os.FileInfo, err error) error {
		if err != nil || i.IsDir() || !strings.HasSuffix(p, "_test.go") {
			return nil
		}
		if b, err := os.ReadFile(p); err == nil && bytes.Contains(b, want) {
			rel, _ := filepath.Rel(root, filepath.Dir(p))
			for _, s := range l {
				if s == rel {
					return nil
				}
			}
			l = append(l, rel)
		}
		return nil
	})
	return
}

var strLit = regexp.MustCompile(`"((?:[^"]|"")*)"`)

func runReplay(prop string, pkgs, models []string, seed int, left time.Duration) (bool, string) {
	if len(pkgs) == 0 {
		return false, "there is no replay for this property"
	}
	dir, err := os.MkdirTemp("", "verif-replay")
	if err != nil {
		return false, err.Error()
	}
	defer os.RemoveAll(dir)
	rep := map[string]string{}
	filepath.Walk(verifDir()+"/replay", func(p string, i os.FileInfo, err error) error {
		if err == nil && !i.IsDir() && strings.HasSuffix(p, ".go") {
			// the replays of other properties may not compile with a change that leaves this property alone
			if b, _ := os.ReadFile(p); bytes.Contains(b, []byte("func TestReplay")) && !bytes.Contains(b, []byte("func TestReplay"+prop)) {
				return nil
			}
			rel, _ := filepath.Rel(verifDir()+"/replay", p)
			rep[filepath.Join(repoDir(), filepath.Dir(rel), "zz_verif_"+filepath.Base(rel))] = p
		}
		return nil
	})
	// the search helper, once per package
	tmpl, _ := os.ReadFile(verifDir() + "/replay/helper.tmpl")
	for _, p := range pkgs {
		name := filepath.Base(p)
		hf := filepath.Join(dir, strings.ReplaceAll(p, "/", "_")+"_helper_test.go")
		os.WriteFile(hf, bytes.Replace(tmpl, []byte("package PKG"), []byte("package "+name), 1), 0644)
		rep[filepath.Join(repoDir(), p, "zz_verif_helper_test.go")] = hf
	}
	// the specification functions are the oracle
	for _, p := range specFiles() {
		rel, _ := filepath.Rel(verifDir()+"/contracts", p)
		rep[filepath.Join(repoDir(), filepath.Dir(rel), "zz_verif_"+filepath.Base(rel))] = p
	}
	ob, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	of := filepath.Join(dir, "overlay.json")
	os.WriteFile(of, ob, 0644)
	var corpus []string
	for _, m := range models {
		for _, s := range strLit.FindAllStringSubmatch(m, -1) {
			corpus = append(corpus, smtUnescape(s[1]))
		}
	}
	cb, _ := json.Marshal(corpus)
	cf := filepath.Join(dir, "corpus.json")
	os.WriteFile(cf, cb, 0644)
	tmp := filepath.Join(dir, "tmp")
	os.Mkdir(tmp, 0777)
	var txt strings.Builder
	failed := false
	end := time.Now().Add(left)
	for i, p := range pkgs {
		rem := time.Until(end) / time.Duration(len(pkgs)-i)
		if rem < 20*time.Second && left >= 20*time.Second {
			rem = 20 * time.Second
		}
		ctx, cancel := context.WithTimeout(context.Background(), rem+60*time.Second)
		search := rem / 2
		if search > 40*time.Second {
			search = 40 * time.Second
		}
		cmd := exec.CommandContext(ctx, "go", "test", "-overlay", of, "-vet=off", "-count=1", "-timeout", fmt.Sprint((rem + 30*time.Second).Round(time.Second)), "-run", "^TestReplay"+prop, "./"+p)
		cmd.Dir = repoDir()
		env := []string{}
		for _, e := range os.Environ() {
			if !strings.HasPrefix(e, "GOFLAGS=") {
				env = append(env, e)
			}
		}
		cmd.Env = append(env, "VERIF_SEED="+fmt.Sprint(seed), fmt.Sprintf("VERIF_SEARCH_MS=%d", search.Milliseconds()), "VERIF_CORPUS="+cf, "TMPDIR="+tmp, "GOTOOLCHAIN=local", "GOPROXY=off")
		o, err := cmd.CombinedOutput()
		cancel()
		s := string(o)
		if len(s) > 8000 {
			s = s[:8000]
		}
		fmt.Fprintf(&txt, "replay in %s: %v\n", p, err)
		if err != nil {
			txt.WriteString(s)
			if strings.Contains(s, "--- FAIL: TestReplay") || strings.Contains(s, "panic:") || strings.Contains(s, "test timed out") && strings.Contains(s, "running tests") || strings.Contains(s, "fatal error:") {
				if !strings.Contains(s, "[build failed]") {
					failed = true
				}
			}
		}
	}
	return failed, txt.String()
}

// specFiles are the contract files replays may call.
func specFiles() (l []string) {
	filepath.Walk(verifDir()+"/contracts", func(p string, i os.FileInfo, err error) error {
		if err == nil && !i.IsDir() && strings.HasSuffix(p, "_spec.go") {
			l = append(l, p)
		}
		return nil
	})
	return
}

func smtUnescape(s string) string {
	s = strings.ReplaceAll(s, `""`, `"`)
	re := regexp.MustCompile(`\\u\{([0-9a-fA-F]+)\}`)
	return re.ReplaceAllStringFunc(s, func(m string) string {
		n, _ := strconv.ParseInt(m[3:len(m)-1], 16, 32)
		if n > 255 {
			return string(rune(n))
		}
		return string([]byte{byte(n)})
	})
}

func writeEvidence(prop, tier string, seed int, rs []RootJ, obl, done, bounded int, replayNote string, known, broken []string, start time.Time, L *Loader) {
	trusted, assumed, inl, lem, used := map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}
	solver := map[string]int64{}
	byBackend := map[string]int{}
	kinds := map[string]int{}
	var funcs []interface{}
	feas, paths, reaches := 0, 0, 0
	for _, r := range rs {
		add := func(m map[string]bool, l []string) {
			for _, s := range l {
				m[s] = true
			}
		}
		add(trusted, r.Trusted)
		add(assumed, r.Assumed)
		add(inl, r.Inlined)
		add(lem, r.Lemmas)
		add(used, r.Used)
		n, d := 0, 0
		for _, o := range r.Obls {
			n++
			kinds[o.Kind]++
			if o.Status == "proved" {
				d++
				byBackend[o.Solver]++
			}
		}
		for k, v := range r.Solver {
			solver[k] += v
		}
		feas += r.Feas
		paths += r.Paths
		reaches += r.Reaches
		e := map[string]interface{}{"contract": r.Name, "kind": r.Kind, "obligations": n, "discharged": d, "ms": r.WallMs}
		if r.Err != "" {
			e["error"] = r.Err
		}
		funcs = append(funcs, e)
	}
	var base []string
	base = append(base, "the verifier itself (/verif/gov: symbolic execution of go/ssa and its memory model), golang.org/x/tools/go/ssa, z3, cvc5")
	for s := range assumed {
		base = append(base, s)
	}
	for s := range trusted {
		base = append(base, "trusted library model: "+s)
	}
	sort.Strings(base[1:])
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "proof",
		"coverage": map[string]interface{}{
			"obligations": obl, "discharged": done,
			"checker_cmd":              fmt.Sprintf("sh check.sh %s", prop),
			"trusted_base":             base,
			"functions_under_contract": funcs,
			"functions_inlined":        keys(inl),
			"lemmas_used":              keys(lem),
			"contracts_used_at_calls":  keys(used),
			"discharged_by":            byBackend,
			"obligation_kinds":         kinds,
			"solver_ms":                solver,
			"feasibility_queries":      feas,
			"return_paths":             paths,
			"vacuity_points_checked":   reaches,
			"known_findings":           known,
			"failed":                   broken,
			"replay":                   replayNote,
		},
		"wall_s": time.Since(start).Seconds(),
	}
	os.MkdirAll(verifDir()+"/evidence", 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(fmt.Sprintf("%s/evidence/%s.json", verifDir(), prop), append(b, '\n'), 0644)
}
