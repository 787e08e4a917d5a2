package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type finding struct {
	Property, Target, Clause, Text string
}

// loadFindings reads known_findings.txt: lines
//
//	finding: property=C10 target=<unit> clause=<label> <what fails>
//	fixed: property=C10 <commit> <what failed>
//
// A finding names one clause of one unit; that clause states exactly the failing
// history, so that any other violation of the property fails another clause.
func loadFindings(path string) (fs []finding) {
	f, err := os.Open(path)
	if err != nil {
		return nil
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "finding:") {
			continue
		}
		var x finding
		rest := strings.Fields(strings.TrimPrefix(l, "finding:"))
		for len(rest) > 0 {
			k, v, ok := strings.Cut(rest[0], "=")
			if ok && k == "property" {
				x.Property = v
			} else if ok && k == "target" {
				x.Target = v
			} else if ok && k == "clause" {
				x.Clause = v
			} else {
				break
			}
			rest = rest[1:]
		}
		x.Text = strings.Join(rest, " ")
		fs = append(fs, x)
	}
	return fs
}

func (r *Result) ok() bool { return len(r.Fails) == 0 && len(r.Incomplete) == 0 && r.Err == "" }

type runOpts struct {
	revealed bool
	inline   []string
	only     map[string]bool
	final    bool
	hard     bool
}

func (r *Result) usesModular() bool {
	for _, c := range r.Contracts {
		if !c.IsIface && c.Modular && c.Returns == nil {
			return true
		}
	}
	return false
}

func (w *World) parallel(n int, f func(i int)) {
	var wg sync.WaitGroup
	sem := make(chan bool, runtime.NumCPU())
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			f(i)
		}()
	}
	wg.Wait()
}

func checkMain(id string) int {
	t0 := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	deadline := t0.Add(560 * time.Second)
	ms := 4000
	if tier == "thorough" {
		ms = 20000
		deadline = t0.Add(3600 * time.Second)
	}
	var problems []string
	w, err := loadWorld(filepath.Join(verifDir, "contracts"))
	if err != nil {
		problems = append(problems, "contract files or packages cannot be loaded: "+err.Error())
	} else {
		for _, e := range w.loadErrs {
			problems = append(problems, "package load: "+e)
		}
	}
	var results []*Result
	var contracts []*Result
	if len(problems) == 0 {
		var ts []*Target
		for _, t := range w.db.Targets {
			if hasID(&t.Contract, id) {
				ts = append(ts, t)
			}
		}
		if len(ts) == 0 {
			problems = append(problems, "no unit is specified for "+id)
		}
		results = make([]*Result, len(ts))
		fs := loadFindings(filepath.Join(verifDir, "known_findings.txt"))
		w.findings = func(id, unit string, f *Failure) bool {
			for _, k := range fs {
				if k.Property == id && k.Target == unit && k.Clause == f.Clause && f.Kind == "postcondition" {
					return true
				}
			}
			return false
		}
		bad := func(r *Result) bool {
			if len(r.Incomplete) > 0 || r.Err != "" {
				return true
			}
			for _, f := range r.Fails {
				if !w.findings(id, r.Unit, f) {
					return true
				}
			}
			return false
		}
		run := func(i int, o runOpts) *Result {
			b := time.Until(deadline)
			if len(o.inline) > 0 && o.only != nil && b > 100*time.Second && tier == "quick" {
				b = 100 * time.Second
			}
			if o.hard && b > 120*time.Second && tier == "quick" {
				b = 120 * time.Second
			}
			if b < 5*time.Second {
				b = 5 * time.Second
			}
			return w.runUnit(ts[i], id, b, ms, o)
		}
		// again repeats a failed run for the clauses that failed; what the first run
		// discharged stays discharged.
		again := func(i int, o runOpts) {
			r := results[i]
			if len(r.Incomplete) == 0 && r.Err == "" {
				o.only = map[string]bool{}
				for _, f := range r.Fails {
					if !w.findings(id, r.Unit, f) {
						o.only[f.Clause] = true
					}
				}
			}
			r2 := run(i, o)
			if o.only == nil {
				if !bad(r2) || len(r2.Incomplete) == 0 && r2.Err == "" {
					results[i] = r2
				}
				return
			}
			if len(r2.Incomplete) > 0 || r2.Err != "" {
				return
			}
			m := *r2
			m.Fails = append([]*Failure{}, r2.Fails...)
			for _, f := range r.Fails {
				if w.findings(id, r.Unit, f) {
					m.Fails = append(m.Fails, f)
				}
			}
			m.Obl, m.Disch, m.Paths, m.Loops, m.Invs = r.Obl-len(o.only)+r2.Obl, r.Disch+r2.Disch, r.Paths+r2.Paths, r.Loops+r2.Loops, r.Invs+r2.Invs
			m.Wall += r.Wall
			merge := func(a, b map[string]bool) map[string]bool {
				for k := range b {
					a[k] = true
				}
				return a
			}
			m.Assumed, m.Inlined = merge(m.Assumed, r.Assumed), merge(m.Inlined, r.Inlined)
			for k, n := range r.Backends {
				m.Backends[k] += n
			}
			for k, c := range r.Contracts {
				m.Contracts[k] = c
			}
			for k, n := range r.Clauses {
				m.Clauses[k] += n
			}
			results[i] = &m
		}
		w.parallel(len(ts), func(i int) {
			results[i] = run(i, runOpts{revealed: ts[i].Reveal[id]})
			if bad(results[i]) && !ts[i].Reveal[id] && time.Until(deadline) > 30*time.Second {
				again(i, runOpts{revealed: true, final: !results[i].usesModular()})
			}
		})
		// every contract relied on is verified against its body
		contracts = w.verifyContracts(id, results, deadline, ms)
		var broken []string
		for _, c := range contracts {
			if !c.ok() {
				broken = append(broken, strings.TrimPrefix(c.Unit, "contract of "))
			}
		}
		retry := len(broken) > 0
		for _, r := range results {
			if bad(r) && r.usesModular() {
				retry = true
			}
		}
		inlined := make([][]string, len(ts)) // the functions whose bodies replace their contracts, per unit
		if retry {
			// a helper no longer meets its contract, or a caller needs more of it: use the bodies
			all := append([]string{}, broken...)
			for n, c := range w.db.Funcs {
				if c.Modular && c.Returns == nil {
					all = append(all, n)
				}
			}
			w.parallel(len(ts), func(i int) {
				need := false
				for _, b := range broken {
					if results[i].Contracts[b] != nil {
						need = true
					}
				}
				if time.Until(deadline) < 20*time.Second {
					return
				}
				o := runOpts{revealed: true, inline: all, final: true}
				if need {
					inlined[i] = all
					results[i] = run(i, o)
				} else if bad(results[i]) && results[i].usesModular() {
					again(i, o)
				}
			})
			contracts = w.verifyContracts(id, results, deadline, ms)
		}
		// solver limits must not decide a verdict: units with loops, and those a solver gave no answer
		// on, get a last attempt with longer limits and another seed
		var redone atomic.Bool
		w.parallel(len(ts), func(i int) {
			r := results[i]
			hard := r.Loops > 0
			for _, f := range r.Fails {
				hard = hard || strings.Contains(f.Solver, "unknown")
			}
			if bad(r) && hard && len(r.Incomplete) == 0 && r.Err == "" && time.Until(deadline) > 60*time.Second {
				redone.Store(true)
				again(i, runOpts{revealed: true, hard: true, inline: inlined[i]})
			}
		})
		if redone.Load() {
			contracts = w.verifyContracts(id, results, deadline, ms)
		}
	}

	// verdict
	fs := loadFindings(filepath.Join(verifDir, "known_findings.txt"))
	known := map[string]bool{}
	_ = fs
	type vio struct {
		Unit   string   `json:"unit"`
		Clause string   `json:"obligation"`
		Kind   string   `json:"kind"`
		Text   string   `json:"text"`
		Pos    string   `json:"position,omitempty"`
		Solver string   `json:"solver,omitempty"`
		Path   []string `json:"path,omitempty"`
		Events []string `json:"events,omitempty"`
		Model  []string `json:"model,omitempty"`
	}
	var vios []vio
	for _, p := range problems {
		vios = append(vios, vio{Unit: "setup", Clause: id, Kind: "load", Text: p})
	}
	for _, r := range append(append([]*Result{}, results...), contracts...) {
		if r == nil {
			continue
		}
		for _, f := range r.Fails {
			hit := false
			for _, k := range fs {
				if k.Property == id && k.Target == r.Unit && k.Clause == f.Clause && f.Kind == "postcondition" {
					hit = true
					known[fmt.Sprintf("KNOWN-FINDING: property=%s %s", id, k.Text)] = true
				}
			}
			if hit {
				continue
			}
			m := f.Model
			if len(m) > 120 {
				m = m[:120]
			}
			vios = append(vios, vio{r.Unit, f.Clause, f.Kind, f.Msg, f.Pos, f.Solver, f.Trail, f.Events, m})
		}
		for i, m := range r.Incomplete {
			var tr []string
			if i < len(r.IncTrail) {
				tr = r.IncTrail[i]
			}
			vios = append(vios, vio{Unit: r.Unit, Clause: id, Kind: "not verifiable", Text: m, Path: tr})
		}
		if r.Err != "" {
			vios = append(vios, vio{Unit: r.Unit, Clause: id, Kind: "verifier error", Text: r.Err})
		}
	}
	var found *searchResult
	var thorough map[string]any
	if len(vios) > 0 {
		found = concreteSearch(id, seed, 50*time.Second)
	} else if tier == "thorough" {
		found = concreteSearch(id, seed, 300*time.Second)
		thorough = map[string]any{"concrete_search": found}
	}
	violation := len(vios) > 0 || found != nil && found.Failed
	obl, disch := 0, 0
	backends := map[string]int{}
	assumed, inlined := map[string]bool{}, map[string]bool{}
	var under, samples []string
	ifc := map[string]bool{}
	paths, loops, invs := 0, 0, 0
	clauses := map[string]bool{}
	for _, r := range append(append([]*Result{}, results...), contracts...) {
		if r == nil {
			continue
		}
		obl += r.Obl
		disch += r.Disch
		paths += r.Paths
		loops += r.Loops
		invs += r.Invs
		for k, n := range r.Backends {
			backends[k] += n
		}
		for k := range r.Assumed {
			assumed[k] = true
		}
		for k := range r.Inlined {
			inlined[k] = true
		}
		for k := range r.Clauses {
			clauses[k] = true
		}
		for n, c := range r.Contracts {
			if c.IsIface {
				ifc[n] = true
			}
		}
		under = append(under, r.Unit)
		samples = append(samples, fmt.Sprintf("%s: %d/%d obligations, %d paths, %.2fs", r.Unit, r.Disch, r.Obl, r.Paths, r.Wall.Seconds()))
	}
	sort.Strings(under)
	trusted := []string{"govc (contract evaluation, symbolic execution of golang.org/x/tools/go/ssa, VC generation; /verif/govc)", "go/types and go/ssa translation of the Go source", "z3 4.8.12 (fallback: z3-new, cvc5) SMT solvers"}
	cov := map[string]any{
		"obligations":                 obl,
		"discharged":                  disch,
		"checker_cmd":                 "cd /verif && ./check " + id,
		"trusted_base":                append(trusted, sortedSet(assumed)...),
		"functions_under_contract":    under,
		"functions_inlined":           sortedSet(inlined),
		"assumed_interface_contracts": sortedSet(ifc),
		"back_ends":                   backends,
		"solver_seconds":              float64(atomic.LoadInt64(&totalSolverNs)) / 1e9,
		"solver_queries":              atomic.LoadInt64(&totalQueries),
		"paths":                       paths,
		"loops_abstracted":            loops,
		"loop_invariants":             invs,
		"clauses":                     sortedSet(clauses),
		"samples":                     samples,
	}
	for k, v := range thorough {
		cov[k] = v
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "proof", "coverage": cov,
		"assumptions": assumptionTexts(assumed),
		"wall_s":      time.Since(t0).Seconds(),
		"violations":  len(vios),
	}
	if b, err := json.MarshalIndent(ev, "", " "); err == nil {
		os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
		os.WriteFile(filepath.Join(verifDir, "evidence", id+".json"), append(b, '\n'), 0o644)
	}
	for _, k := range sortedSet(known) {
		fmt.Println(k)
	}
	fmt.Printf("%s: %d units, %d contracts, %d/%d obligations discharged, %d paths, %.1fs\n", id, len(results), len(contracts), disch, obl, paths, time.Since(t0).Seconds())
	if !violation {
		return 0
	}
	rp := filepath.Join(verifDir, "replay", id+".json")
	os.MkdirAll(filepath.Dir(rp), 0o755)
	rep := map[string]any{"property": id, "failed_obligations": vios}
	suffix := " no-failing-input-found"
	if found != nil {
		rep["concrete_search"] = found
		if found.Failed {
			suffix = ""
		}
	}
	if b, err := json.MarshalIndent(rep, "", " "); err == nil {
		os.WriteFile(rp, append(b, '\n'), 0o644)
	}
	for i, v := range vios {
		if i >= 12 {
			fmt.Printf("  ... and %d more failed obligations\n", len(vios)-i)
			break
		}
		fmt.Printf("  failed: %s [%s] %s %s %s\n", v.Unit, v.Kind, v.Clause, firstLine(v.Text), v.Pos)
	}
	if found != nil && found.Failed {
		fmt.Println("  failing input: " + firstLine(found.Input))
	}
	fmt.Printf("VIOLATION property=%s replay=%s%s\n", id, rp, suffix)
	return 1
}

func firstLine(s string) string {
	s, _, _ = strings.Cut(s, "\n")
	if len(s) > 400 {
		s = s[:400] + "..."
	}
	return s
}

func assumptionTexts(assumed map[string]bool) []string {
	out := []string{
		"interface methods supplied by a deployment (storage, generators, token issuers, key providers) meet the contracts in /verif/contracts; a nil error means the other results are usable; they do not modify their arguments",
		"external library functions behave as modelled; those listed as unmodelled calls return arbitrary values (Go (T, error) convention)",
		"slices reached from parameters start at their backing array; append is modelled with a fresh backing array (no write through aliased spare capacity)",
		"no slice or string is longer than 2^48; machine integers are modelled with exact wrap-around",
		"each call is verified for one goroutine from an arbitrary state; termination is not proved",
	}
	for _, a := range sortedSet(assumed) {
		if strings.HasPrefix(a, "assumed in ") {
			out = append(out, a)
		}
	}
	return out
}

// verifyContracts verifies each function contract the results rely on, and the
// contracts those verifications rely on in turn.
func (w *World) verifyContracts(id string, results []*Result, deadline time.Time, ms int) (out []*Result) {
	done := map[string]bool{}
	todo := func(rs []*Result) (cs []*Contract) {
		for _, r := range rs {
			if r == nil {
				continue
			}
			for n, c := range r.Contracts {
				if !c.IsIface && !done[n] {
					done[n] = true
					cs = append(cs, c)
				}
			}
		}
		sort.Slice(cs, func(i, j int) bool { return cs[i].Name < cs[j].Name })
		return
	}
	cs := todo(results)
	for len(cs) > 0 {
		rs := make([]*Result, len(cs))
		w.parallel(len(cs), func(i int) {
			b := time.Until(deadline)
			if b < 10*time.Second {
				b = 10 * time.Second
			}
			rs[i] = w.runTarget(contractTarget(cs[i]), id, b, ms, true)
		})
		out = append(out, rs...)
		cs = todo(rs)
	}
	return out
}

type searchResult struct {
	Cmd    string `json:"cmd"`
	Failed bool   `json:"failed"`
	Input  string `json:"failing_input,omitempty"`
	Output string `json:"output,omitempty"`
	Cases  int    `json:"cases,omitempty"`
}

// concreteSearch runs the property's executable oracle against the real code to find a
// failing input. It never decides that a property holds.
func concreteSearch(id string, seed int, limit time.Duration) *searchResult {
	dir := filepath.Join(verifDir, "harness")
	files, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	has := false
	for _, f := range files {
		b, _ := os.ReadFile(f)
		if strings.Contains(string(b), "func Test"+id+"(") {
			has = true
		}
	}
	if !has {
		return nil
	}
	repl := map[string]string{}
	for _, f := range files {
		repl[filepath.Join(repoDir, "zz_verif", filepath.Base(f))] = f
	}
	tmp, err := os.MkdirTemp("", "govc-search")
	if err != nil {
		return nil
	}
	defer os.RemoveAll(tmp)
	ov := filepath.Join(tmp, "overlay.json")
	b, _ := json.Marshal(map[string]any{"Replace": repl})
	os.WriteFile(ov, b, 0o644)
	bin := filepath.Join(tmp, "search.test")
	args := []string{"test", "-c", "-vet=off", "-overlay", ov, "-o", bin, "./zz_verif"}
	cmd := exec.Command("go", args...)
	cmd.Dir = repoDir
	cmd.Env = goEnv()
	out, err := cmd.CombinedOutput()
	if err == nil {
		cmd = exec.Command(bin, "-test.v", "-test.timeout", fmt.Sprintf("%ds", int(limit.Seconds())), "-test.run", "^Test"+id+"$")
		cmd.Dir = tmp
		cmd.Env = append(goEnv(), fmt.Sprintf("VERIF_SEED=%d", seed), fmt.Sprintf("VERIF_SEARCH_SECONDS=%d", int(limit.Seconds())*3/5))
		out, err = cmd.CombinedOutput()
	}
	r := &searchResult{Cmd: "go " + strings.Join(args, " ") + " && search.test -test.run ^Test" + id + "$"}
	o := string(out)
	for _, l := range strings.Split(o, "\n") {
		if i := strings.Index(l, "FAILING-INPUT:"); i >= 0 && err != nil {
			r.Failed = true
			r.Input = strings.TrimSpace(l[i+len("FAILING-INPUT:"):])
			break
		}
	}
	if len(o) > 8000 {
		o = o[:8000]
	}
	r.Output = o
	return r
}
