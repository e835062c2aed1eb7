package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Spec configures the check of one property (checks.json).
type Spec struct {
	Pkgs        []string            `json:"pkgs"`
	QuickS      int                 `json:"quick_s"`
	ThoroughS   int                 `json:"thorough_s"`
	Perm        []string            `json:"perm"`     // harnesses explored under every map iteration order
	Replicas    int                 `json:"replicas"` // native repetitions of a counterexample (map order)
	MaxSteps    int                 `json:"max_steps"`
	Bounds      map[string]string   `json:"bounds"` // quick / thorough, in words
	Outside     string              `json:"outside"`
	Assumptions []string            `json:"assumptions"`
	Weights     map[string]float64  `json:"weights"`
	Stubs       map[string][]string `json:"-"`
}

type knownFinding struct {
	prop, label, text string
}

func readKnown(path string) []knownFinding {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	re := regexp.MustCompile(`^known: property=(\S+) label="([^"]*)" (.*)$`)
	var out []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(strings.TrimSpace(l)); m != nil {
			out = append(out, knownFinding{m[1], m[2], m[3]})
		}
	}
	return out
}

type nativeResult struct {
	Failed   []string `json:"failed"`
	Obs      []string `json:"obs"`
	Panic    string   `json:"panic"`
	Assume   bool     `json:"assume"`
	Mismatch string   `json:"mismatch"`
	Left     int      `json:"left"`
	Crash    string   `json:"crash"`
}

type nativeCase struct {
	Harness string           `json:"harness"`
	Inputs  []map[string]any `json:"inputs"`
	Tier    int              `json:"tier"`
}

const replayTest = `package %s

import (
	"encoding/json"
	"os"
	"testing"

	"github.com/andrewkroh/go-sawmill/internal/zzverif/vsym"
)

var zzRegistry = map[string]func(){
%s}

func TestZZReplay(t *testing.T) {
	var cases []struct {
		Harness string
		Inputs  []vsym.Input
		Tier    int
	}
	b, err := os.ReadFile(os.Getenv("ZZ_CASES"))
	if err != nil {
		t.Fatal(err)
	}
	if err := json.Unmarshal(b, &cases); err != nil {
		t.Fatal(err)
	}
	var out []vsym.Result
	for _, c := range cases {
		out = append(out, vsym.Run(zzRegistry[c.Harness], c.Inputs, c.Tier))
	}
	b, _ = json.Marshal(out)
	if err := os.WriteFile(os.Getenv("ZZ_OUT"), b, 0o644); err != nil {
		t.Fatal(err)
	}
}
`

// Native builds and runs the replay binary of a harness package.
type Native struct {
	repo, dir, bin string
	pkg            string
	err            error
}

func goEnv() []string {
	env := os.Environ()
	return append(env, "GOTOOLCHAIN=local", "GOFLAGS=", "GOPROXY=off", "GOSUMDB=off", "GOWORK=off")
}

func copyFile(dst, src string) error {
	b, err := os.ReadFile(src)
	if err != nil {
		return err
	}
	return os.WriteFile(dst, b, 0o644)
}

func buildNative(repo, scratch, pkg, pkgName string, overlay map[string]string, harnesses []string) *Native {
	n := &Native{repo: repo, pkg: pkg, dir: filepath.Join(scratch, strings.ReplaceAll(pkg, "/", "_"))}
	if n.err = os.MkdirAll(n.dir, 0o755); n.err != nil {
		return n
	}
	var reg strings.Builder
	for _, h := range harnesses {
		fmt.Fprintf(&reg, "\t%q: %s,\n", h, h)
	}
	tf := filepath.Join(n.dir, "zz_replay_test.go")
	if n.err = os.WriteFile(tf, []byte(fmt.Sprintf(replayTest, pkgName, reg.String())), 0o644); n.err != nil {
		return n
	}
	ov := map[string]map[string]string{"Replace": {}}
	for k, v := range overlay {
		ov["Replace"][k] = v
	}
	ov["Replace"][filepath.Join(repo, pkg, "zz_replay_test.go")] = tf
	b, _ := json.Marshal(ov)
	of := filepath.Join(n.dir, "overlay.json")
	os.WriteFile(of, b, 0o644)
	mf := filepath.Join(n.dir, "go.mod")
	copyFile(mf, filepath.Join(repo, "go.mod"))
	copyFile(filepath.Join(n.dir, "go.sum"), filepath.Join(repo, "go.sum"))
	n.build("replay.test")
	return n
}

func (n *Native) build(name string, flags ...string) {
	n.bin = filepath.Join(n.dir, name)
	args := append([]string{"test", "-mod=mod", "-modfile=" + filepath.Join(n.dir, "go.mod"), "-overlay=" + filepath.Join(n.dir, "overlay.json"),
		"-vet=off", "-c", "-o", n.bin}, flags...)
	cmd := exec.Command("go", append(args, "./"+n.pkg)...)
	cmd.Dir = n.repo
	cmd.Env = goEnv()
	out, err := cmd.CombinedOutput()
	if err != nil {
		n.err = fmt.Errorf("native build of %s: %v\n%s", n.pkg, err, out)
	}
}

// raced is n built with the race detector.
func (n *Native) raced() *Native {
	r := *n
	if r.err == nil {
		r.build("race.test", "-race")
	}
	return &r
}

func (n *Native) run(cases []nativeCase) ([]nativeResult, error) {
	if n.err != nil {
		return nil, n.err
	}
	cf, _ := os.CreateTemp(n.dir, "cases")
	b, _ := json.Marshal(cases)
	cf.Write(b)
	cf.Close()
	of := cf.Name() + ".out"
	cmd := exec.Command("timeout", "-k", "5", "120", n.bin, "-test.run", "^TestZZReplay$")
	cmd.Dir = n.dir
	cmd.Env = append(os.Environ(), "ZZ_CASES="+cf.Name(), "ZZ_OUT="+of, "GODEBUG=")
	var buf bytes.Buffer
	cmd.Stdout, cmd.Stderr = &buf, &buf
	err := cmd.Run()
	ob, rerr := os.ReadFile(of)
	if rerr != nil {
		txt := buf.String()
		if len(txt) > 400 {
			txt = txt[:400]
		}
		return nil, fmt.Errorf("native run: %v %s", err, txt)
	}
	var res []nativeResult
	if err := json.Unmarshal(ob, &res); err != nil {
		return nil, err
	}
	return res, nil
}

// confirm replays one counterexample in its own process.
func (n *Native) confirm(h, label string, inputs []map[string]any, tier, replicas int) (bool, string) {
	if replicas < 1 {
		replicas = 1
	}
	var cases []nativeCase
	for i := 0; i < replicas; i++ {
		cases = append(cases, nativeCase{h, inputs, tier})
	}
	if label == raceLabel {
		n = n.raced()
	}
	res, err := n.run(cases)
	if err != nil {
		// A fatal error of the runtime (stack overflow, ...) or a hang.
		if strings.HasPrefix(label, "panic") && strings.Contains(err.Error(), "native run") {
			return true, err.Error()
		}
		return false, err.Error()
	}
	last := ""
	for _, r := range res {
		// The run goes on after a failed assertion, so it may ask for more
		// inputs than the symbolic path, which ended there, had.
		for _, f := range r.Failed {
			if f == label {
				return true, ""
			}
		}
		if r.Mismatch != "" {
			last = "input mismatch: " + r.Mismatch
			continue
		}
		if r.Panic != "" && strings.HasPrefix(label, "panic") {
			return true, r.Panic
		}
		last = fmt.Sprintf("not reproduced natively (failed=%v panic=%q assume=%v)", r.Failed, r.Panic, r.Assume)
	}
	return false, last
}

// harnessNames lists the harness functions of prop declared in a package dir.
func harnessNames(dir, prop string) (pkgName string, names, all []string) {
	fset := token.NewFileSet()
	ents, _ := os.ReadDir(dir)
	for _, en := range ents {
		if !strings.HasSuffix(en.Name(), ".go") {
			continue
		}
		f, err := parser.ParseFile(fset, filepath.Join(dir, en.Name()), nil, 0)
		if err != nil {
			continue
		}
		pkgName = f.Name.Name
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv != nil || fd.Type.Params.NumFields() != 0 {
				continue
			}
			if strings.HasPrefix(fd.Name.Name, prop+"_") {
				names = append(names, fd.Name.Name)
			}
			if regexp.MustCompile(`^C\d\d_`).MatchString(fd.Name.Name) {
				all = append(all, fd.Name.Name)
			}
		}
	}
	sort.Strings(names)
	sort.Strings(all)
	return
}

func staticReach(fn *ssa.Function) []string {
	var out []string
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Pkg != fn.Pkg {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				callee := c.Common().StaticCallee()
				if callee == nil {
					continue
				}
				if callee.Name() == "Reach" && callee.Pkg != nil && strings.HasSuffix(callee.Pkg.Pkg.Path(), vsymSuffix) {
					if k, ok := c.Common().Args[0].(*ssa.Const); ok {
						s, _ := strconv.Unquote(k.Value.ExactString())
						out = append(out, s)
					}
				}
				visit(callee)
			}
		}
		for _, a := range f.AnonFuncs {
			visit(a)
		}
	}
	visit(fn)
	sort.Strings(out)
	return out
}

type harnessReport struct {
	Name          string         `json:"harness"`
	Paths         int64          `json:"paths"`
	Completed     int64          `json:"paths_completed"`
	Infeasible    int64          `json:"paths_ended_by_assumption"`
	Incomplete    int64          `json:"paths_incomplete"`
	Exhausted     bool           `json:"all_paths_within_bounds_explored"`
	Branches      int64          `json:"symbolic_branches"`
	Asserts       int64          `json:"assertions_evaluated"`
	AssertsSolved int64          `json:"assertions_discharged_by_solver"`
	Queries       int64          `json:"solver_queries"`
	CacheHits     int64          `json:"query_cache_hits"`
	Unknown       int64          `json:"solver_unknown"`
	SolverS       float64        `json:"solver_s"`
	WallS         float64        `json:"wall_s"`
	Reasons       map[string]int `json:"incomplete_reasons,omitempty"`
	Reached       []string       `json:"reached"`
	NotReached    []string       `json:"not_reached,omitempty"`
	MapOrders     bool           `json:"all_map_iteration_orders"`
	Validated     int            `json:"paths_replayed_natively"`
}

func cmdCheck(repo, verif, prop, tier string) int {
	t0 := time.Now()
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if seed == 0 {
		seed = 1
	}
	specs := map[string]*Spec{}
	b, err := os.ReadFile(filepath.Join(verif, "checks.json"))
	if err != nil {
		fmt.Println(err)
		return 3
	}
	if err := json.Unmarshal(b, &specs); err != nil {
		fmt.Println("checks.json:", err)
		return 3
	}
	spec := specs[prop]
	if spec == nil {
		fmt.Println("no check for", prop)
		return 3
	}
	tn := 0
	budget := spec.QuickS
	if budget == 0 {
		budget = 90
	}
	if tier == "thorough" {
		tn = 1
		budget = spec.ThoroughS
		if budget == 0 {
			budget = 1200
		}
	}
	scratch, err := os.MkdirTemp("", "zzverif")
	if err != nil {
		fmt.Println(err)
		return 3
	}
	defer os.RemoveAll(scratch)

	root, err := prepareHarness(repo, verif, scratch)
	if err != nil {
		fmt.Println("ERROR:", err)
		return 3
	}
	files, err := overlayFiles(root, repo)
	if err != nil {
		fmt.Println(err)
		return 3
	}
	type hp struct {
		pkg, name string
		names     []string
		all       []string
	}
	var hps []hp
	for _, p := range spec.Pkgs {
		pn, names, all := harnessNames(filepath.Join(root, p), prop)
		hps = append(hps, hp{p, pn, names, all})
	}
	// native replay binaries are built while the exploration runs
	natives := map[string]*Native{}
	var nmu sync.Mutex
	var nwg sync.WaitGroup
	for _, h := range hps {
		nwg.Add(1)
		go func() {
			defer nwg.Done()
			n := buildNative(repo, scratch, h.pkg, h.name, files, h.all)
			nmu.Lock()
			natives[h.pkg] = n
			nmu.Unlock()
		}()
	}
	eng, err := loadHarnessFiles(repo, scratch, files, spec.Pkgs...)
	if err != nil {
		fmt.Println("ERROR: cannot load the current tree:", err)
		nwg.Wait()
		return 3
	}
	deadline := time.Now().Add(time.Duration(budget) * time.Second)
	var runs []*Run
	var reports []*harnessReport
	pkgOf := map[string]string{}
	total := 0
	for _, h := range hps {
		total += len(h.names)
	}
	left := total
	for _, h := range hps {
		p := eng.prog.ImportedPackage(modPath + "/" + h.pkg)
		if p == nil {
			fmt.Println("ERROR: package not loaded:", h.pkg)
			return 3
		}
		for _, n := range h.names {
			fn := p.Func(n)
			perm := false
			for _, x := range spec.Perm {
				if x == n {
					perm = true
				}
			}
			rem := time.Until(deadline)
			slot := rem / time.Duration(left)
			if slot < rem/2 {
				slot = rem / 2
			}
			left--
			if left == 0 {
				slot = rem
			}
			run := newRun(eng, fn, tn, perm, slot)
			if spec.MaxSteps > 0 {
				run.maxSteps = spec.MaxSteps
			}
			run.sampleEvery = 1
			run.sampleMax = 40
			if tn == 1 {
				run.sampleMax = 200
			}
			t1 := time.Now()
			run.explore(runtime.NumCPU())
			r := &harnessReport{Name: n, Paths: run.Paths, Completed: run.Completed, Infeasible: run.Infeasible, Incomplete: run.Incomplete,
				Exhausted: run.Incomplete == 0 && !run.timedOut, Branches: run.Branches, Asserts: run.Asserts, AssertsSolved: run.AssertsSolved,
				Queries: run.stats.Queries, CacheHits: run.stats.CacheHits, Unknown: run.stats.Unknowns + run.stats.Errors,
				SolverS: float64(run.stats.SolverNS) / 1e9, WallS: time.Since(t1).Seconds(), Reasons: run.Reasons, Reached: sortedKeys(run.Reached), MapOrders: perm}
			for _, l := range staticReach(fn) {
				if run.Reached[l] == 0 {
					r.NotReached = append(r.NotReached, l)
				}
			}
			runs = append(runs, run)
			reports = append(reports, r)
			pkgOf[n] = h.pkg
		}
	}
	nwg.Wait()
	for _, n := range natives {
		if n.err != nil {
			fmt.Println("ERROR:", n.err)
			return 3
		}
	}

	// replay sampled paths natively: the encoding must agree with the real code
	validated, diverged := 0, []string{}
	var samplesOut []any
	for i, run := range runs {
		r := reports[i]
		var cases []nativeCase
		for _, s := range run.Samples {
			cases = append(cases, nativeCase{r.Name, s.Inputs, tn})
		}
		if len(cases) == 0 {
			continue
		}
		res, err := natives[pkgOf[r.Name]].run(cases)
		if err != nil {
			diverged = append(diverged, r.Name+": "+err.Error())
			continue
		}
		for j, x := range res {
			s := run.Samples[j]
			bad := ""
			switch {
			case x.Mismatch != "":
				bad = "inputs: " + x.Mismatch
			case x.Panic != "":
				bad = "native panic: " + x.Panic
			case x.Assume:
				bad = "assumption fails natively"
			case strings.Join(x.Obs, "|") != strings.Join(s.Obs, "|"):
				bad = fmt.Sprintf("observations differ: engine %v native %v", s.Obs, x.Obs)
			case len(x.Failed) > 0 && !s.Violated:
				bad = fmt.Sprintf("native assertion failures %v on a path the solver cleared", x.Failed)
			}
			if bad != "" {
				in, _ := json.Marshal(s.Inputs)
				diverged = append(diverged, r.Name+": "+bad+" inputs="+string(in))
				continue
			}
			validated++
			r.Validated++
		}
		if len(run.Samples) > 0 && len(samplesOut) < 12 {
			for _, s := range run.Samples[:min(2, len(run.Samples))] {
				samplesOut = append(samplesOut, map[string]any{"harness": r.Name, "path_inputs": s.Inputs, "observed": s.Obs})
			}
		}
	}

	// violations: confirm against the real code, then match known findings
	known := readKnown(filepath.Join(verif, "known_findings.txt"))
	evDir := filepath.Join(verif, "evidence")
	os.MkdirAll(filepath.Join(evDir, "replay"), 0o755)
	old, _ := filepath.Glob(filepath.Join(evDir, "replay", prop+"-*.json"))
	for _, f := range old {
		os.Remove(f)
	}
	var unconfirmed []string
	nviol, nknown := 0, 0
	for i, run := range runs {
		h := reports[i].Name
		for _, label := range sortedKeys(run.Violations) {
			v := run.Violations[label]
			began := time.Now()
			ok, why := natives[pkgOf[h]].confirm(h, label, v.Inputs, tn, max(spec.Replicas, 20))
			for _, w := range v.More {
				if ok || time.Since(began) > 30*time.Second {
					break
				}
				if ok, why = natives[pkgOf[h]].confirm(h, label, w.Inputs, tn, max(spec.Replicas, 20)); ok {
					v = w
				}
			}
			if !ok {
				unconfirmed = append(unconfirmed, h+": "+label+": "+why)
				continue
			}
			kf := false
			for _, k := range known {
				if k.prop == prop && k.label == h+": "+label {
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.text)
					kf = true
					nknown++
				}
			}
			if kf {
				continue
			}
			nviol++
			path := filepath.Join(evDir, "replay", fmt.Sprintf("%s-%d.json", prop, nviol))
			rb, _ := json.MarshalIndent(map[string]any{"property": prop, "harness": h, "package": pkgOf[h], "label": label,
				"where": v.Where, "inputs": v.Inputs, "tier": tn, "native": why,
				"replay_cmd": "/verif/check replay " + path}, "", " ")
			os.WriteFile(path, rb, 0o644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
			fmt.Printf("  %s: %s\n", h, label)
			if v.Where != "" {
				fmt.Printf("  at %s\n", v.Where)
			}
			for _, in := range v.Inputs {
				if t, ok := in["text"]; ok {
					fmt.Printf("    %v = %v\n", in["name"], t)
				} else {
					fmt.Printf("    %v = %v\n", in["name"], in["val"])
				}
			}
		}
	}

	// second solver on assertion obligations
	agree, disagree, asked := 0, 0, 0
	limit := 60
	if tn == 1 {
		limit = 400
	}
	agree, disagree, asked = crossCheck(runs, limit, seed)

	// evidence
	var paths, completed, incomplete, branches, queries, hits, asserts, solved, steps, unknown int64
	var solverS float64
	fns := map[string]bool{}
	exhausted := true
	for i, run := range runs {
		paths += run.Paths
		completed += run.Completed
		incomplete += run.Incomplete
		branches += run.Branches
		queries += run.stats.Queries
		hits += run.stats.CacheHits
		asserts += run.Asserts
		solved += run.AssertsSolved
		steps += run.Steps
		unknown += reports[i].Unknown
		solverS += reports[i].SolverS
		exhausted = exhausted && reports[i].Exhausted
		for f := range run.FnCovered {
			if !strings.Contains(f, "zzverif") && !strings.HasSuffix(f, ".init") {
				fns[f] = true
			}
		}
	}
	bt := spec.Bounds[tier]
	if bt == "" {
		bt = spec.Bounds["quick"]
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
		"wall_s": time.Since(t0).Seconds(), "violations": nviol, "assumptions": append([]string{}, spec.Assumptions...),
		"coverage": map[string]any{
			"states": completed, "transitions": branches, "traces_validated_against_impl": validated, "samples": samplesOut,
			"explanation": "states = symbolic path conditions executed to the end, each standing for every input that satisfies it; transitions = branch decisions on symbolic conditions, each put to the solver (or its query cache)",
			"exhaustive":  exhausted, "bounds": bt, "outside_the_bounds": spec.Outside,
			"functions_encoded": sortedKeys(fns), "harnesses": reports,
			"paths": paths, "paths_incomplete": incomplete, "instructions_interpreted": steps,
			"solver_queries": queries, "query_cache_hits": hits, "assertions_evaluated": asserts, "assertions_discharged_by_solver": solved,
			"solver_unknown": unknown, "solver_s": solverS, "solver": z3Path(),
			"second_solver":       map[string]any{"solver": "cvc5", "obligations_rechecked": asked, "agree": agree, "disagree": disagree},
			"known_findings_seen": nknown, "unconfirmed_candidates": unconfirmed, "encoding_divergences": diverged,
		},
	}
	eb, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evDir, prop+".json"), eb, 0o644); err != nil {
		fmt.Println(err)
		return 3
	}
	fmt.Printf("%s %s: %d paths (%d incomplete), %d branch decisions, %d assertions (%d by solver), %d queries + %d cached, solver %.1fs, %d paths replayed natively, wall %.1fs\n",
		prop, tier, paths, incomplete, branches, asserts, solved, queries, hits, solverS, validated, time.Since(t0).Seconds())
	for _, r := range reports {
		x := ""
		if !r.Exhausted {
			x = " NOT EXHAUSTED"
		}
		if len(r.NotReached) > 0 {
			x += fmt.Sprintf(" NOT REACHED %v", r.NotReached)
		}
		fmt.Printf("  %-32s paths=%-6d incomplete=%-4d %.1fs%s\n", r.Name, r.Paths, r.Incomplete, r.WallS, x)
		for _, k := range sortedKeys(r.Reasons) {
			fmt.Printf("      note: %d x %s\n", r.Reasons[k], k)
		}
	}
	for _, u := range unconfirmed {
		fmt.Println("  UNCONFIRMED (not reported):", u)
	}
	for _, d := range diverged {
		fmt.Println("  DIVERGENCE:", d)
	}
	if disagree > 0 {
		fmt.Println("  SOLVERS DISAGREE on", disagree, "obligations")
	}
	if nviol > 0 {
		return 1
	}
	return 0
}

// crossCheck re-decides assertion obligations with cvc5.
func crossCheck(runs []*Run, limit, seed int) (agree, disagree, asked int) {
	bin, err := exec.LookPath("cvc5")
	if err != nil {
		return
	}
	type ob struct {
		text string
		r    Sat
	}
	var obs []ob
	for _, run := range runs {
		for _, k := range sortedKeys(run.stats.assertLog) {
			if r := run.stats.assertLog[k]; r != Unknown {
				obs = append(obs, ob{k, r})
			}
		}
	}
	if len(obs) > limit {
		step := len(obs) / limit
		var sel []ob
		for i := seed % step; i < len(obs) && len(sel) < limit; i += step {
			sel = append(sel, obs[i])
		}
		obs = sel
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan struct{}, runtime.NumCPU())
	for _, o := range obs {
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			cmd := exec.Command(bin, "--lang=smt2", "--tlimit=5000", "--fp-exp", "-")
			cmd.Stdin = strings.NewReader("(set-logic ALL)\n" + o.text + "(check-sat)\n")
			out, _ := cmd.Output()
			res := strings.TrimSpace(string(out))
			mu.Lock()
			defer mu.Unlock()
			switch {
			case res == o.r.String():
				agree++
				asked++
			case res == "sat" || res == "unsat":
				disagree++
				asked++
			}
		}()
	}
	wg.Wait()
	return
}

func cmdReplay(repo, verif, file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Println(err)
		return 3
	}
	var r struct {
		Property, Harness, Package, Label string
		Inputs                            []map[string]any
		Tier                              int
	}
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Println(err)
		return 3
	}
	scratch, _ := os.MkdirTemp("", "zzverif")
	defer os.RemoveAll(scratch)
	root, err := prepareHarness(repo, verif, scratch)
	if err != nil {
		fmt.Println(err)
		return 3
	}
	files, _ := overlayFiles(root, repo)
	pn, _, all := harnessNames(filepath.Join(root, r.Package), r.Property)
	n := buildNative(repo, scratch, r.Package, pn, files, all)
	ok, why := n.confirm(r.Harness, r.Label, r.Inputs, r.Tier, 20)
	fmt.Printf("reproduced=%v %s\n", ok, why)
	if ok {
		return 1
	}
	return 0
}
