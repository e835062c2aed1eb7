package main

import (
	"flag"
	"fmt"
	"os"
	"sort"
	"strings"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: engine run|check ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "run":
		cmdRun(os.Args[2:])
	case "check":
		fs := flag.NewFlagSet("check", flag.ExitOnError)
		repo := fs.String("repo", "/repo", "")
		verif := fs.String("verif", "/verif", "")
		tier := fs.String("tier", "quick", "")
		fs.Parse(os.Args[2:])
		os.Exit(cmdCheck(*repo, *verif, fs.Arg(0), *tier))
	case "replay":
		os.Exit(cmdReplay("/repo", "/verif", os.Args[2]))
	default:
		fmt.Println("unknown command", os.Args[1])
		os.Exit(2)
	}
}

func cmdRun(args []string) {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	verif := fs.String("verif", "/verif", "")
	pkg := fs.String("pkg", "internal/zzverif/hevent", "")
	dumpConst := fs.Bool("constants", false, "")
	re := fs.String("fn", "", "function name prefix")
	budget := fs.Int("budget", 60, "seconds")
	workers := fs.Int("workers", 8, "")
	tier := fs.Int("tier", 0, "")
	perm := fs.Bool("perm", false, "")
	maxSteps := fs.Int("steps", 5000000, "")
	fs.BoolVar(&debugForks, "df", false, "")
	fs.BoolVar(&debugSteps, "prof", false, "")
	defer func() {
		ks := sortedKeys(stepProf)
		sort.SliceStable(ks, func(i, j int) bool { return stepProf[ks[i]] > stepProf[ks[j]] })
		for i, k := range ks {
			if i < 50 {
				fmt.Println("   steps", stepProf[k], k)
			}
		}
	}()
	fs.BoolVar(&debugPanics, "dp", false, "")
	fs.BoolVar(&debugSolver, "ds", false, "")
	fs.Parse(args)
	t0 := time.Now()
	scratch, _ := os.MkdirTemp("", "zzverif")
	defer os.RemoveAll(scratch)
	root, err := prepareHarness(*repo, *verif, scratch)
	if err != nil {
		fmt.Println(err)
		return
	}
	files, _ := overlayFiles(root, *repo)
	e, err := loadHarnessFiles(*repo, scratch, files, *pkg)
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	fmt.Printf("load %.1fs\n", time.Since(t0).Seconds())
	p := e.prog.ImportedPackage(modPath + "/" + *pkg)
	var names []string
	for n := range p.Members {
		if f := p.Func(n); f != nil && strings.HasPrefix(n, *re) && strings.HasPrefix(n, "C") && f.Signature.Params().Len() == 0 {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	for _, n := range names {
		run := newRun(e, p.Func(n), *tier, *perm, time.Duration(*budget)*time.Second)
		run.maxSteps = *maxSteps
		if *dumpConst {
			run.eng.dumpConstants()
		}
		t1 := time.Now()
		run.explore(*workers)
		fmt.Printf("%s: %.1fs paths=%d completed=%d infeasible=%d incomplete=%d steps=%d branches=%d asserts=%d(folded %d) queries=%d cache=%d solver=%.1fs unknown=%d err=%d\n",
			n, time.Since(t1).Seconds(), run.Paths, run.Completed, run.Infeasible, run.Incomplete, run.Steps, run.Branches, run.Asserts, run.AssertsFolded,
			run.stats.Queries, run.stats.CacheHits, float64(run.stats.SolverNS)/1e9, run.stats.Unknowns, run.stats.Errors)
		for _, k := range sortedKeys(run.Reasons) {
			fmt.Printf("   ! %d x %s\n", run.Reasons[k], k)
		}
		fk := sortedKeys(run.forkLoc)
		sort.Slice(fk, func(i, j int) bool { return run.forkLoc[fk[i]] > run.forkLoc[fk[j]] })
		for i := 0; i < len(fk) && i < 12; i++ {
			fmt.Printf("   fork %6d %.160s\n", run.forkLoc[fk[i]], strings.ReplaceAll(fk[i], "github.com/andrewkroh/go-sawmill/", ""))
		}
		for _, k := range sortedKeys(run.Reached) {
			fmt.Printf("   reach %s: %d\n", k, run.Reached[k])
		}
		for _, k := range sortedKeys(run.Violations) {
			v := run.Violations[k]
			fmt.Printf("   VIOL %s @ %s\n", k, v.Where)
			for _, in := range v.Inputs {
				fmt.Printf("        %v\n", in)
			}
		}
		if len(run.Samples) > 0 {
			fmt.Printf("   sample obs: %v\n", run.Samples[0].Obs)
		}
	}
}
