package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/andrewkroh/go-sawmill"

// loadEngine type-checks the module with the overlay and builds SSA for it.
func loadEngine(repo, scratch string, overlay map[string][]byte, patterns ...string) (*Engine, error) {
	cfg := &packages.Config{
		Mode:       packages.LoadAllSyntax | packages.NeedModule,
		Dir:        repo,
		Overlay:    overlay,
		BuildFlags: []string{"-mod=mod", "-tags=appengine", "-modfile=" + filepath.Join(scratch, "go.mod")},
		Env:        append(os.Environ(), "GOEXPERIMENT=nojsonv2", "GOFLAGS=", "GOPROXY=off", "CGO_ENABLED=0"),
	}
	for _, f := range []string{"go.mod", "go.sum"} {
		if err := copyFile(filepath.Join(scratch, f), filepath.Join(repo, f)); err != nil {
			return nil, err
		}
	}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if strings.HasPrefix(p.PkgPath, modPath) {
			for _, e := range p.Errors {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	e := &Engine{prog: prog, fset: prog.Fset, modPath: modPath,
		redirect: map[string]*ssa.Function{}, shared: map[*ssa.Package]bool{},
		sharedGl: map[*ssa.Global]*value{}, sharedIn: map[*ssa.Package]bool{}, skipInit: map[string]bool{}}
	// module packages in dependency order
	seen := map[string]bool{}
	var visit func(p *packages.Package)
	visit = func(p *packages.Package) {
		if seen[p.PkgPath] {
			return
		}
		seen[p.PkgPath] = true
		for _, k := range sortedKeys(p.Imports) {
			visit(p.Imports[k])
		}
		if strings.HasPrefix(p.PkgPath, modPath) {
			if sp := prog.Package(p.Types); sp != nil {
				sp.Build()
				e.modPkgs = append(e.modPkgs, sp)
				e.collectConstants(p)
				e.collectEmbeds(p)
			}
		}
	}
	for _, p := range pkgs {
		visit(p)
	}
	for _, n := range []string{"unicode", "unicode/utf8", "unicode/utf16", "strconv", "internal/strconv", "math", "math/bits", "encoding/base64", "internal/itoa", "sort"} {
		if p := prog.ImportedPackage(n); p != nil {
			e.shared[p] = true
		}
	}
	for _, n := range []string{"internal/cpu", "runtime", "internal/godebug", "os", "syscall", "internal/poll", "internal/runtime/atomic", "internal/bytealg", "sync", "net", "crypto"} {
		e.skipInit[n] = true
	}
	if p := prog.ImportedPackage("reflect"); p != nil {
		e.tRType = types.NewPointer(p.Type("rtype").Type())
	}
	e.tErrorString = types.Typ[types.String]
	if p := prog.ImportedPackage("runtime"); p != nil {
		if t := p.Type("plainError"); t != nil {
			e.tErrorString = t.Type()
		}
		if t := p.Type("errorString"); t != nil {
			e.tErrorString = t.Type()
		}
	}
	// redirects declared by the stub packages: functions named R_<n> with a
	// doc comment are collected through the Redirects table below.
	for from, to := range redirectNames {
		i := strings.LastIndex(to, ".")
		p := prog.ImportedPackage(modPath + "/internal/zzverif/" + to[:i])
		if p == nil {
			continue
		}
		f := p.Func(to[i+1:])
		if f == nil {
			return nil, fmt.Errorf("redirect target %s missing", to)
		}
		e.redirect[from] = f
	}
	return e, nil
}

var redirectNames = map[string]string{}

// overlayFiles maps the harness tree into the module.
func overlayFiles(root, repo string) (map[string]string, error) {
	m := map[string]string{}
	err := filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(root, p)
		m[filepath.Join(repo, rel)] = p
		return nil
	})
	return m, err
}
