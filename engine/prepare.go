package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io/fs"
	"os"
	"path/filepath"
	"strings"
)

// prepareHarness returns the root of the overlay tree for this run: a copy of
// the harness in which the parts that depend on unexported names of /repo are
// regenerated.
func prepareHarness(repo, verif, scratch string) (string, error) {
	src := filepath.Join(verif, "harness")
	dst := filepath.Join(scratch, "harness")
	err := filepath.WalkDir(src, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		if d.IsDir() {
			return os.MkdirAll(filepath.Join(dst, rel), 0o755)
		}
		return copyFile(filepath.Join(dst, rel), p)
	})
	if err != nil {
		return "", err
	}
	f := filepath.Join(dst, "cmd", "sawmill", "zz_run.go")
	b, err := os.ReadFile(f)
	if err != nil {
		return "", err
	}
	s := string(b)
	dir := filepath.Join(repo, "cmd", "sawmill")
	if call := findProcessInput(dir); call != "" {
		s = strings.Replace(s, "processInput(in, out, p)", call, 1)
	}
	if name := findLoader(dir); name != "" {
		s = strings.Replace(s, "loadPipeline(path)", name+"(path)", 1)
	} else {
		s = strings.Replace(s, "loadPipeline(path)", "nil, nil", 1)
		s = strings.Replace(s, "zzCanLoad = true", "zzCanLoad = false", 1)
	}
	return dst, os.WriteFile(f, []byte(s), 0o644)
}

// eachFunc calls f for the functions of a package.
func eachFunc(dir string, f func(*ast.FuncDecl)) {
	fset := token.NewFileSet()
	ents, _ := os.ReadDir(dir)
	for _, en := range ents {
		if !strings.HasSuffix(en.Name(), ".go") || strings.HasSuffix(en.Name(), "_test.go") {
			continue
		}
		file, err := parser.ParseFile(fset, filepath.Join(dir, en.Name()), nil, 0)
		if err != nil {
			continue
		}
		for _, d := range file.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil {
				f(fd)
			}
		}
	}
}

func fieldTypes(l *ast.FieldList) (out []string) {
	if l == nil {
		return nil
	}
	for _, p := range l.List {
		out = append(out, exprText(p.Type))
		for i := 1; i < len(p.Names); i++ {
			out = append(out, exprText(p.Type))
		}
	}
	return out
}

// findProcessInput finds the function of the command that runs a pipeline over
// a reader, whatever its name and the order of its parameters, and returns the
// call.
func findProcessInput(dir string) (best string) {
	eachFunc(dir, func(fd *ast.FuncDecl) {
		if strings.Join(fieldTypes(fd.Type.Results), ",") != "error" {
			return
		}
		var args []string
		for _, t := range fieldTypes(fd.Type.Params) {
			args = append(args, map[string]string{"io.Reader": "in", "io.Writer": "out", "*pipeline.Pipeline": "p"}[t])
		}
		j := strings.Join(args, ", ")
		if len(args) == 3 && strings.Contains(j, "in") && strings.Contains(j, "out") && strings.Contains(j, "p") &&
			(best == "" || fd.Name.Name == "processInput") {
			best = fmt.Sprintf("%s(%s)", fd.Name.Name, j)
		}
	})
	return best
}

// findLoader finds the function of the command that reads a pipeline file.
func findLoader(dir string) (best string) {
	eachFunc(dir, func(fd *ast.FuncDecl) {
		if strings.Join(fieldTypes(fd.Type.Params), ",") == "string" &&
			strings.Join(fieldTypes(fd.Type.Results), ",") == "*pipeline.Config,error" &&
			(best == "" || fd.Name.Name == "loadPipeline") {
			best = fd.Name.Name
		}
	})
	return best
}

func exprText(e ast.Expr) string {
	switch x := e.(type) {
	case *ast.StarExpr:
		return "*" + exprText(x.X)
	case *ast.SelectorExpr:
		return exprText(x.X) + "." + x.Sel.Name
	case *ast.Ident:
		return x.Name
	}
	return "?"
}

func loadHarnessFiles(repo, scratch string, files map[string]string, pkgs ...string) (*Engine, error) {
	ov := map[string][]byte{}
	for dst, src := range files {
		b, err := os.ReadFile(src)
		if err != nil {
			return nil, err
		}
		ov[dst] = b
	}
	var pats []string
	for _, p := range pkgs {
		pats = append(pats, modPath+"/"+p)
	}
	return loadEngine(repo, scratch, ov, pats...)
}
