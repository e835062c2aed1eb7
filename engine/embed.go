package main

import (
	"go/ast"
	"go/types"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

// collectEmbeds reads the files of //go:embed directives.
func (e *Engine) collectEmbeds(p *packages.Package) {
	for i, f := range p.Syntax {
		if i >= len(p.CompiledGoFiles) {
			break
		}
		dir := filepath.Dir(p.CompiledGoFiles[i])
		for _, d := range f.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok {
				continue
			}
			for _, s := range gd.Specs {
				vs, ok := s.(*ast.ValueSpec)
				if !ok {
					continue
				}
				var pats []string
				for _, doc := range []*ast.CommentGroup{vs.Doc, gd.Doc} {
					if doc == nil || doc == gd.Doc && len(gd.Specs) > 1 {
						continue
					}
					for _, c := range doc.List {
						if t := strings.TrimPrefix(c.Text, "//go:embed "); t != c.Text {
							pats = append(pats, strings.Fields(t)...)
						}
					}
				}
				if len(pats) == 0 {
					continue
				}
				m := map[string]string{}
				for _, pat := range pats {
					list, _ := filepath.Glob(filepath.Join(dir, strings.Trim(pat, "\"`")))
					for _, n := range list {
						if b, err := os.ReadFile(n); err == nil {
							rel, _ := filepath.Rel(dir, n)
							m[filepath.ToSlash(rel)] = string(b)
						}
					}
				}
				if e.embeds == nil {
					e.embeds = map[types.Object]map[string]string{}
				}
				for _, id := range vs.Names {
					if o := p.TypesInfo.Defs[id]; o != nil {
						e.embeds[o] = m
					}
				}
			}
		}
	}
}

// embedded is the initial value of an embedding variable.
func (e *Engine) embedded(g *ssa.Global) (value, bool) {
	m, ok := e.embeds[g.Object()]
	if !ok {
		return nil, false
	}
	t := g.Type().(*types.Pointer).Elem()
	var names []string
	dirs := map[string]bool{}
	for n := range m {
		names = append(names, n)
		for d := path.Dir(n); d != "."; d = path.Dir(d) {
			dirs[d+"/"] = true
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		for _, s := range m {
			return mkStr(s), true
		}
	case *types.Slice:
		for _, s := range m {
			var b slice
			for i := 0; i < len(s); i++ {
				b = append(b, K(8, uint64(s[i])))
			}
			return b, true
		}
	case *types.Struct: // embed.FS
		for d := range dirs {
			names = append(names, d)
		}
		split := func(n string) (string, string) {
			n = strings.TrimSuffix(n, "/")
			return path.Dir(n), path.Base(n)
		}
		sort.Slice(names, func(i, j int) bool {
			di, bi := split(names[i])
			dj, bj := split(names[j])
			return di < dj || di == dj && bi < bj
		})
		ft := u.Field(0).Type().(*types.Pointer).Elem().(*types.Slice).Elem()
		var list slice
		for _, n := range names {
			s := zero(ft).(structure)
			s[0], s[1] = mkStr(n), mkStr(m[n])
			list = append(list, s)
		}
		p := new(value)
		*p = list
		fs := zero(t).(structure)
		fs[0] = p
		return fs, true
	}
	return nil, false
}
