package main

import (
	"go/ast"
	"go/constant"
	"go/types"
	"path/filepath"
	"sort"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

// constants are the values the current source of a package singles out: short
// texts and small numbers in its code. Harnesses try them as names, texts and
// sizes, which symbolic texts of a few bytes cannot reach.
type constants struct {
	strs map[string]bool
	ints map[int]bool
}

func (e *Engine) collectConstants(p *packages.Package) {
	if strings.Contains(p.PkgPath, "/zzverif/") {
		return
	}
	c := constants{map[string]bool{}, map[int]bool{}}
	note := func(v constant.Value) {
		switch v.Kind() {
		case constant.String:
			s := constant.StringVal(v)
			if s != "" && len(s) <= 32 && utf8.ValidString(s) && !strings.ContainsAny(s, " %\n\t") {
				c.strs[s] = true
			}
		case constant.Int:
			if n, ok := constant.Int64Val(v); ok && n >= 2 && n <= 8192 {
				c.ints[int(n)] = true
			}
		}
	}
	for i, f := range p.Syntax {
		name := ""
		if i < len(p.CompiledGoFiles) {
			name = filepath.Base(p.CompiledGoFiles[i])
		}
		if strings.HasPrefix(name, "zz_") || strings.HasSuffix(name, ".pb.go") {
			continue
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.Field:
				if n.Tag != nil {
					note(constant.MakeString("")) // tags are not code
				}
				return n.Tag == nil
			case ast.Expr:
				if tv, ok := p.TypesInfo.Types[n]; ok && tv.Value != nil {
					note(tv.Value)
					return false
				}
			case *ast.ValueSpec:
				for _, id := range n.Names {
					if k, ok := p.TypesInfo.Defs[id].(*types.Const); ok {
						note(k.Val())
					}
				}
			}
			return true
		})
	}
	if e.consts == nil {
		e.consts = map[string]constants{}
	}
	e.consts[strings.TrimPrefix(strings.TrimPrefix(p.PkgPath, e.modPath), "/")] = c
}

// constantsOf is the union over packages given as comma-separated path
// prefixes.
func (e *Engine) constantsOf(list string) (strs []string, ints []int) {
	s, n := map[string]bool{}, map[int]bool{}
	for path, c := range e.consts {
		for _, want := range strings.Split(list, ",") {
			if path == want || strings.HasPrefix(path, want+"/") {
				for k := range c.strs {
					s[k] = true
				}
				for k := range c.ints {
					n[k] = true
				}
			}
		}
	}
	for k := range s {
		strs = append(strs, k)
	}
	for k := range n {
		ints = append(ints, k)
	}
	sort.Strings(strs)
	sort.Ints(ints)
	return
}

func init() {
	name := func(v value) string { return v.(*Str).s }
	V := func(n string, f func(st *State, a []value) value) {
		vsymTab[n] = func(st *State, _ *frame, _ *ssa.Function, a []value) value { return f(st, a) }
	}
	V("Literal", func(st *State, a []value) value {
		strs, _ := st.eng.constantsOf(name(a[1]))
		strs = append([]string{"none"}, strs...)
		s := strs[st.choose(len(strs))]
		b := make([]*Expr, len(s))
		for i := range b {
			b[i] = K(8, uint64(s[i]))
		}
		st.inputs = append(st.inputs, Input{Name: name(a[0]), Kind: "string", exprs: b})
		return mkStrB(b)
	})
	V("Size", func(st *State, a []value) value {
		_, ints := st.eng.constantsOf(name(a[1]))
		lim := st.concInt(a[2].(*Expr))
		set := map[int]bool{lim: true}
		for _, n := range ints {
			for _, k := range []int{n - 1, n, n + 1} {
				if k <= lim {
					set[k] = true
				}
			}
		}
		var all []int
		for k := range set {
			all = append(all, k)
		}
		sort.Ints(all)
		n := all[st.choose(len(all))]
		st.inputs = append(st.inputs, Input{Name: name(a[0]), Kind: "choose", conc: uint64(n)})
		return K(64, uint64(n))
	})
}

func (e *Engine) dumpConstants() {
	for p, c := range e.consts {
		println(p)
		for s := range c.strs {
			print(" ", s)
		}
		for s := range c.ints {
			print(" ", s)
		}
		println()
	}
}
