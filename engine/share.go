package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Concurrent calls. vsym.Together(f, shared...) stands for calls of f in
// several goroutines that share the given values and the variables of the
// module. Everything reachable from those is frozen: a plain store to it by f,
// outside a lock, is a data race with the same store by another call, and
// without such stores every interleaving gives what one call after the other
// gives.

const raceLabel = "calls at the same time share no memory that one of them writes"

type sharing struct {
	cells map[*value]bool
	maps  map[*Map]bool
	locks int
}

func (st *State) freeze(roots slice) *sharing {
	sh := &sharing{cells: map[*value]bool{}, maps: map[*Map]bool{}}
	for _, r := range roots {
		if i, ok := r.(iface); ok && i.t != nil {
			sh.walk(i.t, i.v)
		}
	}
	for g, p := range st.globals {
		path := ""
		if g.Pkg != nil {
			path = g.Pkg.Pkg.Path()
		}
		if !strings.HasPrefix(path, st.eng.modPath) || strings.Contains(path, "/zzverif/") || strings.HasPrefix(g.Name(), "zz") {
			continue
		}
		sh.cell(g.Type().(*types.Pointer).Elem(), p)
	}
	return sh
}

// synchronised reports types whose contents are protected by their methods.
func synchronised(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	p := n.Obj().Pkg().Path()
	return p == "sync" || p == "sync/atomic" || strings.HasPrefix(p, "internal/") || p == "reflect"
}

func (sh *sharing) cell(t types.Type, p *value) {
	if p == nil || sh.cells[p] || synchronised(t) {
		return
	}
	sh.cells[p] = true
	sh.walk(t, *p)
}

func (sh *sharing) walk(t types.Type, v value) {
	if v == nil || synchronised(t) {
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if s, ok := v.(structure); ok && len(s) == u.NumFields() {
			for i := range s {
				sh.cell(u.Field(i).Type(), &s[i])
			}
		}
	case *types.Array:
		if s, ok := v.(array); ok {
			for i := range s {
				sh.cell(u.Elem(), &s[i])
			}
		}
	case *types.Pointer:
		if p, ok := v.(*value); ok {
			sh.cell(u.Elem(), p)
		}
	case *types.Slice:
		if s, ok := v.(slice); ok {
			s = s[:cap(s)]
			for i := range s {
				sh.cell(u.Elem(), &s[i])
			}
		}
	case *types.Map:
		if m, ok := v.(*Map); ok && m != nil && !sh.maps[m] {
			sh.maps[m] = true
			for _, e := range m.entries {
				sh.walk(u.Key(), e.k)
				sh.walk(u.Elem(), e.v)
			}
		}
	case *types.Interface:
		if i, ok := v.(iface); ok && i.t != nil {
			sh.walk(i.t, i.v)
		}
	case *types.Signature:
		if c, ok := v.(*closure); ok && c != nil && c.fn != nil {
			for i, fv := range c.fn.FreeVars {
				if i < len(c.env) {
					sh.walk(fv.Type(), c.env[i])
				}
			}
		}
	}
}

// wrote is called before a store to *p, and wroteMap before a change of m.
func (st *State) wrote(p *value) {
	if st.share != nil && st.share.cells[p] {
		st.sharedWrite()
	}
}

func (st *State) wroteMap(m *Map) {
	if st.share != nil && st.share.maps[m] {
		st.sharedWrite()
	}
}

func (st *State) wroteAll(s []value) {
	if st.share == nil {
		return
	}
	for i := range s {
		if st.share.cells[&s[i]] {
			st.sharedWrite()
		}
	}
}

func (st *State) sharedWrite() {
	if st.share.locks > 0 {
		return
	}
	if n := len(st.frames); n > 0 {
		fn := st.frames[n-1].fi.fn
		if fn.Pkg != nil {
			switch p := fn.Pkg.Pkg.Path(); {
			case p == "sync", p == "sync/atomic", strings.HasPrefix(p, "internal/"):
				return
			}
		}
	}
	st.assert(eFalse, raceLabel, st.where())
}

func init() {
	vsymTab["Together"] = func(st *State, _ *frame, _ *ssa.Function, a []value) value {
		roots, _ := a[1].(slice)
		sh := st.freeze(roots)
		for i := 0; i < 2; i++ {
			st.share = sh
			st.callValue(a[0], []value{K(64, uint64(i))})
			st.share = nil
		}
		return nil
	}
	lock := func(d int) intrinsic {
		return func(st *State, _ *frame, _ *ssa.Function, a []value) value {
			if st.share != nil {
				st.share.locks += d
			}
			return nil
		}
	}
	for _, t := range []string{"(*sync.Mutex)", "(*sync.RWMutex)", "(*internal/sync.Mutex)"} {
		intrTab[t+".Lock"] = lock(1)
		intrTab[t+".Unlock"] = lock(-1)
	}
	for _, t := range []string{"(*sync.Mutex)", "(*sync.RWMutex)"} {
		intrTab[t+".TryLock"] = func(st *State, _ *frame, _ *ssa.Function, a []value) value {
			lock(1)(st, nil, nil, nil)
			return eTrue
		}
	}
}
