package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Files that a harness made with vsym.File; the code under test may open and
// read them.

type vfile struct {
	data []value
	pos  int
	name *Str // of a file opened for writing
}

func (st *State) pkgVar(pkg, name string) value {
	if p := st.eng.prog.ImportedPackage(pkg); p != nil {
		if g := p.Var(name); g != nil {
			return load(st.global(g))
		}
	}
	panic(unsupported{"variable " + pkg + "." + name})
}

func init() {
	type entry struct {
		name *Str
		data []value
	}
	files := func(st *State) *[]entry {
		m, _ := st.extra["files"].(*[]entry)
		if m == nil {
			m = new([]entry)
			st.extra["files"] = m
		}
		return m
	}
	// find is the entry of a name, which may have symbolic letters.
	find := func(st *State, v value) *entry {
		m := files(st)
		for i := range *m {
			if st.branch(st.strEq((*m)[i].name, v.(*Str))) {
				return &(*m)[i]
			}
		}
		return nil
	}
	bytes := func(s *Str) (d []value) {
		for i := 0; i < s.len(); i++ {
			d = append(d, s.at(i))
		}
		return
	}
	vsymTab["File"] = func(st *State, _ *frame, _ *ssa.Function, a []value) value {
		m := files(st)
		name := mkStr(fmt.Sprintf("/zz/file%d/content", len(*m)))
		*m = append(*m, entry{name, bytes(a[0].(*Str))})
		return name
	}
	open := func(st *State, _ *frame, fn *ssa.Function, a []value) value {
		e := find(st, a[0])
		if e == nil {
			return tuple{(*value)(nil), st.pkgVar("io/fs", "ErrNotExist")}
		}
		p := new(value)
		*p = zero(fn.Signature.Results().At(0).Type().(*types.Pointer).Elem())
		st.extra[fmt.Sprintf("open:%p", p)] = &vfile{data: e.data}
		st.extra[fmt.Sprintf("keep:%p", p)] = p
		return tuple{p, iface{}}
	}
	intrTab["os.Open"] = open
	intrTab["os.OpenFile"] = open
	readFile := func(st *State, _ *frame, _ *ssa.Function, a []value) value {
		e := find(st, a[0])
		if e == nil {
			return tuple{slice(nil), st.pkgVar("io/fs", "ErrNotExist")}
		}
		return tuple{slice(append([]value(nil), e.data...)), iface{}}
	}
	intrTab["os.ReadFile"] = readFile
	intrTab["io/ioutil.ReadFile"] = readFile
	write := func(st *State, _ *frame, _ *ssa.Function, a []value) value {
		s := a[0].(*Str)
		for i := 0; i < 4; i++ {
			if s.len() < 4 || s.at(i) != K(8, uint64("/zz/"[i])) {
				panic(unsupported{"writing a file of the system"})
			}
		}
		e := find(st, s)
		if e == nil {
			m := files(st)
			*m = append(*m, entry{name: s})
			e = &(*m)[len(*m)-1]
		}
		e.data = append([]value(nil), a[1].(slice)...)
		return iface{}
	}
	intrTab["os.WriteFile"] = write
	intrTab["io/ioutil.WriteFile"] = write
	intrTab["os.MkdirAll"] = func(st *State, _ *frame, _ *ssa.Function, a []value) value { return iface{} }
	intrTab["os.Exit"] = func(st *State, _ *frame, _ *ssa.Function, a []value) value {
		st.rtPanic("os.Exit")
		return nil
	}
	intrTab["os.Create"] = func(st *State, fr *frame, fn *ssa.Function, a []value) value {
		write(st, fr, fn, []value{a[0], slice(nil)})
		t := open(st, fr, fn, a).(tuple)
		st.extra[fmt.Sprintf("open:%p", t[0])].(*vfile).name = a[0].(*Str)
		return t
	}
	handle := func(st *State, v value) *vfile {
		p, _ := v.(*value)
		f, _ := st.extra[fmt.Sprintf("open:%p", p)].(*vfile)
		if f == nil {
			panic(unsupported{"operation on a real file"})
		}
		return f
	}
	intrTab["(*os.File).Read"] = func(st *State, _ *frame, _ *ssa.Function, a []value) value {
		f, b := handle(st, a[0]), a[1].(slice)
		if f.pos >= len(f.data) && len(b) > 0 {
			return tuple{K(64, 0), st.pkgVar("io", "EOF")}
		}
		n := min(len(b), len(f.data)-f.pos)
		for i := 0; i < n; i++ {
			b[i] = f.data[f.pos+i]
		}
		f.pos += n
		return tuple{K(64, uint64(n)), iface{}}
	}
	intrTab["(*os.File).Write"] = func(st *State, _ *frame, _ *ssa.Function, a []value) value {
		f, b := handle(st, a[0]), a[1].(slice)
		if f.name == nil {
			panic(unsupported{"write to a file opened for reading"})
		}
		e := find(st, f.name)
		e.data = append(append([]value(nil), e.data...), b...)
		return tuple{K(64, uint64(len(b))), iface{}}
	}
	intrTab["(*os.File).Close"] = func(st *State, _ *frame, _ *ssa.Function, a []value) value { return iface{} }
}
