package main

import (
	"fmt"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// RVal models reflect.Value (immutable; nil is the zero Value).
type RVal struct {
	t    types.Type
	v    value  // used when addr == nil
	addr *value // addressable or element storage
	set  bool   // settable/addressable
	ro   bool   // obtained through an unexported field
}

func (r *RVal) get() value {
	if r.addr != nil {
		return load(r.addr)
	}
	return r.v
}

// cell returns storage for r (a fresh copy if r is not addressable).
func (r *RVal) cell() *value {
	if r.addr != nil {
		return r.addr
	}
	p := new(value)
	*p = copyVal(r.v)
	return p
}

func kindOf(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.Bool
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128:
			return reflect.Complex128
		case types.String:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Array:
		return reflect.Array
	case *types.Chan:
		return reflect.Chan
	case *types.Signature:
		return reflect.Func
	case *types.Interface:
		return reflect.Interface
	case *types.Map:
		return reflect.Map
	case *types.Pointer:
		return reflect.Pointer
	case *types.Slice:
		return reflect.Slice
	case *types.Struct:
		return reflect.Struct
	}
	return reflect.Invalid
}

func rtypeString(t types.Type) string {
	s := types.TypeString(t, func(p *types.Package) string { return p.Name() })
	s = strings.ReplaceAll(s, "interface{", "interface {")
	s = strings.ReplaceAll(s, "struct{", "struct {")
	s = strings.ReplaceAll(s, "interface {}", "interface {}")
	if s == "any" {
		s = "interface {}"
	}
	return strings.ReplaceAll(s, "any", "interface {}")
}

func (st *State) rtIface(t types.Type) iface {
	return iface{st.eng.tRType, RType{types.Unalias(t)}}
}

func rtArg(v value) types.Type {
	switch v := v.(type) {
	case RType:
		return v.t
	case iface:
		if v.t == nil {
			return nil
		}
		return v.v.(RType).t
	}
	panic(unsupported{fmt.Sprintf("reflect type arg %T", v)})
}

func (st *State) reflPanic(format string, args ...interface{}) {
	st.panicIface(iface{types.Typ[types.String], mkStr(fmt.Sprintf(format, args...))})
}

func (st *State) rv(v value) *RVal {
	r, ok := v.(*RVal)
	if !ok {
		panic(unsupported{fmt.Sprintf("reflect.Value repr %T", v)})
	}
	return r
}

func (st *State) rvNZ(v value, m string) *RVal {
	r := st.rv(v)
	if r == nil {
		st.reflPanic("reflect: call of reflect.Value.%s on zero Value", m)
	}
	return r
}

func boxIface(r *RVal) iface {
	if types.IsInterface(r.t) {
		return r.get().(iface)
	}
	return iface{r.t, r.get()}
}

func unboxIface(v iface) *RVal {
	if v.t == nil {
		return nil
	}
	return &RVal{t: v.t, v: v.v}
}

func exportedName(n string) bool { return n != "" && strings.ToUpper(n[:1]) == n[:1] && n[0] != '_' }

func exportedMethods(st *State, t types.Type) []*types.Selection {
	ms := st.eng.prog.MethodSets.MethodSet(t)
	var out []*types.Selection
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Exported() {
			out = append(out, ms.At(i))
		}
	}
	return out
}

func sigNoRecv(s *types.Signature) *types.Signature {
	return types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic())
}

func (st *State) methodByName(r *RVal, name string) *RVal {
	t := r.t
	if types.IsInterface(t) {
		it := t.Underlying().(*types.Interface)
		for i := 0; i < it.NumMethods(); i++ {
			if m := it.Method(i); m.Name() == name && m.Exported() {
				in := r.get().(iface)
				if in.t == nil {
					st.reflPanic("reflect: Method on nil interface value")
				}
				return st.methodByName(&RVal{t: in.t, v: in.v}, name)
			}
		}
		return nil
	}
	find := func(t types.Type, recv value) *RVal {
		for _, s := range exportedMethods(st, t) {
			if s.Obj().Name() == name {
				fn := st.eng.prog.MethodValue(s)
				return &RVal{t: sigNoRecv(s.Type().(*types.Signature)), v: &closure{hook: func(st *State, args []value) value {
					return st.callFn(fn, append([]value{recv}, args...), nil)
				}}}
			}
		}
		return nil
	}
	return find(t, r.get())
}

func (st *State) fieldPath(t types.Type, name string) (idx []int, ok bool) {
	obj, index, _ := types.LookupFieldOrMethod(t, false, nil, name)
	if v, isv := obj.(*types.Var); isv && v.IsField() {
		return index, true
	}
	// unexported: search direct fields
	if s, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == name {
				return []int{i}, true
			}
		}
	}
	return nil, false
}

func (st *State) field(r *RVal, i int) *RVal {
	s, ok := r.t.Underlying().(*types.Struct)
	if !ok {
		st.reflPanic("reflect: call of reflect.Value.Field on %s Value", kindOf(r.t))
	}
	if i < 0 || i >= s.NumFields() {
		st.reflPanic("reflect: Field index out of range")
	}
	f := s.Field(i)
	ro := r.ro || !f.Exported()
	if r.addr != nil {
		return &RVal{t: f.Type(), addr: &(*r.addr).(structure)[i], set: r.set, ro: ro}
	}
	return &RVal{t: f.Type(), v: r.v.(structure)[i], ro: ro}
}

func (st *State) structField(t types.Type, idx []int) value {
	s := t.Underlying().(*types.Struct)
	var f *types.Var
	var tag string
	cur := s
	for n, i := range idx {
		f = cur.Field(i)
		tag = cur.Tag(i)
		if n < len(idx)-1 {
			ft := f.Type()
			if p, ok := ft.Underlying().(*types.Pointer); ok {
				ft = p.Elem()
			}
			cur = ft.Underlying().(*types.Struct)
		}
	}
	pkgPath := emptyStr
	if !f.Exported() && f.Pkg() != nil {
		pkgPath = mkStr(f.Pkg().Path())
	}
	ix := make(slice, len(idx))
	for i, x := range idx {
		ix[i] = K(64, uint64(x))
	}
	// Name, PkgPath, Type, Tag, Offset, Index, Anonymous
	return structure{mkStr(f.Name()), pkgPath, st.rtIface(f.Type()), mkStr(tag), K(64, 0), ix, KB(f.Embedded())}
}

func (st *State) rConvert(r *RVal, to types.Type) *RVal {
	if types.IsInterface(to) {
		return &RVal{t: to, v: boxIface(r), ro: r.ro}
	}
	return &RVal{t: to, v: st.convert(r.t, to, r.get()), ro: r.ro}
}

func (st *State) rCall(r *RVal, args slice) value {
	sig, ok := r.t.Underlying().(*types.Signature)
	if !ok {
		st.reflPanic("reflect: call of Call on %s Value", kindOf(r.t))
	}
	cl := r.get().(*closure)
	if cl == nil {
		st.reflPanic("reflect: call of nil function")
	}
	np := sig.Params().Len()
	if !sig.Variadic() && len(args) != np || sig.Variadic() && len(args) < np-1 {
		st.reflPanic("reflect: Call with wrong number of input arguments")
	}
	conv := func(v value, t types.Type) value {
		a := st.rvNZ(v, "Call")
		if a.ro {
			st.reflPanic("reflect: Call using value obtained using unexported field")
		}
		if types.IsInterface(t) {
			return boxIface(a)
		}
		if !types.AssignableTo(a.t, t) {
			st.reflPanic("reflect: Call using %s as type %s", rtypeString(a.t), rtypeString(t))
		}
		return a.get()
	}
	var in []value
	for i := 0; i < np; i++ {
		pt := sig.Params().At(i).Type()
		if sig.Variadic() && i == np-1 {
			et := pt.Underlying().(*types.Slice).Elem()
			var rest slice
			for _, a := range args[i:] {
				rest = append(rest, conv(a, et))
			}
			in = append(in, rest)
			break
		}
		in = append(in, conv(args[i], pt))
	}
	out := st.callValue(cl, in)
	nr := sig.Results().Len()
	res := make(slice, nr)
	switch nr {
	case 0:
	case 1:
		res[0] = &RVal{t: sig.Results().At(0).Type(), v: out}
	default:
		for i, x := range out.(tuple) {
			res[i] = &RVal{t: sig.Results().At(i).Type(), v: x}
		}
	}
	return res
}

func (st *State) isNilVal(r *RVal) bool {
	switch v := r.get().(type) {
	case *value:
		return v == nil
	case *Map:
		return v == nil
	case slice:
		return v == nil
	case iface:
		return v.t == nil
	case *closure:
		return v == nil
	case *Chan:
		return v == nil
	case unsafePtr:
		return v.p == nil
	}
	st.reflPanic("reflect: call of reflect.Value.IsNil on %s Value", kindOf(r.t))
	return false
}

func (st *State) isZeroVal(t types.Type, v value) *Expr {
	switch v := v.(type) {
	case *Expr:
		if v.w == 0 {
			return st.ctx.Not(v)
		}
		return st.ctx.Eq(v, K(v.w, 0))
	case *Str:
		return KB(v.len() == 0)
	case structure:
		r := eTrue
		for _, f := range v {
			r = st.ctx.And(r, st.isZeroVal(nil, f))
		}
		return r
	case array:
		r := eTrue
		for _, f := range v {
			r = st.ctx.And(r, st.isZeroVal(nil, f))
		}
		return r
	case *RVal:
		return KB(v == nil)
	}
	return KB(st.isNilVal(&RVal{t: types.Typ[types.Int], v: v}))
}

func rset(st *State, r *RVal, v value) {
	if r == nil || !r.set || r.addr == nil {
		st.reflPanic("reflect: reflect.Value.Set using unaddressable value")
	}
	if r.ro {
		st.reflPanic("reflect: reflect.Value.Set using value obtained using unexported field")
	}
	st.wrote(r.addr)
	store(r.addr, v)
}

// assignConv prepares x for assignment to type t.
func (st *State) assignTo(x *RVal, t types.Type) value {
	if types.IsInterface(t) {
		return boxIface(x)
	}
	if !types.AssignableTo(x.t, t) {
		st.reflPanic("reflect.Set: value of type %s is not assignable to type %s", rtypeString(x.t), rtypeString(t))
	}
	return x.get()
}

func toInt64(st *State, r *RVal, m string) *Expr {
	switch kindOf(r.t) {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return st.ctx.SExt(r.get().(*Expr), 64)
	}
	st.reflPanic("reflect: call of reflect.Value.%s on %s Value", m, kindOf(r.t))
	return nil
}

func toUint64(st *State, r *RVal, m string) *Expr {
	switch kindOf(r.t) {
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return st.ctx.ZExt(r.get().(*Expr), 64)
	}
	st.reflPanic("reflect: call of reflect.Value.%s on %s Value", m, kindOf(r.t))
	return nil
}

type mapRangeState struct {
	m   *RVal
	it  *mapIter
	cur *mapEntry
}

func (st *State) deepEqual(a, b value, t types.Type, depth int) *Expr {
	c := st.ctx
	if depth > 60 {
		panic(boundHit{"DeepEqual depth"})
	}
	switch x := a.(type) {
	case *Expr, *Str, RType:
		return st.eqT(a, b, t)
	case iface:
		y := b.(iface)
		if x.t == nil || y.t == nil {
			return KB(x.t == nil && y.t == nil)
		}
		if !identical(x.t, y.t) {
			return eFalse
		}
		return st.deepEqual(x.v, y.v, x.t, depth+1)
	case *value:
		y := b.(*value)
		if x == y {
			return eTrue
		}
		if x == nil || y == nil {
			return eFalse
		}
		return st.deepEqual(*x, *y, t.Underlying().(*types.Pointer).Elem(), depth+1)
	case structure:
		y := b.(structure)
		s := t.Underlying().(*types.Struct)
		r := eTrue
		for i := range x {
			r = c.And(r, st.deepEqual(x[i], y[i], s.Field(i).Type(), depth+1))
		}
		return r
	case array:
		y := b.(array)
		et := t.Underlying().(*types.Array).Elem()
		r := eTrue
		for i := range x {
			r = c.And(r, st.deepEqual(x[i], y[i], et, depth+1))
		}
		return r
	case slice:
		y := b.(slice)
		if (x == nil) != (y == nil) || len(x) != len(y) {
			return eFalse
		}
		et := t.Underlying().(*types.Slice).Elem()
		r := eTrue
		for i := range x {
			r = c.And(r, st.deepEqual(x[i], y[i], et, depth+1))
		}
		return r
	case *Map:
		y := b.(*Map)
		if (x == nil) != (y == nil) {
			return eFalse
		}
		if x == y {
			return eTrue
		}
		if x.n != y.n {
			return eFalse
		}
		mt := t.Underlying().(*types.Map)
		r := eTrue
		for _, e := range x.entries {
			if e.dead {
				continue
			}
			f := st.mapFind(y, e.k)
			if f == nil {
				return eFalse
			}
			r = c.And(r, st.deepEqual(e.v, f.v, mt.Elem(), depth+1))
		}
		return r
	case *closure:
		y := b.(*closure)
		return KB(x == nil && y == nil)
	case *RVal:
		return KB(x == b.(*RVal))
	case nil:
		return KB(b == nil)
	}
	panic(unsupported{fmt.Sprintf("DeepEqual on %T", a)})
}

var reflectIntr map[string]intrinsic

func init() {
	reflectIntr = map[string]intrinsic{}
	R := func(name string, f func(st *State, args []value) value) {
		w := func(st *State, _ *frame, _ *ssa.Function, args []value) value { return f(st, args) }
		reflectIntr["reflect."+name] = w
		reflectIntr["internal/reflectlite."+name] = w
	}
	V := func(name string, f func(st *State, r *RVal, args []value) value) {
		w := func(st *State, _ *frame, _ *ssa.Function, args []value) value {
			return f(st, st.rvNZ(args[0], name), args[1:])
		}
		reflectIntr["(reflect.Value)."+name] = w
		reflectIntr["(internal/reflectlite.Value)."+name] = w
	}
	T := func(name string, f func(st *State, t types.Type, args []value) value) {
		w := func(st *State, _ *frame, _ *ssa.Function, args []value) value {
			return f(st, rtArg(args[0]), args[1:])
		}
		reflectIntr["(*reflect.rtype)."+name] = w
		if name == "Kind" { // an 8-bit type there
			reflectIntr["(internal/reflectlite.rtype).Kind"] = func(st *State, _ *frame, _ *ssa.Function, args []value) value {
				return st.ctx.Trunc(w(st, nil, nil, args).(*Expr), 8)
			}
			return
		}
		reflectIntr["(internal/reflectlite.rtype)."+name] = w
	}
	str := func(s string) value { return mkStr(s) }
	num := func(n int) value { return K(64, uint64(n)) }
	ci := func(st *State, v value) int { return st.concInt(v.(*Expr)) }
	cs := func(v value) string {
		s := v.(*Str)
		if !s.conc() {
			panic(unsupported{"symbolic name in reflect"})
		}
		return s.s
	}

	R("TypeOf", func(st *State, a []value) value {
		i := a[0].(iface)
		if i.t == nil {
			return iface{}
		}
		return st.rtIface(i.t)
	})
	reflectIntr["reflect.TypeFor"] = func(st *State, _ *frame, fn *ssa.Function, a []value) value {
		return st.rtIface(fn.TypeArgs()[0])
	}
	reflectIntr["reflect.TypeAssert"] = func(st *State, _ *frame, fn *ssa.Function, a []value) value {
		t := fn.TypeArgs()[0]
		r := st.rvNZ(a[0], "TypeAssert")
		if r.ro {
			st.reflPanic("reflect.TypeAssert: cannot return value obtained from unexported field or method")
		}
		i := boxIface(r)
		if i.t != nil {
			if it, ok := t.Underlying().(*types.Interface); ok {
				if st.implements(i.t, it) {
					return tuple{i, eTrue}
				}
			} else if identical(i.t, t) {
				return tuple{copyVal(i.v), eTrue}
			}
		}
		return tuple{zero(t), eFalse}
	}
	R("ValueOf", func(st *State, a []value) value { return unboxIface(a[0].(iface)) })
	R("New", func(st *State, a []value) value {
		t := rtArg(a[0])
		p := new(value)
		*p = zero(t)
		return &RVal{t: ptrTo(t), v: p}
	})
	R("Zero", func(st *State, a []value) value { t := rtArg(a[0]); return &RVal{t: t, v: zero(t)} })
	R("MakeMap", func(st *State, a []value) value {
		t := rtArg(a[0])
		return &RVal{t: t, v: &Map{kt: t.Underlying().(*types.Map).Key()}}
	})
	R("MakeMapWithSize", func(st *State, a []value) value {
		t := rtArg(a[0])
		return &RVal{t: t, v: &Map{kt: t.Underlying().(*types.Map).Key()}}
	})
	R("MakeSlice", func(st *State, a []value) value {
		t := rtArg(a[0])
		return &RVal{t: t, v: makeSlice(t.Underlying().(*types.Slice).Elem(), ci(st, a[1]), ci(st, a[2]))}
	})
	R("PointerTo", func(st *State, a []value) value { return st.rtIface(ptrTo(rtArg(a[0]))) })
	R("PtrTo", func(st *State, a []value) value { return st.rtIface(ptrTo(rtArg(a[0]))) })
	R("SliceOf", func(st *State, a []value) value { return st.rtIface(types.NewSlice(rtArg(a[0]))) })
	R("MapOf", func(st *State, a []value) value { return st.rtIface(types.NewMap(rtArg(a[0]), rtArg(a[1]))) })
	R("Indirect", func(st *State, a []value) value {
		r := st.rv(a[0])
		if r != nil && kindOf(r.t) == reflect.Pointer {
			p := r.get().(*value)
			if p == nil {
				return (*RVal)(nil)
			}
			return &RVal{t: r.t.Underlying().(*types.Pointer).Elem(), addr: p, set: true, ro: r.ro}
		}
		return r
	})
	R("DeepEqual", func(st *State, a []value) value {
		return st.deepEqual(a[0].(iface), a[1].(iface), nil, 0)
	})
	R("Append", func(st *State, a []value) value {
		r := st.rvNZ(a[0], "Append")
		et := r.t.Underlying().(*types.Slice).Elem()
		var src []value
		for _, x := range a[1].(slice) {
			src = append(src, st.assignTo(st.rvNZ(x, "Append"), et))
		}
		return &RVal{t: r.t, v: st.appendSlice(r.get().(slice), src, et)}
	})
	R("AppendSlice", func(st *State, a []value) value {
		r, s := st.rvNZ(a[0], "AppendSlice"), st.rvNZ(a[1], "AppendSlice")
		et := r.t.Underlying().(*types.Slice).Elem()
		return &RVal{t: r.t, v: st.appendSlice(r.get().(slice), s.get().(slice), et)}
	})
	R("Copy", func(st *State, a []value) value {
		d, s := st.rvNZ(a[0], "Copy").get().(slice), st.rvNZ(a[1], "Copy").get().(slice)
		n := min(len(d), len(s))
		st.wroteAll(d[:n])
		for i := 0; i < n; i++ {
			store(&d[i], copyVal(s[i]))
		}
		return num(n)
	})
	R("Swapper", func(st *State, a []value) value {
		s := a[0].(iface).v.(slice)
		return &closure{hook: func(st *State, args []value) value {
			i, j := ci(st, args[0]), ci(st, args[1])
			if i < 0 || j < 0 || i >= len(s) || j >= len(s) {
				st.reflPanic("reflect: slice index out of range")
			}
			st.wrote(&s[i])
			st.wrote(&s[j])
			x, y := copyVal(s[i]), copyVal(s[j])
			store(&s[i], y)
			store(&s[j], x)
			return nil
		}}
	})

	// ---- Value methods
	reflectIntr["(reflect.Value).IsValid"] = func(st *State, _ *frame, _ *ssa.Function, a []value) value {
		return KB(st.rv(a[0]) != nil)
	}
	reflectIntr["(internal/reflectlite.Value).IsValid"] = reflectIntr["(reflect.Value).IsValid"]
	reflectIntr["(reflect.Value).Kind"] = func(st *State, _ *frame, _ *ssa.Function, a []value) value {
		r := st.rv(a[0])
		if r == nil {
			return K(64, 0)
		}
		return K(64, uint64(kindOf(r.t)))
	}
	reflectIntr["(internal/reflectlite.Value).Kind"] = func(st *State, _ *frame, _ *ssa.Function, a []value) value {
		return st.ctx.Trunc(reflectIntr["(reflect.Value).Kind"](st, nil, nil, a).(*Expr), 8)
	}
	V("Type", func(st *State, r *RVal, a []value) value { return st.rtIface(r.t) })
	V("IsNil", func(st *State, r *RVal, a []value) value { return KB(st.isNilVal(r)) })
	V("IsZero", func(st *State, r *RVal, a []value) value { return st.isZeroVal(r.t, r.get()) })
	V("CanAddr", func(st *State, r *RVal, a []value) value { return KB(r.set) })
	V("CanSet", func(st *State, r *RVal, a []value) value { return KB(r.set && !r.ro) })
	reflectIntr["(reflect.Value).CanInterface"] = func(st *State, _ *frame, _ *ssa.Function, a []value) value {
		return KB(!st.rvNZ(a[0], "CanInterface").ro)
	}
	V("Addr", func(st *State, r *RVal, a []value) value {
		if !r.set {
			st.reflPanic("reflect.Value.Addr of unaddressable value")
		}
		return &RVal{t: ptrTo(r.t), v: r.addr, ro: r.ro}
	})
	V("Elem", func(st *State, r *RVal, a []value) value {
		switch kindOf(r.t) {
		case reflect.Interface:
			x := unboxIface(r.get().(iface))
			if x != nil {
				x.ro = r.ro
			}
			return x
		case reflect.Pointer:
			p := r.get().(*value)
			if p == nil {
				return (*RVal)(nil)
			}
			return &RVal{t: r.t.Underlying().(*types.Pointer).Elem(), addr: p, set: true, ro: r.ro}
		}
		st.reflPanic("reflect: call of reflect.Value.Elem on %s Value", kindOf(r.t))
		return nil
	})
	V("Interface", func(st *State, r *RVal, a []value) value {
		if r.ro {
			st.reflPanic("reflect.Value.Interface: cannot return value obtained from unexported field or method")
		}
		return boxIface(r)
	})
	V("Bool", func(st *State, r *RVal, a []value) value {
		if kindOf(r.t) != reflect.Bool {
			st.reflPanic("reflect: call of reflect.Value.Bool on %s Value", kindOf(r.t))
		}
		return r.get()
	})
	V("Int", func(st *State, r *RVal, a []value) value { return toInt64(st, r, "Int") })
	V("Uint", func(st *State, r *RVal, a []value) value { return toUint64(st, r, "Uint") })
	kindIn := func(ks ...reflect.Kind) func(st *State, r *RVal, a []value) value {
		return func(st *State, r *RVal, a []value) value {
			k := kindOf(r.t)
			for _, x := range ks {
				if x == k {
					return eTrue
				}
			}
			return eFalse
		}
	}
	V("CanInt", kindIn(reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64))
	V("CanUint", kindIn(reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr))
	V("CanFloat", kindIn(reflect.Float32, reflect.Float64))
	V("Float", func(st *State, r *RVal, a []value) value {
		e, ok := r.get().(*Expr)
		if !ok || kindOf(r.t) != reflect.Float32 && kindOf(r.t) != reflect.Float64 {
			st.reflPanic("reflect: call of reflect.Value.Float on %s Value", kindOf(r.t))
		}
		if e.w == 64 {
			return e
		}
		return st.ctx.FP(OFToF, 64, e)
	})
	reflectIntr["(reflect.Value).String"] = func(st *State, _ *frame, _ *ssa.Function, a []value) value {
		r := st.rv(a[0])
		if r == nil {
			return mkStr("<invalid Value>")
		}
		if kindOf(r.t) == reflect.String {
			return r.get()
		}
		return mkStr("<" + rtypeString(r.t) + " Value>")
	}
	V("Bytes", func(st *State, r *RVal, a []value) value {
		switch v := r.get().(type) {
		case slice:
			return v
		case array:
			if r.addr != nil {
				return slice((*r.addr).(array))
			}
		}
		st.reflPanic("reflect.Value.Bytes of non-byte slice")
		return nil
	})
	V("Len", func(st *State, r *RVal, a []value) value {
		switch v := r.get().(type) {
		case slice:
			return num(len(v))
		case array:
			return num(len(v))
		case *Str:
			return num(v.len())
		case *Map:
			if v == nil {
				return num(0)
			}
			return num(v.n)
		case *Chan:
			return num(len(v.buf))
		}
		st.reflPanic("reflect: call of reflect.Value.Len on %s Value", kindOf(r.t))
		return nil
	})
	V("Cap", func(st *State, r *RVal, a []value) value {
		switch v := r.get().(type) {
		case slice:
			return num(cap(v))
		case array:
			return num(len(v))
		}
		st.reflPanic("reflect: call of reflect.Value.Cap on %s Value", kindOf(r.t))
		return nil
	})
	V("Index", func(st *State, r *RVal, a []value) value {
		chk := func(n int) int {
			i := st.concInt(a[0].(*Expr))
			if i < 0 || i >= n {
				st.reflPanic("reflect: slice index out of range")
			}
			return i
		}
		switch kindOf(r.t) {
		case reflect.Slice:
			s := r.get().(slice)
			i := chk(len(s))
			return &RVal{t: r.t.Underlying().(*types.Slice).Elem(), addr: &s[i], set: true, ro: r.ro}
		case reflect.Array:
			et := r.t.Underlying().(*types.Array).Elem()
			if r.addr != nil {
				s := (*r.addr).(array)
				return &RVal{t: et, addr: &s[chk(len(s))], set: r.set, ro: r.ro}
			}
			s := r.v.(array)
			return &RVal{t: et, v: s[chk(len(s))], ro: r.ro}
		case reflect.String:
			s := r.get().(*Str)
			return &RVal{t: types.Typ[types.Uint8], v: s.at(chk(s.len())), ro: r.ro}
		}
		st.reflPanic("reflect: call of reflect.Value.Index on %s Value", kindOf(r.t))
		return nil
	})
	V("NumField", func(st *State, r *RVal, a []value) value {
		s, ok := r.t.Underlying().(*types.Struct)
		if !ok {
			st.reflPanic("reflect: call of reflect.Value.NumField on %s Value", kindOf(r.t))
		}
		return num(s.NumFields())
	})
	V("Field", func(st *State, r *RVal, a []value) value { return st.field(r, ci(st, a[0])) })
	fieldByIdx := func(st *State, r *RVal, idx []int) *RVal {
		for n, i := range idx {
			if n > 0 && kindOf(r.t) == reflect.Pointer {
				p := r.get().(*value)
				if p == nil {
					st.reflPanic("reflect: indirection through nil pointer to embedded struct")
				}
				r = &RVal{t: r.t.Underlying().(*types.Pointer).Elem(), addr: p, set: true, ro: r.ro}
			}
			r = st.field(r, i)
		}
		return r
	}
	V("FieldByIndex", func(st *State, r *RVal, a []value) value {
		var idx []int
		for _, x := range a[0].(slice) {
			idx = append(idx, ci(st, x))
		}
		return fieldByIdx(st, r, idx)
	})
	V("FieldByIndexErr", func(st *State, r *RVal, a []value) value {
		var idx []int
		for _, x := range a[0].(slice) {
			idx = append(idx, ci(st, x))
		}
		return tuple{fieldByIdx(st, r, idx), iface{}} // a nil embedded pointer panics
	})
	V("FieldByName", func(st *State, r *RVal, a []value) value {
		if kindOf(r.t) != reflect.Struct {
			st.reflPanic("reflect: call of reflect.Value.FieldByName on %s Value", kindOf(r.t))
		}
		idx, ok := st.fieldPath(r.t, cs(a[0]))
		if !ok {
			return (*RVal)(nil)
		}
		return fieldByIdx(st, r, idx)
	})
	V("NumMethod", func(st *State, r *RVal, a []value) value {
		if types.IsInterface(r.t) {
			return num(r.t.Underlying().(*types.Interface).NumMethods())
		}
		return num(len(exportedMethods(st, r.t)))
	})
	V("MethodByName", func(st *State, r *RVal, a []value) value { return st.methodByName(r, cs(a[0])) })
	V("Method", func(st *State, r *RVal, a []value) value {
		ms := exportedMethods(st, r.t)
		i := ci(st, a[0])
		if i < 0 || i >= len(ms) {
			st.reflPanic("reflect: Method index out of range")
		}
		return st.methodByName(r, ms[i].Obj().Name())
	})
	V("Call", func(st *State, r *RVal, a []value) value { return st.rCall(r, a[0].(slice)) })
	V("CanConvert", func(st *State, r *RVal, a []value) value {
		return KB(types.ConvertibleTo(r.t, rtArg(a[0])))
	})
	V("Convert", func(st *State, r *RVal, a []value) value {
		to := rtArg(a[0])
		if !types.ConvertibleTo(r.t, to) {
			st.reflPanic("reflect.Value.Convert: value of type %s cannot be converted to type %s", rtypeString(r.t), rtypeString(to))
		}
		return st.rConvert(r, to)
	})
	V("Comparable", func(st *State, r *RVal, a []value) value { return KB(types.Comparable(r.t)) })
	reflectIntr["(reflect.Value).Equal"] = func(st *State, _ *frame, _ *ssa.Function, args []value) value {
		unw := func(v value) *RVal {
			r := st.rv(v)
			if r != nil && types.IsInterface(r.t) {
				i := r.get().(iface)
				if i.t == nil {
					return nil
				}
				return &RVal{t: i.t, v: i.v}
			}
			return r
		}
		r, o := unw(args[0]), unw(args[1])
		if r == nil || o == nil {
			return KB(r == nil && o == nil)
		}
		return st.eqT(boxIface(r), boxIface(o), nil)
	}
	V("UnsafePointer", func(st *State, r *RVal, a []value) value {
		switch v := r.get().(type) {
		case *value:
			if v == nil {
				return unsafePtr{}
			}
			return unsafePtr{v}
		case *Map:
			return unsafePtr{v}
		}
		panic(unsupported{"Value.UnsafePointer"})
	})
	V("Slice", func(st *State, r *RVal, a []value) value {
		lo, hi := ci(st, a[0]), ci(st, a[1])
		switch v := r.get().(type) {
		case slice:
			if lo < 0 || hi < lo || hi > cap(v) {
				st.reflPanic("reflect.Value.Slice: slice index out of bounds")
			}
			return &RVal{t: r.t, v: v[lo:hi], ro: r.ro}
		case *Str:
			if lo < 0 || hi < lo || hi > v.len() {
				st.reflPanic("reflect.Value.Slice: string slice index out of bounds")
			}
			return &RVal{t: r.t, v: v.slice(lo, hi), ro: r.ro}
		}
		panic(unsupported{"Value.Slice"})
	})
	// setters
	V("Set", func(st *State, r *RVal, a []value) value {
		rset(st, r, st.assignTo(st.rvNZ(a[0], "Set"), r.t))
		return nil
	})
	V("SetZero", func(st *State, r *RVal, a []value) value { rset(st, r, zero(r.t)); return nil })
	V("SetBool", func(st *State, r *RVal, a []value) value { rset(st, r, a[0]); return nil })
	V("SetString", func(st *State, r *RVal, a []value) value { rset(st, r, a[0]); return nil })
	V("SetBytes", func(st *State, r *RVal, a []value) value { rset(st, r, a[0]); return nil })
	setNum := func(st *State, r *RVal, a []value) value {
		w, _, _ := basicWidth(r.t.Underlying().(*types.Basic))
		rset(st, r, st.ctx.Trunc(a[0].(*Expr), w))
		return nil
	}
	V("SetInt", setNum)
	V("SetUint", setNum)
	V("SetFloat", func(st *State, r *RVal, a []value) value {
		e := a[0].(*Expr)
		if kindOf(r.t) == reflect.Float32 {
			e = st.ctx.FP(OFToF, 32, e)
		}
		rset(st, r, e)
		return nil
	})
	V("SetLen", func(st *State, r *RVal, a []value) value {
		s := r.get().(slice)
		n := ci(st, a[0])
		if n < 0 || n > cap(s) {
			st.reflPanic("reflect: slice length out of range in SetLen")
		}
		rset(st, r, s[:n])
		return nil
	})
	V("Grow", func(st *State, r *RVal, a []value) value {
		s := r.get().(slice)
		n := ci(st, a[0])
		if len(s)+n > cap(s) {
			et := r.t.Underlying().(*types.Slice).Elem()
			nc := growCap(cap(s), len(s)+n, et)
			ns := makeSlice(et, len(s), nc)
			for i := range s {
				ns[i] = copyVal(s[i])
			}
			rset(st, r, ns)
		}
		return nil
	})
	// reflect's overflow checks
	V("OverflowInt", func(st *State, r *RVal, a []value) value {
		w, _, _ := basicWidth(r.t.Underlying().(*types.Basic))
		x := a[0].(*Expr)
		return st.ctx.Not(st.ctx.Eq(st.ctx.SExt(st.ctx.Trunc(x, w), 64), x))
	})
	V("OverflowUint", func(st *State, r *RVal, a []value) value {
		w, _, _ := basicWidth(r.t.Underlying().(*types.Basic))
		x := a[0].(*Expr)
		return st.ctx.Not(st.ctx.Eq(st.ctx.ZExt(st.ctx.Trunc(x, w), 64), x))
	})
	V("OverflowFloat", func(st *State, r *RVal, a []value) value {
		if kindOf(r.t) == reflect.Float64 {
			return eFalse
		}
		x := a[0].(*Expr)
		if x.isConst() {
			f := f64of(64, x.val)
			return KB(reflect.ValueOf(float32(0)).OverflowFloat(f))
		}
		panic(unsupported{"OverflowFloat on symbolic float"})
	})
	// maps
	V("SetMapIndex", func(st *State, r *RVal, a []value) value {
		mt := r.t.Underlying().(*types.Map)
		m := r.get().(*Map)
		k := st.assignTo(st.rvNZ(a[0], "SetMapIndex"), mt.Key())
		e := st.rv(a[1])
		if e == nil {
			if m != nil {
				st.mapDelete(m, k)
			}
			return nil
		}
		if m == nil {
			st.panicIface(iface{st.eng.tErrorString, mkStr("assignment to entry in nil map")})
		}
		st.mapSet(m, k, st.assignTo(e, mt.Elem()))
		return nil
	})
	V("MapIndex", func(st *State, r *RVal, a []value) value {
		mt := r.t.Underlying().(*types.Map)
		e := st.mapFind(r.get().(*Map), st.assignTo(st.rvNZ(a[0], "MapIndex"), mt.Key()))
		if e == nil {
			return (*RVal)(nil)
		}
		return &RVal{t: mt.Elem(), v: copyVal(e.v), ro: r.ro}
	})
	V("MapKeys", func(st *State, r *RVal, a []value) value {
		mt := r.t.Underlying().(*types.Map)
		m := r.get().(*Map)
		out := slice{}
		if m != nil {
			for _, e := range m.entries {
				if !e.dead {
					out = append(out, &RVal{t: mt.Key(), v: copyVal(e.k), ro: r.ro})
				}
			}
		}
		return out
	})
	V("MapRange", func(st *State, r *RVal, a []value) value {
		if kindOf(r.t) != reflect.Map {
			st.reflPanic("reflect.Value.MapRange: not a map")
		}
		p := new(value)
		*p = &mapRangeState{m: r}
		return p
	})
	MI := func(name string, f func(st *State, s *mapRangeState, args []value) value) {
		reflectIntr["(*reflect.MapIter)."+name] = func(st *State, _ *frame, _ *ssa.Function, args []value) value {
			s, ok := (*st.deref(args[0])).(*mapRangeState)
			if !ok {
				panic(unsupported{"MapIter zero value"})
			}
			return f(st, s, args[1:])
		}
	}
	MI("Next", func(st *State, s *mapRangeState, a []value) value {
		if s.it == nil {
			m := s.m.get().(*Map)
			s.it = &mapIter{m: m}
			if m != nil {
				for _, e := range m.entries {
					if !e.dead {
						s.it.pending = append(s.it.pending, e)
					}
				}
			}
		}
		for len(s.it.pending) > 0 {
			e := s.it.pending[0]
			s.it.pending = s.it.pending[1:]
			if !e.dead {
				s.cur = e
				return eTrue
			}
		}
		s.cur = nil
		return eFalse
	})
	MI("Key", func(st *State, s *mapRangeState, a []value) value {
		return &RVal{t: s.m.t.Underlying().(*types.Map).Key(), v: copyVal(s.cur.k), ro: s.m.ro}
	})
	MI("Value", func(st *State, s *mapRangeState, a []value) value {
		return &RVal{t: s.m.t.Underlying().(*types.Map).Elem(), v: copyVal(s.cur.v), ro: s.m.ro}
	})

	// ---- Type methods
	T("String", func(st *State, t types.Type, a []value) value { return str(rtypeString(t)) })
	T("Kind", func(st *State, t types.Type, a []value) value { return K(64, uint64(kindOf(t))) })
	T("Name", func(st *State, t types.Type, a []value) value {
		switch t := t.(type) {
		case *types.Named:
			return str(t.Obj().Name())
		case *types.Basic:
			return str(t.Name())
		}
		return str("")
	})
	T("PkgPath", func(st *State, t types.Type, a []value) value {
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
			return str(n.Obj().Pkg().Path())
		}
		return str("")
	})
	T("Elem", func(st *State, t types.Type, a []value) value {
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			return st.rtIface(u.Elem())
		case *types.Slice:
			return st.rtIface(u.Elem())
		case *types.Array:
			return st.rtIface(u.Elem())
		case *types.Map:
			return st.rtIface(u.Elem())
		case *types.Chan:
			return st.rtIface(u.Elem())
		}
		st.reflPanic("reflect: Elem of invalid type %s", rtypeString(t))
		return nil
	})
	T("Key", func(st *State, t types.Type, a []value) value {
		u, ok := t.Underlying().(*types.Map)
		if !ok {
			st.reflPanic("reflect: Key of non-map type %s", rtypeString(t))
		}
		return st.rtIface(u.Key())
	})
	T("Len", func(st *State, t types.Type, a []value) value {
		return num(int(t.Underlying().(*types.Array).Len()))
	})
	T("Size", func(st *State, t types.Type, a []value) value { return num(int(stdSizes.Sizeof(t))) })
	T("Bits", func(st *State, t types.Type, a []value) value {
		w, _, _ := basicWidth(t.Underlying().(*types.Basic))
		return num(int(w))
	})
	T("NumField", func(st *State, t types.Type, a []value) value {
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			st.reflPanic("reflect: NumField of non-struct type %s", rtypeString(t))
		}
		return num(s.NumFields())
	})
	T("Field", func(st *State, t types.Type, a []value) value {
		return st.structField(t, []int{ci(st, a[0])})
	})
	T("FieldByName", func(st *State, t types.Type, a []value) value {
		idx, ok := st.fieldPath(t, cs(a[0]))
		if !ok {
			return tuple{structure{emptyStr, emptyStr, iface{}, emptyStr, K(64, 0), slice(nil), eFalse}, eFalse}
		}
		return tuple{st.structField(t, idx), eTrue}
	})
	sig := func(st *State, t types.Type) *types.Signature {
		s, ok := t.Underlying().(*types.Signature)
		if !ok {
			st.reflPanic("reflect: NumIn/NumOut of non-func type %s", rtypeString(t))
		}
		return s
	}
	T("NumIn", func(st *State, t types.Type, a []value) value { return num(sig(st, t).Params().Len()) })
	T("NumOut", func(st *State, t types.Type, a []value) value { return num(sig(st, t).Results().Len()) })
	T("IsVariadic", func(st *State, t types.Type, a []value) value { return KB(sig(st, t).Variadic()) })
	T("In", func(st *State, t types.Type, a []value) value {
		return st.rtIface(sig(st, t).Params().At(ci(st, a[0])).Type())
	})
	T("Out", func(st *State, t types.Type, a []value) value {
		return st.rtIface(sig(st, t).Results().At(ci(st, a[0])).Type())
	})
	T("Implements", func(st *State, t types.Type, a []value) value {
		u := rtArg(a[0])
		it, ok := u.Underlying().(*types.Interface)
		if !ok {
			st.reflPanic("reflect: non-interface type passed to Type.Implements")
		}
		return KB(st.implements(t, it))
	})
	T("AssignableTo", func(st *State, t types.Type, a []value) value { return KB(types.AssignableTo(t, rtArg(a[0]))) })
	T("ConvertibleTo", func(st *State, t types.Type, a []value) value { return KB(types.ConvertibleTo(t, rtArg(a[0]))) })
	T("Comparable", func(st *State, t types.Type, a []value) value { return KB(types.Comparable(t)) })
	T("NumMethod", func(st *State, t types.Type, a []value) value {
		if types.IsInterface(t) {
			return num(t.Underlying().(*types.Interface).NumMethods())
		}
		return num(len(exportedMethods(st, t)))
	})
	T("MethodByName", func(st *State, t types.Type, a []value) value {
		name := cs(a[0])
		for i, s := range exportedMethods(st, t) {
			if s.Obj().Name() == name {
				fn := st.eng.prog.MethodValue(s)
				return tuple{structure{mkStr(name), emptyStr, st.rtIface(fn.Signature), &RVal{t: fn.Signature, v: &closure{fn: fn}}, num(i)}, eTrue}
			}
		}
		return tuple{structure{emptyStr, emptyStr, iface{}, (*RVal)(nil), num(0)}, eFalse}
	})
	T("common", func(st *State, t types.Type, a []value) value { panic(unsupported{"rtype.common"}) })
}
