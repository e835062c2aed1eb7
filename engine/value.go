package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// value is the representation of a Go value in the symbolic interpreter:
//
//	*Expr       bool, integer, float (bit pattern)
//	*Str        string
//	*value      pointer
//	structure, array   aggregates
//	slice       slices (share the backing []value)
//	*Map        maps
//	iface       interfaces
//	*closure    functions
//	tuple       multiple results
//	RType       *reflect.rtype
//	*RVal       reflect.Value
type value interface{}

type structure []value
type array []value
type tuple []value

// slice is a Go slice of cells; len/cap semantics are those of the host slice.
type slice []value

type iface struct {
	t types.Type
	v value
}

type closure struct {
	fn   *ssa.Function
	env  []value
	bi   *ssa.Builtin
	hook func(st *State, args []value) value
}

type Str struct {
	s string  // valid when b == nil
	b []*Expr // symbolic bytes
}

type RType struct{ t types.Type }

type unsafePtr struct{ p value }

var emptyStr = &Str{}

func mkStr(s string) *Str {
	if s == "" {
		return emptyStr
	}
	return &Str{s: s}
}

func mkStrB(b []*Expr) *Str {
	for _, e := range b {
		if e.op != OConst {
			return &Str{b: b}
		}
	}
	buf := make([]byte, len(b))
	for i, e := range b {
		buf[i] = byte(e.val)
	}
	return mkStr(string(buf))
}

func (s *Str) len() int {
	if s.b != nil {
		return len(s.b)
	}
	return len(s.s)
}

func (s *Str) at(i int) *Expr {
	if s.b != nil {
		return s.b[i]
	}
	return constByte[s.s[i]]
}

func (s *Str) conc() bool { return s.b == nil }

func (s *Str) bytes() []*Expr {
	if s.b != nil {
		return s.b
	}
	r := make([]*Expr, len(s.s))
	for i := range r {
		r[i] = constByte[s.s[i]]
	}
	return r
}

func (s *Str) slice(lo, hi int) *Str {
	if s.b == nil {
		return mkStr(s.s[lo:hi])
	}
	return mkStrB(s.b[lo:hi:hi])
}

func strConcat(a, b *Str) *Str {
	if a.len() == 0 {
		return b
	}
	if b.len() == 0 {
		return a
	}
	if a.conc() && b.conc() {
		return mkStr(a.s + b.s)
	}
	r := make([]*Expr, 0, a.len()+b.len())
	r = append(r, a.bytes()...)
	r = append(r, b.bytes()...)
	return &Str{b: r}
}

// ---- maps

type mapEntry struct {
	k    value
	v    value
	dead bool
}

type Map struct {
	entries []*mapEntry
	idx     map[interface{}]*mapEntry // concrete-key fast path
	n       int
	symKeys bool // some key is not concrete
	kt      types.Type
}

type mapIter struct {
	m       *Map
	pending []*mapEntry
	nondet  bool
	strIt   *Str
	pos     int
	isStr   bool
}

// hkey returns a host-comparable key for a fully concrete value.
func hkey(v value) (interface{}, bool) {
	switch v := v.(type) {
	case *Expr:
		if v.isConst() {
			return [2]uint64{uint64(v.w), v.val}, true
		}
		return nil, false
	case *Str:
		if v.conc() {
			return v.s, true
		}
		return nil, false
	case *value:
		return v, true
	case iface:
		if v.t == nil {
			return "nil-iface", true
		}
		k, ok := hkey(v.v)
		if !ok {
			return nil, false
		}
		return [2]interface{}{typeKey(v.t), k}, true
	case RType:
		return "rtype:" + typeKey(v.t), true
	case structure:
		return hkeys([]value(v), "struct")
	case array:
		return hkeys([]value(v), "array")
	}
	return nil, false
}

func hkeys(vs []value, tag string) (interface{}, bool) {
	var acc interface{} = tag
	for _, f := range vs {
		k, ok := hkey(f)
		if !ok {
			return nil, false
		}
		acc = [2]interface{}{acc, k}
	}
	return acc, true
}

// ---- zero values

func basicWidth(b *types.Basic) (w uint8, signed, float bool) {
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, false, false
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, false
	case types.Int8:
		return 8, true, false
	case types.Int16:
		return 16, true, false
	case types.Int32, types.UntypedRune:
		return 32, true, false
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, false
	case types.Uint8:
		return 8, false, false
	case types.Uint16:
		return 16, false, false
	case types.Uint32:
		return 32, false, false
	case types.Float32:
		return 32, true, true
	case types.Float64, types.UntypedFloat:
		return 64, true, true
	}
	panic(unsupported{"basic type " + b.String()})
}

func isNamed(t types.Type, pkg, name string) bool {
	n, ok := t.(*types.Named)
	if !ok {
		return false
	}
	o := n.Obj()
	return o.Name() == name && o.Pkg() != nil && o.Pkg().Path() == pkg
}

func isReflectValue(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok {
		return false
	}
	o := n.Obj()
	return o.Name() == "Value" && o.Pkg() != nil && (o.Pkg().Path() == "reflect" || o.Pkg().Path() == "internal/reflectlite")
}

func zero(t types.Type) value {
	switch t := t.(type) {
	case *types.Basic:
		switch {
		case t.Info()&types.IsString != 0:
			return emptyStr
		case t.Kind() == types.UnsafePointer:
			return unsafePtr{}
		case t.Info()&types.IsComplex != 0:
			return array{K(64, 0), K(64, 0)}
		case t.Kind() == types.UntypedNil:
			panic("zero: untyped nil")
		}
		w, _, _ := basicWidth(t)
		if w == 0 {
			return eFalse
		}
		return K(w, 0)
	case *types.Pointer:
		return (*value)(nil)
	case *types.Array:
		a := make(array, t.Len())
		for i := range a {
			a[i] = zero(t.Elem())
		}
		return a
	case *types.Named:
		if isReflectValue(t) {
			return (*RVal)(nil)
		}
		return zero(t.Underlying())
	case *types.Alias:
		return zero(types.Unalias(t))
	case *types.Interface:
		return iface{}
	case *types.Slice:
		return slice(nil)
	case *types.Struct:
		s := make(structure, t.NumFields())
		for i := range s {
			s[i] = zero(t.Field(i).Type())
		}
		return s
	case *types.Tuple:
		if t.Len() == 1 {
			return zero(t.At(0).Type())
		}
		s := make(tuple, t.Len())
		for i := range s {
			s[i] = zero(t.At(i).Type())
		}
		return s
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Map:
		return (*Map)(nil)
	case *types.Signature:
		return (*closure)(nil)
	case *types.TypeParam:
		panic(unsupported{"zero of type param"})
	}
	panic(unsupported{fmt.Sprintf("zero: %v %T", t, t)})
}

type Chan struct {
	buf    []value
	cap    int
	closed bool
}

// copyVal copies aggregates so that stores do not alias.
func copyVal(v value) value {
	switch v := v.(type) {
	case structure:
		r := make(structure, len(v))
		for i, x := range v {
			r[i] = copyVal(x)
		}
		return r
	case array:
		r := make(array, len(v))
		for i, x := range v {
			r[i] = copyVal(x)
		}
		return r
	}
	return v
}

// load reads *p.
func load(p *value) value { return copyVal(*p) }

// store writes v to *p in place, keeping interior pointers valid.
func store(p *value, v value) {
	switch nv := v.(type) {
	case structure:
		if old, ok := (*p).(structure); ok && len(old) == len(nv) {
			for i := range nv {
				store(&old[i], nv[i])
			}
			return
		}
	case array:
		if old, ok := (*p).(array); ok && len(old) == len(nv) {
			for i := range nv {
				store(&old[i], nv[i])
			}
			return
		}
	}
	*p = copyVal(v)
}

var typeKeyCache = newSyncCache[types.Type, string]()

func typeKey(t types.Type) string {
	return typeKeyCache.get(t, func() string {
		return types.TypeString(t, func(p *types.Package) string { return p.Path() })
	})
}

func identical(a, b types.Type) bool { return a == b || types.Identical(a, b) }

// debugging
func dump(v value, depth int) string {
	if depth > 6 {
		return "..."
	}
	switch v := v.(type) {
	case nil:
		return "<nil>"
	case *Expr:
		if v.isConst() {
			return fmt.Sprintf("%d", sext(max(v.w, 1), v.val))
		}
		return "sym"
	case *Str:
		if v.conc() {
			return fmt.Sprintf("%q", v.s)
		}
		return fmt.Sprintf("symstr(%d)", len(v.b))
	case *value:
		if v == nil {
			return "nilptr"
		}
		return "&" + dump(*v, depth+1)
	case structure:
		var ss []string
		for _, x := range v {
			ss = append(ss, dump(x, depth+1))
		}
		return "{" + strings.Join(ss, ",") + "}"
	case slice:
		var ss []string
		for _, x := range v {
			ss = append(ss, dump(x, depth+1))
		}
		return "[" + strings.Join(ss, ",") + "]"
	case array:
		return dump(slice(v), depth)
	case tuple:
		return dump(slice(v), depth)
	case iface:
		if v.t == nil {
			return "nil-iface"
		}
		return fmt.Sprintf("(%v)%s", v.t, dump(v.v, depth+1))
	case *Map:
		if v == nil {
			return "nilmap"
		}
		var ss []string
		for _, e := range v.entries {
			ss = append(ss, dump(e.k, depth+1)+":"+dump(e.v, depth+1))
		}
		return "map[" + strings.Join(ss, ",") + "]"
	}
	return fmt.Sprintf("%T", v)
}
