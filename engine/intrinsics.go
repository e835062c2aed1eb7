package main

import (
	"fmt"
	"go/types"
	"math"
	"math/bits"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var ptrCache = newSyncCache[types.Type, types.Type]()

func ptrTo(t types.Type) types.Type {
	return ptrCache.get(t, func() types.Type { return types.NewPointer(t) })
}

var intrTab = map[string]intrinsic{}

func reg(name string, f func(st *State, args []value) value) {
	intrTab[name] = func(st *State, _ *frame, _ *ssa.Function, args []value) value { return f(st, args) }
}

func regs(names string, f func(st *State, args []value) value) {
	for _, n := range strings.Fields(names) {
		reg(n, f)
	}
}

const vsymSuffix = "/zzverif/vsym"

func lookupIntrinsic(name string, fn *ssa.Function) intrinsic {
	if in, ok := intrTab[name]; ok {
		return in
	}
	if in, ok := reflectIntr[name]; ok {
		return in
	}
	if fn.Pkg != nil {
		p := fn.Pkg.Pkg.Path()
		if strings.HasSuffix(p, vsymSuffix) && fn.Signature.Recv() == nil {
			if in, ok := vsymTab[fn.Name()]; ok {
				return in
			}
		}
		if strings.HasPrefix(fn.Name(), "file_") && strings.HasSuffix(fn.Name(), "_proto_init") {
			return func(st *State, _ *frame, _ *ssa.Function, args []value) value { return nil }
		}
		if p == "reflect" || p == "internal/reflectlite" {
			// StructTag, Kind, StructField and Method helpers are plain Go.
			rn := ""
			if r := fn.Signature.Recv(); r != nil {
				rt := r.Type()
				if pp, ok := rt.(*types.Pointer); ok {
					rt = pp.Elem()
				}
				if n, ok := rt.(*types.Named); ok {
					rn = n.Obj().Name()
				}
			}
			switch {
			case rn == "StructTag" || rn == "Kind" || rn == "StructField" || rn == "Method" || rn == "ValueError" || rn == "ChanDir":
			case fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#"):
			case fn.Name() == "VisibleFields":
			default:
				return func(st *State, _ *frame, _ *ssa.Function, args []value) value {
					panic(unsupported{"reflect: " + name})
				}
			}
		}
		if (p == "sync/atomic" || p == "internal/runtime/atomic") && fn.Signature.Recv() == nil {
			if in := atomicIntr(fn.Name()); in != nil {
				return in
			}
		}
	}
	return nil
}

func atomicIntr(name string) intrinsic {
	w := func(f func(st *State, p *value, a []value) value) intrinsic {
		return func(st *State, _ *frame, _ *ssa.Function, args []value) value {
			return f(st, st.deref(args[0]), args[1:])
		}
	}
	switch {
	case strings.HasPrefix(name, "Load"):
		return w(func(st *State, p *value, a []value) value { return load(p) })
	case strings.HasPrefix(name, "Store"):
		return w(func(st *State, p *value, a []value) value { store(p, a[0]); return nil })
	case strings.HasPrefix(name, "Add"):
		return w(func(st *State, p *value, a []value) value {
			r := st.ctx.Bin(OAdd, (*p).(*Expr), a[0].(*Expr))
			*p = r
			return r
		})
	case strings.HasPrefix(name, "Swap"):
		return w(func(st *State, p *value, a []value) value { o := load(p); store(p, a[0]); return o })
	case strings.HasPrefix(name, "CompareAndSwap"):
		return w(func(st *State, p *value, a []value) value {
			if st.branch(st.eq(*p, a[0])) {
				store(p, a[1])
				return eTrue
			}
			return eFalse
		})
	case strings.HasPrefix(name, "And"):
		return w(func(st *State, p *value, a []value) value {
			o := (*p).(*Expr)
			*p = st.ctx.Bin(OBAnd, o, a[0].(*Expr))
			return o
		})
	case strings.HasPrefix(name, "Or"):
		return w(func(st *State, p *value, a []value) value {
			o := (*p).(*Expr)
			*p = st.ctx.Bin(OBOr, o, a[0].(*Expr))
			return o
		})
	}
	return nil
}

func byteSeq(v value) (int, func(int) *Expr) {
	switch v := v.(type) {
	case *Str:
		return v.len(), v.at
	case slice:
		return len(v), func(i int) *Expr { return v[i].(*Expr) }
	}
	panic(unsupported{fmt.Sprintf("byte sequence %T", v)})
}

func subStr(n int, at func(int) *Expr, i, l int) *Str {
	b := make([]*Expr, l)
	for j := range b {
		b[j] = at(i + j)
	}
	return mkStrB(b)
}

// extMap is the model of sync.Map.
func (st *State) extMap(p *value) *Map {
	k := fmt.Sprintf("syncmap:%p", p)
	if m, ok := st.extra[k]; ok {
		return m.(*Map)
	}
	m := &Map{}
	st.extra[k] = m
	st.extra[k+"#keep"] = p
	return m
}

func init() {
	nop := func(st *State, a []value) value { return nil }
	num := func(n int) value { return K(64, uint64(n)) }

	// ---- internal/bytealg, strings, bytes
	indexByte := func(st *State, a []value) value {
		n, at := byteSeq(a[0])
		c := a[1].(*Expr)
		for i := 0; i < n; i++ {
			if st.branch(st.ctx.Eq(at(i), c)) {
				return num(i)
			}
		}
		return num(-1)
	}
	regs("internal/bytealg.IndexByte internal/bytealg.IndexByteString strings.IndexByte bytes.IndexByte internal/stringslite.IndexByte", indexByte)
	regs("internal/bytealg.Count internal/bytealg.CountString", func(st *State, a []value) value {
		n, at := byteSeq(a[0])
		c := a[1].(*Expr)
		k := 0
		for i := 0; i < n; i++ {
			if st.branch(st.ctx.Eq(at(i), c)) {
				k++
			}
		}
		return num(k)
	})
	index := func(st *State, a []value) value {
		n, at := byteSeq(a[0])
		m, bt := byteSeq(a[1])
		for i := 0; i+m <= n; i++ {
			if st.branch(st.strEq(subStr(n, at, i, m), subStr(m, bt, 0, m))) {
				return num(i)
			}
		}
		return num(-1)
	}
	regs("internal/bytealg.Index internal/bytealg.IndexString strings.Index bytes.Index internal/stringslite.Index", index)
	regs("internal/bytealg.Equal bytes.Equal", func(st *State, a []value) value {
		n, at := byteSeq(a[0])
		m, bt := byteSeq(a[1])
		return st.strEq(subStr(n, at, 0, n), subStr(m, bt, 0, m))
	})
	regs("internal/bytealg.Compare internal/bytealg.CompareString bytes.Compare strings.Compare runtime.cmpstring", func(st *State, a []value) value {
		n, at := byteSeq(a[0])
		m, bt := byteSeq(a[1])
		x, y := subStr(n, at, 0, n), subStr(m, bt, 0, m)
		if st.branch(st.strEq(x, y)) {
			return num(0)
		}
		if st.branch(st.strLess(x, y)) {
			return num(-1)
		}
		return num(1)
	})
	reg("internal/bytealg.MakeNoZero", func(st *State, a []value) value {
		n := st.concInt(a[0].(*Expr))
		if n < 0 || n > 1<<22 {
			panic(boundHit{"MakeNoZero size"})
		}
		nc := growCap(0, n, types.Typ[types.Uint8])
		if n == 0 {
			nc = 0
		}
		return makeSlice(types.Typ[types.Uint8], n, nc)
	})
	reg("(*strings.Builder).copyCheck", nop)
	reg("(*strings.Builder).String", func(st *State, a []value) value {
		buf := (*st.deref(a[0])).(structure)[1].(slice)
		b := make([]*Expr, len(buf))
		for i := range b {
			b[i] = buf[i].(*Expr)
		}
		return mkStrB(b)
	})
	ident := func(st *State, a []value) value { return a[0] }
	regs("internal/abi.NoEscape internal/abi.Escape internal/abi.Escape[T] strings.noescape strings.Clone internal/stringslite.Clone internal/bytealg.MakeNoEscape", ident)

	// ---- unicode fast paths are interpreted; runtime and friends
	regs(`runtime.GC runtime.KeepAlive runtime.SetFinalizer runtime.Gosched runtime.LockOSThread runtime.UnlockOSThread
		internal/race.Acquire internal/race.Release internal/race.Disable internal/race.Enable internal/race.ReleaseMerge
		(*internal/godebug.Setting).IncNonDefault
		(*sync.Mutex).Lock (*sync.Mutex).Unlock (*sync.RWMutex).Lock (*sync.RWMutex).Unlock (*sync.RWMutex).RLock (*sync.RWMutex).RUnlock
		(*internal/sync.Mutex).Lock (*internal/sync.Mutex).Unlock
		(*sync.WaitGroup).Add (*sync.WaitGroup).Done (*sync.WaitGroup).Wait
		(*sync.noCopy).Lock (*sync.noCopy).Unlock
		github.com/golang/protobuf/proto.RegisterFile github.com/golang/protobuf/proto.RegisterEnum
		github.com/golang/protobuf/proto.RegisterType github.com/golang/protobuf/proto.RegisterMapType
		github.com/prometheus/client_golang/prometheus.init#1 github.com/andrewkroh/go-sawmill/pkg/metrics.init#1
		internal/testlog.Getenv internal/testlog.Open internal/testlog.Stat`, nop)
	nilIface := func(st *State, a []value) value { return iface{} }
	regs(`(*github.com/prometheus/client_golang/prometheus.Registry).Register
		github.com/prometheus/client_golang/prometheus/promhttp.HandlerFor`, nilIface)
	reg("(*github.com/prometheus/client_golang/prometheus.Registry).Unregister", func(st *State, a []value) value { return eTrue })
	reg("(*net/http.ServeMux).Handle", nop)
	regs("(*sync.Mutex).TryLock (*sync.RWMutex).TryLock", func(st *State, a []value) value { return eTrue })
	reg("(*internal/godebug.Setting).Value", func(st *State, a []value) value { return emptyStr })
	reg("internal/godebug.New", func(st *State, a []value) value {
		p := new(value)
		*p = structure{}
		return p
	})
	reg("internal/godebug.(*Setting).Name", func(st *State, a []value) value { return emptyStr })
	regs("os.Getenv", func(st *State, a []value) value { return emptyStr })
	regs("os.LookupEnv", func(st *State, a []value) value { return tuple{emptyStr, eFalse} })
	reg("runtime.Callers", func(st *State, a []value) value { return num(0) })
	reg("runtime.Caller", func(st *State, a []value) value { return tuple{K(64, 0), emptyStr, K(64, 0), eFalse} })
	reg("runtime.GOMAXPROCS", func(st *State, a []value) value { return num(1) })
	reg("runtime.NumCPU", func(st *State, a []value) value { return num(1) })
	reg("runtime/debug.SetGCPercent", func(st *State, a []value) value { return num(100) })
	intrTab["(*sync.Pool).Put"] = func(st *State, _ *frame, _ *ssa.Function, a []value) value {
		if i, ok := a[1].(iface); !ok || i.t == nil {
			return nil
		}
		if n := len(st.frames); n > 0 && st.frames[n-1].fi.inModule {
			if st.pooled == nil {
				st.pooled = map[*value][]value{}
			}
			p := st.deref(a[0])
			st.pooled[p] = append(st.pooled[p], a[1])
		}
		return nil
	}
	intrTab["(*sync.Pool).Get"] = func(st *State, _ *frame, _ *ssa.Function, a []value) value {
		pool := st.deref(a[0])
		s := (*pool).(structure)
		// What the module put last comes back, as on one processor.
		if l := st.pooled[pool]; len(l) > 0 {
			st.pooled[pool] = l[:len(l)-1]
			return l[len(l)-1]
		}
		if f, ok := s[len(s)-1].(*closure); ok && f != nil {
			return st.callValue(f, nil)
		}
		return iface{}
	}
	reg("(*sync.Once).Do", func(st *State, a []value) value {
		p := st.deref(a[0])
		k := fmt.Sprintf("once:%p", p)
		if st.extra[k] != nil {
			return nil
		}
		st.extra[k] = p
		if st.share != nil {
			st.share.locks++
			defer func(s *sharing) { s.locks-- }(st.share)
		}
		st.callValue(a[1], nil)
		return nil
	})
	reg("(*sync.Once).doSlow", func(st *State, a []value) value {
		return intrTab["(*sync.Once).Do"](st, nil, nil, a)
	})

	// sync.Map
	SM := func(name string, f func(st *State, m *Map, a []value) value) {
		reg("(*sync.Map)."+name, func(st *State, a []value) value {
			return f(st, st.extMap(st.deref(a[0])), a[1:])
		})
	}
	SM("Load", func(st *State, m *Map, a []value) value {
		if e := st.mapFind(m, a[0]); e != nil {
			return tuple{e.v, eTrue}
		}
		return tuple{iface{}, eFalse}
	})
	SM("Store", func(st *State, m *Map, a []value) value { st.mapSet(m, a[0], a[1]); return nil })
	SM("LoadOrStore", func(st *State, m *Map, a []value) value {
		if e := st.mapFind(m, a[0]); e != nil {
			return tuple{e.v, eTrue}
		}
		st.mapSet(m, a[0], a[1])
		return tuple{a[1], eFalse}
	})
	SM("Delete", func(st *State, m *Map, a []value) value { st.mapDelete(m, a[0]); return nil })
	SM("LoadAndDelete", func(st *State, m *Map, a []value) value {
		if e := st.mapFind(m, a[0]); e != nil {
			v := e.v
			st.mapDelete(m, a[0])
			return tuple{v, eTrue}
		}
		return tuple{iface{}, eFalse}
	})
	SM("Swap", func(st *State, m *Map, a []value) value {
		if e := st.mapFind(m, a[0]); e != nil {
			v := e.v
			e.v = a[1]
			return tuple{v, eTrue}
		}
		st.mapSet(m, a[0], a[1])
		return tuple{iface{}, eFalse}
	})
	SM("Range", func(st *State, m *Map, a []value) value {
		for _, e := range append([]*mapEntry(nil), m.entries...) {
			if e.dead {
				continue
			}
			if !st.branch(st.callValue(a[0], []value{e.k, e.v}).(*Expr)) {
				break
			}
		}
		return nil
	})
	// atomic.Value
	reg("(*sync/atomic.Value).Load", func(st *State, a []value) value {
		return (*st.deref(a[0])).(structure)[0]
	})
	reg("(*sync/atomic.Value).Store", func(st *State, a []value) value {
		(*st.deref(a[0])).(structure)[0] = a[1]
		return nil
	})

	// ---- math
	regs("math.Float64bits math.Float64frombits math.Float32bits math.Float32frombits", ident)
	f1 := func(f func(float64) float64) func(st *State, a []value) value {
		return func(st *State, a []value) value {
			e := a[0].(*Expr)
			if !e.isConst() {
				panic(unsupported{"math function on symbolic float"})
			}
			return K(64, math.Float64bits(f(math.Float64frombits(e.val))))
		}
	}
	reg("math.Floor", f1(math.Floor))
	reg("math.Ceil", f1(math.Ceil))
	reg("math.Trunc", f1(math.Trunc))
	reg("math.Log", f1(math.Log))
	reg("math.Log2", f1(math.Log2))
	reg("math.Log10", f1(math.Log10))
	reg("math.Exp", f1(math.Exp))
	reg("math.Sqrt", func(st *State, a []value) value { return st.ctx.FP(OFSqrt, 64, a[0].(*Expr)) })
	reg("math.Abs", func(st *State, a []value) value {
		return st.ctx.Bin(OBAnd, a[0].(*Expr), K(64, 1<<63-1))
	})
	reg("math.IsNaN", func(st *State, a []value) value {
		e := a[0].(*Expr)
		return st.ctx.Not(st.ctx.FP(OFEq, 0, e, e))
	})
	reg("math.IsInf", func(st *State, a []value) value {
		c, e, s := st.ctx, a[0].(*Expr), a[1].(*Expr)
		pos := c.Eq(e, K(64, math.Float64bits(math.Inf(1))))
		neg := c.Eq(e, K(64, math.Float64bits(math.Inf(-1))))
		r := eFalse
		r = c.Or(r, c.And(c.Not(c.Slt(s, K(64, 0))), pos))
		r = c.Or(r, c.And(c.Not(c.Slt(K(64, 0), s)), neg))
		return r
	})
	reg("math/bits.Mul64", func(st *State, a []value) value {
		x, y := a[0].(*Expr), a[1].(*Expr)
		return tuple{st.ctx.Bin(OMulHiU, x, y), st.ctx.Bin(OMul, x, y)}
	})
	bitsConc := func(f func(uint64) int) func(st *State, a []value) value {
		return func(st *State, a []value) value {
			e := a[0].(*Expr)
			if e.isConst() {
				return num(f(e.val))
			}
			return st.bitLen(e, f)
		}
	}
	reg("math/bits.Len64", bitsConc(bits.Len64))
	reg("math/bits.Len32", bitsConc(func(v uint64) int { return bits.Len32(uint32(v)) }))
	reg("math/bits.Len", bitsConc(bits.Len64))
	reg("math/bits.TrailingZeros64", bitsConc(bits.TrailingZeros64))
	reg("math/bits.TrailingZeros32", bitsConc(func(v uint64) int { return bits.TrailingZeros32(uint32(v)) }))
	reg("math/bits.LeadingZeros64", bitsConc(bits.LeadingZeros64))
	reg("math/bits.LeadingZeros32", bitsConc(func(v uint64) int { return bits.LeadingZeros32(uint32(v)) }))

	// decimal formatting: the digit tables as arithmetic
	reg("internal/strconv.small", func(st *State, a []value) value {
		c, e := st.ctx, a[0].(*Expr)
		dig := func(x *Expr) *Expr { return c.Bin(OAdd, c.Trunc(x, 8), K(8, '0')) }
		if st.branch(c.Ult(e, K(64, 10))) {
			return mkStrB([]*Expr{dig(e)})
		}
		return mkStrB([]*Expr{dig(c.Bin(OUDiv, e, K(64, 10))), dig(c.Bin(OURem, e, K(64, 10)))})
	})
	reg("internal/strconv.numDigits", func(st *State, a []value) value {
		u := a[0].(*Expr)
		p := uint64(10)
		for n := 1; n < 20; n++ {
			if st.branch(st.ctx.Ult(u, K(64, p))) {
				return num(n)
			}
			p *= 10
		}
		return num(20)
	})
	reg("internal/strconv.formatBase10", func(st *State, a []value) value {
		c, b, u := st.ctx, a[0].(slice), a[1].(*Expr)
		for i := len(b) - 1; i >= 0; i-- {
			b[i] = c.Bin(OAdd, c.Trunc(c.Bin(OURem, u, K(64, 10)), 8), K(8, '0'))
			u = c.Bin(OUDiv, u, K(64, 10))
		}
		return nil
	})

	// time
	regs("time.now time.runtimeNow", func(st *State, a []value) value {
		return tuple{K(64, 1700000000), K(32, 123456789), K(64, 1)}
	})
	reg("time.runtimeNano", func(st *State, a []value) value { return K(64, 1) })
	reg("time.Sleep", nop)
	reg("reflect.rtypeOf", func(st *State, a []value) value { return (*value)(nil) })

	// %q of a symbolic string inside an error text is rendered without escapes
	// (error texts are never compared).
	intrTab["(*fmt.fmt).fmtQ"] = nil
	delete(intrTab, "(*fmt.fmt).fmtQ")
}

// bitLen forks over the value classes of a bit-scanning function.
func (st *State) bitLen(e *Expr, f func(uint64) int) value {
	c := st.ctx
	w := int(e.w)
	if f(1) == 1 && f(2) == 2 { // Len
		r := K(64, 0)
		for i := 0; i < w; i++ {
			r = c.Ite(c.Not(c.Ult(e, K(e.w, 1<<uint(i)))), K(64, uint64(i+1)), r)
		}
		return r
	}
	if f(1) == 0 && f(2) == 1 { // TrailingZeros
		r := K(64, uint64(f(0)))
		for i := w - 1; i >= 0; i-- {
			bit := c.Extract(e, uint64(i), 1)
			r = c.Ite(c.Eq(bit, K(1, 1)), K(64, uint64(i)), r)
		}
		return r
	}
	// LeadingZeros
	r := K(64, uint64(w))
	for i := 0; i < w; i++ {
		r = c.Ite(c.Not(c.Ult(e, K(e.w, 1<<uint(i)))), K(64, uint64(w-1-i)), r)
	}
	return r
}

// ---- the nondeterminism API used by harnesses

var vsymTab = map[string]intrinsic{}

func (st *State) freshName(base string) string {
	n := st.nvar[base]
	st.nvar[base] = n + 1
	var sb strings.Builder
	for _, r := range base {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' {
			sb.WriteRune(r)
		} else {
			sb.WriteByte('_')
		}
	}
	return fmt.Sprintf("v_%s_%d", sb.String(), n)
}

func (st *State) input(name, kind string, w uint8) *Expr {
	e := st.ctx.Var(st.freshName(name), w)
	st.inputs = append(st.inputs, Input{Name: name, Kind: kind, w: w, exprs: []*Expr{e}})
	return e
}

func init() {
	name := func(v value) string {
		s := v.(*Str)
		if !s.conc() {
			panic(unsupported{"symbolic label"})
		}
		return s.s
	}
	V := func(n string, f func(st *State, a []value) value) {
		vsymTab[n] = func(st *State, _ *frame, _ *ssa.Function, a []value) value { return f(st, a) }
	}
	scal := func(fn, kind string, w uint8) {
		V(fn, func(st *State, a []value) value { return st.input(name(a[0]), kind, w) })
	}
	scal("Bool", "bool", 0)
	scal("Byte", "uint8", 8)
	scal("Uint8", "uint8", 8)
	scal("Uint16", "uint16", 16)
	scal("Uint32", "uint32", 32)
	scal("Uint64", "uint64", 64)
	scal("Uint", "uint64", 64)
	scal("Int8", "int8", 8)
	scal("Int16", "int16", 16)
	scal("Int32", "int32", 32)
	scal("Int64", "int64", 64)
	scal("Int", "int64", 64)
	scal("Float64", "float64", 64)
	scal("Float32", "float32", 32)
	V("Range", func(st *State, a []value) value {
		lo, hi := a[1].(*Expr), a[2].(*Expr)
		e := st.input(name(a[0]), "int64", 64)
		st.assume(st.ctx.And(st.ctx.Sle(lo, e), st.ctx.Sle(e, hi)))
		return e
	})
	V("Choose", func(st *State, a []value) value {
		n := st.concInt(a[1].(*Expr))
		i := st.choose(n)
		st.inputs = append(st.inputs, Input{Name: name(a[0]), Kind: "choose", conc: uint64(i)})
		return K(64, uint64(i))
	})
	mkBytes := func(st *State, nm string, n int) []*Expr {
		es := make([]*Expr, n)
		for i := range es {
			es[i] = st.ctx.Var(st.freshName(nm), 8)
		}
		st.inputs = append(st.inputs, Input{Name: nm, Kind: "string", exprs: es})
		return es
	}
	V("StringN", func(st *State, a []value) value {
		return mkStrB(mkBytes(st, name(a[0]), st.concInt(a[1].(*Expr))))
	})
	V("String", func(st *State, a []value) value {
		n := st.choose(st.concInt(a[1].(*Expr)) + 1)
		return mkStrB(mkBytes(st, name(a[0]), n))
	})
	V("BytesN", func(st *State, a []value) value {
		es := mkBytes(st, name(a[0]), st.concInt(a[1].(*Expr)))
		r := make(slice, len(es))
		for i := range r {
			r[i] = es[i]
		}
		return r
	})
	V("Assume", func(st *State, a []value) value { st.assume(a[0].(*Expr)); return nil })
	V("Assert", func(st *State, a []value) value {
		st.assert(a[0].(*Expr), name(a[1]), st.where())
		return nil
	})
	V("Reach", func(st *State, a []value) value { st.reached[name(a[0])] = true; return nil })
	V("And", func(st *State, a []value) value { return st.ctx.And(a[0].(*Expr), a[1].(*Expr)) })
	V("Or", func(st *State, a []value) value { return st.ctx.Or(a[0].(*Expr), a[1].(*Expr)) })
	V("Not", func(st *State, a []value) value { return st.ctx.Not(a[0].(*Expr)) })
	V("Implies", func(st *State, a []value) value {
		return st.ctx.Or(st.ctx.Not(a[0].(*Expr)), a[1].(*Expr))
	})
	V("IteInt", func(st *State, a []value) value {
		return st.ctx.Ite(a[0].(*Expr), a[1].(*Expr), a[2].(*Expr))
	})
	V("Symbolic", func(st *State, a []value) value { return eTrue })
	V("Tier", func(st *State, a []value) value { return K(64, uint64(st.run.tier)) })
	obs := func(st *State, a []value) value {
		st.obs = append(st.obs, Obs{Name: name(a[0]), v: a[1]})
		return nil
	}
	V("ObserveInt", obs)
	V("ObserveUint", obs)
	V("ObserveBool", obs)
	V("ObserveStr", obs)
	V("Concrete", func(st *State, a []value) value {
		st.concretize(a[0].(*Expr))
		return nil
	})
	V("ConcreteStr", func(st *State, a []value) value {
		s := a[0].(*Str)
		b := make([]*Expr, s.len())
		for i := range b {
			b[i] = K(8, st.concretize(s.at(i)))
		}
		return mkStrB(b)
	})
}
