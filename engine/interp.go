package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type Engine struct {
	prog     *ssa.Program
	fset     *token.FileSet
	modPath  string
	modPkgs  []*ssa.Package // module packages in dependency order
	fnInfo   sync.Map       // *ssa.Function -> *fnInfo
	redirect map[string]*ssa.Function
	shared   map[*ssa.Package]bool
	sharedMu sync.Mutex
	sharedGl map[*ssa.Global]*value
	sharedIn map[*ssa.Package]bool
	skipInit map[string]bool

	tErrorString types.Type // runtime error type used for panics
	tRType       types.Type // *reflect.rtype
	consts       map[string]constants
	embeds       map[types.Object]map[string]string
	verbose      bool
}

type opndKind uint8

const (
	okReg opndKind = iota
	okConst
	okGlobal
)

type opnd struct {
	kind opndKind
	reg  int
	c    value
	g    *ssa.Global
}

type cinstr struct {
	in  ssa.Instruction
	dst int
	ops []opnd
	aux interface{}
}

type cblock struct {
	ins  []cinstr
	nphi int
	pure bool
}

type fnInfo struct {
	fn       *ssa.Function
	nregs    int
	blocks   []cblock
	hasDefer bool
	intr     intrinsic
	fast     func(st *State, args []value) (value, bool)
	memo     bool
	params   []int
	fvs      []int
	inModule bool
	isInit   bool
	name     string
	recover  int
}

// symPtr is the address of a table element at a symbolic index; it only flows
// into loads.
type symPtr struct {
	cells []value
	idx   *Expr
}

type intrinsic func(st *State, fr *frame, fn *ssa.Function, args []value) value

type deferred struct {
	fn   value
	args []value
	inv  bool
}

type frame struct {
	st        *State
	fi        *fnInfo
	regs      []value
	defers    []deferred
	result    value
	panicking bool
	panicV    interface{}
	caller    *frame
	cur       ssa.Instruction
}

func fnKey(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

func (e *Engine) info(fn *ssa.Function) *fnInfo {
	if v, ok := e.fnInfo.Load(fn); ok {
		return v.(*fnInfo)
	}
	fi := e.compile(fn)
	v, _ := e.fnInfo.LoadOrStore(fn, fi)
	return v.(*fnInfo)
}

func (e *Engine) compile(fn *ssa.Function) *fnInfo {
	fi := &fnInfo{fn: fn, name: fnKey(fn), recover: -1}
	if fn.Pkg != nil {
		fi.inModule = strings.HasPrefix(fn.Pkg.Pkg.Path(), e.modPath)
	}
	if r, ok := e.redirect[fi.name]; ok && r != fn {
		target := r
		fi.intr = func(st *State, fr *frame, _ *ssa.Function, args []value) value {
			return st.callFn(target, args, nil)
		}
		return fi
	}
	if in := lookupIntrinsic(fi.name, fn); in != nil {
		fi.intr = in
		return fi
	}
	fi.fast, fi.memo = fastFns[fi.name], memoFns[fi.name]
	if fn.Synthetic == "package initializer" {
		// Dependencies outside the module are initialised on first use.
		fi.isInit = true
	}
	if fn.Pkg != nil {
		fn.Pkg.Build()
	} else if o := fn.Origin(); o != nil && o.Pkg != nil {
		o.Pkg.Build()
	}
	if fn.Blocks == nil {
		return fi
	}
	reg := map[ssa.Value]int{}
	alloc := func(v ssa.Value) int {
		r := fi.nregs
		reg[v] = r
		fi.nregs++
		return r
	}
	for _, p := range fn.Params {
		fi.params = append(fi.params, alloc(p))
	}
	for _, p := range fn.FreeVars {
		fi.fvs = append(fi.fvs, alloc(p))
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				alloc(v)
			}
			if _, ok := in.(*ssa.Defer); ok {
				fi.hasDefer = true
			}
		}
	}
	mk := func(v ssa.Value) opnd {
		switch v := v.(type) {
		case *ssa.Const:
			return opnd{kind: okConst, c: constValue(v)}
		case *ssa.Global:
			return opnd{kind: okGlobal, g: v}
		case *ssa.Function:
			return opnd{kind: okConst, c: &closure{fn: v}}
		case *ssa.Builtin:
			return opnd{kind: okConst, c: &closure{bi: v}}
		case nil:
			return opnd{kind: okConst}
		}
		r, ok := reg[v]
		if !ok {
			panic(fmt.Sprintf("no register for %v (%T) in %v", v, v, fn))
		}
		return opnd{kind: okReg, reg: r}
	}
	fi.blocks = make([]cblock, len(fn.Blocks))
	for bi, b := range fn.Blocks {
		cb := &fi.blocks[bi]
		cb.pure = !noMerge && pureBlock(b)
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			ci := cinstr{in: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				ci.dst = reg[v]
			}
			if _, ok := in.(*ssa.Phi); ok {
				cb.nphi++
			}
			if ia, ok := in.(*ssa.IndexAddr); ok {
				only := true
				for _, r := range *ia.Referrers() {
					if u, ok := r.(*ssa.UnOp); ok && u.Op == token.MUL {
						continue
					}
					if _, ok := r.(*ssa.DebugRef); ok {
						continue
					}
					only = false
				}
				ci.aux = only
			}
			var rands [8]*ssa.Value
			for _, p := range in.Operands(rands[:0]) {
				if p == nil || *p == nil {
					ci.ops = append(ci.ops, opnd{kind: okConst})
					continue
				}
				ci.ops = append(ci.ops, mk(*p))
			}
			cb.ins = append(cb.ins, ci)
		}
	}
	if fn.Recover != nil {
		fi.recover = fn.Recover.Index
	}
	return fi
}

func constValue(c *ssa.Const) value {
	t := c.Type()
	if c.Value == nil {
		return zero(t)
	}
	if tp, ok := t.(*types.TypeParam); ok {
		panic(unsupported{"const of type param " + tp.String()})
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		panic(unsupported{"const type " + t.String()})
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return KB(constant.BoolVal(c.Value))
	case b.Info()&types.IsString != 0:
		if c.Value.Kind() == constant.String {
			return mkStr(constant.StringVal(c.Value))
		}
		return mkStr(string(rune(c.Int64())))
	case b.Info()&types.IsComplex != 0:
		return array{K(64, 0), K(64, 0)}
	case b.Kind() == types.UnsafePointer:
		return unsafePtr{}
	}
	w, signed, fl := basicWidth(b)
	if fl {
		f, _ := constant.Float64Val(constant.ToFloat(c.Value))
		if w == 32 {
			f32, _ := constant.Float32Val(constant.ToFloat(c.Value))
			return K(32, uint64(math.Float32bits(f32)))
		}
		return K(64, math.Float64bits(f))
	}
	if signed {
		return K(w, uint64(c.Int64()))
	}
	return K(w, c.Uint64())
}

func (fr *frame) get(o *opnd) value {
	switch o.kind {
	case okReg:
		return fr.regs[o.reg]
	case okConst:
		return o.c
	}
	return fr.st.global(o.g)
}

// ---- globals and package initialisation

func (st *State) global(g *ssa.Global) *value {
	e := st.eng
	if e.shared[g.Pkg] && !st.noSym {
		e.sharedMu.Lock()
		if !e.sharedIn[g.Pkg] {
			e.initShared(g.Pkg)
		}
		p := e.sharedGl[g]
		e.sharedMu.Unlock()
		if p != nil {
			return p
		}
		panic(unsupported{"shared global " + g.String()})
	}
	if p, ok := st.globals[g]; ok {
		return p
	}
	st.ensureInit(g.Pkg)
	if p, ok := st.globals[g]; ok {
		return p
	}
	return st.newGlobal(g)
}

func (st *State) newGlobal(g *ssa.Global) *value {
	p := new(value)
	if v, ok := st.eng.embedded(g); ok {
		*p = v
	} else {
		*p = zero(g.Type().(*types.Pointer).Elem())
	}
	st.globals[g] = p
	return p
}

func (st *State) ensureInit(p *ssa.Package) {
	if p == nil || st.inited[p] {
		return
	}
	st.inited[p] = true
	if st.eng.skipInit[p.Pkg.Path()] {
		return
	}
	p.Build()
	for _, m := range p.Members {
		if g, ok := m.(*ssa.Global); ok {
			if _, ok := st.globals[g]; !ok {
				st.newGlobal(g)
			}
		}
	}
	if f := p.Func("init"); f != nil {
		st.initing = p
		s0 := st.steps
		st.callFn(f, nil, nil)
		if debugForks && st.steps-s0 > 5000 {
			st.run.forkAt(fmt.Sprintf("init %s %d", p.Pkg.Path(), (st.steps-s0)/1000))
		}
	}
}

// initShared runs a pure table package's initialiser once for all paths.
func (e *Engine) initShared(p *ssa.Package) {
	run := &Run{eng: e, stats: newQueryStats(), maxSteps: 1 << 40, maxDepth: 10000, Reasons: map[string]int{}}
	run.cond = sync.NewCond(&run.mu)
	st := run.newState(nil)
	st.noSym = true
	st.ensureInit(p)
	for g, v := range st.globals {
		if e.shared[g.Pkg] {
			e.sharedGl[g] = v
		}
	}
	for q := range st.inited {
		e.sharedIn[q] = true
	}
	e.sharedIn[p] = true
}

func (st *State) initModule() {
	for _, p := range st.eng.modPkgs {
		st.ensureInit(p)
	}
}

// ---- calls

func (st *State) callValue(fn value, args []value) value {
	switch f := fn.(type) {
	case *closure:
		if f == nil {
			st.rtPanic("invalid memory address or nil pointer dereference")
		}
		if f.hook != nil {
			return f.hook(st, args)
		}
		if f.bi != nil {
			return st.builtin(nil, f.bi, args, nil)
		}
		return st.callFn(f.fn, args, f.env)
	}
	panic(fmt.Sprintf("callValue: %T", fn))
}

func (st *State) callFn(fn *ssa.Function, args []value, env []value) value {
	fi := st.eng.info(fn)
	if fi.intr != nil {
		return fi.intr(st, nil, fn, args)
	}
	if fi.isInit && st.initing != fn.Pkg {
		if fi.inModule || st.eng.shared[fn.Pkg] && st.noSym {
			st.ensureInit(fn.Pkg)
		}
		return nil
	}
	st.initing = nil
	if fi.fast != nil {
		if v, ok := fi.fast(st, args); ok {
			return v
		}
	}
	if fi.memo {
		if k, ok := memoKey(fi.name, args); ok {
			if v, ok := memoTab.Load(k); ok {
				return v
			}
			fi2 := *fi
			fi2.memo = false
			v := st.callBody(fn, &fi2, args, env)
			if memoizable(v) {
				memoTab.Store(k, v)
			}
			return v
		}
	}
	return st.callBody(fn, fi, args, env)
}

func (st *State) callBody(fn *ssa.Function, fi *fnInfo, args []value, env []value) value {
	if fi.blocks == nil {
		panic(unsupported{"no body: " + fi.name})
	}
	if st.depth > st.run.maxDepth {
		panic(boundHit{"call depth in " + fi.name})
	}
	if fi.inModule && st.fns != nil {
		st.fns[fn] = true
	}
	st.depth++
	fr := &frame{st: st, fi: fi, regs: make([]value, fi.nregs)}
	for i, r := range fi.params {
		fr.regs[r] = args[i]
	}
	for i, r := range fi.fvs {
		fr.regs[r] = env[i]
	}
	st.frames = append(st.frames, fr)
	if fi.hasDefer {
		fr.runWithDefers()
	} else {
		fr.run(0)
	}
	st.frames = st.frames[:len(st.frames)-1]
	st.depth--
	return fr.result
}

func (fr *frame) runWithDefers() {
	st := fr.st
	nf := len(st.frames)
	depth := st.depth
	func() {
		defer func() {
			if p := recover(); p != nil {
				tp, ok := p.(targetPanic)
				if !ok {
					panic(p)
				}
				st.frames = st.frames[:nf]
				st.depth = depth
				fr.panicking = true
				fr.panicV = tp
			}
		}()
		fr.run(0)
	}()
	if !fr.panicking {
		return
	}
	fr.runDefers()
	// reached only if recovered
	if fr.fi.recover >= 0 {
		fr.run(fr.fi.recover)
	} else {
		fr.result = zero(fr.fi.fn.Signature.Results())
		if fr.fi.fn.Signature.Results().Len() == 0 {
			fr.result = nil
		}
	}
}

// runDefers runs deferred calls; re-panics if still panicking afterwards.
func (fr *frame) runDefers() {
	st := fr.st
	nf := len(st.frames)
	depth := st.depth
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			defer func() {
				if p := recover(); p != nil {
					tp, ok := p.(targetPanic)
					if !ok {
						panic(p)
					}
					st.frames = st.frames[:nf]
					st.depth = depth
					fr.panicking = true
					fr.panicV = tp
				}
			}()
			c := d.fn.(*closure)
			if c.bi != nil {
				st.builtin(fr, c.bi, d.args, nil)
				return
			}
			st.callValue(d.fn, d.args)
		}()
	}
	if fr.panicking {
		panic(fr.panicV)
	}
}

func (st *State) where() string {
	for i := len(st.frames) - 1; i >= 0; i-- {
		fr := st.frames[i]
		if fr.cur != nil && fr.cur.Pos().IsValid() {
			p := st.eng.fset.Position(fr.cur.Pos())
			return fmt.Sprintf("%s:%d (%s)", p.Filename, p.Line, fr.fi.fn.String())
		}
	}
	return ""
}

func (st *State) rtPanic(msg string) {
	panic(targetPanic{iface{st.eng.tErrorString, mkStr(msg)}, st.where()})
}

func (st *State) panicIface(v iface) {
	panic(targetPanic{v, st.where()})
}

func panicText(st *State, v iface) string {
	if v.t == nil {
		return "nil"
	}
	if s, ok := v.v.(*Str); ok {
		if s.conc() {
			return s.s
		}
		return "(symbolic string)"
	}
	// error value?
	txt := ""
	func() {
		defer func() {
			if p := recover(); p != nil {
				txt = ""
			}
		}()
		if m := st.findMethod(v.t, "Error"); m != nil {
			if s, ok := st.callFn(m, []value{v.v}, nil).(*Str); ok && s.conc() {
				txt = s.s
			}
		}
	}()
	if txt != "" {
		return txt
	}
	return v.t.String()
}

func (st *State) findMethod(t types.Type, name string) *ssa.Function {
	ms := st.eng.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return st.eng.prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

func (st *State) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	k := mkey{t, m}
	if f, ok := st.mcache[k]; ok {
		return f
	}
	f := st.eng.prog.LookupMethod(t, m.Pkg(), m.Name())
	st.mcache[k] = f
	return f
}

// run executes from the given block until return.
func (fr *frame) run(block int) {
	st := fr.st
	prev := -1
	fi := fr.fi
	var merged []value
	for {
		b := &fi.blocks[block]
		ins := b.ins
		i := 0
		if b.nphi > 0 && merged != nil {
			for j := 0; j < b.nphi; j++ {
				fr.regs[ins[j].dst] = merged[j]
			}
			i = b.nphi
		} else if b.nphi > 0 {
			bb := fi.fn.Blocks[block]
			pi := -1
			for j, p := range bb.Preds {
				if p.Index == prev {
					pi = j
					break
				}
			}
			var tmp [16]value
			vals := tmp[:0]
			for j := 0; j < b.nphi; j++ {
				vals = append(vals, fr.get(&ins[j].ops[pi]))
			}
			for j := 0; j < b.nphi; j++ {
				fr.regs[ins[j].dst] = vals[j]
			}
			i = b.nphi
		}
		merged = nil
		next := -1
		st.steps += len(ins)
		if debugSteps {
			st.profile(len(ins))
		}
		if st.steps > st.run.maxSteps {
			panic(boundHit{fmt.Sprintf("step bound in %s", fi.name)})
		}
		for ; i < len(ins); i++ {
			ci := &ins[i]
			fr.cur = ci.in
			switch in := ci.in.(type) {
			case *ssa.If:
				bb := fi.fn.Blocks[block]
				cond := fr.get(&ci.ops[0]).(*Expr)
				if !cond.isConst() && !noMerge {
					if nx, pr, vals, ok := fr.mergeIf(block); ok {
						next, block, merged = nx, pr, vals
						break
					}
				}
				if st.branch(cond) {
					next = bb.Succs[0].Index
				} else {
					next = bb.Succs[1].Index
				}
			case *ssa.Jump:
				next = fi.fn.Blocks[block].Succs[0].Index
			case *ssa.Return:
				switch len(ci.ops) {
				case 0:
				case 1:
					fr.result = fr.get(&ci.ops[0])
				default:
					t := make(tuple, len(ci.ops))
					for j := range ci.ops {
						t[j] = fr.get(&ci.ops[j])
					}
					fr.result = t
				}
				return
			case *ssa.Panic:
				st.panicIface(fr.get(&ci.ops[0]).(iface))
			case *ssa.RunDefers:
				fr.runDefers()
			default:
				fr.exec(ci, in)
			}
		}
		if next < 0 {
			panic("fell off block")
		}
		prev, block = block, next
	}
}

func (fr *frame) exec(ci *cinstr, in ssa.Instruction) {
	st := fr.st
	switch in := in.(type) {
	case *ssa.Alloc:
		p := new(value)
		*p = zero(in.Type().Underlying().(*types.Pointer).Elem())
		fr.regs[ci.dst] = p
	case *ssa.UnOp:
		fr.regs[ci.dst] = st.unop(fr, in, fr.get(&ci.ops[0]))
	case *ssa.BinOp:
		fr.regs[ci.dst] = st.binop(in.Op, in.X.Type(), fr.get(&ci.ops[0]), fr.get(&ci.ops[1]), in.Y.Type())
	case *ssa.Call:
		fr.regs[ci.dst] = fr.call(&in.Call, ci.ops)
	case *ssa.Store:
		p := fr.get(&ci.ops[0])
		st.store(p, fr.get(&ci.ops[1]))
	case *ssa.FieldAddr:
		p := st.deref(fr.get(&ci.ops[0]))
		s, ok := (*p).(structure)
		if !ok {
			panic(unsupported{fmt.Sprintf("FieldAddr on %T (%s)", *p, in.X.Type())})
		}
		fr.regs[ci.dst] = &s[in.Field]
	case *ssa.Field:
		s, ok := fr.get(&ci.ops[0]).(structure)
		if !ok {
			panic(unsupported{fmt.Sprintf("Field of %s", in.X.Type())})
		}
		fr.regs[ci.dst] = copyVal(s[in.Field])
	case *ssa.IndexAddr:
		x := fr.get(&ci.ops[0])
		idx := fr.get(&ci.ops[1]).(*Expr)
		if !idx.isConst() && ci.aux == true {
			var cells []value
			switch x := x.(type) {
			case slice:
				cells = x
			case *value:
				cells = (*st.deref(x)).(array)
			}
			scal := len(cells) > 0 && len(cells) <= 4096
			for _, v := range cells {
				if _, ok := v.(*Expr); !ok {
					scal = false
					break
				}
			}
			if scal {
				if !st.branch(st.inRange(idx, in.Index.Type(), len(cells))) {
					st.rtPanic(fmt.Sprintf("index out of range with length %d", len(cells)))
				}
				fr.regs[ci.dst] = &symPtr{cells, idx}
				return
			}
		}
		switch x := x.(type) {
		case slice:
			fr.regs[ci.dst] = &x[st.index(idx, in.Index.Type(), len(x))]
		case *value:
			a := (*st.deref(x)).(array)
			fr.regs[ci.dst] = &a[st.index(idx, in.Index.Type(), len(a))]
		default:
			panic(fmt.Sprintf("IndexAddr: %T", x))
		}
	case *ssa.Index:
		x := fr.get(&ci.ops[0])
		idx := fr.get(&ci.ops[1]).(*Expr)
		switch x := x.(type) {
		case array:
			fr.regs[ci.dst] = copyVal(x[st.index(idx, in.Index.Type(), len(x))])
		case *Str:
			fr.regs[ci.dst] = st.strIndex(x, idx, in.Index.Type())
		case slice: // generic code
			fr.regs[ci.dst] = copyVal(x[st.index(idx, in.Index.Type(), len(x))])
		default:
			panic(fmt.Sprintf("Index: %T", x))
		}
	case *ssa.Lookup:
		x := fr.get(&ci.ops[0])
		k := fr.get(&ci.ops[1])
		switch x := x.(type) {
		case *Str:
			fr.regs[ci.dst] = st.strIndex(x, k.(*Expr), in.Index.Type())
		case *Map:
			e := st.mapFind(x, k)
			var v value
			if e != nil {
				v = copyVal(e.v)
			} else {
				v = zero(in.X.Type().Underlying().(*types.Map).Elem())
			}
			if in.CommaOk {
				fr.regs[ci.dst] = tuple{v, KB(e != nil)}
			} else {
				fr.regs[ci.dst] = v
			}
		default:
			panic(fmt.Sprintf("Lookup: %T", x))
		}
	case *ssa.MapUpdate:
		m := fr.get(&ci.ops[0]).(*Map)
		if m == nil {
			st.panicIface(iface{st.eng.tErrorString, mkStr("assignment to entry in nil map")})
		}
		st.mapSet(m, fr.get(&ci.ops[1]), copyVal(fr.get(&ci.ops[2])))
	case *ssa.MakeInterface:
		fr.regs[ci.dst] = iface{in.X.Type(), fr.get(&ci.ops[0])}
	case *ssa.ChangeInterface:
		fr.regs[ci.dst] = fr.get(&ci.ops[0])
	case *ssa.ChangeType:
		fr.regs[ci.dst] = fr.get(&ci.ops[0])
	case *ssa.Convert:
		fr.regs[ci.dst] = st.convert(in.X.Type(), in.Type(), fr.get(&ci.ops[0]))
	case *ssa.MultiConvert:
		fr.regs[ci.dst] = st.convert(in.X.Type(), in.Type(), fr.get(&ci.ops[0]))
	case *ssa.SliceToArrayPointer:
		s := fr.get(&ci.ops[0]).(slice)
		n := int(in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if len(s) < n {
			st.rtPanic("cannot convert slice to array pointer: length too short")
		}
		if s == nil {
			fr.regs[ci.dst] = (*value)(nil)
		} else {
			p := new(value)
			*p = array(s[:n:n])
			fr.regs[ci.dst] = p
		}
	case *ssa.MakeClosure:
		c := &closure{fn: in.Fn.(*ssa.Function), env: make([]value, len(ci.ops)-1)}
		for i := range c.env {
			c.env[i] = fr.get(&ci.ops[i+1])
		}
		fr.regs[ci.dst] = c
	case *ssa.MakeMap:
		fr.regs[ci.dst] = &Map{kt: in.Type().Underlying().(*types.Map).Key()}
	case *ssa.MakeSlice:
		n := st.concInt(fr.get(&ci.ops[0]).(*Expr))
		c := st.concInt(fr.get(&ci.ops[1]).(*Expr))
		if n < 0 || n > 1<<30 {
			st.rtPanic("makeslice: len out of range")
		}
		if c < n || c > 1<<30 {
			st.rtPanic("makeslice: cap out of range")
		}
		if c > 1<<22 {
			panic(boundHit{"makeslice too large"})
		}
		fr.regs[ci.dst] = makeSlice(in.Type().Underlying().(*types.Slice).Elem(), n, c)
	case *ssa.MakeChan:
		n := st.concInt(fr.get(&ci.ops[0]).(*Expr))
		fr.regs[ci.dst] = &Chan{cap: n}
	case *ssa.Slice:
		fr.regs[ci.dst] = st.sliceOp(in, fr, ci)
	case *ssa.Range:
		x := fr.get(&ci.ops[0])
		switch x := x.(type) {
		case *Str:
			fr.regs[ci.dst] = &mapIter{isStr: true, strIt: x}
		case *Map:
			it := &mapIter{m: x}
			if x != nil {
				for _, e := range x.entries {
					if !e.dead {
						it.pending = append(it.pending, e)
					}
				}
				it.nondet = st.run != nil && st.run.mapPerm && fr.fi.inModule && !st.noSym
			}
			fr.regs[ci.dst] = it
		}
	case *ssa.Next:
		fr.regs[ci.dst] = st.next(fr.get(&ci.ops[0]).(*mapIter), in)
	case *ssa.TypeAssert:
		fr.regs[ci.dst] = st.typeAssert(in, fr.get(&ci.ops[0]).(iface))
	case *ssa.Extract:
		fr.regs[ci.dst] = fr.get(&ci.ops[0]).(tuple)[in.Index]
	case *ssa.Defer:
		fn, args := fr.prepCall(&in.Call, ci.ops)
		fr.defers = append(fr.defers, deferred{fn: fn, args: args})
	case *ssa.Go:
		// The metrics endpoint runs beside everything else and shares no data
		// with it.
		if fr.fi.fn.Pkg != nil && strings.HasSuffix(fr.fi.fn.Pkg.Pkg.Path(), "/pkg/metrics") {
			return
		}
		panic(unsupported{"go statement"})
	case *ssa.Send:
		c := fr.get(&ci.ops[0]).(*Chan)
		if c == nil || len(c.buf) >= c.cap {
			panic(unsupported{"blocking channel send"})
		}
		c.buf = append(c.buf, fr.get(&ci.ops[1]))
	case *ssa.Select:
		panic(unsupported{"select"})
	default:
		panic(unsupported{fmt.Sprintf("instruction %T", in)})
	}
}

func makeSlice(elem types.Type, n, c int) slice {
	s := make(slice, c)
	if c == 0 {
		return s
	}
	z := zero(elem)
	switch z.(type) {
	case structure, array:
		for i := range s {
			s[i] = zero(elem)
		}
	default:
		for i := range s {
			s[i] = z
		}
	}
	return s[:n]
}

func (st *State) deref(v value) *value {
	switch p := v.(type) {
	case *value:
		if p == nil {
			st.rtPanic("invalid memory address or nil pointer dereference")
		}
		return p
	case unsafePtr:
		panic(unsupported{"unsafe pointer dereference"})
	}
	panic(unsupported{fmt.Sprintf("deref of %T", v)})
}

func (st *State) store(p value, v value) {
	c := st.deref(p)
	st.wrote(c)
	store(c, v)
}

func (fr *frame) prepCall(c *ssa.CallCommon, ops []opnd) (value, []value) {
	st := fr.st
	if c.IsInvoke() {
		recv := fr.get(&ops[0]).(iface)
		if recv.t == nil {
			st.rtPanic("invalid memory address or nil pointer dereference")
		}
		f := st.lookupMethod(recv.t, c.Method)
		if f == nil {
			panic(unsupported{fmt.Sprintf("method %s not found on %s", c.Method.Name(), recv.t)})
		}
		args := make([]value, len(ops))
		args[0] = recv.v
		for i := 1; i < len(ops); i++ {
			args[i] = fr.get(&ops[i])
		}
		return &closure{fn: f}, args
	}
	args := make([]value, len(ops)-1)
	for i := range args {
		args[i] = fr.get(&ops[i+1])
	}
	return fr.get(&ops[0]), args
}

func (fr *frame) call(c *ssa.CallCommon, ops []opnd) value {
	fn, args := fr.prepCall(c, ops)
	cl := fn.(*closure)
	if cl != nil && cl.bi != nil {
		return fr.st.builtin(fr, cl.bi, args, c)
	}
	r := fr.st.callValue(cl, args)
	if c.IsInvoke() && c.Method.Name() == "Kind" && c.Method.Pkg() != nil && c.Method.Pkg().Path() == "internal/reflectlite" {
		// its Kind is narrower than the one of package reflect
		if e, ok := r.(*Expr); ok && e.w == 64 {
			return fr.st.ctx.Trunc(e, 8)
		}
	}
	return r
}

// index does the bounds check and concretizes a symbolic index.
func (st *State) index(idx *Expr, t types.Type, n int) int {
	if idx.isConst() {
		_, signed, _ := basicWidth(t.Underlying().(*types.Basic))
		var v int64
		if signed {
			v = sext(idx.w, idx.val)
		} else {
			v = int64(idx.val)
		}
		if v < 0 || v >= int64(n) {
			st.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", v, n))
		}
		return int(v)
	}
	if !st.branch(st.inRange(idx, t, n)) {
		st.rtPanic(fmt.Sprintf("index out of range with length %d", n))
	}
	return int(st.concretize(idx))
}

func (st *State) inRange(idx *Expr, t types.Type, n int) *Expr {
	_, signed, _ := basicWidth(t.Underlying().(*types.Basic))
	c := st.ctx
	var x *Expr
	if signed {
		x = c.SExt(idx, 64)
	} else {
		x = c.ZExt(idx, 64)
	}
	return c.Ult(x, K(64, uint64(n)))
}

func (st *State) strIndex(s *Str, idx *Expr, t types.Type) value {
	if idx.isConst() {
		return s.at(st.index(idx, t, s.len()))
	}
	if !st.branch(st.inRange(idx, t, s.len())) {
		st.rtPanic("index out of range")
	}
	return st.selectExpr(idx, s.len(), func(i int) *Expr { return s.at(i) })
}

// selectExpr builds an ite chain over table entries (idx is known in range).
func (st *State) selectExpr(idx *Expr, n int, at func(int) *Expr) *Expr {
	c := st.ctx
	// group equal neighbours to keep constant tables small
	type runT struct {
		hi int // exclusive
		v  *Expr
	}
	var runs []runT
	for i := 0; i < n; i++ {
		v := at(i)
		if len(runs) > 0 && runs[len(runs)-1].v == v {
			runs[len(runs)-1].hi = i + 1
		} else {
			runs = append(runs, runT{i + 1, v})
		}
	}
	var build func(lo, hi int) *Expr
	build = func(lo, hi int) *Expr {
		if hi-lo == 1 {
			return runs[lo].v
		}
		mid := (lo + hi) / 2
		return c.Ite(c.Ult(idx, K(idx.w, uint64(runs[mid-1].hi))), build(lo, mid), build(mid, hi))
	}
	if len(runs) == 0 {
		panic("selectExpr: empty")
	}
	return build(0, len(runs))
}
