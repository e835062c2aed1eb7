package main

import (
	"fmt"
	"go/token"
	"go/types"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func (st *State) unop(fr *frame, in *ssa.UnOp, x value) value {
	c := st.ctx
	switch in.Op {
	case token.MUL:
		if sp, ok := x.(*symPtr); ok {
			return st.selectExpr(sp.idx, len(sp.cells), func(i int) *Expr { return sp.cells[i].(*Expr) })
		}
		return load(st.deref(x))
	case token.NOT:
		return c.Not(x.(*Expr))
	case token.SUB:
		e := x.(*Expr)
		if isFloat(in.X.Type()) {
			return c.FP(OFNeg, e.w, e)
		}
		return c.Neg(e)
	case token.XOR:
		return c.BNot(x.(*Expr))
	case token.ARROW:
		ch := x.(*Chan)
		if ch == nil || len(ch.buf) == 0 {
			if ch != nil && ch.closed {
				z := zero(in.X.Type().Underlying().(*types.Chan).Elem())
				if in.CommaOk {
					return tuple{z, eFalse}
				}
				return z
			}
			panic(unsupported{"blocking channel receive"})
		}
		v := ch.buf[0]
		ch.buf = ch.buf[1:]
		if in.CommaOk {
			return tuple{v, eTrue}
		}
		return v
	}
	panic(unsupported{"unop " + in.Op.String()})
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isUnsignedT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func (st *State) binop(op token.Token, t types.Type, x, y value, yt types.Type) value {
	c := st.ctx
	switch op {
	case token.EQL:
		return st.eqT(x, y, t)
	case token.NEQ:
		return c.Not(st.eqT(x, y, t))
	}
	switch a := x.(type) {
	case *Str:
		b := y.(*Str)
		switch op {
		case token.ADD:
			return strConcat(a, b)
		case token.LSS:
			return st.strLess(a, b)
		case token.GTR:
			return st.strLess(b, a)
		case token.LEQ:
			return c.Not(st.strLess(b, a))
		case token.GEQ:
			return c.Not(st.strLess(a, b))
		}
	case *Expr:
		b, ok := y.(*Expr)
		if !ok {
			break
		}
		if isFloat(t) {
			switch op {
			case token.ADD:
				return c.FP(OFAdd, a.w, a, b)
			case token.SUB:
				return c.FP(OFSub, a.w, a, b)
			case token.MUL:
				return c.FP(OFMul, a.w, a, b)
			case token.QUO:
				return c.FP(OFDiv, a.w, a, b)
			case token.LSS:
				return c.FP(OFLt, 0, a, b)
			case token.LEQ:
				return c.FP(OFLe, 0, a, b)
			case token.GTR:
				return c.FP(OFLt, 0, b, a)
			case token.GEQ:
				return c.FP(OFLe, 0, b, a)
			}
			panic(unsupported{"float op " + op.String()})
		}
		uns := isUnsignedT(t)
		switch op {
		case token.ADD:
			return c.Bin(OAdd, a, b)
		case token.SUB:
			return c.Bin(OSub, a, b)
		case token.MUL:
			return c.Bin(OMul, a, b)
		case token.QUO, token.REM:
			if st.branch(c.Eq(b, K(b.w, 0))) {
				st.rtPanic("integer divide by zero")
			}
			o := OSDiv
			switch {
			case op == token.QUO && uns:
				o = OUDiv
			case op == token.REM && uns:
				o = OURem
			case op == token.REM:
				o = OSRem
			}
			return c.Bin(o, a, b)
		case token.AND:
			if a.w == 0 {
				return c.And(a, b)
			}
			return c.Bin(OBAnd, a, b)
		case token.OR:
			if a.w == 0 {
				return c.Or(a, b)
			}
			return c.Bin(OBOr, a, b)
		case token.XOR:
			return c.Bin(OBXor, a, b)
		case token.AND_NOT:
			return c.Bin(OBAnd, a, c.BNot(b))
		case token.SHL, token.SHR:
			if !isUnsignedT(yt) {
				if st.branch(c.Slt(b, K(b.w, 0))) {
					st.rtPanic("negative shift amount")
				}
			}
			o := OShl
			if op == token.SHR {
				o = OLShr
				if !uns {
					o = OAShr
				}
			}
			big := c.Not(c.Ult(b, K(b.w, uint64(a.w))))
			if b.w < 8 || (b.w == 8 && a.w <= 64) {
				// a.w fits in 8 bits
			}
			var sh *Expr
			if b.w >= a.w {
				sh = c.Trunc(b, a.w)
			} else {
				sh = c.ZExt(b, a.w)
			}
			r := c.Bin(o, a, sh)
			if b.w > a.w {
				var over *Expr
				if o == OAShr {
					over = c.Bin(OAShr, a, K(a.w, uint64(a.w-1)))
				} else {
					over = K(a.w, 0)
				}
				return c.Ite(big, over, r)
			}
			return r
		case token.LSS:
			if uns {
				return c.Ult(a, b)
			}
			return c.Slt(a, b)
		case token.GTR:
			if uns {
				return c.Ult(b, a)
			}
			return c.Slt(b, a)
		case token.LEQ:
			if uns {
				return c.Ule(a, b)
			}
			return c.Sle(a, b)
		case token.GEQ:
			if uns {
				return c.Ule(b, a)
			}
			return c.Sle(b, a)
		}
	}
	panic(unsupported{fmt.Sprintf("binop %s on %T", op, x)})
}

func (st *State) strEq(a, b *Str) *Expr {
	if a.len() != b.len() {
		return eFalse
	}
	if a.conc() && b.conc() {
		return KB(a.s == b.s)
	}
	c := st.ctx
	r := eTrue
	for i := 0; i < a.len(); i++ {
		r = c.And(r, c.Eq(a.at(i), b.at(i)))
		if r.isFalse() {
			return r
		}
	}
	return r
}

func (st *State) strLess(a, b *Str) *Expr {
	if a.conc() && b.conc() {
		return KB(a.s < b.s)
	}
	c := st.ctx
	n := min(a.len(), b.len())
	r := KB(a.len() < b.len())
	for i := n - 1; i >= 0; i-- {
		x, y := a.at(i), b.at(i)
		r = c.Or(c.Ult(x, y), c.And(c.Eq(x, y), r))
	}
	return r
}

func floatTypeOf(v *Expr) bool { return false }

// eq returns the Go == of two values of the same static type.
func (st *State) eq(x, y value) *Expr { return st.eqT(x, y, nil) }

func (st *State) eqT(x, y value, t types.Type) *Expr {
	c := st.ctx
	switch a := x.(type) {
	case *Expr:
		b := y.(*Expr)
		if t != nil && isFloat(t) {
			return c.FP(OFEq, 0, a, b)
		}
		return c.Eq(a, b)
	case *Str:
		return st.strEq(a, y.(*Str))
	case *value:
		b, ok := y.(*value)
		if !ok {
			return eFalse
		}
		if a == b {
			return eTrue
		}
		return eFalse
	case unsafePtr:
		b := y.(unsafePtr)
		ap, _ := a.p.(*value)
		bp, _ := b.p.(*value)
		return KB(ap == bp)
	case iface:
		b, ok := y.(iface)
		if !ok {
			panic(fmt.Sprintf("eq iface with %T", y))
		}
		if a.t == nil || b.t == nil {
			return KB(a.t == nil && b.t == nil)
		}
		if !identical(a.t, b.t) {
			return eFalse
		}
		if !types.Comparable(a.t) {
			st.panicIface(iface{st.eng.tErrorString, mkStr("comparing uncomparable type " + a.t.String())})
		}
		return st.eqT(a.v, b.v, a.t)
	case structure:
		b := y.(structure)
		r := eTrue
		var stt *types.Struct
		if t != nil {
			stt, _ = t.Underlying().(*types.Struct)
		}
		for i := range a {
			var ft types.Type
			if stt != nil {
				ft = stt.Field(i).Type()
				if stt.Field(i).Name() == "_" {
					continue
				}
			}
			r = c.And(r, st.eqT(a[i], b[i], ft))
			if r.isFalse() {
				return r
			}
		}
		return r
	case array:
		b := y.(array)
		r := eTrue
		var et types.Type
		if t != nil {
			if at, ok := t.Underlying().(*types.Array); ok {
				et = at.Elem()
			}
		}
		for i := range a {
			r = c.And(r, st.eqT(a[i], b[i], et))
			if r.isFalse() {
				return r
			}
		}
		return r
	case slice:
		b, _ := y.(slice)
		return KB(a == nil && b == nil)
	case *Map:
		return KB(a == y.(*Map))
	case *closure:
		b := y.(*closure)
		return KB(a == nil && b == nil)
	case *Chan:
		return KB(a == y.(*Chan))
	case RType:
		return KB(identical(a.t, y.(RType).t))
	case *RVal:
		b := y.(*RVal)
		if a == nil || b == nil {
			return KB(a == nil && b == nil)
		}
		if a == b {
			return eTrue
		}
		return KB(a.addr != nil && a.addr == b.addr && identical(a.t, b.t))
	case nil:
		return KB(y == nil)
	}
	panic(unsupported{fmt.Sprintf("eq on %T", x)})
}

// ---- maps

func (st *State) mapFind(m *Map, k value) *mapEntry {
	if m == nil {
		return nil
	}
	hk, conc := hkey(k)
	if !conc {
		st.checkHashable(k)
	}
	if conc && !m.symKeys {
		if e := m.idx[hk]; e != nil && !e.dead {
			return e
		}
		return nil
	}
	if conc {
		if e := m.idx[hk]; e != nil && !e.dead {
			return e
		}
	}
	for _, e := range m.entries {
		if e.dead {
			continue
		}
		q := st.eqT(e.k, k, m.kt)
		if q.isFalse() {
			continue
		}
		if st.branch(q) {
			return e
		}
	}
	return nil
}

func (st *State) checkHashable(k value) {
	if i, ok := k.(iface); ok && i.t != nil && !types.Comparable(i.t) {
		st.panicIface(iface{st.eng.tErrorString, mkStr("hash of unhashable type " + i.t.String())})
	}
}

func (st *State) mapSet(m *Map, k, v value) {
	st.wroteMap(m)
	if e := st.mapFind(m, k); e != nil {
		e.v = v
		return
	}
	e := &mapEntry{k: copyVal(k), v: v}
	m.entries = append(m.entries, e)
	m.n++
	if hk, ok := hkey(k); ok {
		if m.idx == nil {
			m.idx = map[interface{}]*mapEntry{}
		}
		m.idx[hk] = e
	} else {
		m.symKeys = true
	}
}

func (st *State) mapDelete(m *Map, k value) {
	e := st.mapFind(m, k)
	if e == nil {
		return
	}
	st.wroteMap(m)
	e.dead = true
	m.n--
	if hk, ok := hkey(e.k); ok {
		delete(m.idx, hk)
	}
	for i, x := range m.entries {
		if x == e {
			m.entries = append(append([]*mapEntry(nil), m.entries[:i]...), m.entries[i+1:]...)
			break
		}
	}
}

func (st *State) next(it *mapIter, in *ssa.Next) value {
	if it.isStr {
		if it.pos >= it.strIt.len() {
			return tuple{eFalse, K(64, 0), K(32, 0)}
		}
		i := it.pos
		r, n := st.decodeRune(it.strIt, i)
		it.pos += n
		return tuple{eTrue, K(64, uint64(i)), r}
	}
	// drop dead entries
	live := it.pending[:0]
	for _, e := range it.pending {
		if !e.dead {
			live = append(live, e)
		}
	}
	it.pending = live
	if len(live) == 0 {
		return tuple{eFalse, nil, nil}
	}
	j := 0
	if it.nondet && len(live) > 1 {
		j = st.choose(len(live))
	}
	e := live[j]
	it.pending = append(append([]*mapEntry(nil), live[:j]...), live[j+1:]...)
	return tuple{eTrue, copyVal(e.k), copyVal(e.v)}
}

// decodeRune decodes one rune of s at byte i; forks on symbolic bytes.
func (st *State) decodeRune(s *Str, i int) (*Expr, int) {
	c := st.ctx
	b0 := s.at(i)
	if b0.isConst() && b0.val < utf8.RuneSelf {
		return K(32, b0.val), 1
	}
	if !b0.isConst() && st.branch(c.Ult(b0, K(8, utf8.RuneSelf))) {
		return c.ZExt(b0, 32), 1
	}
	allc := true
	hi := min(s.len(), i+4)
	buf := make([]byte, 0, 4)
	for j := i; j < hi; j++ {
		if e := s.at(j); e.isConst() {
			buf = append(buf, byte(e.val))
		} else {
			allc = false
		}
	}
	if allc {
		r, n := utf8.DecodeRune(buf)
		return K(32, uint64(uint32(r))), n
	}
	fn := st.eng.findFunc("unicode/utf8", "DecodeRuneInString")
	t := st.callFn(fn, []value{s.slice(i, hi)}, nil).(tuple)
	return t[0].(*Expr), st.concInt(t[1].(*Expr))
}

func (e *Engine) findFunc(pkg, name string) *ssa.Function {
	p := e.prog.ImportedPackage(pkg)
	if p == nil {
		panic(unsupported{"package not loaded: " + pkg})
	}
	f := p.Func(name)
	if f == nil {
		panic(unsupported{"function not found: " + pkg + "." + name})
	}
	return f
}

// ---- conversions

func (st *State) convert(from, to types.Type, x value) value {
	c := st.ctx
	uf, ut := from.Underlying(), to.Underlying()
	switch ut := ut.(type) {
	case *types.Pointer:
		switch p := x.(type) {
		case unsafePtr:
			if p.p == nil {
				return (*value)(nil)
			}
			return p.p
		}
		return x
	case *types.Slice:
		el := ut.Elem().Underlying().(*types.Basic)
		s, ok := x.(*Str)
		if !ok {
			return x
		}
		if el.Kind() == types.Uint8 {
			n := s.len()
			r := make(slice, n)
			for i := range r {
				r[i] = s.at(i)
			}
			return r
		}
		// []rune
		var r slice = slice{}
		for i := 0; i < s.len(); {
			e, n := st.decodeRune(s, i)
			r = append(r, e)
			i += n
		}
		return r
	case *types.Basic:
		if ut.Kind() == types.UnsafePointer {
			switch p := x.(type) {
			case unsafePtr:
				return p
			case *value:
				if p == nil {
					return unsafePtr{}
				}
				return unsafePtr{p}
			}
			panic(unsupported{fmt.Sprintf("conversion of %T to unsafe.Pointer", x)})
		}
		if ut.Info()&types.IsString != 0 {
			switch v := x.(type) {
			case *Str:
				return v
			case slice:
				el := uf.(*types.Slice).Elem().Underlying().(*types.Basic)
				if el.Kind() == types.Uint8 {
					b := make([]*Expr, len(v))
					for i := range b {
						b[i] = v[i].(*Expr)
					}
					return mkStrB(b)
				}
				var out *Str = emptyStr
				for _, e := range v {
					out = strConcat(out, st.runeToStr(e.(*Expr)))
				}
				return out
			case *Expr:
				_, signed, _ := basicWidth(uf.(*types.Basic))
				var r *Expr
				if v.w > 32 {
					// out of range becomes U+FFFD
					var bad *Expr
					if signed {
						bad = c.Or(c.Slt(v, K(v.w, 0)), c.Slt(K(v.w, 0x10FFFF), v))
					} else {
						bad = c.Ult(K(v.w, 0x10FFFF), v)
					}
					r = c.Ite(bad, K(32, 0xFFFD), c.Trunc(v, 32))
				} else if signed {
					r = c.SExt(v, 32)
				} else {
					r = c.ZExt(v, 32)
				}
				return st.runeToStr(r)
			}
		}
		e, ok := x.(*Expr)
		if !ok {
			if up, ok := x.(unsafePtr); ok && ut.Kind() == types.Uintptr {
				_ = up
				panic(unsupported{"unsafe.Pointer to uintptr"})
			}
			if a, ok := x.(array); ok {
				return a // complex
			}
			break
		}
		fb, ok := uf.(*types.Basic)
		if !ok {
			break
		}
		fw, fs, ff := basicWidth(fb)
		tw, ts, tf := basicWidth(ut)
		switch {
		case ff && tf:
			if fw == tw {
				return e
			}
			return c.FP(OFToF, tw, e)
		case ff && ts:
			return c.FP(OFToSI, tw, e)
		case ff:
			return c.FP(OFToUI, tw, e)
		case tf && fs:
			return c.FP(OSIToF, tw, e)
		case tf:
			return c.FP(OUIToF, tw, e)
		}
		if tw < fw {
			return c.Trunc(e, tw)
		}
		if tw == fw {
			return e
		}
		if fs {
			return c.SExt(e, tw)
		}
		return c.ZExt(e, tw)
	case *types.Signature, *types.Map, *types.Struct, *types.Interface, *types.Chan, *types.Array:
		return x
	}
	panic(unsupported{fmt.Sprintf("convert %s -> %s (%T)", from, to, x)})
}

func (st *State) runeToStr(r *Expr) *Str {
	if r.isConst() {
		return mkStr(string(rune(int32(uint32(r.val)))))
	}
	c := st.ctx
	if st.branch(c.Ult(r, K(32, 0x80))) {
		return mkStrB([]*Expr{c.Trunc(r, 8)})
	}
	fn := st.eng.findFunc("unicode/utf8", "AppendRune")
	s := st.callFn(fn, []value{slice(nil), r}, nil).(slice)
	b := make([]*Expr, len(s))
	for i := range b {
		b[i] = s[i].(*Expr)
	}
	return mkStrB(b)
}

// ---- slicing

func (st *State) sliceOp(in *ssa.Slice, fr *frame, ci *cinstr) value {
	x := fr.get(&ci.ops[0])
	get := func(i int, present bool, def int) int {
		if !present {
			return def
		}
		return st.concIdx(fr.get(&ci.ops[i]).(*Expr))
	}
	// Operands order: X, Low, High, Max (nil ones are kept as constants)
	var ln, cp int
	switch x := x.(type) {
	case *Str:
		ln = x.len()
		cp = ln
	case slice:
		ln, cp = len(x), cap(x)
	case *value:
		a := (*st.deref(x)).(array)
		ln, cp = len(a), len(a)
	default:
		panic(unsupported{fmt.Sprintf("slice of %T", x)})
	}
	lo := get(1, in.Low != nil, 0)
	hi := get(2, in.High != nil, ln)
	mx := get(3, in.Max != nil, cp)
	bad := lo < 0 || hi < lo || mx < hi || mx > cp
	if bad {
		st.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", lo, hi, mx, cp))
	}
	switch x := x.(type) {
	case *Str:
		return x.slice(lo, hi)
	case slice:
		if x == nil {
			return slice(nil)
		}
		return x[lo:hi:mx]
	case *value:
		a := (*x).(array)
		return slice(a)[lo:hi:mx]
	}
	panic("unreachable")
}

func (st *State) concIdx(e *Expr) int { return st.concInt(e) }

// ---- type assertions

func (st *State) typeAssert(in *ssa.TypeAssert, x iface) value {
	ok := false
	var v value
	if x.t != nil {
		if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
			ok = st.implements(x.t, it)
			v = x
		} else {
			ok = identical(x.t, in.AssertedType)
			v = x.v
		}
	}
	if in.CommaOk {
		if !ok {
			return tuple{zero(in.AssertedType), eFalse}
		}
		return tuple{copyVal(v), eTrue}
	}
	if !ok {
		d := "nil"
		if x.t != nil {
			d = x.t.String()
		}
		st.panicIface(iface{st.eng.tErrorString, mkStr("interface conversion: interface is " + d + ", not " + in.AssertedType.String())})
	}
	return copyVal(v)
}

type implKey struct {
	t types.Type
	i *types.Interface
}

var implCache = newSyncCache[implKey, bool]()

func (st *State) implements(t types.Type, it *types.Interface) bool {
	return implCache.get(implKey{t, it}, func() bool { return types.Implements(t, it) })
}

// ---- builtins

func (st *State) builtin(fr *frame, b *ssa.Builtin, args []value, c *ssa.CallCommon) value {
	switch b.Name() {
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		dst := args[0].(slice)
		var src []value
		switch y := args[1].(type) {
		case slice:
			src = y
		case *Str:
			src = make([]value, y.len())
			for i := range src {
				src[i] = y.at(i)
			}
		}
		if len(src) == 0 {
			return dst
		}
		var el types.Type
		if c != nil {
			el = c.Args[0].Type().Underlying().(*types.Slice).Elem()
		}
		return st.appendSlice(dst, src, el)
	case "copy":
		dst := args[0].(slice)
		switch y := args[1].(type) {
		case slice:
			n := min(len(dst), len(y))
			st.wroteAll(dst[:n])
			tmp := make([]value, n)
			for i := 0; i < n; i++ {
				tmp[i] = copyVal(y[i])
			}
			for i := 0; i < n; i++ {
				store(&dst[i], tmp[i])
			}
			return K(64, uint64(n))
		case *Str:
			n := min(len(dst), y.len())
			st.wroteAll(dst[:n])
			for i := 0; i < n; i++ {
				dst[i] = y.at(i)
			}
			return K(64, uint64(n))
		}
	case "len":
		switch x := args[0].(type) {
		case *Str:
			return K(64, uint64(x.len()))
		case slice:
			return K(64, uint64(len(x)))
		case array:
			return K(64, uint64(len(x)))
		case *value:
			return K(64, uint64(len((*st.deref(x)).(array))))
		case *Map:
			if x == nil {
				return K(64, 0)
			}
			return K(64, uint64(x.n))
		case *Chan:
			if x == nil {
				return K(64, 0)
			}
			return K(64, uint64(len(x.buf)))
		}
	case "cap":
		switch x := args[0].(type) {
		case slice:
			return K(64, uint64(cap(x)))
		case array:
			return K(64, uint64(len(x)))
		case *value:
			return K(64, uint64(len((*st.deref(x)).(array))))
		case *Chan:
			return K(64, uint64(x.cap))
		}
	case "delete":
		m := args[0].(*Map)
		if m != nil {
			st.mapDelete(m, args[1])
		}
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *Map:
			if x != nil {
				st.wroteMap(x)
				for _, e := range x.entries {
					e.dead = true
				}
				x.entries, x.idx, x.n, x.symKeys = nil, nil, 0, false
			}
		case slice:
			el := c.Args[0].Type().Underlying().(*types.Slice).Elem()
			st.wroteAll(x)
			for i := range x {
				store(&x[i], zero(el))
			}
		}
		return nil
	case "Sizeof":
		return K(64, uint64(types.SizesFor("gc", "amd64").Sizeof(c.Args[0].Type())))
	case "min", "max":
		acc := args[0]
		t := c.Args[0].Type()
		for _, y := range args[1:] {
			if isFloat(t) {
				panic(unsupported{"float min/max"})
			}
			less := st.binop(token.LSS, t, y, acc, t).(*Expr)
			if b.Name() == "max" {
				less = st.binop(token.LSS, t, acc, y, t).(*Expr)
			}
			if e, ok := acc.(*Expr); ok {
				acc = st.ctx.Ite(less, y.(*Expr), e)
			} else if st.branch(less) {
				acc = y
			}
		}
		return acc
	case "panic":
		st.panicIface(args[0].(iface))
	case "recover":
		return st.doRecover()
	case "print", "println":
		return nil
	case "close":
		ch := args[0].(*Chan)
		if ch == nil || ch.closed {
			st.rtPanic("close of closed or nil channel")
		}
		ch.closed = true
		return nil
	case "ssa:wrapnilchk":
		p := args[0].(*value)
		if p == nil {
			st.rtPanic("value method called using nil pointer")
		}
		return p
	case "String": // unsafe.String
		return st.unsafeString(args)
	case "StringData", "SliceData":
		return unsafeData{args[0]}
	case "Slice":
		d, ok := args[0].(unsafeData)
		if ok {
			n := st.concInt(args[1].(*Expr))
			switch v := d.v.(type) {
			case *Str:
				r := make(slice, n)
				for i := range r {
					r[i] = v.at(i)
				}
				return r
			case slice:
				return v[:n]
			}
		}
	case "real", "imag", "complex":
		panic(unsupported{"complex"})
	}
	panic(unsupported{"builtin " + b.Name()})
}

type unsafeData struct{ v value }

func (st *State) unsafeString(args []value) value {
	n := st.concInt(args[1].(*Expr))
	switch d := args[0].(type) {
	case unsafeData:
		switch v := d.v.(type) {
		case slice:
			b := make([]*Expr, n)
			for i := range b {
				b[i] = v[i].(*Expr)
			}
			return mkStrB(b)
		case *Str:
			return v.slice(0, n)
		}
	case *value:
		if n == 0 {
			return emptyStr
		}
		if n == 1 {
			return mkStrB([]*Expr{(*d).(*Expr)})
		}
	}
	panic(unsupported{"unsafe.String"})
}

func (st *State) doRecover() value {
	// recover() is called from a deferred function: the panicking frame is the
	// caller of the frame that runs the recover call.
	n := len(st.frames)
	if n < 2 {
		return iface{}
	}
	fr := st.frames[n-2]
	if !fr.panicking {
		return iface{}
	}
	fr.panicking = false
	tp := fr.panicV.(targetPanic)
	fr.panicV = nil
	return tp.v
}

// appendSlice mirrors the runtime's growth policy so that aliasing through
// spare capacity is the real one.
func (st *State) appendSlice(dst slice, src []value, el types.Type) slice {
	n := len(dst) + len(src)
	if n <= cap(dst) {
		old := len(dst)
		r := dst[:n]
		st.wroteAll(r[old:])
		tmp := make([]value, len(src))
		for i := range src {
			tmp[i] = copyVal(src[i])
		}
		for i := range tmp {
			r[old+i] = tmp[i]
		}
		return r
	}
	nc := growCap(cap(dst), n, el)
	r := make(slice, nc)
	copy(r, dst)
	for i := range dst {
		r[i] = copyVal(dst[i])
	}
	for i := range src {
		r[len(dst)+i] = copyVal(src[i])
	}
	if nc > n {
		var z value = K(8, 0)
		agg := false
		if el != nil {
			z = zero(el)
			switch z.(type) {
			case structure, array:
				agg = true
			}
		}
		for i := n; i < nc; i++ {
			if agg {
				r[i] = zero(el)
			} else {
				r[i] = z
			}
		}
	}
	return r[:n]
}

var stdSizes = types.SizesFor("gc", "amd64")

var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func growCap(old, need int, el types.Type) int {
	nc := old
	if need > 2*old {
		nc = need
	} else if old < 256 {
		nc = 2 * old
	} else {
		for nc < need {
			nc += (nc + 3*256) / 4
		}
	}
	es := 1
	if el != nil {
		func() {
			defer func() { recover() }()
			es = int(stdSizes.Sizeof(el))
		}()
	}
	if es == 0 {
		return need
	}
	bytes := nc * es
	if bytes <= 32768 {
		for _, c := range sizeClasses {
			if c >= bytes {
				bytes = c
				break
			}
		}
	} else {
		bytes = (bytes + 8191) / 8192 * 8192
	}
	return bytes / es
}
