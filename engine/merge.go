package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// If-conversion: blocks that only compute are evaluated without forking, so
// that short-circuit conditions, switch chains and small conditional
// assignments become one condition instead of one path per alternative.

const mergeMax = 40

// pureBlock reports whether a block may be evaluated speculatively. Indexing,
// loads and lengths are checked again when they are evaluated.
func pureBlock(b *ssa.BasicBlock) bool {
	if len(b.Preds) != 1 || len(b.Instrs) > 24 {
		return false
	}
	basic := func(t types.Type) bool {
		switch u := t.Underlying().(type) {
		case *types.Basic:
			return u.Info()&(types.IsComplex|types.IsFloat) == 0
		case *types.Pointer:
			return true
		}
		return false
	}
	for _, in := range b.Instrs {
		switch in := in.(type) {
		case *ssa.BinOp:
			switch in.Op {
			case token.QUO, token.REM:
				return false
			case token.SHL, token.SHR:
				if _, ok := in.Y.(*ssa.Const); !ok {
					return false
				}
			}
			if !basic(in.X.Type()) || !basic(in.Y.Type()) {
				return false
			}
		case *ssa.UnOp:
			switch in.Op {
			case token.NOT, token.SUB, token.XOR, token.MUL:
			default:
				return false
			}
			if !basic(in.Type()) {
				return false
			}
		case *ssa.Convert:
			if !basic(in.X.Type()) || !basic(in.Type()) {
				return false
			}
			x, ok1 := in.X.Type().Underlying().(*types.Basic)
			y, ok2 := in.Type().Underlying().(*types.Basic)
			if !ok1 || !ok2 || x.Info()&types.IsInteger == 0 || y.Info()&types.IsInteger == 0 {
				return false
			}
		case *ssa.ChangeType:
			if !basic(in.Type()) {
				return false
			}
		case *ssa.Index, *ssa.Lookup, *ssa.IndexAddr, *ssa.FieldAddr, *ssa.DebugRef, *ssa.If, *ssa.Jump:
		case *ssa.Call:
			bi, ok := in.Call.Value.(*ssa.Builtin)
			if !ok || bi.Name() != "len" {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// specBlock evaluates a pure block; it reports false when an instruction could
// panic or fork.
func (fr *frame) specBlock(bi int) bool {
	st := fr.st
	b := &fr.fi.blocks[bi]
	if !b.pure {
		return false
	}
	for i := range b.ins {
		ci := &b.ins[i]
		get := func(k int) value { return fr.get(&ci.ops[k]) }
		inr := func(v value, n int) bool {
			e, ok := v.(*Expr)
			return ok && e.isConst() && e.val < uint64(n)
		}
		switch in := ci.in.(type) {
		case *ssa.If, *ssa.Jump:
			return true
		case *ssa.Index:
			s, ok := get(0).(*Str)
			if !ok || !inr(get(1), s.len()) {
				return false
			}
		case *ssa.Lookup:
			s, ok := get(0).(*Str)
			if !ok || !inr(get(1), s.len()) {
				return false
			}
		case *ssa.IndexAddr:
			switch x := get(0).(type) {
			case slice:
				if !inr(get(1), len(x)) {
					return false
				}
			case *value:
				if x == nil {
					return false
				}
				a, ok := (*x).(array)
				if !ok || !inr(get(1), len(a)) {
					return false
				}
			default:
				return false
			}
		case *ssa.FieldAddr:
			p, ok := get(0).(*value)
			if !ok || p == nil {
				return false
			}
			if _, ok := (*p).(structure); !ok {
				return false
			}
		case *ssa.UnOp:
			if in.Op == token.MUL {
				p, ok := get(0).(*value)
				if !ok || p == nil {
					return false
				}
			}
		case *ssa.Call:
			switch get(0).(type) {
			case *Str, slice:
			default:
				if len(ci.ops) < 2 {
					return false
				}
				switch get(1).(type) {
				case *Str, slice:
				default:
					return false
				}
			}
		case *ssa.BinOp:
			switch get(0).(type) {
			case *Expr, *Str, *value:
			default:
				return false
			}
		}
		_ = st
		fr.exec(ci, ci.in)
	}
	return false
}

type mexit struct {
	target, pred int
	cond         *Expr
}

type mgroup struct {
	target, pred int
	cond         *Expr
	vals         []value
}

func (fr *frame) expandIf(bi int, cond *Expr, exits []mexit, n *int) []mexit {
	b := &fr.fi.blocks[bi]
	bb := fr.fi.fn.Blocks[bi]
	c := fr.st.ctx
	e := fr.get(&b.ins[len(b.ins)-1].ops[0]).(*Expr)
	for k, s := range bb.Succs {
		ck := e
		if k == 1 {
			ck = c.Not(e)
		}
		ck = c.And(cond, ck)
		if ck.isFalse() {
			continue
		}
		si := s.Index
		if *n < mergeMax && fr.fi.blocks[si].pure {
			*n++
			if fr.specBlock(si) {
				if len(s.Succs) == 1 {
					exits = append(exits, mexit{s.Succs[0].Index, si, ck})
				} else {
					exits = fr.expandIf(si, ck, exits, n)
				}
				continue
			}
		}
		exits = append(exits, mexit{si, bi, ck})
	}
	return exits
}

func sameVal(a, b value) bool {
	switch x := a.(type) {
	case *Expr:
		y, ok := b.(*Expr)
		return ok && x == y
	case *Str:
		y, ok := b.(*Str)
		return ok && (x == y || x.conc() && y.conc() && x.s == y.s)
	case *value:
		y, ok := b.(*value)
		return ok && x == y
	case *Map:
		y, ok := b.(*Map)
		return ok && x == y
	case slice:
		y, ok := b.(slice)
		return ok && len(x) == len(y) && cap(x) == cap(y) && (x == nil) == (y == nil) && (cap(x) == 0 || &x[:1][0] == &y[:1][0])
	case iface:
		y, ok := b.(iface)
		return ok && x.t == nil && y.t == nil
	}
	return false
}

func (fr *frame) phiVals(target, pred int) []value {
	b := &fr.fi.blocks[target]
	if b.nphi == 0 {
		return nil
	}
	pi := -1
	for j, p := range fr.fi.fn.Blocks[target].Preds {
		if p.Index == pred {
			pi = j
			break
		}
	}
	vals := make([]value, b.nphi)
	for j := range vals {
		vals[j] = fr.get(&b.ins[j].ops[pi])
	}
	return vals
}

// mergeIf decides the If that ends block bi.
func (fr *frame) mergeIf(bi int) (next, pred int, vals []value, ok bool) {
	bb := fr.fi.fn.Blocks[bi]
	if !fr.fi.blocks[bb.Succs[0].Index].pure && !fr.fi.blocks[bb.Succs[1].Index].pure {
		return
	}
	c := fr.st.ctx
	var buf [16]mexit
	n := 0
	exits := fr.expandIf(bi, eTrue, buf[:0], &n)
	if n == 0 || len(exits) == 0 {
		return
	}
	var groups []mgroup
next:
	for _, x := range exits {
		vals := fr.phiVals(x.target, x.pred)
	cand:
		for gi := range groups {
			g := &groups[gi]
			if g.target != x.target {
				continue
			}
			for j := range vals {
				if sameVal(g.vals[j], vals[j]) {
					continue
				}
				a, ok1 := g.vals[j].(*Expr)
				b, ok2 := vals[j].(*Expr)
				if !ok1 || !ok2 || a.w != b.w || a.w != 0 && a.w != 8 && a.w != 32 {
					continue cand
				}
			}
			for j := range vals {
				if !sameVal(g.vals[j], vals[j]) {
					g.vals[j] = c.Ite(x.cond, vals[j].(*Expr), g.vals[j].(*Expr))
				}
			}
			g.cond = c.Or(g.cond, x.cond)
			continue next
		}
		groups = append(groups, mgroup{x.target, x.pred, x.cond, vals})
	}
	if len(groups) == len(exits) && len(exits) > 1 {
		return
	}
	gi := 0
	for gi < len(groups)-1 && !fr.st.branch(groups[gi].cond) {
		gi++
	}
	g := groups[gi]
	return g.target, g.pred, g.vals, true
}
