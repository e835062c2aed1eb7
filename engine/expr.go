package main

import (
	"fmt"
	"math"
	"math/bits"
	"strconv"
	"strings"
	"sync"
)

// Expr is a hash-consed SMT term. w==0 means Bool, otherwise a bit-vector of
// width w (floats are carried as their IEEE bit patterns).
type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OIte
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	ONeg
	OShl
	OLShr
	OAShr
	OUlt
	OUle
	OSlt
	OSle
	OExtract // val = lo ; w = width
	OZExt
	OSExt
	OMulHiU
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFNeg
	OFLt
	OFLe
	OFEq
	OFToF  // float width conversion
	OFToSI // float -> signed int
	OFToUI
	OSIToF
	OUIToF
	OFSqrt
)

type Expr struct {
	op   Op
	w    uint8
	n    uint8
	a    [3]*Expr
	val  uint64
	name string
	id   int
	vi   int // variable index for OVar
	vset []uint64
	gen  int
	ev   uint64
}

type ekey struct {
	op      Op
	w       uint8
	a, b, c *Expr
	val     uint64
}

type Ctx struct {
	tab  map[ekey]*Expr
	vars []*Expr
	nid  int
	gen  int

	bnd   map[*Expr]ival
	rmemo map[*Expr]ivalMemo
	bgen  int
}

func newCtx() *Ctx { return &Ctx{tab: make(map[ekey]*Expr, 1024)} }

// ---- constants (globally interned)

type ckey struct {
	w   uint8
	val uint64
}

var (
	constTab  sync.Map
	constByte [256]*Expr
	const64   [2048]*Expr
	eTrue     = &Expr{op: OConst, w: 0, val: 1}
	eFalse    = &Expr{op: OConst, w: 0, val: 0}
)

func init() {
	for i := range constByte {
		constByte[i] = &Expr{op: OConst, w: 8, val: uint64(i)}
	}
	for i := range const64 {
		const64[i] = &Expr{op: OConst, w: 64, val: uint64(i)}
	}
}

func mask(w uint8, v uint64) uint64 {
	if w >= 64 {
		return v
	}
	return v & (1<<w - 1)
}

func sext(w uint8, v uint64) int64 {
	if w >= 64 {
		return int64(v)
	}
	return int64(v<<(64-w)) >> (64 - w)
}

func K(w uint8, v uint64) *Expr {
	v = mask(w, v)
	switch w {
	case 8:
		return constByte[v]
	case 64:
		if v < uint64(len(const64)) {
			return const64[v]
		}
	}
	k := ckey{w, v}
	if e, ok := constTab.Load(k); ok {
		return e.(*Expr)
	}
	e, _ := constTab.LoadOrStore(k, &Expr{op: OConst, w: w, val: v})
	return e.(*Expr)
}

func KB(b bool) *Expr {
	if b {
		return eTrue
	}
	return eFalse
}

func (e *Expr) isConst() bool { return e.op == OConst }
func (e *Expr) isTrue() bool  { return e == eTrue }
func (e *Expr) isFalse() bool { return e == eFalse }

func (c *Ctx) mk(op Op, w uint8, val uint64, args ...*Expr) *Expr {
	k := ekey{op: op, w: w, val: val}
	switch len(args) {
	case 3:
		k.c = args[2]
		fallthrough
	case 2:
		k.b = args[1]
		fallthrough
	case 1:
		k.a = args[0]
	}
	if e, ok := c.tab[k]; ok {
		return e
	}
	c.nid++
	e := &Expr{op: op, w: w, val: val, id: c.nid, n: uint8(len(args))}
	copy(e.a[:], args)
	c.tab[k] = e
	return e
}

func (c *Ctx) Var(name string, w uint8) *Expr {
	c.nid++
	e := &Expr{op: OVar, w: w, name: name, id: c.nid, vi: len(c.vars)}
	c.vars = append(c.vars, e)
	return e
}

func (c *Ctx) Not(a *Expr) *Expr {
	if a.isConst() {
		return KB(a.val == 0)
	}
	if a.op == ONot {
		return a.a[0]
	}
	return c.mk(ONot, 0, 0, a)
}

func (c *Ctx) And(a, b *Expr) *Expr {
	if a.isFalse() || b.isFalse() {
		return eFalse
	}
	if a.isTrue() {
		return b
	}
	if b.isTrue() || a == b {
		return a
	}
	if a.op == ONot && a.a[0] == b || b.op == ONot && b.a[0] == a {
		return eFalse
	}
	return c.mk(OAnd, 0, 0, a, b)
}

func (c *Ctx) Or(a, b *Expr) *Expr {
	if a.isTrue() || b.isTrue() {
		return eTrue
	}
	if a.isFalse() {
		return b
	}
	if b.isFalse() || a == b {
		return a
	}
	if a.op == ONot && a.a[0] == b || b.op == ONot && b.a[0] == a {
		return eTrue
	}
	return c.mk(OOr, 0, 0, a, b)
}

func (c *Ctx) Eq(a, b *Expr) *Expr {
	if a == b {
		return eTrue
	}
	if a.w != b.w {
		panic(fmt.Sprintf("Eq width mismatch %d %d", a.w, b.w))
	}
	if a.isConst() && b.isConst() {
		return KB(a.val == b.val)
	}
	if a.isConst() {
		a, b = b, a
	}
	if a.w == 0 {
		if b.isTrue() {
			return a
		}
		if b.isFalse() {
			return c.Not(a)
		}
	}
	if b.isConst() {
		switch a.op {
		case OZExt:
			in := a.a[0]
			if b.val > mask(in.w, ^uint64(0)) {
				return eFalse
			}
			return c.Eq(in, K(in.w, b.val))
		case OSExt:
			in := a.a[0]
			if mask(a.w, uint64(sext(in.w, mask(in.w, b.val)))) != b.val {
				return eFalse
			}
			return c.Eq(in, K(in.w, b.val))
		case OIte:
			t, f := a.a[1], a.a[2]
			if t.isConst() && f.isConst() {
				if t.val == b.val {
					if f.val == b.val {
						return eTrue
					}
					return a.a[0]
				}
				if f.val == b.val {
					return c.Not(a.a[0])
				}
				return eFalse
			}
			if t.isConst() || f.isConst() {
				return c.Ite(a.a[0], c.Eq(t, b), c.Eq(f, b))
			}
		case OAdd:
			if a.a[1].isConst() {
				return c.Eq(a.a[0], K(a.w, b.val-a.a[1].val))
			}
		}
	} else if a.op == OZExt && b.op == OZExt && a.a[0].w == b.a[0].w {
		return c.Eq(a.a[0], b.a[0])
	} else if a.op == OSExt && b.op == OSExt && a.a[0].w == b.a[0].w {
		return c.Eq(a.a[0], b.a[0])
	}
	if !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	if a.w > 0 {
		if ra, rb := c.rng(a), c.rng(b); ra.hi < rb.lo || rb.hi < ra.lo {
			return eFalse
		}
	}
	if a.w == 64 && !b.isConst() && (isLin(a) || isLin(b)) {
		var ts []linTerm
		var k uint64
		if c.linear(a, 1, &ts, &k) && c.linear(b, ^uint64(0), &ts, &k) {
			zero := true
			for _, t := range ts {
				zero = zero && t.k == 0
			}
			if zero {
				return KB(k == 0)
			}
		}
	}
	return c.mk(OEq, 0, 0, a, b)
}

func (c *Ctx) Ite(cond, t, f *Expr) *Expr {
	if cond.isTrue() {
		return t
	}
	if cond.isFalse() {
		return f
	}
	if t == f {
		return t
	}
	if t.w != f.w {
		panic("Ite width mismatch")
	}
	if t.w == 0 {
		if t.isTrue() {
			return c.Or(cond, f)
		}
		if t.isFalse() {
			return c.And(c.Not(cond), f)
		}
		if f.isTrue() {
			return c.Or(c.Not(cond), t)
		}
		if f.isFalse() {
			return c.And(cond, t)
		}
	}
	return c.mk(OIte, t.w, 0, cond, t, f)
}

// zmax returns an upper bound on e as unsigned.
func zmax(e *Expr) uint64 {
	switch e.op {
	case OConst:
		return e.val
	case OZExt:
		return zmax(e.a[0])
	case OBAnd:
		return min(zmax(e.a[0]), zmax(e.a[1]))
	case OIte:
		return max(zmax(e.a[1]), zmax(e.a[2]))
	case OURem:
		if e.a[1].isConst() && e.a[1].val > 0 {
			return e.a[1].val - 1
		}
	case OLShr:
		if e.a[1].isConst() && e.a[1].val < 64 {
			return zmax(e.a[0]) >> e.a[1].val
		}
	case OUDiv:
		if e.a[1].isConst() && e.a[1].val > 0 {
			return zmax(e.a[0]) / e.a[1].val
		}
	case OBOr, OBXor:
		m := zmax(e.a[0]) | zmax(e.a[1])
		if m == 0 {
			return 0
		}
		n := bits.Len64(m)
		if n >= 64 {
			return ^uint64(0)
		}
		return 1<<n - 1
	case OAdd:
		x, y := zmax(e.a[0]), zmax(e.a[1])
		s := x + y
		if s >= x && s <= mask(e.w, ^uint64(0)) {
			return s
		}
	}
	return mask(e.w, ^uint64(0))
}

func (c *Ctx) Ult(a, b *Expr) *Expr {
	if a == b {
		return eFalse
	}
	if a.isConst() && b.isConst() {
		return KB(a.val < b.val)
	}
	if b.isConst() {
		if b.val == 0 {
			return eFalse
		}
		if b.val == 1 {
			return c.Eq(a, K(a.w, 0))
		}
		if zmax(a) < b.val {
			return eTrue
		}
		if a.op == OZExt {
			in := a.a[0]
			if b.val > mask(in.w, ^uint64(0)) {
				return eTrue
			}
			return c.Ult(in, K(in.w, b.val))
		}
	}
	if a.isConst() {
		if zmax(b) <= a.val {
			return eFalse
		}
		if b.op == OZExt {
			in := b.a[0]
			return c.Ult(K(in.w, a.val), in)
		}
	}
	if a.op == OZExt && b.op == OZExt && a.a[0].w == b.a[0].w {
		return c.Ult(a.a[0], b.a[0])
	}
	if ra, rb := c.rng(a), c.rng(b); ra.lo >= 0 && rb.lo >= 0 {
		if ra.hi < rb.lo {
			return eTrue
		}
		if ra.lo >= rb.hi {
			return eFalse
		}
	}
	if lo, hi, ok := c.linDiff(a, b); ok {
		if lo.Sign() > 0 {
			return eTrue
		}
		if hi.Sign() <= 0 {
			return eFalse
		}
	}
	return c.mk(OUlt, 0, 0, a, b)
}

func (c *Ctx) Ule(a, b *Expr) *Expr { return c.Not(c.Ult(b, a)) }

func (c *Ctx) Slt(a, b *Expr) *Expr {
	if a == b {
		return eFalse
	}
	if a.isConst() && b.isConst() {
		return KB(sext(a.w, a.val) < sext(b.w, b.val))
	}
	half := uint64(1) << (a.w - 1)
	an, bn := zmax(a) < half, zmax(b) < half
	if an && bn {
		return c.Ult(a, b)
	}
	if an && b.isConst() { // b negative
		return eFalse
	}
	if bn && a.isConst() { // a negative
		return eTrue
	}
	if a.op == OSExt && b.op == OSExt && a.a[0].w == b.a[0].w {
		return c.Slt(a.a[0], b.a[0])
	}
	if a.op == OSExt && b.isConst() {
		in := a.a[0]
		v := sext(b.w, b.val)
		lo, hi := -(int64(1) << (in.w - 1)), int64(1)<<(in.w-1)-1
		if v <= lo {
			return eFalse
		}
		if v > hi {
			return eTrue
		}
		return c.Slt(in, K(in.w, uint64(v)))
	}
	if b.op == OSExt && a.isConst() {
		in := b.a[0]
		v := sext(a.w, a.val)
		lo, hi := -(int64(1) << (in.w - 1)), int64(1)<<(in.w-1)-1
		if v >= hi {
			return eFalse
		}
		if v < lo {
			return eTrue
		}
		return c.Slt(K(in.w, uint64(v)), in)
	}
	ra, rb := c.rng(a), c.rng(b)
	if ra.hi < rb.lo {
		return eTrue
	}
	if ra.lo >= rb.hi {
		return eFalse
	}
	if ra.lo >= 0 && rb.lo >= 0 {
		return c.Ult(a, b)
	}
	return c.mk(OSlt, 0, 0, a, b)
}

func (c *Ctx) Sle(a, b *Expr) *Expr { return c.Not(c.Slt(b, a)) }

func foldBin(op Op, w uint8, x, y uint64) (uint64, bool) {
	switch op {
	case OAdd:
		return x + y, true
	case OSub:
		return x - y, true
	case OMul:
		return x * y, true
	case OUDiv:
		if y == 0 {
			return ^uint64(0), true
		}
		return x / y, true
	case OURem:
		if y == 0 {
			return x, true
		}
		return x % y, true
	case OSDiv:
		a, b := sext(w, x), sext(w, y)
		if b == 0 {
			if a < 0 {
				return 1, true
			}
			return ^uint64(0), true
		}
		if b == -1 {
			return uint64(-a), true
		}
		return uint64(a / b), true
	case OSRem:
		a, b := sext(w, x), sext(w, y)
		if b == 0 {
			return x, true
		}
		if b == -1 {
			return 0, true
		}
		return uint64(a % b), true
	case OBAnd:
		return x & y, true
	case OBOr:
		return x | y, true
	case OBXor:
		return x ^ y, true
	case OShl:
		if y >= uint64(w) {
			return 0, true
		}
		return x << y, true
	case OLShr:
		if y >= uint64(w) {
			return 0, true
		}
		return x >> y, true
	case OAShr:
		if y >= uint64(w) {
			y = uint64(w - 1)
		}
		return uint64(sext(w, x) >> y), true
	case OMulHiU:
		if w == 64 {
			hi, _ := bits.Mul64(x, y)
			return hi, true
		}
		return (x * y) >> w, true
	}
	return 0, false
}

func (c *Ctx) Bin(op Op, a, b *Expr) *Expr {
	if a.w != b.w {
		panic(fmt.Sprintf("Bin width mismatch op %d: %d %d", op, a.w, b.w))
	}
	w := a.w
	if a.isConst() && b.isConst() {
		if v, ok := foldBin(op, w, a.val, b.val); ok {
			return K(w, v)
		}
	}
	switch op {
	case OAdd:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.val == 0 {
				return a
			}
			if a.op == OAdd && a.a[1].isConst() {
				return c.Bin(OAdd, a.a[0], K(w, a.a[1].val+b.val))
			}
			break
		}
		// constants outwards
		if a.op == OAdd && a.a[1].isConst() {
			return c.Bin(OAdd, c.Bin(OAdd, a.a[0], b), a.a[1])
		}
		if b.op == OAdd && b.a[1].isConst() {
			return c.Bin(OAdd, c.Bin(OAdd, a, b.a[0]), b.a[1])
		}
		// (x/k)*k + x%k = x
		for i := 0; i < 2; i++ {
			if d, _, ok := asDivMul(a); ok && (b.op == OURem || b.op == OSRem) && b.a[0] == d.a[0] && b.a[1] == d.a[1] && (b.op == OURem) == (d.op == OUDiv) {
				return d.a[0]
			}
			a, b = b, a
		}
	case OSub:
		if a == b {
			return K(w, 0)
		}
		// x - (x/k)*k = x%k
		if d, _, ok := asDivMul(b); ok && d.a[0] == a {
			if d.op == OUDiv {
				return c.Bin(OURem, a, d.a[1])
			}
			return c.Bin(OSRem, a, d.a[1])
		}
		if b.isConst() {
			return c.Bin(OAdd, a, K(w, -b.val))
		}
	case OMul:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			switch b.val {
			case 0:
				return b
			case 1:
				return a
			}
			if a.op == OAdd && a.a[1].isConst() {
				return c.Bin(OAdd, c.Bin(OMul, a.a[0], b), K(w, a.a[1].val*b.val))
			}
			// (x/k)*k = x when x%k is known to be 0
			if (a.op == OUDiv || a.op == OSDiv) && a.a[1] == b {
				op := OURem
				if a.op == OSDiv {
					op = OSRem
				}
				if r := c.rng(c.Bin(op, a.a[0], b)); r.lo == 0 && r.hi == 0 {
					return a.a[0]
				}
			}
		}
	case OUDiv:
		if b.isConst() {
			if b.val == 1 {
				return a
			}
			if b.val != 0 && zmax(a) < b.val {
				return K(w, 0)
			}
			if b.val != 0 && b.val&(b.val-1) == 0 {
				return c.Bin(OLShr, a, K(w, uint64(bits.TrailingZeros64(b.val))))
			}
			if q, _, ok := c.splitLinear(a, b.val); ok {
				return q
			}
			if kv := sext(w, b.val); kv > 0 {
				if r := c.rng(a); r.lo >= 0 && r.lo/kv == r.hi/kv {
					return K(w, uint64(r.lo/kv))
				}
			}
		}
	case OURem:
		if b.isConst() {
			if b.val == 1 {
				return K(w, 0)
			}
			if b.val != 0 && zmax(a) < b.val {
				return a
			}
			if b.val != 0 && b.val&(b.val-1) == 0 {
				return c.Bin(OBAnd, a, K(w, b.val-1))
			}
			if _, r, ok := c.splitLinear(a, b.val); ok {
				return r
			}
			if kv := sext(w, b.val); kv > 0 {
				if r := c.rng(a); r.lo >= 0 && r.lo/kv == r.hi/kv {
					return c.Bin(OSub, a, K(w, uint64(r.lo/kv*kv)))
				}
			}
		}
	case OSDiv, OSRem:
		half := uint64(1) << (w - 1)
		if zmax(a) < half && zmax(b) < half {
			if op == OSDiv {
				return c.Bin(OUDiv, a, b)
			}
			return c.Bin(OURem, a, b)
		}
		if b.isConst() && b.val == 1 {
			if op == OSDiv {
				return a
			}
			return K(w, 0)
		}
		if kv := sext(w, b.val); b.isConst() && kv > 0 {
			r := c.rng(a)
			if r.lo >= 0 {
				if op == OSDiv {
					return c.Bin(OUDiv, a, b)
				}
				return c.Bin(OURem, a, b)
			}
			if r.lo/kv == r.hi/kv {
				if op == OSDiv {
					return K(w, uint64(r.lo/kv))
				}
				return c.Bin(OSub, a, K(w, uint64(r.lo/kv*kv)))
			}
		}
	case OBAnd:
		if a.isConst() {
			a, b = b, a
		}
		if a == b {
			return a
		}
		if b.isConst() {
			if b.val == 0 {
				return b
			}
			if b.val == mask(w, ^uint64(0)) {
				return a
			}
			if (b.val+1)&b.val == 0 {
				if zmax(a) <= b.val {
					return a
				}
				if r := c.rng(a); r.lo >= 0 && uint64(r.hi) <= b.val {
					return a
				}
			}
		}
	case OBOr, OBXor:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() && b.val == 0 {
			return a
		}
		if a == b {
			if op == OBOr {
				return a
			}
			return K(w, 0)
		}
		if op == OBOr && b.isConst() && b.val == mask(w, ^uint64(0)) {
			return b
		}
	case OShl, OLShr, OAShr:
		if b.isConst() {
			if b.val == 0 {
				return a
			}
			if b.val >= uint64(w) && op != OAShr {
				return K(w, 0)
			}
		}
		if op == OAShr && zmax(a) < uint64(1)<<(w-1) {
			return c.Bin(OLShr, a, b)
		}
		if op == OLShr && b.isConst() && b.val < 64 && zmax(a)>>b.val == 0 {
			return K(w, 0)
		}
	}
	return c.mk(op, w, 0, a, b)
}

func (c *Ctx) Neg(a *Expr) *Expr {
	if a.isConst() {
		return K(a.w, -a.val)
	}
	if a.op == ONeg {
		return a.a[0]
	}
	return c.mk(ONeg, a.w, 0, a)
}

func (c *Ctx) BNot(a *Expr) *Expr {
	if a.isConst() {
		return K(a.w, ^a.val)
	}
	return c.mk(OBNot, a.w, 0, a)
}

func (c *Ctx) ZExt(a *Expr, w uint8) *Expr {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return K(w, a.val)
	}
	if a.op == OZExt {
		return c.ZExt(a.a[0], w)
	}
	if a.op == OIte && a.a[1].isConst() && a.a[2].isConst() {
		return c.Ite(a.a[0], K(w, a.a[1].val), K(w, a.a[2].val))
	}
	if a.op == OExtract && a.val == 0 && a.a[0].w == w {
		if r := c.rng(a.a[0]); r.lo >= 0 && uint64(r.hi) <= mask(a.w, ^uint64(0)) {
			return a.a[0]
		}
	}
	return c.mk(OZExt, w, 0, a)
}

func (c *Ctx) SExt(a *Expr, w uint8) *Expr {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return K(w, uint64(sext(a.w, a.val)))
	}
	if a.op == OZExt { // strictly wider, so the sign bit is 0
		return c.ZExt(a.a[0], w)
	}
	if zmax(a) < uint64(1)<<(a.w-1) {
		return c.ZExt(a, w)
	}
	if a.op == OSExt {
		return c.SExt(a.a[0], w)
	}
	if a.op == OExtract && a.val == 0 && a.a[0].w == w {
		f := fullIval(a.w)
		if r := c.rng(a.a[0]); r.lo >= f.lo && r.hi <= f.hi {
			return a.a[0]
		}
	}
	if c.rng(a).lo >= 0 {
		return c.ZExt(a, w)
	}
	return c.mk(OSExt, w, 0, a)
}

// Trunc extracts the low w bits.
func (c *Ctx) Trunc(a *Expr, w uint8) *Expr { return c.Extract(a, 0, w) }

func (c *Ctx) Extract(a *Expr, lo uint64, w uint8) *Expr {
	if lo == 0 && a.w == w {
		return a
	}
	if a.isConst() {
		return K(w, a.val>>lo)
	}
	if lo == 0 && (a.op == OZExt || a.op == OSExt) {
		in := a.a[0]
		if in.w == w {
			return in
		}
		if in.w > w {
			return c.Extract(in, 0, w)
		}
		if a.op == OZExt {
			return c.ZExt(in, w)
		}
		return c.SExt(in, w)
	}
	if a.op == OExtract {
		return c.Extract(a.a[0], a.val+lo, w)
	}
	if lo == 0 && a.op == OAdd && a.a[1].isConst() {
		return c.Bin(OAdd, c.Extract(a.a[0], 0, w), K(w, a.a[1].val))
	}
	if a.op == OIte && a.a[1].isConst() && a.a[2].isConst() {
		return c.Ite(a.a[0], K(w, a.a[1].val>>lo), K(w, a.a[2].val>>lo))
	}
	return c.mk(OExtract, w, lo, a)
}

func (c *Ctx) FP(op Op, w uint8, args ...*Expr) *Expr {
	all := true
	for _, a := range args {
		if !a.isConst() {
			all = false
		}
	}
	var vals [3]uint64
	for i, a := range args {
		vals[i] = a.val
	}
	if all {
		v := evalFP(op, w, args[0].w, vals)
		if w == 0 {
			return KB(v != 0)
		}
		return K(w, v)
	}
	return c.mk(op, w, 0, args...)
}

func f64of(w uint8, v uint64) float64 {
	if w == 32 {
		return float64(math.Float32frombits(uint32(v)))
	}
	return math.Float64frombits(v)
}

func fbits(w uint8, f float64) uint64 {
	if w == 32 {
		return uint64(math.Float32bits(float32(f)))
	}
	return math.Float64bits(f)
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func evalFP(op Op, w, aw uint8, v [3]uint64) uint64 {
	if w == 32 && aw == 32 {
		x, y := math.Float32frombits(uint32(v[0])), math.Float32frombits(uint32(v[1]))
		switch op {
		case OFAdd:
			return uint64(math.Float32bits(x + y))
		case OFSub:
			return uint64(math.Float32bits(x - y))
		case OFMul:
			return uint64(math.Float32bits(x * y))
		case OFDiv:
			return uint64(math.Float32bits(x / y))
		}
	}
	x, y := f64of(aw, v[0]), f64of(aw, v[1])
	switch op {
	case OFAdd:
		return fbits(w, x+y)
	case OFSub:
		return fbits(w, x-y)
	case OFMul:
		return fbits(w, x*y)
	case OFDiv:
		return fbits(w, x/y)
	case OFNeg:
		return mask(w, v[0]^(1<<(w-1)))
	case OFSqrt:
		return fbits(w, math.Sqrt(x))
	case OFLt:
		return b2u(x < y)
	case OFLe:
		return b2u(x <= y)
	case OFEq:
		return b2u(x == y)
	case OFToF:
		return fbits(w, x)
	case OFToSI:
		return mask(w, uint64(int64(x)))
	case OFToUI:
		return mask(w, uint64(x))
	case OSIToF:
		if w == 32 {
			return uint64(math.Float32bits(float32(sext(aw, v[0]))))
		}
		return fbits(w, float64(sext(aw, v[0])))
	case OUIToF:
		if w == 32 {
			return uint64(math.Float32bits(float32(v[0])))
		}
		return fbits(w, float64(v[0]))
	}
	panic("evalFP")
}

// ---- evaluation under a model

type Model []uint64 // indexed by variable index

func (m Model) get(i int) uint64 {
	if i < len(m) {
		return m[i]
	}
	return 0
}

func (c *Ctx) Eval(e *Expr, m Model) uint64 {
	c.gen++
	return c.eval(e, m)
}

func (c *Ctx) eval(e *Expr, m Model) uint64 {
	if e.op == OConst {
		return e.val
	}
	if e.gen == c.gen {
		return e.ev
	}
	var r uint64
	switch e.op {
	case OVar:
		r = mask8(e.w, m.get(e.vi))
	case ONot:
		r = 1 - c.eval(e.a[0], m)
	case OAnd:
		r = 0
		if c.eval(e.a[0], m) != 0 && c.eval(e.a[1], m) != 0 {
			r = 1
		}
	case OOr:
		r = 0
		if c.eval(e.a[0], m) != 0 || c.eval(e.a[1], m) != 0 {
			r = 1
		}
	case OEq:
		r = b2u(c.eval(e.a[0], m) == c.eval(e.a[1], m))
	case OIte:
		if c.eval(e.a[0], m) != 0 {
			r = c.eval(e.a[1], m)
		} else {
			r = c.eval(e.a[2], m)
		}
	case OUlt:
		r = b2u(c.eval(e.a[0], m) < c.eval(e.a[1], m))
	case OSlt:
		w := e.a[0].w
		r = b2u(sext(w, c.eval(e.a[0], m)) < sext(w, c.eval(e.a[1], m)))
	case ONeg:
		r = mask(e.w, -c.eval(e.a[0], m))
	case OBNot:
		r = mask(e.w, ^c.eval(e.a[0], m))
	case OZExt:
		r = c.eval(e.a[0], m)
	case OSExt:
		r = mask(e.w, uint64(sext(e.a[0].w, c.eval(e.a[0], m))))
	case OExtract:
		r = mask(e.w, c.eval(e.a[0], m)>>e.val)
	default:
		if e.op >= OFAdd {
			var v [3]uint64
			for i := 0; i < int(e.n); i++ {
				v[i] = c.eval(e.a[i], m)
			}
			r = evalFP(e.op, e.w, e.a[0].w, v)
		} else {
			x := c.eval(e.a[0], m)
			y := c.eval(e.a[1], m)
			v, ok := foldBin(e.op, e.w, x, y)
			if !ok {
				panic("eval: op")
			}
			r = mask(e.w, v)
		}
	}
	e.gen = c.gen
	e.ev = r
	return r
}

func mask8(w uint8, v uint64) uint64 {
	if w == 0 {
		return v & 1
	}
	return mask(w, v)
}

// ---- variable sets

func (e *Expr) vars() []uint64 {
	if e.op == OConst {
		return nil
	}
	if e.vset != nil {
		return e.vset
	}
	var s []uint64
	if e.op == OVar {
		s = make([]uint64, e.vi/64+1)
		s[e.vi/64] |= 1 << (e.vi % 64)
	} else {
		for i := 0; i < int(e.n); i++ {
			s = bsOr(s, e.a[i].vars())
		}
	}
	if s == nil {
		s = []uint64{}
	}
	e.vset = s
	return s
}

func bsOr(a, b []uint64) []uint64 {
	if len(b) > len(a) {
		a, b = b, a
	}
	sub := true
	for i := range b {
		if b[i]&^a[i] != 0 {
			sub = false
			break
		}
	}
	if sub {
		return a
	}
	r := append([]uint64(nil), a...)
	for i := range b {
		r[i] |= b[i]
	}
	return r
}

func bsInter(a, b []uint64) bool {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i]&b[i] != 0 {
			return true
		}
	}
	return false
}

// ---- SMT-LIB printing

type smtPrinter struct {
	sb    strings.Builder
	names map[*Expr]string
	refs  map[*Expr]int
	n     int
	decl  []*Expr
	ackFP bool
	divs  map[divKey]int
}

type divKey struct {
	n      *Expr
	c      uint64
	signed bool
}

// div names the quotient and remainder of a division by a constant. They are
// fresh constants pinned down by multiplication and range constraints, which
// the solver handles far better than a divider circuit.
func (p *smtPrinter) div(e *Expr, n string) (q, r string) {
	signed := e.op == OSDiv || e.op == OSRem
	k := divKey{e.a[0], e.a[1].val, signed}
	id, ok := p.divs[k]
	if !ok {
		if p.divs == nil {
			p.divs = map[divKey]int{}
		}
		id = len(p.divs) + 1
		p.divs[k] = id
	}
	q, r = fmt.Sprintf("dq%d", id), fmt.Sprintf("dr%d", id)
	if ok {
		return
	}
	w, c := e.w, e.a[1].val
	so := sortOf(w)
	kk := func(v uint64) string { return constStr(&Expr{op: OConst, w: w, val: mask(w, v)}) }
	fmt.Fprintf(&p.sb, "(declare-const %s %s)\n(declare-const %s %s)\n", q, so, r, so)
	fmt.Fprintf(&p.sb, "(assert (= %s (bvadd (bvmul %s %s) %s)))\n", n, q, kk(c), r)
	if !signed {
		m := mask(w, ^uint64(0))
		fmt.Fprintf(&p.sb, "(assert (and (bvule %s %s) (bvult %s %s) (=> (= %s %s) (bvule %s %s))))\n",
			q, kk(m/c), r, kk(c), q, kk(m/c), r, kk(m%c))
		return
	}
	hi := uint64(1) << (w - 1)
	qp, rp, qn, rn := (hi-1)/c, (hi-1)%c, hi/c, hi%c
	fmt.Fprintf(&p.sb, "(assert (ite (bvsge %s %s) (and (bvule %s %s) (bvult %s %s) (=> (= %s %s) (bvule %s %s))) (and (bvule (bvneg %s) %s) (bvult (bvneg %s) %s) (=> (= (bvneg %s) %s) (bvule (bvneg %s) %s)))))\n",
		n, kk(0), q, kk(qp), r, kk(c), q, kk(qp), r, kk(rp),
		q, kk(qn), r, kk(c), q, kk(qn), r, kk(rn))
	return
}

func sortOf(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return "(_ BitVec " + strconv.Itoa(int(w)) + ")"
}

func (p *smtPrinter) count(e *Expr) {
	if e.op == OConst {
		return
	}
	p.refs[e]++
	if p.refs[e] > 1 {
		return
	}
	if e.op == OVar {
		p.decl = append(p.decl, e)
		return
	}
	for i := 0; i < int(e.n); i++ {
		p.count(e.a[i])
	}
}

func constStr(e *Expr) string {
	if e.w == 0 {
		if e.val != 0 {
			return "true"
		}
		return "false"
	}
	if e.w%4 == 0 {
		return fmt.Sprintf("#x%0*x", int(e.w)/4, e.val)
	}
	return fmt.Sprintf("(_ bv%d %d)", e.val, e.w)
}

var smtNames = map[Op]string{
	ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OIte: "ite",
	OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OSDiv: "bvsdiv",
	OURem: "bvurem", OSRem: "bvsrem", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor",
	OBNot: "bvnot", ONeg: "bvneg", OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr",
	OUlt: "bvult", OSlt: "bvslt",
}

func fpOf(w uint8, s string) string {
	if w == 32 {
		return "((_ to_fp 8 24) " + s + ")"
	}
	return "((_ to_fp 11 53) " + s + ")"
}

func fpSort(w uint8) string {
	if w == 32 {
		return "8 24"
	}
	return "11 53"
}

// str renders e; shared nodes get define-fun names emitted before use.
func (p *smtPrinter) str(e *Expr) string {
	if e.op == OConst {
		return constStr(e)
	}
	if e.op == OVar {
		return e.name
	}
	if n, ok := p.names[e]; ok {
		return n
	}
	var a [3]string
	for i := 0; i < int(e.n); i++ {
		a[i] = p.str(e.a[i])
	}
	var s string
	if (e.op == OUDiv || e.op == OURem || e.op == OSDiv || e.op == OSRem) && e.a[1].isConst() && e.a[1].val > 1 &&
		(e.op == OUDiv || e.op == OURem || sext(e.w, e.a[1].val) > 1) {
		if e.a[0].op != OVar && p.names[e.a[0]] == "" {
			p.n++
			n := "t" + strconv.Itoa(p.n)
			p.sb.WriteString("(define-fun " + n + " () " + sortOf(e.w) + " " + a[0] + ")\n")
			p.names[e.a[0]] = n
			a[0] = n
		}
		q, r := p.div(e, a[0])
		if e.op == OUDiv || e.op == OSDiv {
			p.names[e] = q
			return q
		}
		p.names[e] = r
		return r
	}
	switch e.op {
	case OExtract:
		s = fmt.Sprintf("((_ extract %d %d) %s)", e.val+uint64(e.w)-1, e.val, a[0])
	case OZExt:
		s = fmt.Sprintf("((_ zero_extend %d) %s)", e.w-e.a[0].w, a[0])
	case OSExt:
		s = fmt.Sprintf("((_ sign_extend %d) %s)", e.w-e.a[0].w, a[0])
	case OMulHiU:
		w := int(e.w)
		s = fmt.Sprintf("((_ extract %d %d) (bvmul ((_ zero_extend %d) %s) ((_ zero_extend %d) %s)))", 2*w-1, w, w, a[0], w, a[1])
	case OFAdd, OFSub, OFMul, OFDiv:
		nm := map[Op]string{OFAdd: "fp.add", OFSub: "fp.sub", OFMul: "fp.mul", OFDiv: "fp.div"}[e.op]
		s = fmt.Sprintf("(fp.to_ieee_bv (%s RNE %s %s))", nm, fpOf(e.w, a[0]), fpOf(e.w, a[1]))
	case OFSqrt:
		s = fmt.Sprintf("(fp.to_ieee_bv (fp.sqrt RNE %s))", fpOf(e.w, a[0]))
	case OFNeg:
		s = fmt.Sprintf("(bvxor %s %s)", a[0], constStr(K(e.w, 1<<(e.w-1))))
	case OFLt, OFLe, OFEq:
		nm := map[Op]string{OFLt: "fp.lt", OFLe: "fp.leq", OFEq: "fp.eq"}[e.op]
		w := e.a[0].w
		s = fmt.Sprintf("(%s %s %s)", nm, fpOf(w, a[0]), fpOf(w, a[1]))
	case OFToF:
		s = fmt.Sprintf("(fp.to_ieee_bv ((_ to_fp %s) RNE %s))", fpSort(e.w), fpOf(e.a[0].w, a[0]))
	case OFToSI:
		s = fmt.Sprintf("((_ fp.to_sbv %d) RTZ %s)", e.w, fpOf(e.a[0].w, a[0]))
	case OFToUI:
		s = fmt.Sprintf("((_ fp.to_ubv %d) RTZ %s)", e.w, fpOf(e.a[0].w, a[0]))
	case OSIToF:
		s = fmt.Sprintf("(fp.to_ieee_bv ((_ to_fp %s) RNE %s))", fpSort(e.w), a[0])
	case OUIToF:
		s = fmt.Sprintf("(fp.to_ieee_bv ((_ to_fp_unsigned %s) RNE %s))", fpSort(e.w), a[0])
	default:
		nm := smtNames[e.op]
		if nm == "" {
			panic("smt: op " + strconv.Itoa(int(e.op)))
		}
		s = "(" + nm
		for i := 0; i < int(e.n); i++ {
			s += " " + a[i]
		}
		s += ")"
	}
	if p.refs[e] > 1 || len(s) > 2000 {
		p.n++
		n := "t" + strconv.Itoa(p.n)
		p.sb.WriteString("(define-fun " + n + " () " + sortOf(e.w) + " " + s + ")\n")
		p.names[e] = n
		return n
	}
	return s
}

// smtQuery renders the conjunction of cs. The text is canonical enough to be
// used as a cache key.
func smtQuery(cs []*Expr) (text string, vars []*Expr) {
	p := &smtPrinter{names: map[*Expr]string{}, refs: map[*Expr]int{}}
	for _, e := range cs {
		p.count(e)
	}
	for _, v := range p.decl {
		p.sb.WriteString("(declare-const " + v.name + " " + sortOf(v.w) + ")\n")
	}
	for _, e := range cs {
		s := p.str(e)
		p.sb.WriteString("(assert " + s + ")\n")
	}
	return p.sb.String(), p.decl
}
