package main

import (
	"math/big"
	"math/bits"
)

// Signed intervals known on the current path. A Ctx lives for one path, and
// facts are only learned from constraints that hold for the rest of it.

type ival struct{ lo, hi int64 }

type ivalMemo struct {
	iv  ival
	gen int
}

func fullIval(w uint8) ival {
	if w >= 64 {
		return ival{-1 << 63, 1<<63 - 1}
	}
	return ival{-1 << (w - 1), 1<<(w-1) - 1}
}

func (a ival) meet(b ival) ival {
	if b.lo > a.lo {
		a.lo = b.lo
	}
	if b.hi < a.hi {
		a.hi = b.hi
	}
	return a
}

func (c *Ctx) setBound(e *Expr, iv ival) {
	if e.w == 0 || e.isConst() {
		return
	}
	old, ok := c.bnd[e]
	if !ok {
		old = fullIval(e.w)
	}
	n := old.meet(iv)
	if n == old || n.lo > n.hi {
		return
	}
	if c.bnd == nil {
		c.bnd = map[*Expr]ival{}
	}
	c.bnd[e] = n
	c.bgen++
	if e.op == OZExt && n.lo >= 0 {
		in := e.a[0]
		if n.hi <= fullIval(in.w).hi {
			c.setBound(in, n)
		}
	}
	if e.op == OSExt {
		c.setBound(in0(e), n)
	}
	if e.op == OExtract && e.val == 0 && e.w < 64 {
		f := fullIval(e.w)
		if r := c.rng(in0(e)); r.lo >= f.lo && r.hi <= f.hi {
			c.setBound(in0(e), n)
		}
	}
}

func in0(e *Expr) *Expr { return e.a[0] }

// learn records what constraint e says about ranges.
func (c *Ctx) learn(e *Expr, truth bool) {
	switch e.op {
	case ONot:
		c.learn(e.a[0], !truth)
	case OAnd:
		if truth {
			c.learn(e.a[0], true)
			c.learn(e.a[1], true)
		}
	case OOr:
		if !truth {
			c.learn(e.a[0], false)
			c.learn(e.a[1], false)
		}
	case OEq:
		if truth && e.a[0].w > 0 {
			for i := 0; i < 2; i++ {
				if k := e.a[1-i]; k.isConst() {
					v := sext(k.w, k.val)
					c.setBound(e.a[i], ival{v, v})
				}
			}
		}
	case OSlt:
		a, b := e.a[0], e.a[1]
		full := fullIval(a.w)
		switch {
		case b.isConst() && truth:
			c.setBound(a, ival{full.lo, sext(b.w, b.val) - 1})
		case b.isConst():
			c.setBound(a, ival{sext(b.w, b.val), full.hi})
		case a.isConst() && truth:
			c.setBound(b, ival{sext(a.w, a.val) + 1, full.hi})
		case a.isConst():
			c.setBound(b, ival{full.lo, sext(a.w, a.val)})
		}
	case OUlt:
		a, b := e.a[0], e.a[1]
		full := fullIval(a.w)
		switch {
		case b.isConst() && truth: // a < K
			if b.val > 0 && b.val-1 <= uint64(full.hi) {
				c.setBound(a, ival{0, int64(b.val - 1)})
			}
		case b.isConst(): // a >= K
			if c.rng(a).lo >= 0 && b.val <= uint64(full.hi) {
				c.setBound(a, ival{int64(b.val), full.hi})
			}
		case a.isConst() && truth: // K < b
			if c.rng(b).lo >= 0 && a.val < uint64(full.hi) {
				c.setBound(b, ival{int64(a.val) + 1, full.hi})
			}
		case a.isConst(): // b <= K
			if a.val <= uint64(full.hi) {
				c.setBound(b, ival{0, int64(a.val)})
			}
		}
	}
}

// rng is an interval that contains e on this path.
func (c *Ctx) rng(e *Expr) ival { return c.rngD(e, 24) }

func (c *Ctx) rngD(e *Expr, d int) ival {
	full := fullIval(e.w)
	if e.op == OConst {
		v := sext(e.w, e.val)
		return ival{v, v}
	}
	if m, ok := c.rmemo[e]; ok && m.gen == c.bgen {
		return m.iv
	}
	r := full
	if b, ok := c.bnd[e]; ok {
		r = b
	}
	if d == 0 {
		return r
	}
	d--
	arg := func(i int) ival { return c.rngD(e.a[i], d) }
	switch e.op {
	case OZExt:
		in := arg(0)
		if in.lo >= 0 {
			r = r.meet(in)
		} else {
			r = r.meet(ival{0, int64(mask(e.a[0].w, ^uint64(0)))})
		}
	case OSExt:
		r = r.meet(arg(0))
	case OAdd, OSub:
		x, y := arg(0), arg(1)
		if e.op == OSub {
			if y.lo == -1<<63 {
				break
			}
			y = ival{-y.hi, -y.lo}
		}
		lo, ok1 := addOv(x.lo, y.lo)
		hi, ok2 := addOv(x.hi, y.hi)
		if ok1 && ok2 && lo >= full.lo && hi <= full.hi {
			r = r.meet(ival{lo, hi})
		}
	case ONeg:
		x := arg(0)
		if x.lo > full.lo {
			r = r.meet(ival{-x.hi, -x.lo})
		}
	case OMul:
		x, y := arg(0), arg(1)
		lo, hi := int64(0), int64(0)
		ok := true
		for i, p := range [4][2]int64{{x.lo, y.lo}, {x.lo, y.hi}, {x.hi, y.lo}, {x.hi, y.hi}} {
			v, o := mulOv(p[0], p[1])
			ok = ok && o
			if i == 0 || v < lo {
				lo = v
			}
			if i == 0 || v > hi {
				hi = v
			}
		}
		if ok && lo >= full.lo && hi <= full.hi {
			r = r.meet(ival{lo, hi})
		}
	case OUDiv, OSDiv:
		k := e.a[1]
		if k.isConst() && sext(k.w, k.val) > 0 {
			kv := sext(k.w, k.val)
			x := arg(0)
			if e.op == OSDiv || x.lo >= 0 {
				r = r.meet(ival{x.lo / kv, x.hi / kv})
			} else if m := mask(e.w, ^uint64(0)) / uint64(kv); m <= uint64(full.hi) {
				r = r.meet(ival{0, int64(m)})
			}
		}
	case OURem, OSRem:
		k := e.a[1]
		if k.isConst() && sext(k.w, k.val) > 0 {
			kv := sext(k.w, k.val)
			x := arg(0)
			switch {
			case x.lo >= 0:
				r = r.meet(ival{0, min(kv-1, x.hi)})
			case e.op == OURem:
				r = r.meet(ival{0, kv - 1})
			default:
				r = r.meet(ival{-(kv - 1), kv - 1})
			}
		}
	case OIte:
		x, y := arg(1), arg(2)
		r = r.meet(ival{min(x.lo, y.lo), max(x.hi, y.hi)})
	case OExtract:
		if e.val == 0 {
			x := arg(0)
			if x.lo >= full.lo && x.hi <= full.hi {
				r = r.meet(x)
			}
		}
	case OBAnd:
		x, y := arg(0), arg(1)
		if x.lo >= 0 && y.lo >= 0 {
			r = r.meet(ival{0, min(x.hi, y.hi)})
		} else if x.lo >= 0 {
			r = r.meet(ival{0, x.hi})
		} else if y.lo >= 0 {
			r = r.meet(ival{0, y.hi})
		}
	case OBOr, OBXor:
		x, y := arg(0), arg(1)
		if x.lo >= 0 && y.lo >= 0 {
			n := bits.Len64(uint64(x.hi | y.hi))
			lo := int64(0)
			if e.op == OBOr {
				lo = max(x.lo, y.lo)
			}
			r = r.meet(ival{lo, 1<<n - 1})
		}
	case OLShr:
		k := e.a[1]
		if x := arg(0); k.isConst() && x.lo >= 0 && k.val < 64 {
			r = r.meet(ival{x.lo >> k.val, x.hi >> k.val})
		}
	case OShl:
		k := e.a[1]
		if x := arg(0); k.isConst() && x.lo >= 0 && k.val < 63 && x.hi <= full.hi>>k.val {
			r = r.meet(ival{x.lo << k.val, x.hi << k.val})
		}
	}
	if r.lo > r.hi { // an infeasible path; say nothing
		r = full
	}
	if c.rmemo == nil {
		c.rmemo = map[*Expr]ivalMemo{}
	}
	c.rmemo[e] = ivalMemo{r, c.bgen}
	return r
}

func addOv(a, b int64) (int64, bool) {
	s := a + b
	return s, (s > a) == (b > 0)
}

func mulOv(a, b int64) (int64, bool) {
	if a == 0 || b == 0 {
		return 0, true
	}
	if (a == -1 && b == -1<<63) || (b == -1 && a == -1<<63) {
		return 0, false
	}
	p := a * b
	return p, p/b == a
}

// divRem splits e = q*k where q = x/k for a constant k.
func asDivMul(e *Expr) (div *Expr, k uint64, ok bool) {
	if e.op == OMul && e.a[1].isConst() {
		d := e.a[0]
		if (d.op == OUDiv || d.op == OSDiv) && d.a[1].isConst() && d.a[1].val == e.a[1].val {
			return d, e.a[1].val, true
		}
	}
	return nil, 0, false
}

type linTerm struct {
	e *Expr
	k uint64
}

// linear flattens e into a sum of multiples of atoms (modulo 2^w).
func (c *Ctx) linear(e *Expr, k uint64, out *[]linTerm, cst *uint64) bool {
	switch {
	case e.op == OConst:
		*cst += k * e.val
		return true
	case e.op == OAdd:
		return c.linear(e.a[0], k, out, cst) && c.linear(e.a[1], k, out, cst)
	case e.op == OSub:
		return c.linear(e.a[0], k, out, cst) && c.linear(e.a[1], -k, out, cst)
	case e.op == ONeg:
		return c.linear(e.a[0], -k, out, cst)
	case e.op == OMul && e.a[1].isConst():
		return c.linear(e.a[0], k*e.a[1].val, out, cst)
	}
	for i := range *out {
		if (*out)[i].e == e {
			(*out)[i].k += k
			return true
		}
	}
	if len(*out) >= 24 {
		return false
	}
	*out = append(*out, linTerm{e, k})
	return true
}

// linRange is the exact integer range of a sum, or ok=false if it may wrap.
func (c *Ctx) linRange(ts []linTerm, cst int64) (lo, hi int64, ok bool) {
	lo, hi = cst, cst
	for _, t := range ts {
		r := c.rng(t.e)
		k := int64(t.k)
		a, ok1 := mulOv(r.lo, k)
		b, ok2 := mulOv(r.hi, k)
		if !ok1 || !ok2 {
			return 0, 0, false
		}
		if k < 0 {
			a, b = b, a
		}
		if lo, ok1 = addOv2(lo, a); !ok1 {
			return 0, 0, false
		}
		if hi, ok2 = addOv2(hi, b); !ok2 {
			return 0, 0, false
		}
	}
	return lo, hi, true
}

func addOv2(a, b int64) (int64, bool) {
	s := a + b
	return s, (a >= 0) != (b >= 0) || (s >= 0) == (a >= 0)
}

func (c *Ctx) buildLinear(w uint8, ts []linTerm, cst uint64) *Expr {
	r := K(w, 0)
	for _, t := range ts {
		r = c.Bin(OAdd, r, c.Bin(OMul, t.e, K(w, t.k)))
	}
	return c.Bin(OAdd, r, K(w, cst))
}

// splitLinear finds q, r with a = q*k + r and 0 <= r < k for a sum whose terms
// are multiples of k or small (64-bit operands, no wrap-around).
func (c *Ctx) splitLinear(a *Expr, k uint64) (q, r *Expr, ok bool) {
	if a.w != 64 || a.op != OAdd && a.op != OMul || k > 1<<62 {
		return
	}
	var ts []linTerm
	var cst uint64
	if !c.linear(a, 1, &ts, &cst) {
		return
	}
	var m, rest []linTerm
	for _, t := range ts {
		kk := int64(t.k)
		if kk == 0 {
			continue
		}
		if kk%int64(k) == 0 {
			m = append(m, linTerm{t.e, t.k})
		} else {
			rest = append(rest, t)
		}
	}
	if len(m) == 0 {
		return
	}
	// split the constant so that the remainder part is in [0, k)
	rlo, rhi, rok := c.linRange(rest, 0)
	if !rok {
		return
	}
	tc := int64(cst)
	// want base with rlo+base >= 0 and rhi+base < k, base = tc mod k
	qc := floorDiv(tc+rlo, int64(k))
	base := tc - qc*int64(k)
	if rlo+base < 0 || rhi+base >= int64(k) {
		return
	}
	mlo, mhi, mok := c.linRange(m, qc*int64(k))
	if !mok || mlo < 0 {
		return
	}
	if _, ok2 := addOv2(mhi, rhi+base); !ok2 {
		return
	}
	for i := range m {
		m[i].k = uint64(int64(m[i].k) / int64(k))
	}
	if len(rest) == 0 && base == 0 && a.op == OMul && len(m) == 1 {
		return c.buildLinear(64, m, uint64(qc)), K(64, 0), true
	}
	// keep the shape (x*k + y)/k = x where possible
	if a.op == OAdd {
		for i := 0; i < 2; i++ {
			x, y := a.a[i], a.a[1-i]
			if x.op == OMul && x.a[1].isConst() && x.a[1].val == k {
				if yr := c.rng(y); yr.lo >= 0 && yr.hi < int64(k) {
					return x.a[0], y, true
				}
			}
		}
	}
	return c.buildLinear(64, m, uint64(qc)), c.buildLinear(64, rest, uint64(base)), true
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

func isLin(e *Expr) bool {
	return e.op == OAdd || e.op == OMul || e.op == OSub || e.op == ONeg
}

// linDiff bounds b-a as exact unsigned integers when neither sum wraps.
func (c *Ctx) linDiff(a, b *Expr) (lo, hi *big.Int, ok bool) {
	if a.w != 64 || a.op != OAdd && a.op != OMul && b.op != OAdd && b.op != OMul {
		return
	}
	one := func(e *Expr) (ts []linTerm, cst *big.Int, ok bool) {
		var k uint64
		if !c.linear(e, 1, &ts, &k) {
			return
		}
		cst = big.NewInt(int64(k))
		if e.op == OConst {
			cst = new(big.Int).SetUint64(k)
		}
		lo, hi, ok := c.bigRange(ts, cst)
		return ts, cst, ok && lo.Sign() >= 0 && hi.BitLen() <= 64
	}
	ta, ca, ok1 := one(a)
	if !ok1 {
		return
	}
	tb, cb, ok2 := one(b)
	if !ok2 {
		return
	}
	// d = b - a over the integers
	type bt struct {
		e *Expr
		k *big.Int
	}
	var d []bt
	for _, t := range tb {
		d = append(d, bt{t.e, big.NewInt(int64(t.k))})
	}
next:
	for _, t := range ta {
		for i := range d {
			if d[i].e == t.e {
				d[i].k.Sub(d[i].k, big.NewInt(int64(t.k)))
				continue next
			}
		}
		d = append(d, bt{t.e, new(big.Int).Neg(big.NewInt(int64(t.k)))})
	}
	lo = new(big.Int).Sub(cb, ca)
	hi = new(big.Int).Set(lo)
	for _, t := range d {
		r := c.rng(t.e)
		x := new(big.Int).Mul(t.k, big.NewInt(r.lo))
		y := new(big.Int).Mul(t.k, big.NewInt(r.hi))
		if t.k.Sign() < 0 {
			x, y = y, x
		}
		lo.Add(lo, x)
		hi.Add(hi, y)
	}
	return lo, hi, true
}

func (c *Ctx) bigRange(ts []linTerm, cst *big.Int) (lo, hi *big.Int, ok bool) {
	lo, hi = new(big.Int).Set(cst), new(big.Int).Set(cst)
	for _, t := range ts {
		r := c.rng(t.e)
		if r.lo < 0 && t.e.w == 64 {
			// may be a large unsigned value
			return nil, nil, false
		}
		k := big.NewInt(int64(t.k))
		x := new(big.Int).Mul(k, big.NewInt(r.lo))
		y := new(big.Int).Mul(k, big.NewInt(r.hi))
		if k.Sign() < 0 {
			x, y = y, x
		}
		lo.Add(lo, x)
		hi.Add(hi, y)
	}
	return lo, hi, true
}
