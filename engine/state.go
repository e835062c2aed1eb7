package main

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type unsupported struct{ what string }
type pathAbort struct{ why string } // infeasible assumption
type boundHit struct{ why string }  // step/depth bound: path is incomplete
type goexit struct{}
type targetPanic struct {
	v     iface
	where string
}

type syncCache[K comparable, V any] struct {
	m sync.Map
}

func newSyncCache[K comparable, V any]() *syncCache[K, V] { return &syncCache[K, V]{} }
func (c *syncCache[K, V]) get(k K, f func() V) V {
	if v, ok := c.m.Load(k); ok {
		return v.(V)
	}
	v, _ := c.m.LoadOrStore(k, f())
	return v.(V)
}

type Decision struct {
	kind   byte // 'b' branch, 'c' choose, 'v' concretize, 'a' assert
	forced bool
	val    uint64
}

type Input struct {
	Name  string
	Kind  string // bool,int,uint8,...,string,choose
	w     uint8
	exprs []*Expr
	conc  uint64
}

type Obs struct {
	Name string
	v    value
}

type Violation struct {
	Label  string           `json:"label"`
	Inputs []map[string]any `json:"inputs"`
	Where  string           `json:"where,omitempty"`
	Path   int64            `json:"path"`
	More   []*Violation     `json:"-"` // other paths to the same violation
}

type workItem struct {
	prefix []Decision
	model  Model
}

type PathSample struct {
	Inputs   []map[string]any
	Obs      []string
	Violated bool
}

// Run is one exploration of a harness.
type Run struct {
	eng      *Engine
	fn       *ssa.Function
	mapPerm  bool
	tier     int
	maxSteps int
	maxDepth int
	maxPaths int64
	deadline time.Time

	mu      sync.Mutex
	cond    *sync.Cond
	stack   []workItem
	active  int
	stopped bool

	stats                                    *QueryStats
	Paths, Completed, Infeasible, Incomplete int64
	Steps, Branches, Forks                   int64
	Asserts, AssertsFolded, AssertsSolved    int64
	MaxInputs                                int64
	Reasons                                  map[string]int
	forkLoc                                  map[string]int
	Reached                                  map[string]int64
	Violations                               map[string]*Violation
	Samples                                  []PathSample
	sampleEvery                              int64
	sampleMax                                int
	FnCovered                                map[string]bool
	timedOut                                 bool
}

type State struct {
	run         *Run
	eng         *Engine
	ctx         *Ctx
	solver      *Solver
	pc          []*Expr
	model       Model
	prefix      []Decision
	pos         int
	dec         []Decision
	globals     map[*ssa.Global]*value
	inited      map[*ssa.Package]bool
	inputs      []Input
	obs         []Obs
	reached     map[string]bool
	steps       int
	depth       int
	noSym       bool // shared init: symbolic operations are an error
	initing     *ssa.Package
	nvar        map[string]int
	frames      []*frame
	mcache      map[mkey]*ssa.Function
	dead        bool
	violated    bool
	fns         map[*ssa.Function]bool
	frozenDepth int
	share       *sharing
	pooled      map[*value][]value
	extra       map[string]interface{}
}

type mkey struct {
	t types.Type
	m *types.Func
}

func (st *State) check(extra *Expr, assertion bool) (Sat, Model) {
	if extra.isFalse() {
		return Unsat, nil
	}
	// constraint slicing: keep what shares variables with extra
	want := extra.vars()
	used := make([]bool, len(st.pc))
	sel := []*Expr{}
	for changed := true; changed; {
		changed = false
		for i, p := range st.pc {
			if !used[i] && bsInter(p.vars(), want) {
				used[i] = true
				want = bsOr(want, p.vars())
				changed = true
			}
		}
	}
	for i, p := range st.pc {
		if used[i] {
			sel = append(sel, p)
		}
	}
	sel = append(sel, extra)
	r, vals := st.solver.Check(sel, assertion)
	if r != SatYes {
		return r, nil
	}
	m := make(Model, len(st.ctx.vars))
	copy(m, st.model)
	for i, v := range vals {
		m[i] = v
	}
	return SatYes, m
}

func (st *State) addPC(c *Expr) {
	if c.isTrue() {
		return
	}
	st.pc = append(st.pc, c)
	st.ctx.learn(c, true)
}

func (st *State) push(d Decision, m Model) {
	p := make([]Decision, len(st.dec)+1)
	copy(p, st.dec)
	p[len(st.dec)] = d
	st.run.enqueue(workItem{p, m})
	atomic.AddInt64(&st.run.Forks, 1)
}

func (st *State) branch(c *Expr) bool {
	if c.isConst() {
		return c.val != 0
	}
	if st.noSym {
		panic(unsupported{"symbolic branch in shared init"})
	}
	atomic.AddInt64(&st.run.Branches, 1)
	if st.pos < len(st.prefix) {
		d := st.prefix[st.pos]
		if d.kind != 'b' {
			panic(fmt.Sprintf("replay divergence: want b got %c", d.kind))
		}
		st.pos++
		st.dec = append(st.dec, d)
		t := d.val != 0
		if !d.forced {
			if t {
				st.addPC(c)
			} else {
				st.addPC(st.ctx.Not(c))
			}
		} else {
			st.ctx.learn(c, t)
		}
		return t
	}
	t := st.ctx.Eval(c, st.model) != 0
	this, other := c, st.ctx.Not(c)
	if !t {
		this, other = other, this
	}
	r, m := st.check(other, false)
	switch r {
	case Unsat:
		st.dec = append(st.dec, Decision{'b', true, b2u(t)})
		st.ctx.learn(c, t)
	case SatYes:
		if debugForks {
			st.run.forkAt(st.whereStr())
		}
		st.push(Decision{'b', false, b2u(!t)}, m)
		st.dec = append(st.dec, Decision{'b', false, b2u(t)})
		st.addPC(this)
	default:
		st.run.note("solver-unknown on a branch (one side unexplored)")
		atomic.AddInt64(&st.run.Incomplete, 1)
		st.dec = append(st.dec, Decision{'b', false, b2u(t)})
		st.addPC(this)
	}
	return t
}

// choose forks n ways without a constraint.
func (st *State) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if st.noSym {
		panic(unsupported{"choice in shared init"})
	}
	if st.pos < len(st.prefix) {
		d := st.prefix[st.pos]
		if d.kind != 'c' {
			panic(fmt.Sprintf("replay divergence: want c got %c", d.kind))
		}
		st.pos++
		st.dec = append(st.dec, d)
		return int(d.val)
	}
	for i := n - 1; i >= 1; i-- {
		st.push(Decision{'c', false, uint64(i)}, st.model)
	}
	st.dec = append(st.dec, Decision{'c', false, 0})
	return 0
}

// concretize forks over the feasible values of e.
func (st *State) concretize(e *Expr) uint64 {
	if e.isConst() {
		return e.val
	}
	if st.noSym {
		panic(unsupported{"concretize in shared init"})
	}
	for n := 0; ; n++ {
		if n > 4096 {
			panic(boundHit{"concretization fan-out"})
		}
		var v uint64
		if st.pos < len(st.prefix) {
			d := st.prefix[st.pos]
			if d.kind != 'v' {
				panic(fmt.Sprintf("replay divergence: want v got %c", d.kind))
			}
			st.pos++
			st.dec = append(st.dec, d)
			// val carries the value; the next decision says equal or not
			v = d.val
		} else {
			v = st.ctx.Eval(e, st.model)
			st.dec = append(st.dec, Decision{'v', false, v})
		}
		if st.branch(st.ctx.Eq(e, K(e.w, v))) {
			return v
		}
	}
}

func (st *State) concInt(e *Expr) int { return int(sext(e.w, st.concretize(e))) }

func (st *State) assume(c *Expr) {
	if c.isTrue() {
		return
	}
	if c.isFalse() {
		panic(pathAbort{"assume(false)"})
	}
	if st.ctx.Eval(c, st.model) != 0 {
		st.addPC(c)
		return
	}
	if st.pos < len(st.prefix) {
		// The model belongs to the end of the prefix, so this cannot happen on
		// a consistent replay.
		panic("replay divergence in assume")
	}
	r, m := st.check(c, false)
	switch r {
	case SatYes:
		st.model = m
		st.addPC(c)
	case Unsat:
		panic(pathAbort{"assume"})
	default:
		panic(boundHit{"solver-unknown in assume"})
	}
}

// assert discharges an obligation.
func (st *State) assert(c *Expr, label, where string) {
	atomic.AddInt64(&st.run.Asserts, 1)
	if c.isTrue() {
		atomic.AddInt64(&st.run.AssertsFolded, 1)
		return
	}
	if st.pos < len(st.prefix) {
		d := st.prefix[st.pos]
		if d.kind != 'a' {
			panic(fmt.Sprintf("replay divergence: want a got %c", d.kind))
		}
		st.pos++
		st.dec = append(st.dec, d)
		if d.val != 0 {
			st.addPC(c)
		}
		return
	}
	atomic.AddInt64(&st.run.AssertsSolved, 1)
	neg := st.ctx.Not(c)
	r, m := st.check(neg, true)
	switch r {
	case Unsat:
		st.dec = append(st.dec, Decision{'a', true, 0})
	case SatYes:
		st.violate(label, where, m)
		if c.isFalse() {
			panic(pathAbort{"assertion false on the whole path"})
		}
		r2, m2 := st.check(c, false)
		if r2 != SatYes {
			panic(pathAbort{"assertion false on the whole path"})
		}
		st.model = m2
		st.addPC(c)
		st.dec = append(st.dec, Decision{'a', false, 1})
	default:
		st.run.note("solver-unknown on an assertion: " + label)
		atomic.AddInt64(&st.run.Incomplete, 1)
		st.dec = append(st.dec, Decision{'a', true, 0})
	}
}

func (st *State) inputValues(m Model) []map[string]any {
	out := []map[string]any{}
	st.ctx.gen++
	for _, in := range st.inputs {
		o := map[string]any{"name": in.Name, "kind": in.Kind}
		switch in.Kind {
		case "string":
			b := make([]byte, len(in.exprs))
			for i, e := range in.exprs {
				b[i] = byte(st.ctx.eval(e, m))
			}
			o["bytes"] = fmt.Sprintf("%x", b)
			o["text"] = fmt.Sprintf("%q", string(b))
		case "choose":
			o["val"] = fmt.Sprint(in.conc)
		default:
			o["val"] = new(big.Int).SetUint64(st.ctx.eval(in.exprs[0], m)).String()
		}
		out = append(out, o)
	}
	return out
}

func (st *State) violate(label, where string, m Model) {
	r := st.run
	st.violated = true
	r.mu.Lock()
	defer r.mu.Unlock()
	if v, ok := r.Violations[label]; ok {
		if len(v.More) < 9 {
			v.More = append(v.More, &Violation{Label: label, Inputs: st.inputValues(m), Where: where, Path: atomic.LoadInt64(&r.Paths)})
		}
		return
	}
	if len(r.Violations) > 64 {
		return
	}
	r.Violations[label] = &Violation{Label: label, Inputs: st.inputValues(m), Where: where, Path: atomic.LoadInt64(&r.Paths)}
}

func (r *Run) note(s string) {
	r.mu.Lock()
	r.Reasons[s]++
	r.mu.Unlock()
}

func (r *Run) enqueue(w workItem) {
	r.mu.Lock()
	r.stack = append(r.stack, w)
	r.mu.Unlock()
	r.cond.Signal()
}

func (r *Run) explore(workers int) {
	r.cond = sync.NewCond(&r.mu)
	r.stack = []workItem{{nil, nil}}
	var wg sync.WaitGroup
	timer := time.AfterFunc(time.Until(r.deadline), func() {
		r.mu.Lock()
		r.stopped = true
		r.timedOut = true
		r.mu.Unlock()
		r.cond.Broadcast()
	})
	defer timer.Stop()
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var solver *Solver
			defer func() {
				if solver != nil {
					solver.Close()
				}
			}()
			for {
				r.mu.Lock()
				for len(r.stack) == 0 && r.active > 0 && !r.stopped {
					r.cond.Wait()
				}
				if r.stopped || len(r.stack) == 0 {
					r.mu.Unlock()
					r.cond.Broadcast()
					return
				}
				w := r.stack[len(r.stack)-1]
				r.stack = r.stack[:len(r.stack)-1]
				r.active++
				r.mu.Unlock()
				if solver == nil {
					solver = newSolver(r.stats, 20000)
				}
				r.runPath(w, solver)
				r.mu.Lock()
				r.active--
				if r.maxPaths > 0 && r.Paths >= r.maxPaths {
					r.stopped = true
					r.timedOut = true
				}
				r.mu.Unlock()
				r.cond.Broadcast()
			}
		}()
	}
	wg.Wait()
	if r.timedOut {
		n := len(r.stack)
		if n > 0 {
			r.Reasons[fmt.Sprintf("budget exhausted with unexplored work")] += n
			r.Incomplete += int64(n)
		}
	}
}

func (r *Run) newState(solver *Solver) *State {
	return &State{run: r, eng: r.eng, ctx: newCtx(), solver: solver,
		globals: map[*ssa.Global]*value{}, inited: map[*ssa.Package]bool{},
		reached: map[string]bool{}, nvar: map[string]int{}, mcache: map[mkey]*ssa.Function{}, fns: map[*ssa.Function]bool{},
		extra: map[string]interface{}{}}
}

func (r *Run) runPath(w workItem, solver *Solver) {
	st := r.newState(solver)
	st.prefix = w.prefix
	st.model = w.model
	atomic.AddInt64(&r.Paths, 1)
	done := false
	func() {
		defer func() {
			atomic.AddInt64(&r.Steps, int64(st.steps))
			switch p := recover().(type) {
			case nil:
			case pathAbort:
				if p.why == "assume(false)" || p.why == "assume" {
					atomic.AddInt64(&r.Infeasible, 1)
				}
			case unsupported:
				atomic.AddInt64(&r.Incomplete, 1)
				r.note("unsupported: " + p.what + " @ " + st.whereStr())
			case boundHit:
				atomic.AddInt64(&r.Incomplete, 1)
				r.note("bound: " + p.why)
			case goexit:
				done = true
			case targetPanic:
				st.violate("panic: "+panicText(st, p.v), p.where, st.model)
			default:
				if debugPanics {
					fmt.Println("ENGINE PANIC at", st.whereStr())
					panic(p)
				}
				atomic.AddInt64(&r.Incomplete, 1)
				r.note(fmt.Sprintf("engine: %v @ %s", p, st.whereStr()))
			}
		}()
		st.initModule()
		st.callFn(r.fn, nil, nil)
		done = true
	}()
	r.mu.Lock()
	defer r.mu.Unlock()
	for k := range st.reached {
		r.Reached[k]++
	}
	for f := range st.fns {
		r.FnCovered[f.String()] = true
	}
	if int64(len(st.inputs)) > r.MaxInputs {
		r.MaxInputs = int64(len(st.inputs))
	}
	if done {
		r.Completed++
		// keep a spread of paths: the sampling period doubles as samples fill up
		if r.sampleEvery > 0 && r.Completed%r.sampleEvery == 0 {
			s := PathSample{Inputs: st.inputValues(st.model), Violated: st.violated}
			for _, o := range st.obs {
				s.Obs = append(s.Obs, o.Name+"="+st.concreteString(o.v))
			}
			r.Samples = append(r.Samples, s)
			if r.sampleMax > 0 && len(r.Samples) > r.sampleMax {
				half := r.Samples[:0]
				for i, x := range r.Samples {
					if i%2 == 0 {
						half = append(half, x)
					}
				}
				r.Samples = half
				r.sampleEvery *= 2
			}
		}
	}
}

var debugPanics, debugForks bool

var noMerge = os.Getenv("NOMERGE") != ""

func (r *Run) forkAt(s string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.forkLoc == nil {
		r.forkLoc = map[string]int{}
	}
	r.forkLoc[s]++
}

func (st *State) concreteString(v value) string {
	st.ctx.gen++
	switch v := v.(type) {
	case *Expr:
		return fmt.Sprint(st.ctx.eval(v, st.model))
	case *Str:
		b := make([]byte, v.len())
		for i := range b {
			b[i] = byte(st.ctx.eval(v.at(i), st.model))
		}
		return fmt.Sprintf("%q", string(b))
	}
	return "?"
}

var debugSteps bool
var stepProf = map[string]int{}
var stepMu sync.Mutex

// profile charges n instructions to every function on the stack.
func (st *State) profile(n int) {
	stepMu.Lock()
	defer stepMu.Unlock()
	seen := map[string]bool{}
	for _, f := range st.frames {
		k := f.fi.fn.String()
		if !seen[k] {
			seen[k] = true
			stepProf[k] += n
		}
	}
}

func (st *State) whereStr() string {
	s := ""
	n := 0
	for i := len(st.frames) - 1; i >= 0 && n < 6; i-- {
		if s != "" {
			s += " <- "
		}
		s += st.frames[i].fi.fn.String()
		n++
	}
	return s
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func newRun(e *Engine, fn *ssa.Function, tier int, perm bool, budget time.Duration) *Run {
	return &Run{eng: e, fn: fn, tier: tier, mapPerm: perm, maxSteps: 5000000, maxDepth: 1500,
		deadline: time.Now().Add(budget), stats: newQueryStats(),
		Reasons: map[string]int{}, Reached: map[string]int64{}, Violations: map[string]*Violation{}, FnCovered: map[string]bool{}, sampleEvery: 50}
}
