package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Sat int

const (
	Unsat Sat = iota
	SatYes
	Unknown
)

func (s Sat) String() string { return [...]string{"unsat", "sat", "unknown"}[s] }

type qres struct {
	r    Sat
	vals []uint64
}

// QueryStats are shared by all workers of a run.
type QueryStats struct {
	Queries   int64 // queries put to the solver process
	CacheHits int64
	Unknowns  int64
	SolverNS  int64
	Errors    int64

	AssertQueries int64 // subset: assertion obligations sent to the solver
	mu            sync.Mutex
	cache         map[string]qres
	assertLog     map[string]Sat // text -> verdict, for the second-solver diff
}

func newQueryStats() *QueryStats {
	return &QueryStats{cache: map[string]qres{}, assertLog: map[string]Sat{}}
}

// Solver wraps one z3 process.
type Solver struct {
	cmd   *exec.Cmd
	in    io.WriteCloser
	out   *bufio.Reader
	stats *QueryStats
	tmo   int // ms
	bin   string
	args  []string
	nq    int
}

func newSolver(stats *QueryStats, tmoMS int) *Solver {
	s := &Solver{stats: stats, tmo: tmoMS, bin: z3Path(), args: []string{"-in", "-smt2"}}
	s.start()
	return s
}

var slowDir = os.Getenv("SLOWDIR")

var z3Once sync.Once
var z3bin string

func z3Path() string {
	z3Once.Do(func() {
		for _, c := range []string{"z3-new", "z3"} {
			if p, err := exec.LookPath(c); err == nil {
				z3bin = p
				return
			}
		}
	})
	return z3bin
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.bin, s.args...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.in = in
	s.out = bufio.NewReaderSize(out, 1<<16)
	fmt.Fprintf(s.in, "(set-option :print-success false)\n(set-option :timeout %d)\n", s.tmo)
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) restart() { s.Close(); s.start() }

// Check decides the conjunction of cs.
func (s *Solver) Check(cs []*Expr, assertion bool) (Sat, map[int]uint64) {
	text, vars := smtQuery(cs)
	if assertion {
		atomic.AddInt64(&s.stats.AssertQueries, 1)
	}
	s.stats.mu.Lock()
	c, ok := s.stats.cache[text]
	s.stats.mu.Unlock()
	if ok {
		atomic.AddInt64(&s.stats.CacheHits, 1)
	} else {
		c = s.ask(text, vars)
		if c.r != Unknown {
			s.stats.mu.Lock()
			s.stats.cache[text] = c
			s.stats.mu.Unlock()
		}
	}
	if assertion {
		s.stats.mu.Lock()
		s.stats.assertLog[text] = c.r
		s.stats.mu.Unlock()
	}
	if c.r != SatYes {
		return c.r, nil
	}
	m := make(map[int]uint64, len(vars))
	for i, v := range vars {
		m[v.vi] = c.vals[i]
	}
	return SatYes, m
}

func (s *Solver) ask(text string, vars []*Expr) qres {
	t0 := time.Now()
	defer func() { atomic.AddInt64(&s.stats.SolverNS, int64(time.Since(t0))) }()
	atomic.AddInt64(&s.stats.Queries, 1)
	s.nq++
	var sb strings.Builder
	sb.WriteString("(push 1)\n")
	sb.WriteString(text)
	sb.WriteString("(check-sat)\n")
	if _, err := io.WriteString(s.in, sb.String()); err != nil {
		s.restart()
		atomic.AddInt64(&s.stats.Errors, 1)
		return qres{r: Unknown}
	}
	line, err := s.out.ReadString('\n')
	line = strings.TrimSpace(line)
	if err != nil || strings.HasPrefix(line, "(error") {
		s.restart()
		atomic.AddInt64(&s.stats.Errors, 1)
		if debugSolver {
			fmt.Println("SOLVER ERROR:", line, "\n", text)
		}
		return qres{r: Unknown}
	}
	if d := time.Since(t0); slowDir != "" && d > 2*time.Second {
		os.WriteFile(fmt.Sprintf("%s/q%d-%dms-%s.smt2", slowDir, time.Now().UnixNano(), d.Milliseconds(), line), []byte(text+"(check-sat)\n"), 0o644)
	}
	var r qres
	switch line {
	case "unsat":
		r.r = Unsat
	case "sat":
		r.r = SatYes
		if len(vars) > 0 {
			sb.Reset()
			sb.WriteString("(get-value (")
			for _, v := range vars {
				sb.WriteString(v.name)
				sb.WriteByte(' ')
			}
			sb.WriteString("))\n")
			io.WriteString(s.in, sb.String())
			vals, ok := s.readValues(vars)
			if !ok {
				s.restart()
				atomic.AddInt64(&s.stats.Errors, 1)
				return qres{r: Unknown}
			}
			r.vals = vals
		}
	default:
		r.r = Unknown
		atomic.AddInt64(&s.stats.Unknowns, 1)
	}
	io.WriteString(s.in, "(pop 1)\n")
	if s.nq%2000 == 0 {
		s.restart()
	}
	return r
}

var debugSolver bool

func (s *Solver) readValues(vars []*Expr) ([]uint64, bool) {
	depth := 0
	var sb strings.Builder
	started := false
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			return nil, false
		}
		if b == '(' {
			depth++
			started = true
		} else if b == ')' {
			depth--
		}
		sb.WriteByte(b)
		if started && depth == 0 {
			break
		}
	}
	s.out.ReadString('\n')
	txt := sb.String()
	if strings.HasPrefix(txt, "(error") {
		return nil, false
	}
	vals := map[string]uint64{}
	// ((name value) ...): values are #x.., #b.., true, false, (_ bvN w)
	txt = strings.TrimSuffix(strings.TrimPrefix(txt, "("), ")")
	for {
		i := strings.IndexByte(txt, '(')
		if i < 0 {
			break
		}
		txt = txt[i+1:]
		sp := strings.IndexAny(txt, " \n")
		name := txt[:sp]
		txt = strings.TrimLeft(txt[sp:], " \n")
		var v uint64
		if strings.HasPrefix(txt, "(_ bv") {
			e := strings.IndexByte(txt, ')')
			f := strings.Fields(txt[5:e])
			v, _ = strconv.ParseUint(f[0], 10, 64)
			txt = txt[e+1:]
		} else {
			e := strings.IndexByte(txt, ')')
			t := strings.TrimSpace(txt[:e])
			switch {
			case t == "true":
				v = 1
			case t == "false":
				v = 0
			case strings.HasPrefix(t, "#x"):
				v, _ = strconv.ParseUint(t[2:], 16, 64)
			case strings.HasPrefix(t, "#b"):
				v, _ = strconv.ParseUint(t[2:], 2, 64)
			default:
				return nil, false
			}
			txt = txt[e:]
		}
		e := strings.IndexByte(txt, ')')
		txt = txt[e+1:]
		vals[name] = v
	}
	out := make([]uint64, len(vars))
	for i, v := range vars {
		x, ok := vals[v.name]
		if !ok {
			return nil, false
		}
		out[i] = x
	}
	return out, true
}
