// Package vsym is the nondeterminism API used by the verification harnesses.
//
// Under the symbolic engine these functions are intrinsics. Compiled natively
// they replay recorded input values, so that the same harness re-runs a
// counterexample (or a sampled path) against the real code.
package vsym

import (
	"encoding/hex"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strconv"
)

// Input is one recorded nondeterministic value.
type Input struct {
	Name  string `json:"name"`
	Kind  string `json:"kind"`
	Val   string `json:"val"`
	Bytes string `json:"bytes"`
	Text  string `json:"text"`
}

type assumeFailed struct{}

// Mismatch reports that a recorded input does not fit the harness.
type Mismatch struct{ Msg string }

var (
	inputs  []Input
	pos     int
	failed  []string
	obs     []string
	reached map[string]bool
	tier    int
	files   []string
)

// Result is the outcome of one native replay.
type Result struct {
	Failed   []string `json:"failed"`
	Obs      []string `json:"obs"`
	Panic    string   `json:"panic"`
	Assume   bool     `json:"assume"`
	Mismatch string   `json:"mismatch"`
	Left     int      `json:"left"`
}

// Run replays in against f.
func Run(f func(), in []Input, t int) (r Result) {
	inputs, pos, failed, obs, tier = in, 0, nil, nil, t
	files = nil
	reached = map[string]bool{}
	defer func() {
		switch p := recover().(type) {
		case nil:
		case assumeFailed:
			r.Assume = true
		case Mismatch:
			r.Mismatch = p.Msg
		case error:
			r.Panic = p.Error()
		default:
			r.Panic = fmt.Sprint(p)
		}
		r.Failed, r.Obs, r.Left = failed, obs, len(inputs)-pos
		for _, n := range files {
			os.RemoveAll(n)
		}
	}()
	f()
	return
}

func next(name, kind string) Input {
	if pos >= len(inputs) {
		panic(Mismatch{"out of inputs at " + name})
	}
	in := inputs[pos]
	pos++
	if in.Name != name || in.Kind != kind {
		panic(Mismatch{fmt.Sprintf("input %d: recorded %s/%s, wanted %s/%s", pos-1, in.Name, in.Kind, name, kind)})
	}
	return in
}

func scalar(name, kind string) uint64 {
	v, err := strconv.ParseUint(next(name, kind).Val, 10, 64)
	if err != nil {
		panic(Mismatch{err.Error()})
	}
	return v
}

func Bool(name string) bool       { return scalar(name, "bool") != 0 }
func Byte(name string) byte       { return byte(scalar(name, "uint8")) }
func Uint8(name string) uint8     { return uint8(scalar(name, "uint8")) }
func Uint16(name string) uint16   { return uint16(scalar(name, "uint16")) }
func Uint32(name string) uint32   { return uint32(scalar(name, "uint32")) }
func Uint64(name string) uint64   { return scalar(name, "uint64") }
func Uint(name string) uint       { return uint(scalar(name, "uint64")) }
func Int8(name string) int8       { return int8(scalar(name, "int8")) }
func Int16(name string) int16     { return int16(scalar(name, "int16")) }
func Int32(name string) int32     { return int32(scalar(name, "int32")) }
func Int64(name string) int64     { return int64(scalar(name, "int64")) }
func Int(name string) int         { return int(scalar(name, "int64")) }
func Float64(name string) float64 { return math.Float64frombits(scalar(name, "float64")) }
func Float32(name string) float32 { return math.Float32frombits(uint32(scalar(name, "float32"))) }

// Range is a symbolic int in [lo, hi].
func Range(name string, lo, hi int) int {
	v := int(scalar(name, "int64"))
	if v < lo || v > hi {
		panic(assumeFailed{})
	}
	return v
}

// Choose forks n ways.
func Choose(name string, n int) int {
	if n <= 0 {
		panic("Choose: n <= 0")
	}
	return int(scalar(name, "choose"))
}

func bytesOf(name string) []byte {
	b, err := hex.DecodeString(next(name, "string").Bytes)
	if err != nil {
		panic(Mismatch{err.Error()})
	}
	return b
}

// String is any string of length 0..maxLen.
func String(name string, maxLen int) string { return string(bytesOf(name)) }

// StringN is any string of length n.
func StringN(name string, n int) string { return string(bytesOf(name)) }

// BytesN is any byte slice of length n.
func BytesN(name string, n int) []byte { return bytesOf(name) }

func Assume(b bool) {
	if !b {
		panic(assumeFailed{})
	}
}

// Assert states an obligation.
func Assert(b bool, label string) {
	if !b {
		failed = append(failed, label)
	}
}

// Reach marks a point that must be reachable (vacuity guard).
func Reach(label string) { reached[label] = true }

func And(a, b bool) bool     { return a && b }
func Or(a, b bool) bool      { return a || b }
func Not(a bool) bool        { return !a }
func Implies(a, b bool) bool { return !a || b }
func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}
func Symbolic() bool { return false }

// Tier is 0 for quick, 1 for thorough.
func Tier() int { return tier }

// Pick returns q in the quick tier and t in the thorough tier.
func Pick(q, t int) int {
	if Tier() == 0 {
		return q
	}
	return t
}

func ObserveInt(name string, v int64)   { obs = append(obs, name+"="+fmt.Sprint(uint64(v))) }
func ObserveUint(name string, v uint64) { obs = append(obs, name+"="+fmt.Sprint(v)) }
func ObserveStr(name string, v string)  { obs = append(obs, name+"="+fmt.Sprintf("%q", v)) }
func ObserveBool(name string, v bool) {
	s := "0"
	if v {
		s = "1"
	}
	obs = append(obs, name+"="+s)
}
func Concrete(v int)              {}
func ConcreteStr(s string) string { return s }

// Try runs f and reports whether it panicked.
func Try(f func()) (panicked bool) {
	defer func() {
		if p := recover(); p != nil {
			switch p.(type) {
			case assumeFailed, Mismatch:
				panic(p)
			}
			panicked = true
		}
	}()
	f()
	return false
}

// RaceLabel is what a violation of Together is called.
const RaceLabel = "calls at the same time share no memory that one of them writes"

// Together calls f(0) and f(1) as two goroutines would that share the given
// values and the variables of the module. f draws no inputs.
func Together(f func(i int), shared ...interface{}) {
	before := raceErrors()
	done := make(chan interface{}, 2)
	start := make(chan struct{})
	for i := 0; i < 2; i++ {
		go func(i int) {
			defer func() { done <- recover() }()
			<-start
			f(i)
		}(i)
	}
	close(start)
	p, q := <-done, <-done
	if p == nil {
		p = q
	}
	if p != nil {
		panic(p)
	}
	if raceErrors() > before {
		failed = append(failed, RaceLabel)
	}
}

// File makes a file with a content, in a directory of its own, for the length
// of the run, and returns its name.
func File(content string) string {
	dir, err := os.MkdirTemp("", "vsym")
	if err != nil {
		panic(Mismatch{err.Error()})
	}
	files = append(files, dir)
	name := filepath.Join(dir, "content")
	if err := os.WriteFile(name, []byte(content), 0o644); err != nil {
		panic(Mismatch{err.Error()})
	}
	return name
}

// Literal is one of the short texts in the code of the packages, which are
// given as path prefixes separated by commas.
func Literal(name, pkgs string) string { return string(bytesOf(name)) }

// Size is max, or one of the numbers in the code of the packages that are
// below it, or one more or less.
func Size(name, pkgs string, max int) int { return int(scalar(name, "choose")) }
