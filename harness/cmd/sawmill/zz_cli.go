package main

import (
	"encoding/json"
	"errors"
	"io"
	"log"

	"github.com/andrewkroh/go-sawmill/internal/zzverif/gen"
	"github.com/andrewkroh/go-sawmill/internal/zzverif/vsym"
	"github.com/andrewkroh/go-sawmill/pkg/event"
	"github.com/andrewkroh/go-sawmill/pkg/pipeline"
	"github.com/andrewkroh/go-sawmill/pkg/processor"
	"github.com/andrewkroh/go-sawmill/pkg/processor/registry"
)

type zzConfig struct {
	Name string `config:"name"`
}

type zzProc struct{ config zzConfig }

func (p *zzProc) Config() zzConfig { return p.config }

// The fate of a line, in the order of the calls.
var zzFates []uint8

func (p *zzProc) Process(evt processor.Event) error {
	o := vsym.Uint8("fate")
	vsym.Assume(o < 3)
	zzFates = append(zzFates, o)
	if o == 1 {
		return errors.New("line failed")
	}
	if o == 2 {
		evt.Drop()
	}
	return nil
}

func init() {
	registry.MustRegister("zzcli", func(c zzConfig) (*zzProc, error) { return &zzProc{c}, nil })
}

// zzReader hands out the data in two pieces and then ends with err.
type zzReader struct {
	data []byte
	cut  int
	err  error
}

func (r *zzReader) Read(p []byte) (int, error) {
	if len(r.data) == 0 {
		return 0, r.err
	}
	n := len(r.data)
	if r.cut > 0 && r.cut < n {
		n = r.cut
	}
	n = copy(p, r.data[:n])
	r.data = r.data[n:]
	r.cut = 0
	return n, nil
}

type zzWriter struct{ data []byte }

func (w *zzWriter) Write(p []byte) (int, error) {
	w.data = append(w.data, p...)
	return len(p), nil
}

func zzPipe(procs ...pipeline.ProcessorConfig) *pipeline.Pipeline {
	p, err := pipeline.New(&pipeline.Config{ID: "p", Processors: procs})
	vsym.Assume(err == nil)
	return p
}

func zzSpace(c byte) bool {
	return c == ' ' || c == '\t' || c == '\v' || c == '\f' || c == '\r' || c == '\n'
}

func zzTrim(b []byte) []byte {
	for len(b) > 0 && zzSpace(b[0]) {
		b = b[1:]
	}
	for len(b) > 0 && zzSpace(b[len(b)-1]) {
		b = b[:len(b)-1]
	}
	return b
}

func zzLines(b []byte) [][]byte {
	var out [][]byte
	start := 0
	for i, c := range b {
		if c == '\n' {
			out = append(out, b[start:i])
			start = i + 1
		}
	}
	if start < len(b) {
		out = append(out, b[start:])
	}
	return out
}

// zzCheck compares the output of the tool with the expected lines.
func zzCheck(out []byte, want []*event.Event) {
	vsym.Assert(len(out) == 0 || out[len(out)-1] == '\n', "the output ends with a newline")
	lines := zzLines(out)
	vsym.Assert(len(lines) == len(want), "one output line per event that passes, none for others")
	if len(lines) != len(want) {
		return
	}
	for i := range lines {
		var e event.Event
		err := json.Unmarshal(lines[i], &e)
		vsym.Assert(err == nil, "every output line is a JSON document")
		if err != nil {
			return
		}
		vsym.Assert(gen.SameEvent(&e, want[i]), "the output line is the processed event")
	}
}

func zzEvent(n int, line []byte) *event.Event {
	e := event.New()
	e.Put("@metadata.line_number", event.Integer(int64(n)))
	e.Put("event.original", event.String(string(line)))
	return e
}

// zzWhole is set where reads and read errors are not varied.
var zzWhole bool

// zzCut returns where the input is cut in two: anywhere in a short one.
func zzCut(n int) int {
	if zzWhole {
		return 0
	}
	if n < 20 {
		return vsym.Choose("cut", n+1)
	}
	return []int{0, 1, n / 2, n - 1}[vsym.Choose("cut", 4)]
}

func zzExercise(in []byte, scripted bool, p *pipeline.Pipeline) {
	log.SetOutput(io.Discard)
	var end error = io.EOF
	if !zzWhole && vsym.Choose("read error", 2) == 1 {
		end = errors.New("broken input")
	}
	r := &zzReader{data: append([]byte(nil), in...), cut: zzCut(len(in)), err: end}
	w := &zzWriter{}
	zzFates = nil
	err := zzRun(r, w, p)
	vsym.Assert((err != nil) == (end != io.EOF), "an input error is reported, and only that")
	lines := zzLines(in)
	if end != io.EOF && len(in) > 0 && in[len(in)-1] != '\n' {
		return // the last line is not known to be complete
	}
	var want []*event.Event
	k := 0
	for i, l := range lines {
		l = zzTrim(l)
		if len(l) == 0 {
			continue
		}
		if scripted {
			vsym.Assert(k < len(zzFates), "every line with text is processed")
			if k >= len(zzFates) {
				return
			}
			k++
			if zzFates[k-1] != 0 {
				continue
			}
		}
		want = append(want, zzEvent(i+1, l))
	}
	if scripted {
		vsym.Assert(k == len(zzFates), "every line is processed once")
	}
	zzCheck(w.data, want)
	vsym.Reach("checked")
	if len(want) > 1 {
		vsym.Reach("several")
	}
}

// C24_Lines: every input of a few bytes, split anywhere.
func C24_Lines() {
	in := vsym.BytesN("in", 1+vsym.Choose("len", vsym.Pick(3, 4)))
	for _, c := range in {
		vsym.Assume(c < 0x80)
	}
	zzExercise(in, false, zzPipe())
}

// C24_Fates: a failed or dropped line does not disturb the others.
func C24_Fates() {
	var in []byte
	n := 1 + vsym.Choose("lines", vsym.Pick(3, 4))
	for i := 0; i < n; i++ {
		switch vsym.Choose("line", 3) {
		case 0:
			in = append(in, byte('a'+i))
		case 1:
			in = append(in, ' ', byte('a'+i), '\t')
		case 2:
		}
		if i < n-1 || vsym.Choose("final newline", 2) == 1 {
			in = append(in, '\n')
		}
	}
	vsym.Assume(len(in) > 0)
	zzExercise(in, true, zzPipe(pipeline.ProcessorConfig{"zzcli": &pipeline.ProcessorOptionConfig{}}))
}

// C24_Row: every row of outcomes, with and without blank lines in between.
func C24_Row() {
	zzWhole = true
	var in []byte
	n := vsym.Pick(5, 7)
	blank := vsym.Choose("blank", 4)
	for i := 0; i < n; i++ {
		if blank == 1 && i > 0 || blank == 2 && i%3 == 1 || blank == 3 && i == n-1 {
			in = append(in, '\n')
		}
		in = append(in, byte('a'+i), '\n')
	}
	zzExercise(in, true, zzPipe(pipeline.ProcessorConfig{"zzcli": &pipeline.ProcessorOptionConfig{}}))
}

// C24_Many: many lines, of which one carries symbolic text and one has an
// outcome of its own.
func C24_Many() {
	n := []int{12, 20}[vsym.Choose("lines", 2)]
	var in []byte
	at := []int{0, 3, 9, n - 1}[vsym.Choose("at", 4)]
	for i := 0; i < n; i++ {
		switch {
		case i == at:
			b := vsym.BytesN("b", 2)
			vsym.Assume(b[0] < 0x80 && b[1] < 0x80)
			in = append(in, b...)
		case i%5 == 3:
			in = append(in, " \t"...)
		case i%4 == 2:
		default:
			in = append(in, "line "...)
			in = append(in, byte('a'+i))
		}
		in = append(in, '\n')
	}
	zzExercise(in, false, zzPipe())
}

// C24_Long: lines longer than any small buffer.
func C24_Long() {
	n := []int{1022, 4095, 4096, 4097, 8191}[vsym.Choose("length", vsym.Pick(4, 5))]
	long := make([]byte, n)
	for i := range long {
		long[i] = byte('a' + i%26)
	}
	c := vsym.Uint8("c")
	vsym.Assume(c < 0x80)
	long[[]int{0, n / 2, n - 1}[vsym.Choose("at", 3)]] = c
	in := append(append([]byte("first\n"), long...), "\nlast\n"...)
	log.SetOutput(io.Discard)
	w := &zzWriter{}
	err := zzRun(&zzReader{data: append([]byte(nil), in...), cut: []int{0, 5, n}[vsym.Choose("cut", 3)], err: io.EOF}, w, zzPipe())
	vsym.Assert(err == nil, "long lines are read")
	var want []*event.Event
	for i, l := range zzLines(in) {
		if l = zzTrim(l); len(l) > 0 {
			want = append(want, zzEvent(i+1, l))
		}
	}
	zzCheck(w.data, want)
	vsym.Reach("long")
}

// C24_Process: the pipeline is applied to the line.
func C24_Process() {
	log.SetOutput(io.Discard)
	s := vsym.StringN("s", 2)
	for i := 0; i < len(s); i++ {
		vsym.Assume(s[i] < 0x80 && !zzSpace(s[i]))
	}
	w := &zzWriter{}
	p := zzPipe(
		pipeline.ProcessorConfig{"set": {Config: map[string]interface{}{"target_field": "copy", "copy_from": "event.original"}}},
		pipeline.ProcessorConfig{"remove": {Config: map[string]interface{}{"fields": []interface{}{"event.original"}}}},
	)
	err := zzRun(&zzReader{data: []byte(s + "\n" + s), err: io.EOF}, w, p)
	vsym.Assert(err == nil, "the input is read")
	var want []*event.Event
	for i := 1; i <= 2; i++ {
		e := zzEvent(i, []byte(s))
		e.Delete("event.original")
		e.Put("copy", event.String(s))
		want = append(want, e)
	}
	zzCheck(w.data, want)
	vsym.Reach("processed")
}
