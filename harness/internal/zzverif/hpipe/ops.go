package hpipe

import (
	"github.com/andrewkroh/go-sawmill/internal/zzverif/gen"
	"github.com/andrewkroh/go-sawmill/internal/zzverif/vsym"
	"github.com/andrewkroh/go-sawmill/pkg/event"
	"github.com/andrewkroh/go-sawmill/pkg/pipeline"
	"github.com/andrewkroh/go-sawmill/pkg/processor"
	"github.com/andrewkroh/go-sawmill/pkg/processor/registry"
)

// The doing processor does what doing says with its event.
type doer struct{ config scriptConfig }

var doing func(name string, e processor.Event) error

func (p *doer) Config() scriptConfig            { return p.config }
func (p *doer) Process(e processor.Event) error { return doing(p.config.Name, e) }
func newDoer(c scriptConfig) (*doer, error)     { return &doer{config: c}, nil }
func init()                                     { registry.MustRegister("zzdoer", newDoer) }

// oneOp is an operation on an event that a processor or a caller may do.
type oneOp struct {
	kind int
	key  string
	v    *event.Value
}

type opEvent interface {
	Put(key string, v *event.Value) (*event.Value, error)
	TryPut(key string, v *event.Value) (*event.Value, error)
	Get(key string) *event.Value
	Delete(key string) *event.Value
}

func (o oneOp) do(e opEvent) (*event.Value, error) {
	switch o.kind {
	case 0:
		return e.Put(o.key, gen.Copy(o.v))
	case 1:
		return e.TryPut(o.key, gen.Copy(o.v))
	case 2:
		return e.Get(o.key), nil
	}
	return e.Delete(o.key), nil
}

func sameError(a, b error) bool {
	return (a == nil) == (b == nil) && (a == nil || a.Error() == b.Error())
}

// C02_Processor: a processor's view of an event is the event itself: every
// operation gives what it gives on the event alone, also through two
// processors in a row.
func C02_Processor() {
	in := event.New()
	switch vsym.Choose("in", 4) {
	case 1:
		in.Put("a", event.Integer(1))
	case 2:
		in.Put("a.b", event.Object(map[string]*event.Value{"a": event.String("x")}))
	case 3:
		in.Put("b", event.NullValue)
	}
	alone := gen.CopyEvent(in)
	var ops []oneOp
	keys := []string{"a", "b", "a.b", "b.a", "a.b.a", "", ".", `a\\.b`}
	for i := 0; i < 2; i++ {
		op := oneOp{kind: vsym.Choose("op", 4)}
		n := len(keys)
		if i == 1 {
			n = 3
		}
		op.key = keys[vsym.Choose("key", n)]
		if op.kind < 2 {
			op.v = event.Integer(vsym.Int64("value"))
		}
		ops = append(ops, op)
	}
	end := vsym.Choose("end", 3)
	n := 0
	doing = func(_ string, e processor.Event) error {
		got, err := ops[n].do(e)
		want, werr := ops[n].do(alone)
		vsym.Assert(gen.Same(got, want), "an operation of a processor returns what it returns on the event")
		vsym.Assert(sameError(err, werr), "an operation of a processor fails when it fails on the event")
		for _, k := range []string{"a", "b", "a.b"} {
			vsym.Assert(gen.Same(e.Get(k), alone.Get(k)), "a processor sees what it did")
		}
		n++
		if n == 1 {
			switch end {
			case 1:
				e.Drop()
			case 2:
				e.Cancel()
			}
		}
		return nil
	}
	p, err := pipeline.New(&pipeline.Config{ID: "p", Processors: []pipeline.ProcessorConfig{
		{"zzdoer": {Config: opts{"name": "x"}}}, {"zzdoer": {Config: opts{"name": "y"}}}}})
	vsym.Assert(err == nil && p != nil, "the pipeline is built")
	if err != nil {
		return
	}
	out, err := p.Process(in)
	vsym.Assert(err == nil, "processing succeeds")
	vsym.Assert((out == nil) == (end == 1), "an event is returned unless it was dropped")
	want := 2
	if end > 0 {
		want = 1
	}
	vsym.Assert(n == want, "every processor runs unless an earlier one drops or cancels")
	vsym.Assert(out == nil || gen.SameEvent(out, alone), "the result is the event with all operations applied")
	vsym.Reach("processed")
}
