package hpipe

import (
	"errors"
	"fmt"
	"strconv"
	"strings"

	"github.com/prometheus/client_golang/prometheus"
	dto "github.com/prometheus/client_model/go"

	"github.com/andrewkroh/go-sawmill/internal/zzverif/gen"
	"github.com/andrewkroh/go-sawmill/internal/zzverif/vsym"
	"github.com/andrewkroh/go-sawmill/pkg/event"
	"github.com/andrewkroh/go-sawmill/pkg/pipeline"
	"github.com/andrewkroh/go-sawmill/pkg/processor"
	"github.com/andrewkroh/go-sawmill/pkg/processor/registry"
)

// The scripted processor: what each call does is a symbolic choice.
type scriptConfig struct {
	Name          string `config:"name"`
	IgnoreMissing bool   `config:"ignore_missing"`
	IgnoreFailure bool   `config:"ignore_failure"`
}

type script struct{ config scriptConfig }

func (p *script) Config() scriptConfig { return p.config }

func (p *script) Process(evt processor.Event) error { return act(p.config.Name, evt) }

func newScript(c scriptConfig) (*script, error) {
	if c.Name == "bad" {
		return nil, errors.New("bad component")
	}
	return &script{config: c}, nil
}

// The failing processor returns a given error.
type failing struct{ config scriptConfig }

var scripted error

func (p *failing) Config() scriptConfig           { return p.config }
func (p *failing) Process(processor.Event) error  { return scripted }
func newFailing(c scriptConfig) (*failing, error) { return &failing{config: c}, nil }

func init() {
	registry.MustRegister("zzscript", newScript)
	registry.MustRegister("zzerror", newFailing)
}

// Outcomes of a call.
const (
	oOK = iota
	oFail
	oMissing
	oWrapped
	oDrop
	oCancel
	oDropFail   // drops the event and returns an error
	oCancelFail // cancels the event and returns an error
	oCancelDrop // cancels the event and drops it, twice
	oDropCancel // drops the event and cancels it
)

type call struct {
	name    string
	outcome uint8
	err     error
}

var (
	allowed []uint8          // outcomes the script may choose from
	free    map[string]bool  // the components that may choose, nil for all
	fixed   map[string]uint8 // outcomes that are given, nil for none
	during  func(n int)      // runs in the middle of call n
	trace   []call
	extra   func(e *event.Event) // adds to the input of a pipeline
	bare    int                  // 1: components change nothing, 2: they empty the event; events start without fields
)

// allow starts a check in which components have these outcomes.
func allow(outcomes ...uint8) {
	allowed, free, fixed, during, trace, bare, extra = outcomes, nil, nil, nil, nil, 0, nil
}

// mayCall bounds the number of calls per event, far above what the
// configuration allows.
const mayCall = 40

func act(name string, evt processor.Event) error {
	n := len(trace)
	vsym.Assert(n < mayCall, "an event is processed finitely often")
	vsym.Assume(n < mayCall)
	o := uint8(oOK)
	if fixed != nil {
		o = fixed[name]
	} else if free == nil || free[name] {
		o = vsym.Uint8("outcome")
		ok := false
		for _, a := range allowed {
			ok = vsym.Or(ok, o == a)
		}
		vsym.Assume(ok)
	}
	c := call{name: name, outcome: o}
	if bare == 0 {
		evt.Put("seen."+name, event.Integer(int64(n)))
	} else if bare == 2 {
		evt.Delete("message")
	}
	if during != nil {
		during(n)
	}
	if o == oFail {
		c.err = fmt.Errorf("failure of %s in call %d", name, n)
	} else if o == oMissing {
		c.err = processor.ErrorKeyMissing{Key: name}
	} else if o == oWrapped {
		c.err = fmt.Errorf("outer: %w", fmt.Errorf("inner: %w", processor.ErrorKeyMissing{Key: name}))
	} else if o == oDrop {
		evt.Drop()
	} else if o == oCancel {
		evt.Cancel()
	} else if o == oDropFail {
		evt.Drop()
		c.err = fmt.Errorf("failure of %s in call %d", name, n)
	} else if o == oCancelDrop {
		evt.Cancel()
		evt.Drop()
		evt.Drop()
	} else if o == oDropCancel {
		evt.Drop()
		evt.Cancel()
	} else if o == oCancelFail {
		evt.Cancel()
		c.err = fmt.Errorf("failure of %s in call %d", name, n)
	}
	trace = append(trace, c)
	return c.err
}

// comp is one configured component.
type comp struct {
	name, id                    string
	im, ifl                     bool
	onf                         []*comp
	in, out, failures, discards int
}

type plan struct {
	id       string
	procs    []*comp
	onf      []*comp
	all      []*comp
	flags    bool // ignore_missing and ignore_failure are symbolic
	nextName int
}

// shape is a component tree in brackets: "(())()" are two components, the
// first with one on_failure handler.
func (p *plan) comps(shape, base string) []*comp {
	var out []*comp
	for len(shape) > 0 {
		depth, i := 0, 0
		for {
			if shape[i] == '(' {
				depth++
			} else {
				depth--
			}
			i++
			if depth == 0 {
				break
			}
		}
		c := &comp{name: string(rune('a' + p.nextName))}
		c.id = base + "[" + strconv.Itoa(len(out)) + "].zzscript"
		p.nextName++
		p.all = append(p.all, c)
		if p.flags {
			c.im = vsym.Bool("ignore_missing." + c.name)
			c.ifl = vsym.Bool("ignore_failure." + c.name)
		}
		c.onf = p.comps(shape[1:i-1], c.id+".on_failure")
		out = append(out, c)
		shape = shape[i:]
	}
	return out
}

func configs(cs []*comp) []pipeline.ProcessorConfig {
	var out []pipeline.ProcessorConfig
	for _, c := range cs {
		out = append(out, pipeline.ProcessorConfig{"zzscript": &pipeline.ProcessorOptionConfig{
			OnFailure: configs(c.onf),
			Config: map[string]interface{}{
				"name":           c.name,
				"ignore_missing": c.im,
				"ignore_failure": c.ifl,
			},
		}})
	}
	return out
}

// newPlan reads "processors|on_failure".
func newPlan(shape string, flags bool) (*plan, *pipeline.Pipeline) {
	p := &plan{id: "p", flags: flags}
	i := strings.Index(shape, "|")
	p.procs = p.comps(shape[:i], p.id+".processors")
	p.onf = p.comps(shape[i+1:], p.id+".on_failure")
	pipe, err := pipeline.New(&pipeline.Config{ID: p.id, Processors: configs(p.procs), OnFailure: configs(p.onf)})
	vsym.Assert(err == nil, "a valid configuration is accepted")
	vsym.Assume(err == nil)
	return p, pipe
}

// sim replays the trace against the documented rules.
type sim struct {
	pos                int
	dropped, cancelled bool
	ok                 bool
}

func (s *sim) run(c *comp) error {
	if s.pos >= len(trace) || trace[s.pos].name != c.name {
		s.ok = false
		return nil
	}
	t := trace[s.pos]
	s.pos++
	c.in++
	switch t.outcome {
	case oOK:
		c.out++
		return nil
	case oCancel:
		s.cancelled = true
		c.out++
		return nil
	case oDrop, oDropFail, oCancelDrop, oDropCancel:
		s.dropped = true
		c.discards++
		return nil
	case oCancelFail:
		s.cancelled = true
	}
	err := t.err
	if c.im && (t.outcome == oMissing || t.outcome == oWrapped) {
		c.out++
		return nil
	}
	for _, h := range c.onf {
		if s.cancelled {
			break
		}
		err = s.run(h)
		if !s.ok {
			return nil
		}
		if s.dropped {
			c.discards++
			return nil
		}
		if err != nil {
			break
		}
	}
	if err == nil || c.ifl {
		c.out++
		return nil
	}
	c.failures++
	return err
}

func (s *sim) pipeline(p *plan) error {
	var err error
	for _, c := range p.procs {
		if err != nil || !s.ok || s.dropped || s.cancelled {
			break
		}
		err = s.run(c)
	}
	if err == nil || !s.ok || s.dropped || s.cancelled {
		return err
	}
	for _, c := range p.onf {
		err = s.run(c)
		if err != nil || !s.ok || s.dropped || s.cancelled {
			return err
		}
	}
	return err
}

// input is the event given to the pipeline.
func input() *event.Event {
	e := event.New()
	if bare == 1 {
		return e
	}
	e.Put("message", event.Integer(vsym.Int64("message")))
	if extra != nil {
		extra(e)
	}
	return e
}

// process runs one event and checks the result against the rules.
func (p *plan) process(pipe *pipeline.Pipeline) {
	trace = nil
	e := input()
	want := gen.CopyEvent(e)
	got, err := pipe.Process(e)
	for i, c := range trace {
		if bare == 0 {
			want.Put("seen."+c.name, event.Integer(int64(i)))
		} else if bare == 2 {
			want.Delete("message")
		}
	}
	s := &sim{ok: true}
	wantErr := s.pipeline(p)
	vsym.Assert(s.ok, "components run in the configured order, handlers only after a failure")
	vsym.Assume(s.ok)
	vsym.Assert(s.pos == len(trace), "nothing runs after the pipeline is finished")
	if s.dropped {
		vsym.Assert(got == nil && err == nil, "a dropped event yields neither an event nor an error")
		vsym.Reach("dropped")
		return
	}
	if wantErr != nil {
		vsym.Assert(err != nil, "a failure that nothing handles is returned")
		vsym.Assert(got == nil, "a failed event is not returned")
		mine := false
		for _, c := range trace {
			if c.err != nil && errors.Is(err, c.err) {
				mine = true
			}
		}
		vsym.Assert(mine, "the returned error is one that a component raised")
		vsym.Reach("failed")
		return
	}
	vsym.Assert(err == nil, "a handled or ignored failure is not returned")
	vsym.Assert(gen.SameEvent(got, want), "the result holds exactly what the executed components did")
	if s.cancelled {
		vsym.Reach("cancelled")
	}
	vsym.Reach("finished")
}

// counters reads every counter of the pipeline by component ID.
func counters(pipe *pipeline.Pipeline) map[string]map[string]float64 {
	out := map[string]map[string]float64{}
	for _, c := range pipe.Metrics() {
		m, ok := c.(prometheus.Metric)
		if !ok {
			vsym.Assert(false, "every collector is a counter")
			continue
		}
		var d dto.Metric
		if m.Write(&d) != nil || d.Counter == nil {
			vsym.Assert(false, "every collector is a counter")
			continue
		}
		id := ""
		for _, l := range d.Label {
			if l.GetName() == "component_id" {
				id = l.GetValue()
			}
		}
		desc := m.Desc().String()
		for _, k := range []string{"received", "sent", "errors", "discarded"} {
			name := "component_" + k + "_events_total"
			if k == "errors" {
				name = "component_errors_total"
			}
			if strings.Contains(desc, name) {
				if out[id] == nil {
					out[id] = map[string]float64{}
				}
				out[id][k] += d.Counter.GetValue()
			}
		}
	}
	return out
}

func (p *plan) checkCounters(pipe *pipeline.Pipeline) {
	m := counters(pipe)
	for _, c := range p.all {
		k, ok := m[c.id]
		vsym.Assert(ok && len(k) == 4, "every component has its four counters")
		if !ok {
			continue
		}
		vsym.Assert(k["received"] == float64(c.in), "received counts the events a component was given")
		vsym.Assert(k["received"] == k["sent"]+k["errors"]+k["discarded"], "every received event is sent, failed or discarded")
		vsym.Assert(k["discarded"] == float64(c.discards), "discarded counts the dropped events")
		vsym.Assert(k["errors"] == float64(c.failures), "errors counts the failures that were not handled")
		vsym.Assert(k["sent"] == float64(c.out), "sent counts the events a component passed on")
	}
	vsym.Assert(len(m) == len(p.all), "there are no counters of other components")
}
