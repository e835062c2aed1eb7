package hpipe

import (
	"encoding/json"

	"github.com/andrewkroh/go-sawmill/internal/zzverif/gen"
	"github.com/andrewkroh/go-sawmill/internal/zzverif/vsym"
	"github.com/andrewkroh/go-sawmill/pkg/event"
	"github.com/andrewkroh/go-sawmill/pkg/pipeline"
	"github.com/andrewkroh/go-sawmill/pkg/processor/registry"
)

// stepT is a configured processor that works on the field m, with every mix of
// the ignore options.
func stepT(name string) pipeline.ProcessorConfig {
	var typ string
	o := opts{}
	switch vsym.Choose(name, 7) {
	case 0:
		typ, o = "lowercase", opts{"field": "m"}
	case 1:
		typ, o = "uppercase", opts{"field": "m", "target_field": "t"}
	case 2:
		typ, o = "append", opts{"field": "m", "value": "x"}
	case 3:
		typ, o = "append", opts{"field": "m.l", "value": "x", "allow_duplicates": false}
	case 4:
		typ, o = "set", opts{"target_field": "m", "value": map[string]interface{}{"l": []interface{}{"x"}}}
	case 5:
		typ, o = "set", opts{"target_field": "t", "copy_from": "m"}
	case 6:
		typ, o = "remove", opts{"fields": []interface{}{"m", "z"}}
	}
	switch vsym.Choose(name+" ignores", 3) {
	case 1:
		o["ignore_failure"] = true
	case 2:
		if typ != "append" {
			o["ignore_missing"] = true
		}
	}
	return pipeline.ProcessorConfig{typ: {Config: o}}
}

// fieldM is an event whose field m is missing, text, null, an array or an
// object, with symbolic text inside.
func fieldM(name string) *event.Event {
	e := event.New()
	e.Put("k", event.Integer(7))
	s := vsym.StringN(name, 1)
	gen.ASCII(s)
	switch vsym.Choose(name+" kind", 5) {
	case 1:
		e.Put("m", event.String(s))
	case 2:
		e.Put("m", event.Array(event.String(s), event.String("y")))
	case 3:
		e.Put("m", event.Object(map[string]*event.Value{"l": event.Array(event.String(s))}))
	case 4:
		e.Put("m", event.NullValue)
	}
	return e
}

// C27_Process: events in one pipeline at the same time.
func C27_Process() {
	first := stepT("first")
	if vsym.Choose("handler", 2) == 1 {
		for _, o := range first {
			o.OnFailure = []pipeline.ProcessorConfig{{"set": {Config: opts{"target_field": "handled", "value": "yes"}}}}
		}
	}
	c := &pipeline.Config{ID: "p", Processors: []pipeline.ProcessorConfig{first}}
	if vsym.Pick(0, 1) == 1 {
		c.Processors = append(c.Processors, stepT("second"))
	} else {
		c.Processors = append(c.Processors, pipeline.ProcessorConfig{"lowercase": {Config: opts{"field": "m", "ignore_missing": true}}})
	}
	if vsym.Choose("global handler", 2) == 1 {
		c.OnFailure = []pipeline.ProcessorConfig{{"append": {Config: opts{"field": "log", "value": "failed"}}}}
	}
	p, err := pipeline.New(c)
	vsym.Assert(err == nil, "a valid configuration is accepted")
	vsym.Assume(err == nil)
	fresh, err := pipeline.New(c)
	vsym.Assume(err == nil)
	in := [2]*event.Event{fieldM("one"), event.New()}
	in[1].Put("m", event.String("Two"))
	var keep [2]*event.Event
	for i := range in {
		keep[i] = gen.CopyEvent(in[i])
	}
	var out [2]*event.Event
	var errs [2]error
	vsym.Together(func(i int) { out[i], errs[i] = p.Process(in[i]) }, p, c)
	for i := range in {
		want, werr := fresh.Process(keep[i])
		vsym.Assert((errs[i] == nil) == (werr == nil), "an event fails exactly when it fails alone")
		vsym.Assert(gen.SameEvent(out[i], want), "an event is processed as it is alone")
	}
	if errs[0] != nil {
		vsym.Reach("failed")
	}
	vsym.Reach("processed")
}

// C27_Again: a pipeline that has processed events already.
func C27_Again() {
	c := &pipeline.Config{ID: "p", Processors: []pipeline.ProcessorConfig{stepT("step")},
		OnFailure: []pipeline.ProcessorConfig{{"append": {Config: opts{"field": "log", "value": "failed"}}}}}
	p, err := pipeline.New(c)
	vsym.Assume(err == nil)
	fresh, err := pipeline.New(c)
	vsym.Assume(err == nil)
	warm := fieldM("warm")
	before, _ := p.Process(warm)
	kept := gen.CopyEvent(before)
	one := fieldM("one")
	two := gen.CopyEvent(one)
	want, werr := fresh.Process(gen.CopyEvent(one))
	in := [2]*event.Event{one, two}
	var out [2]*event.Event
	var errs [2]error
	vsym.Together(func(i int) { out[i], errs[i] = p.Process(in[i]) }, p, c, before)
	for i := range in {
		vsym.Assert((errs[i] == nil) == (werr == nil), "an event fails exactly when it fails alone")
		vsym.Assert(gen.SameEvent(out[i], want), "an event is processed as it is alone")
	}
	vsym.Assert(before == nil || gen.SameEvent(before, kept), "an earlier result does not change")
	vsym.Reach("processed")
}

// C27_Build: pipelines built, described and encoded from one configuration at
// the same time.
func C27_Build() {
	c := &pipeline.Config{ID: "p", Description: "d", Processors: []pipeline.ProcessorConfig{stepT("step")},
		OnFailure: []pipeline.ProcessorConfig{{"append": {Config: opts{"field": "log", "value": "failed"}}}}}
	for _, o := range c.Processors[0] {
		o.OnFailure = []pipeline.ProcessorConfig{{"set": {Config: opts{"target_field": "handled", "value": "yes"}}}}
		switch vsym.Choose("defect", 4) {
		case 1:
			o.Config["field"] = map[string]interface{}{"a": "b"}
		case 2:
			o.OnFailure = append(o.OnFailure, pipeline.ProcessorConfig{"nothing": {}})
		case 3:
			o.Config = nil
		}
	}
	var p [2]*pipeline.Pipeline
	var errs [2]error
	var n [2]int
	vsym.Together(func(i int) {
		p[i], errs[i] = pipeline.New(c)
		if errs[i] == nil {
			n[i] = len(p[i].Metrics())
			p[i].Process(event.New())
		}
	}, c)
	vsym.Assert((errs[0] == nil) == (errs[1] == nil), "both are built or refused")
	vsym.Assert(errs[0] != nil || p[0] != nil && p[0] != p[1], "each call builds its own pipeline")
	vsym.Assert(errs[0] != nil || n[0] == n[1] && n[0] == 12, "each pipeline has its counters")
	var text [2][]byte
	vsym.Together(func(i int) { text[i], errs[i] = json.Marshal(c) }, c)
	vsym.Assert((errs[0] == nil) == (errs[1] == nil) && string(text[0]) == string(text[1]), "a configuration is encoded in one way")
	vsym.Reach("built")
}

// C27_Registry: processors built from one registry at the same time.
func C27_Registry() {
	o := opts{"field": "f"}
	switch vsym.Choose("options", 4) {
	case 1:
		o = nil
	case 2:
		o["field"] = vsym.StringN("field", 1)
	case 3:
		o["field"] = []interface{}{1.0}
	}
	typ := []string{"lowercase", "set", "none", "remove", "append"}[vsym.Choose("type", 5)]
	var errs [2]error
	vsym.Together(func(i int) { _, errs[i] = registry.NewProcessor(typ, o) }, o)
	vsym.Assert((errs[0] == nil) == (errs[1] == nil), "both are built or refused")
	vsym.Reach("built")
}
