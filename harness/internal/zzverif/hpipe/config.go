package hpipe

import (
	"encoding/json"
	"errors"
	"strings"

	"github.com/prometheus/client_golang/prometheus"
	dto "github.com/prometheus/client_model/go"

	"github.com/andrewkroh/go-sawmill/internal/zzverif/gen"
	"github.com/andrewkroh/go-sawmill/internal/zzverif/vsym"
	"github.com/andrewkroh/go-sawmill/pkg/event"
	"github.com/andrewkroh/go-sawmill/pkg/pipeline"
	"github.com/andrewkroh/go-sawmill/pkg/processor"
	"github.com/andrewkroh/go-sawmill/pkg/processor/registry"
)

// ---- C16 isolation

func step(name string) pipeline.ProcessorConfig {
	mk := func(t string, o opts) pipeline.ProcessorConfig {
		return pipeline.ProcessorConfig{t: &pipeline.ProcessorOptionConfig{Config: o}}
	}
	switch vsym.Choose(name, 8) {
	case 0:
		return mk("set", opts{"target_field": "t", "value": map[string]interface{}{"a": "b", "l": []interface{}{"x"}}})
	case 1:
		return mk("set", opts{"target_field": "t", "value": []interface{}{"x"}})
	case 2:
		return mk("set", opts{"target_field": "t", "copy_from": "m", "ignore_missing": true})
	case 3:
		return mk("append", opts{"field": "t", "value": "z", "allow_duplicates": true})
	case 4:
		return mk("set", opts{"target_field": "t.n", "value": "n", "ignore_failure": true})
	case 5:
		return mk("append", opts{"field": "m", "value": "y"})
	case 6:
		return mk("lowercase", opts{"field": "m", "target_field": "t.low", "ignore_missing": true})
	}
	return mk("remove", opts{"fields": []interface{}{"m", "t.a"}, "ignore_missing": true})
}

// scribble changes everything below v in place.
func scribble(v *event.Value) {
	if v == nil {
		return
	}
	for _, x := range v.Array {
		scribble(x)
	}
	for _, x := range v.Object {
		scribble(x)
	}
	switch v.Type {
	case event.ArrayType:
		for i := range v.Array {
			v.Array[i] = event.String("scribbled")
		}
		v.Array = append(v.Array, event.String("scribbled"))
	case event.ObjectType:
		if v.Object != nil {
			v.Object["scribbled"] = event.Bool(true)
		}
	case event.StringType:
		v.String = "scribbled"
	case event.NullType:
		// Null may be shared.
	default:
		v.Integer, v.Bool = 99, !v.Bool
	}
}

func eventM(name string) *event.Event {
	e := event.New()
	if vsym.Choose(name+".has", 2) == 1 {
		e.Put("m", gen.Opts{Depth: 1, Width: 1, KeyLen: 1, StrLen: 1, UTF8: true}.Value(name))
	}
	return e
}

func outcome(p *pipeline.Pipeline, e *event.Event) (*event.Event, error) { return p.Process(e) }

// C16_Reuse: what happened to one event does not influence the next one.
func C16_Reuse() {
	c := &pipeline.Config{ID: "p", Processors: []pipeline.ProcessorConfig{step("first"), step("second")}}
	p, err := pipeline.New(c)
	vsym.Assert(err == nil, "a valid configuration is accepted")
	vsym.Assume(err == nil)
	fresh, err := pipeline.New(c)
	vsym.Assume(err == nil)
	r1, err1 := p.Process(eventM("one"))
	vsym.Assert((r1 == nil) == (err1 != nil), "an event or an error comes back")
	if vsym.Choose("owner changes it", 2) == 1 {
		for _, v := range gen.Root(r1) {
			scribble(v)
		}
	}
	keep := gen.CopyEvent(r1)
	two := event.New()
	two.Put("m", event.String("Two"))
	r2, err2 := p.Process(gen.CopyEvent(two))
	want, errW := fresh.Process(gen.CopyEvent(two))
	vsym.Assert((err2 == nil) == (errW == nil), "an event fails exactly when it fails in a new pipeline")
	vsym.Assert(gen.SameEvent(r2, want), "an event is processed as in a new pipeline")
	vsym.Assert(r1 == nil || gen.SameEvent(r1, keep), "a result does not change when later events are processed")
	vsym.Reach("second")
}

// C16_Copy: a copied field and its source are independent afterwards.
func C16_Copy() {
	e := event.New()
	e.Put("m", gen.Opts{Depth: 2, Width: 1, KeyLen: 1, StrLen: 1, UTF8: true}.Value("m"))
	typ, o := "set", opts{"target_field": "t", "copy_from": "m"}
	if m := e.Get("m"); m.Type == event.StringType {
		if typ = choose("type", "set", "lowercase", "uppercase"); typ != "set" {
			gen.ASCII(m.String)
			o = opts{"target_field": "t", "field": "m"}
		}
	}
	r, err := one(typ, o, false).Process(e)
	vsym.Assert(err == nil && r != nil, "the field is copied")
	vsym.Assume(err == nil && r != nil)
	from, to := "m", "t"
	if vsym.Choose("direction", 2) == 1 {
		from, to = to, from
	}
	keep := gen.Copy(r.Get(to))
	scribble(r.Get(from))
	vsym.Assert(gen.Same(r.Get(to), keep), "changing one of the fields leaves the other one as it was")
	vsym.Reach("copied")
}

// C16_Config: the pipeline does not depend on its configuration after New.
func C16_Config() {
	val := map[string]interface{}{"a": "b", "l": []interface{}{"x"}}
	list := []interface{}{"k"}
	c := &pipeline.Config{ID: "p",
		Processors: []pipeline.ProcessorConfig{
			{"set": &pipeline.ProcessorOptionConfig{Config: opts{"target_field": "t", "value": val}}},
			{"remove": &pipeline.ProcessorOptionConfig{Config: opts{"fields": list}}},
		},
		OnFailure: []pipeline.ProcessorConfig{
			{"set": &pipeline.ProcessorOptionConfig{Config: opts{"target_field": "bad", "value": "yes"}}},
		},
	}
	p, err := pipeline.New(c)
	vsym.Assume(err == nil)
	val["a"], val["n"] = "changed", "new"
	val["l"].([]interface{})[0] = "changed"
	list[0] = "z"
	c.Processors[0]["set"].Config["target_field"] = "elsewhere"
	c.Processors = nil
	c.OnFailure[0]["set"].Config["value"] = "changed"
	e := event.New()
	has := vsym.Bool("has")
	if has {
		e.Put("k", event.Integer(vsym.Int64("k")))
	}
	want := event.New()
	want.Put("t", event.Object(map[string]*event.Value{"a": event.String("b"), "l": event.Array(event.String("x"))}))
	if !has {
		want.Put("bad", event.String("yes"))
	}
	got, err := p.Process(e)
	same(got, err, want, "a later change of the configuration has no effect")
	vsym.Reach("processed")
}

// ---- C17 construction

// tree is a configuration of the shape in which at most one entry has a
// defect; it reports whether it has one.
type builder struct {
	at, defect int
	n          int
	used       bool
}

func (b *builder) build(shape string) []pipeline.ProcessorConfig {
	var out []pipeline.ProcessorConfig
	for len(shape) > 0 {
		depth, i := 0, 0
		for {
			if shape[i] == '(' {
				depth++
			} else {
				depth--
			}
			i++
			if depth == 0 {
				break
			}
		}
		me := b.n
		b.n++
		good := &pipeline.ProcessorOptionConfig{
			OnFailure: b.build(shape[1 : i-1]),
			Config:    opts{"name": string(rune('a' + me))},
		}
		e := pipeline.ProcessorConfig{"zzscript": good}
		if me == b.at {
			b.used = true
			switch b.defect {
			case 0:
				e = pipeline.ProcessorConfig{}
			case 1:
				e = nil
			case 2:
				e["set"] = &pipeline.ProcessorOptionConfig{Config: opts{"target_field": "t", "value": "v"}}
			case 3:
				e = pipeline.ProcessorConfig{"nosuchtype": good}
			case 4:
				good.Config["name"] = "bad"
			case 5:
				good.Config["ignore_failure"] = "perhaps"
			case 6:
				e = pipeline.ProcessorConfig{"lowercase": {OnFailure: good.OnFailure, Config: opts{"target_field": "t"}}}
			case 7:
				e = pipeline.ProcessorConfig{"": good}
			}
		}
		out = append(out, e)
		shape = shape[i:]
	}
	return out
}

// C17_Valid: a configuration is refused exactly when some part is invalid,
// however deep it is nested.
func C17_Valid() {
	s := choose("shape", "()|", "()()|()", "(()())|()", "((()))|(())", "|()", "|()(())", "|")
	b := &builder{at: vsym.Choose("at", 6), defect: vsym.Choose("defect", 8)}
	id := vsym.String("id", 1)
	gen.ASCII(id)
	i := strings.Index(s, "|")
	c := &pipeline.Config{ID: id, Processors: b.build(s[:i]), OnFailure: b.build(s[i+1:])}
	p, err := pipeline.New(c)
	if b.used || id == "" {
		vsym.Assert(p == nil && err != nil, "an invalid configuration is refused")
		vsym.Reach("refused")
		return
	}
	vsym.Assert(p != nil && err == nil, "a valid configuration is accepted")
	if p != nil {
		vsym.Assert(p.ID() == id, "the pipeline has the configured ID")
	}
	vsym.Reach("accepted")
}

// C17_NilOptions: an entry without options uses the defaults.
func C17_NilOptions() {
	p, err := pipeline.New(&pipeline.Config{ID: "p", Processors: []pipeline.ProcessorConfig{{"zzscript": nil}}})
	vsym.Assert(p != nil && err == nil, "an entry without options is accepted")
	vsym.Reach("accepted")
}

func identity(c prometheus.Collector) (string, string) {
	m, ok := c.(prometheus.Metric)
	if !ok {
		return "", ""
	}
	var d dto.Metric
	if m.Write(&d) != nil {
		return "", ""
	}
	id := ""
	for _, l := range d.Label {
		if l.GetName() == "component_id" {
			id = l.GetValue()
		}
	}
	return id, m.Desc().String()
}

// C17_Unique: the metrics of all components of two pipelines can be
// registered together.
func C17_Unique() {
	sh := []string{"()|", "()()|()()", "(()())(())|(())", "((()))(()())|()", "()()()()()()()()()()()()|"}
	s1, s2 := sh[vsym.Choose("one", len(sh))], sh[vsym.Choose("two", len(sh))]
	seen := map[string]bool{}
	n := 0
	for k, s := range []string{s1, s2} {
		i := strings.Index(s, "|")
		b := &builder{at: -1}
		p, err := pipeline.New(&pipeline.Config{ID: []string{"p", "q"}[k], Processors: b.build(s[:i]), OnFailure: b.build(s[i+1:])})
		vsym.Assume(err == nil)
		ms := p.Metrics()
		vsym.Assert(len(ms) == 4*b.n, "every component has four counters")
		ids := map[string]int{}
		for _, m := range ms {
			id, desc := identity(m)
			vsym.Assert(id != "" && !seen[desc], "no two counters have the same name and labels")
			seen[desc] = true
			ids[id]++
			n++
		}
		vsym.Assert(len(ids) == b.n, "no two components have the same ID")
	}
	vsym.Reach("unique")
}

// ---- C18 configuration in JSON

func optionValue(name string, depth int) interface{} {
	n := 4
	if depth > 0 {
		n = 6
	}
	switch vsym.Choose(name, n) {
	case 0:
		return text(name+".s", vsym.Pick(1, 2))
	case 1:
		return vsym.Bool(name + ".b")
	case 2:
		return nil
	case 3:
		return []float64{0, 1, -2, 1.5}[vsym.Choose(name+".f", 4)]
	case 4:
		return []interface{}{optionValue(name+".e", depth-1), "x"}
	}
	return map[string]interface{}{"k": optionValue(name+".v", depth-1), "l": "x"}
}

func sameOption(a, b interface{}) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case string:
		y, ok := b.(string)
		return ok && x == y
	case bool:
		y, ok := b.(bool)
		return ok && x == y
	case float64:
		y, ok := b.(float64)
		return ok && x == y
	case int:
		y, ok := b.(int)
		return ok && x == y
	case []interface{}:
		y, ok := b.([]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameOption(x[i], y[i]) {
				return false
			}
		}
		return true
	case map[string]interface{}:
		y, ok := b.(map[string]interface{})
		return ok && sameOptions(x, y)
	}
	return false
}

func sameOptions(a, b map[string]interface{}) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		w, ok := b[k]
		if !ok || !sameOption(v, w) {
			return false
		}
	}
	return true
}

func sameProcs(a, b []pipeline.ProcessorConfig) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if len(a[i]) != len(b[i]) {
			return false
		}
		for k, x := range a[i] {
			y, ok := b[i][k]
			if !ok {
				return false
			}
			if x == nil || y == nil {
				if x != nil || y != nil {
					return false
				}
				continue
			}
			if x.ID != y.ID || x.If != y.If || !sameOptions(x.Config, y.Config) || !sameProcs(x.OnFailure, y.OnFailure) {
				return false
			}
		}
	}
	return true
}

func text(name string, max int) string {
	s := vsym.String(name, max)
	gen.ASCII(s)
	return s
}

func reserved(k string) bool { return k == "id" || k == "if" || k == "on_failure" }

// clash reports an option name that only differs in case from a reserved one.
func clash(k string) bool {
	return k != "" && reserved(fold(k, false))
}

func survives(c pipeline.Config) {
	procs, onf := copyProcs(c.Processors), copyProcs(c.OnFailure)
	b, err := json.Marshal(c)
	vsym.Assert(err == nil, "a configuration can be encoded")
	vsym.Assume(err == nil)
	vsym.Assert(sameProcs(c.Processors, procs) && sameProcs(c.OnFailure, onf), "encoding leaves the configuration alone")
	var d pipeline.Config
	err = json.Unmarshal(b, &d)
	vsym.Assert(err == nil, "an encoded configuration can be decoded")
	vsym.Assume(err == nil)
	vsym.Assert(c.ID == d.ID && c.Description == d.Description, "ID and description survive")
	vsym.Assert(sameProcs(c.Processors, d.Processors) && sameProcs(c.OnFailure, d.OnFailure), "processors, options and handlers survive in order")
	vsym.Reach("round trip")
}

// C18_Text: every text of a configuration survives JSON.
func C18_Text() {
	s := text("s", vsym.Pick(2, 3))
	t := []string{"a", "b", "c", "d", "e", "f"}
	at := vsym.Choose("at", len(t)+1)
	o := pipeline.ProcessorOptionConfig{Config: opts{"field": "x"}}
	if at < len(t) {
		t[at] = s
	} else {
		vsym.Assume(!clash(s) && s != "field")
		o.Config[s] = "v"
	}
	o.ID, o.If, o.Config["value"] = t[0], pipeline.ConditionalExpressionConfig(t[1]), t[2]
	survives(pipeline.Config{ID: t[3], Description: t[4], Processors: []pipeline.ProcessorConfig{{t[5]: &o}}})
}

// C18_Options: option values of every kind survive JSON.
func C18_Options() {
	survives(pipeline.Config{ID: "p", OnFailure: []pipeline.ProcessorConfig{{"set": {Config: opts{
		"target_field": "t", "value": optionValue("v", vsym.Pick(2, 2)), "last": optionValue("w", 0)}}}}})
}

// C18_Nesting: processors and handlers keep their place.
func C18_Nesting() {
	n := 0
	var list func(name string, depth int) []pipeline.ProcessorConfig
	list = func(name string, depth int) []pipeline.ProcessorConfig {
		var out []pipeline.ProcessorConfig
		max := 2
		if depth == 0 {
			max = 3
		}
		for i := vsym.Choose(name, max); i > 0; i-- {
			n++
			o := &pipeline.ProcessorOptionConfig{}
			if vsym.Choose(name+".plain", 2) == 0 {
				o.ID = string(rune('a' + n))
				o.Config = opts{"n": o.ID, "on_fail": true}
			}
			if depth > 0 {
				o.OnFailure = list(name+".on_failure", depth-1)
			}
			out = append(out, pipeline.ProcessorConfig{[]string{"set", "remove"}[n%2]: o})
		}
		return out
	}
	survives(pipeline.Config{ID: "p", Processors: list("processors", vsym.Pick(2, 3)), OnFailure: list("on_failure", 1)})
}

// C18_OptionCase: option names that differ from id, if and on_failure only in
// case are plain options.
func C18_OptionCase() {
	k := []string{"ID", "If", "On_Failure"}[vsym.Choose("name", 3)]
	o := &pipeline.ProcessorOptionConfig{Config: opts{k: text("v", 1)}}
	b, err := json.Marshal(o)
	vsym.Assume(err == nil)
	var d pipeline.ProcessorOptionConfig
	err = json.Unmarshal(b, &d)
	vsym.Assert(err == nil && d.ID == "" && d.If == "" && sameOptions(o.Config, d.Config), "an option whose name differs from a reserved one in case survives")
	vsym.Reach("round trip")
}

// ---- C23 registry

type cfgA struct {
	Name string `config:"name"`
	Req  string `config:"req" validate:"required"`
	N    int    `config:"n"`
}

type procA struct {
	c   cfgA
	tag int
}

func (p *procA) Process(processor.Event) error { return nil }

var errBuild = errors.New("cannot build")

type notProc struct{}

func ctor(tag int) func(cfgA) (*procA, error) {
	return func(c cfgA) (*procA, error) {
		if c.Name == "fail" {
			return nil, errBuild
		}
		if c.Name == "both" {
			return &procA{c: c, tag: tag}, errBuild
		}
		return &procA{c: c, tag: tag}, nil
	}
}

func badCtor(i int) interface{} {
	switch i {
	case 0:
		return nil
	case 1:
		return 5
	case 2:
		return "text"
	case 3:
		return &procA{}
	case 4:
		return func() (*procA, error) { return nil, nil }
	case 5:
		return func(cfgA, int) (*procA, error) { return nil, nil }
	case 6:
		return func(int) (*procA, error) { return nil, nil }
	case 7:
		return func(*cfgA) (*procA, error) { return nil, nil }
	case 8:
		return func(cfgA) *procA { return nil }
	case 9:
		return func(cfgA) (notProc, error) { return notProc{}, nil }
	case 10:
		return func(cfgA) (*notProc, error) { return nil, nil }
	case 11:
		return func(cfgA) (*procA, string) { return nil, "" }
	case 12:
		return func(cfgA) {}
	case 13:
		return func(cfgA) (*procA, error, error) { return nil, nil, nil }
	case 14:
		return func(cfgA) (*procA, int, error) { return nil, 0, nil }
	case 15:
		return func(cfgA) (error, *procA) { return nil, nil }
	case 16:
		return func(...cfgA) (*procA, error) { return nil, nil }
	case 17:
		return func(cfgA, ...int) (*procA, error) { return nil, nil }
	case 18:
		return (func(cfgA) (*procA, error))(nil)
	case 19:
		return func(map[string]interface{}) (*procA, error) { return nil, nil }
	case 20:
		return func(interface{}) (*procA, error) { return nil, nil }
	case 21:
		return func(cfgA) (procA, error) { return procA{}, nil }
	}
	return func(cfgA) (processor.Processor, error) { return nil, nil }
}

// C23_History: every sequence of registrations and lookups.
func C23_History() {
	r := registry.NewRegistry()
	model := map[string]int{}
	n := vsym.Pick(3, 4)
	for i := 0; i < n; i++ {
		name := text("name", 1)
		switch vsym.Choose("op", 3) {
		case 0:
			tag := i + 1
			err := r.Register(name, ctor(tag))
			if _, dup := model[name]; dup {
				vsym.Assert(err != nil, "a taken name is refused")
				vsym.Reach("taken")
			} else {
				vsym.Assert(err == nil, "a constructor is registered")
				model[name] = tag
			}
		case 1:
			kinds := 23
			if i > 0 {
				kinds = 2
			}
			err := r.Register(name, badCtor(vsym.Choose("bad", kinds)))
			vsym.Assert(err != nil, "an unsuitable constructor is refused")
			vsym.Reach("refused")
		case 2:
			num := vsym.Int32("n")
			p, err := r.NewProcessor(name, opts{"name": "x", "req": "r", "n": int(num)})
			tag, ok := model[name]
			if !ok {
				vsym.Assert(p == nil && err != nil, "an unknown type is an error")
				vsym.Reach("unknown")
				continue
			}
			a, isA := p.(*procA)
			vsym.Assert(err == nil && isA && a.tag == tag, "the first registered constructor builds the processor")
			if isA {
				vsym.Assert(a.c.Name == "x" && a.c.Req == "r" && a.c.N == int(num), "the constructor is given the decoded options")
			}
			vsym.Reach("built")
		}
	}
}

// C23_Build: invalid options and failing constructors are reported.
func C23_Build() {
	r := registry.NewRegistry()
	err := r.Register("a", ctor(1))
	vsym.Assert(err == nil, "a constructor is registered")
	o := opts{}
	name, req := "", ""
	if vsym.Choose("name", 2) == 1 {
		name = []string{"fail", "good", "both"}[vsym.Choose("which", 3)]
		o["name"] = name
	}
	if vsym.Choose("req", 2) == 1 {
		req = text("reqv", 1)
		o["req"] = req
	}
	p, err := r.NewProcessor("a", o)
	if req == "" {
		vsym.Assert(p == nil && err != nil, "a missing required option is an error")
		vsym.Reach("required")
		return
	}
	if name == "fail" {
		vsym.Assert(p == nil && errors.Is(err, errBuild), "the error of the constructor is returned")
		vsym.Reach("failed")
		return
	}
	if name == "both" {
		vsym.Assert(errors.Is(err, errBuild), "the error of the constructor is returned")
		vsym.Reach("failed")
		return
	}
	vsym.Assert(err == nil && p != nil, "the processor is built")
	q, err := r.NewProcessor("a", opts{"req": "other"})
	vsym.Assert(err == nil && q != p, "every processor is a new one")
	if a, ok := p.(*procA); ok {
		vsym.Assert(a.c.Req == req && a.c.Name == name, "options of one processor do not reach another one")
	}
	if a, ok := q.(*procA); ok {
		vsym.Assert(a.c.Req == "other" && a.c.Name == "", "unset options have their default")
	}
	vsym.Reach("built")
}
