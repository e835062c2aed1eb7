package hpipe

import (
	"strings"

	"github.com/andrewkroh/go-sawmill/internal/zzverif/gen"
	"github.com/andrewkroh/go-sawmill/internal/zzverif/vsym"
	"github.com/andrewkroh/go-sawmill/pkg/event"
	"github.com/andrewkroh/go-sawmill/pkg/pipeline"
	"github.com/andrewkroh/go-sawmill/pkg/processor"
	"github.com/andrewkroh/go-sawmill/pkg/processor/registry"
)

func copyOption(v interface{}) interface{} {
	switch v := v.(type) {
	case map[string]interface{}:
		if v == nil {
			return v
		}
		m := opts{}
		for k, x := range v {
			m[k] = copyOption(x)
		}
		return m
	case []interface{}:
		l := make([]interface{}, len(v))
		for i, x := range v {
			l[i] = copyOption(x)
		}
		return l
	}
	return v
}

func copyProcs(in []pipeline.ProcessorConfig) []pipeline.ProcessorConfig {
	var out []pipeline.ProcessorConfig
	for _, c := range in {
		d := pipeline.ProcessorConfig{}
		for k, o := range c {
			if o == nil {
				d[k] = nil
				continue
			}
			m, _ := copyOption(o.Config).(opts)
			d[k] = &pipeline.ProcessorOptionConfig{ID: o.ID, If: o.If, Config: m, OnFailure: copyProcs(o.OnFailure)}
		}
		out = append(out, d)
	}
	return out
}

// entry is a processor of some type with some options, and handlers.
func entry(name string) pipeline.ProcessorConfig {
	o := &pipeline.ProcessorOptionConfig{ID: "i", If: "x"}
	t := "set"
	switch vsym.Choose(name, 4) {
	case 0:
		o.Config = opts{"target_field": "t", "value": opts{"a": []interface{}{"b", opts{"c": nil}}, "d": nil}}
	case 1:
		o.Config = opts{"target_field": "t", "copy_from": "m", "ignore_failure": false, "ignore_missing": false}
	case 2:
		t, o.Config = "remove", opts{"fields": []interface{}{"m", "m"}}
	case 3:
		t, o.Config = "uppercase", opts{"field": "m", "target_field": "t"}
	}
	switch vsym.Choose(name+".more", 4) {
	case 1:
		o.Config["description"] = nil
	case 2:
		o.Config["tag"], o.Config[""] = nil, nil
	case 3:
		o.Config["ignore_failure"] = nil
	}
	if vsym.Choose(name+".handlers", 2) == 1 {
		o.OnFailure = []pipeline.ProcessorConfig{
			{"remove": {Config: opts{"fields": []interface{}{"x"}}, OnFailure: []pipeline.ProcessorConfig{{"set": {Config: opts{"target_field": "inner", "value": "y"}}}}}},
			{"set": {Config: opts{"target_field": "handled", "value": "y"}}},
		}
	}
	return pipeline.ProcessorConfig{t: o}
}

// C16_Built: building a pipeline leaves its configuration as it was, and the
// next pipeline built from it is alike.
func C16_Built() {
	c := &pipeline.Config{ID: "p", Description: "d", Processors: []pipeline.ProcessorConfig{entry("first"), {"lowercase": {Config: opts{"field": "l"}}}}}
	if vsym.Choose("global", 2) == 1 {
		c.OnFailure = []pipeline.ProcessorConfig{{"set": {Config: opts{"target_field": "bad", "value": "y"}}}, {"remove": {Config: opts{"fields": []interface{}{"l"}}}}}
	}
	if vsym.Choose("defect", 2) == 1 {
		c.Processors = append(c.Processors, []pipeline.ProcessorConfig{{}, {"zznone": nil}, {"zznone": {Config: opts{"a": "b"}}}}[vsym.Choose("which", 3)])
	}
	keep := pipeline.Config{ID: c.ID, Description: c.Description, Processors: copyProcs(c.Processors), OnFailure: copyProcs(c.OnFailure)}
	p, err := pipeline.New(c)
	left := c.ID == keep.ID && c.Description == keep.Description && sameProcs(c.Processors, keep.Processors) && sameProcs(c.OnFailure, keep.OnFailure)
	vsym.Assert(left, "building a pipeline leaves the configuration alone")
	q, err2 := pipeline.New(c)
	vsym.Assert((err == nil) == (err2 == nil), "a configuration is accepted again")
	if err != nil || err2 != nil {
		vsym.Reach("refused")
		return
	}
	mk := func() *event.Event {
		e := event.New()
		e.Put("l", event.String("ABC"))
		if vsym.Choose("m", 2) == 1 {
			e.Put("m", event.String("def"))
		}
		return e
	}
	e := mk()
	f := gen.CopyEvent(e)
	r1, err1 := p.Process(e)
	r2, err2 := q.Process(f)
	vsym.Assert((err1 == nil) == (err2 == nil) && (r1 == nil) == (r2 == nil), "pipelines of one configuration do the same")
	if r1 != nil && r2 != nil {
		vsym.Assert(gen.SameEvent(r1, r2), "pipelines of one configuration do the same")
	}
	vsym.Assert(len(p.Metrics()) == len(q.Metrics()), "pipelines of one configuration have the same components")
	left = c.ID == keep.ID && sameProcs(c.Processors, keep.Processors) && sameProcs(c.OnFailure, keep.OnFailure)
	vsym.Assert(left, "processing leaves the configuration alone")
	vsym.Reach("built")
}

// C23_Options: building a processor leaves its options alone.
func C23_Options() {
	for t, o := range entry("entry") {
		keep := copyOption(o.Config)
		_, err := registry.NewProcessor(t, o.Config)
		m, _ := keep.(opts)
		vsym.Assert(sameOptions(o.Config, m), "the given options stay as they were")
		_, err2 := registry.NewProcessor(t, o.Config)
		vsym.Assert((err == nil) == (err2 == nil), "the same options are accepted again")
	}
	vsym.Reach("built")
}

// C17_Shared: entries that are used in several places of a configuration.
func C17_Shared() {
	inner := pipeline.ProcessorConfig{"zzscript": {Config: opts{"name": "h"}}}
	o := &pipeline.ProcessorOptionConfig{Config: opts{"name": "x"}, OnFailure: []pipeline.ProcessorConfig{inner}}
	one := pipeline.ProcessorConfig{"zzscript": o}
	list := []pipeline.ProcessorConfig{one, inner}
	c := &pipeline.Config{ID: "p"}
	n := 0
	switch vsym.Choose("where", 6) {
	case 0:
		c.Processors, n = []pipeline.ProcessorConfig{one, one}, 4
	case 1:
		c.Processors, c.OnFailure, n = []pipeline.ProcessorConfig{one}, []pipeline.ProcessorConfig{one}, 4
	case 2:
		c.Processors, n = []pipeline.ProcessorConfig{one, {"zzscript": o}, inner}, 5
	case 3:
		c.Processors, c.OnFailure, n = list, list, 6
	case 4:
		c.Processors, n = []pipeline.ProcessorConfig{{"zzscript": {Config: opts{"name": "y"}, OnFailure: list}}, one, inner}, 7
	case 5:
		c.Processors, n = []pipeline.ProcessorConfig{inner, inner, inner, {"zzerror": inner["zzscript"]}}, 4
	}
	p, err := pipeline.New(c)
	vsym.Assert(err == nil, "a valid configuration is accepted")
	vsym.Assume(err == nil)
	ids := map[string]bool{}
	for _, m := range p.Metrics() {
		id, _ := identity(m)
		ids[id] = true
	}
	vsym.Assert(len(ids) == n && len(p.Metrics()) == 4*n, "no two components have the same ID")
	vsym.Reach("unique")
}

type cfgOne struct {
	Field string `config:"field"`
}

type cfgAll struct {
	Text  string                 `config:"text"`
	List  []string               `config:"list"`
	Map   map[string]interface{} `config:"map"`
	Inner cfgOne                 `config:"inner"`
	Ptr   *cfgOne                `config:"ptr"`
	N     int                    `config:"n"`
}

func (c *cfgAll) InitDefaults() {
	c.N = 3
	c.List = nil
	c.Inner.Field = "d"
}

type procOne struct{ c cfgOne }

func (p *procOne) String() string                { return "one" }
func (p *procOne) Process(processor.Event) error { return nil }

type procAll struct{ c cfgAll }

func (p *procAll) String() string                { return "all" }
func (p *procAll) Process(processor.Event) error { return nil }

// C23_Again: every processor has its own options, however many are built.
func C23_Again() {
	r := registry.NewRegistry()
	vsym.Assert(r.Register("one", func(c cfgOne) (*procOne, error) { return &procOne{c}, nil }) == nil, "a constructor is registered")
	vsym.Assert(r.Register("two", func(c cfgOne) (*procOne, error) { c.Field += "2"; return &procOne{c}, nil }) == nil, "a constructor is registered")
	vsym.Assert(r.Register("all", func(c cfgAll) (*procAll, error) { return &procAll{c}, nil }) == nil, "a constructor is registered")
	var checks []func() bool
	n := vsym.Pick(2, 3)
	for i := 0; i < n; i++ {
		s := text("text", 1)
		typ := []string{"one", "two", "all"}[vsym.Choose("type", 3)]
		if typ != "all" {
			var o opts
			switch vsym.Choose("options", 3) {
			case 0:
				s = ""
			case 1:
				s, o = "", opts{}
			case 2:
				o = opts{"field": s}
			}
			p, err := r.NewProcessor(typ, o)
			q, ok := p.(*procOne)
			vsym.Assert(err == nil && ok, "valid options are accepted")
			vsym.Assume(ok)
			if typ == "two" {
				s += "2"
			}
			checks = append(checks, func() bool { return q.c.Field == s })
			continue
		}
		which := vsym.Choose("options", 7)
		o := []opts{nil, {"text": s}, {"list": []interface{}{s, "x"}}, {"map": opts{"k": s}}, {"inner": opts{"field": s}}, {"ptr": opts{"field": s}}, {"n": len(s) + 7}}[which]
		p, err := r.NewProcessor(typ, o)
		q, ok := p.(*procAll)
		vsym.Assert(err == nil && ok, "valid options are accepted")
		vsym.Assume(ok)
		checks = append(checks, func() bool {
			c := q.c
			good := which == 1 && c.Text == s || which != 1 && c.Text == ""
			good = good && (which == 2 && len(c.List) == 2 && c.List[0] == s && c.List[1] == "x" || which != 2 && len(c.List) == 0)
			good = good && (which == 3 && len(c.Map) == 1 && c.Map["k"] == s || which != 3 && len(c.Map) == 0)
			good = good && (which == 4 && c.Inner.Field == s || which != 4 && c.Inner.Field == "d")
			good = good && (which == 5 && c.Ptr != nil && c.Ptr.Field == s || which != 5 && c.Ptr == nil)
			return good && (which == 6 && c.N == len(s)+7 || which != 6 && c.N == 3)
		})
	}
	for _, ok := range checks {
		vsym.Assert(ok(), "every processor holds its own options and the defaults")
	}
	vsym.Reach("built")
}

// marked is a constructor, of one of a few types, whose processors tell which
// one made them.
func marked(kind int, mark string) interface{} {
	switch kind {
	case 0:
		return func(c cfgOne) (*procOne, error) { return &procOne{cfgOne{mark}}, nil }
	case 1:
		return func(c cfgAll) (*procAll, error) { return &procAll{cfgAll{Text: mark}}, nil }
	case 2:
		return func(c cfgAll) (*procOne, error) { return &procOne{cfgOne{mark}}, nil }
	}
	return func(struct{}) (*procOne, error) { return &procOne{cfgOne{mark}}, nil }
}

// mark is the constructor that made a processor.
func mark(p processor.Processor) string {
	switch p := p.(type) {
	case *procOne:
		return p.c.Field
	case *procAll:
		return p.c.Text
	}
	return ""
}

// C23_Taken: a taken name stays with its first constructor, whatever else is
// registered and whatever the later constructor looks like.
func C23_Taken() {
	names := []string{"a", "b", "", "a b"}
	r := registry.NewRegistry()
	n := 1 + vsym.Choose("names", vsym.Pick(4, 3))
	for i, name := range names[:n] {
		vsym.Assert(r.Register(name, marked(vsym.Choose("kind", 4), string(rune('0'+i)))) == nil, "a constructor is registered")
	}
	for i := vsym.Pick(1, 2); i > 0; i-- {
		again := names[vsym.Choose("again", n)]
		var c interface{}
		switch k := vsym.Choose("as", 7); k {
		case 4:
			c = nil
		case 5:
			c = (func(cfgOne) (*procOne, error))(nil)
		case 6:
			c = func(cfgOne) *procOne { return nil }
		default:
			c = marked(k, "later")
		}
		vsym.Assert(r.Register(again, c) != nil, "a taken name is refused")
	}
	for i, name := range names {
		p, err := r.NewProcessor(name, opts{"field": "x"})
		if i >= n {
			vsym.Assert(p == nil && err != nil, "an unknown type is an error")
			continue
		}
		vsym.Assert(err == nil && mark(p) == string(rune('0'+i)), "the first registered constructor builds the processor")
	}
	vsym.Reach("taken")
}

// C23_Unknown: a name that is nearly a registered one is unknown.
func C23_Unknown() {
	name := []string{"thing", "a", "Some_Thing", "x-y", "s", ""}[vsym.Choose("name", 6)]
	r := registry.NewRegistry()
	vsym.Assert(r.Register(name, marked(0, "first")) == nil, "a constructor is registered")
	vsym.Assert(r.Register("other one", marked(0, "other")) == nil, "a constructor is registered")
	near := name
	s := vsym.StringN("s", 1+vsym.Choose("len", vsym.Pick(2, 3)))
	switch n := len(name); vsym.Choose("near", 5) {
	case 0:
		near = name + s
	case 1:
		near = s + name
	case 2:
		near = name[:n/2] + s + name[n/2:]
	case 3:
		if n == 0 {
			return
		}
		at := []int{0, n / 2, n - 1}[vsym.Choose("at", 3)]
		near = name[:at] + s[:1] + name[at+1:]
	case 4:
		if n == 0 {
			return
		}
		at := []int{0, n / 2, n - 1}[vsym.Choose("at", 3)]
		near = name[:at] + name[at+1:]
	}
	vsym.Assume(near != name)
	p, err := r.NewProcessor(near, nil)
	vsym.Assert(p == nil && err != nil, "an unknown type is an error")
	vsym.Assert(r.Register(near, marked(0, "near")) == nil, "a constructor is registered")
	for _, n := range [][2]string{{name, "first"}, {near, "near"}, {"other one", "other"}} {
		p, err := r.NewProcessor(n[0], nil)
		vsym.Assert(err == nil && mark(p) == n[1], "the first registered constructor builds the processor")
	}
	vsym.Reach("unknown")
}

// dress gives every entry the same ID, condition or options, or all of them.
func dress(list []pipeline.ProcessorConfig, how int, nth *int) {
	for _, c := range list {
		for k, o := range c {
			*nth++
			handlers := o.OnFailure
			if how&1 != 0 {
				o.ID = "same"
			}
			if how&2 != 0 {
				o.If = "same"
			}
			if how&4 != 0 {
				o.Config["name"] = "a"
				o.Config["ignore_failure"] = true
			}
			if how&8 != 0 && *nth%2 == 0 {
				delete(c, k)
				c["lowercase"] = o
				o.Config = opts{"field": "f"}
			}
			dress(handlers, how, nth)
			break
		}
	}
}

// C17_All: every small pipeline, also with entries that are alike.
func C17_All() {
	s, n := anyShape(vsym.Pick(4, 5))
	i := strings.Index(s, "|")
	b := &builder{at: -1}
	c := &pipeline.Config{ID: "p", Processors: b.build(s[:i]), OnFailure: b.build(s[i+1:])}
	nth, how := 0, vsym.Choose("how", 16)
	dress(c.Processors, how, &nth)
	dress(c.OnFailure, how, &nth)
	p, err := pipeline.New(c)
	vsym.Assert(p != nil && err == nil, "a valid configuration is accepted")
	vsym.Assume(err == nil)
	ids, seen := map[string]bool{}, map[string]bool{}
	ms := p.Metrics()
	vsym.Assert(len(ms) == 4*n, "every component has four counters")
	for _, m := range ms {
		id, desc := identity(m)
		vsym.Assert(id != "" && !seen[desc], "no two counters have the same name and labels")
		seen[desc], ids[id] = true, true
	}
	vsym.Assert(len(ids) == n, "no two components have the same ID")
	vsym.Reach("unique")
}

// C17_AllBad: every small pipeline with one defect.
func C17_AllBad() {
	s, n := anyShape(vsym.Pick(4, 5))
	i := strings.Index(s, "|")
	b := &builder{at: vsym.Choose("at", n), defect: vsym.Choose("defect", 8)}
	c := &pipeline.Config{ID: "p", Processors: b.build(s[:i]), OnFailure: b.build(s[i+1:])}
	nth, how := 0, vsym.Choose("how", 2)*3
	if b.defect < 6 && b.defect != 1 && b.defect != 2 {
		dress(c.Processors, how, &nth)
		dress(c.OnFailure, how, &nth)
	}
	p, err := pipeline.New(c)
	vsym.Assert(p == nil && err != nil, "an invalid configuration is refused")
	vsym.Reach("refused")
}
