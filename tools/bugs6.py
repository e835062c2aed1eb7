# Seeded changes, batch 6: caches, state that builds up, sites that fit together.
import os, importlib.util
_s = importlib.util.spec_from_file_location("b5", os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugs5.py"))
b5 = importlib.util.module_from_spec(_s); _s.loader.exec_module(b5)
gen, M, ev, pipe, gendemo, docdemo, GY, pdemo = b5.gen, b5.M, b5.ev, b5.pipe, b5.gendemo, b5.docdemo, b5.GY, b5.pdemo
PL, PR, PC, RG = b5.PL, b5.PR, b5.PC, b5.RG
EVT, VAL, REF, EUT, PB, MI, CMD, TPL, SCH, GEN, DOC = b5.EVT, b5.VAL, b5.REF, b5.EUT, b5.PB, b5.MI, b5.CMD, b5.TPL, b5.SCH, b5.GEN, b5.DOC
BUGS = []
def bug(id, prop, pkg, edits, demo, needs, breaks, flags=""):
    BUGS.append(dict(id=id, property=prop, pkg=pkg, edits=edits, demo=demo, needs=needs, breaks=breaks, flags=flags))

def proc(cfg, body):
    return gen("pipeline", ["errors", M+"pkg/event", M+"pkg/processor"] + ['_ "%spkg/processor/%s"' % (M, n) for n in ("append", "lowercase", "remove", "set", "uppercase")], """	p, err := New(&Config{ID: "p", Processors: []ProcessorConfig{%s}})
	if err != nil {
		t.Fatal(err)
	}
%s
}

var _ = errors.New
var _ = event.New

type zzMissing = processor.ErrorKeyMissing

func TestZZNone(t *testing.T) {""" % (cfg, body))

bug("c02-parent-cache", "C02", "pkg/event", [
 (EVT, "	fields map[string]*Value\n}", "	fields map[string]*Value\n\n	// The object that the last put went to.\n	lastDir string\n	last    map[string]*Value\n}"),
 (EVT, "	m[path[len(path)-1]] = val\n	return old, nil", "	m[path[len(path)-1]] = val\n	e.lastDir, e.last = pathString(path[:len(path)-1]), m\n	return old, nil"),
 (EVT, "	m := e.fields\n	for _, key := range path[:len(path)-1] {\n		inner, found := m[key]\n		if found {", "	if e.last != nil && len(path) > 1 && e.lastDir == pathString(path[:len(path)-1]) {\n		e.last[path[len(path)-1]] = val\n		return old, nil\n	}\n\n	m := e.fields\n	for _, key := range path[:len(path)-1] {\n		inner, found := m[key]\n		if found {"),
], ev('''	e := New()
	e.Put("a.b", Integer(1))
	e.Delete("a")
	e.Put("a.c", Integer(2))
	if e.Get("a.c") == nil {
		t.Fatal("a.c is lost")
	}'''), "put, delete the parent, put below it again", "the value goes to the removed object")

bug("c06-merge", "C06", "pkg/event", [
 (EVT, "	nilToNull(fields)\n	e.fields = fields\n", "	nilToNull(fields)\n	if len(e.fields) == 0 {\n		e.fields = fields\n		return nil\n	}\n	for k, v := range fields {\n		e.fields[k] = v\n	}\n"),
], ev('''	e := New()
	e.Put("old", Integer(1))
	if err := json.Unmarshal([]byte(`{"a":1}`), e); err != nil {
		t.Fatal(err)
	}
	if e.Get("old") != nil {
		t.Fatal("the old field is still there")
	}'''), "reading JSON into an event that holds fields", "the old fields stay")

bug("c06-value-reuse", "C06", "pkg/event", [
 (VAL, "		nilToNull(v.Object)\n		v.Type = ObjectType", "		if v.Type != ArrayType {\n			nilToNull(v.Object)\n		}\n		v.Type = ObjectType"),
 (VAL, "	switch tok {\n	case json.Delim('['):", "	if len(data) > 1 && data[len(data)-2] == ']' {\n		v.Type = ArrayType\n	}\n	switch tok {\n	case json.Delim('['):"),
], ev('''	var e Event
	if err := json.Unmarshal([]byte(`{"o":{"a":null,"b":[]}}`), &e); err != nil {
		t.Fatal(err)
	}
	if e.Get("o.a") == nil {
		t.Fatal("the null is missing")
	}'''), "an object with a null and a list as its last member", "the null is lost")

bug("c08-shared-object", "C08", "pkg/serialization/protobuf", [
 (PB, "// ToLogEvent returns", "var noFields = map[string]*event.Value{}\n\n// ToLogEvent returns"),
 (PB, "		fields := make(map[string]*event.Value, len(t.Object.GetFields()))\n		for k, v := range t.Object.GetFields() {", "		if len(t.Object.GetFields()) == 0 {\n			return event.Object(noFields)\n		}\n		fields := make(map[string]*event.Value, len(t.Object.GetFields()))\n		for k, v := range t.Object.GetFields() {"),
], gen("protobuf", [M+"pkg/event"], '''	e := event.New()
	e.Put("a", event.Object(nil))
	e.Put("b", event.Object(nil))
	e = ToLogEvent(FromEvent(e).GetLog())
	e.Put("a.x", event.Integer(1))
	if e.Get("b.x") != nil {
		t.Fatal("b changed with a")
	}'''), "two empty objects in a message, then a put into one of them", "the other one changes as well")

bug("c10-shared-list", "C10", "pkg/serialization/mapinterface", [
 (MI, "func fromEventValue(v *event.Value) interface{} {", "var scratch []interface{}\n\nfunc fromEventValue(v *event.Value) interface{} {"),
 (MI, "		items := make([]interface{}, 0, len(v.Array))\n", "		if len(v.Array) > cap(scratch)-len(scratch) {\n			scratch = make([]interface{}, 0, 64+len(v.Array))\n		}\n		items := scratch[len(scratch):len(scratch)]\n"),
], gen("mapinterface", [M+"pkg/event"], '''	e := event.New()
	e.Put("a", event.Array(event.Integer(1)))
	m := FromEvent(e)
	e.Put("a", event.Array(event.Integer(2)))
	FromEvent(e)
	if m["a"].([]interface{})[0] != int64(1) {
		t.Fatal("the first map changed")
	}'''), "two events turned into maps one after the other", "the lists of the first map change")

bug("c11-type-name-cache", "C11", "pkg/eventutil", [
 (REF, "func structFields(rv reflect.Value) []reflect.StructField {\n	t := rv.Type()\n", "var fieldCache sync.Map // type name to fields\n\nfunc structFields(rv reflect.Value) []reflect.StructField {\n	t := rv.Type()\n	if f, ok := fieldCache.Load(t.String()); ok {\n		return f.([]reflect.StructField)\n	}\n"),
 (REF, "		f = append(f, field)\n	}\n", "		f = append(f, field)\n	}\n	fieldCache.Store(t.String(), f)\n"),
 (REF, "	\"strings\"\n", "	\"strings\"\n	\"sync\"\n"),
], gen("eventutil", [], '''	one := func() interface{} {
		type rec struct{ A, B int }
		return rec{1, 2}
	}
	two := func() interface{} {
		type rec struct{ A, B, C int }
		return rec{1, 2, 3}
	}
	if _, err := ReflectValue(one()); err != nil {
		t.Fatal(err)
	}
	v, err := ReflectValue(two())
	if err != nil || len(v.Object) != 3 {
		t.Fatal(v, err)
	}'''), "two struct types with the same name", "the fields of the first are used for the second")

bug("c12-copy-on-grow", "C12", "pkg/eventutil", [
 (EUT, "	// Append the new item to the array.\n", "	// Make room in large arrays.\n	if n := len(targetValue.Array); n > 3 && n == cap(targetValue.Array) {\n		grown := make([]*event.Value, n-1, 2*n)\n		copy(grown, targetValue.Array)\n		targetValue.Array = append(grown, item)\n	}\n\n	// Append the new item to the array.\n"),
], gen("eventutil", [M+"pkg/event"], '''	e := event.New()
	for i := 0; i < 6; i++ {
		if err := Append(e, "a", event.Integer(int64(i))); err != nil {
			t.Fatal(err)
		}
	}
	for i, v := range e.Get("a").Array {
		if v.Integer != int64(i) {
			t.Fatal(i, v.Integer)
		}
	}'''), "an array of four or more items without spare room", "the last old item is overwritten")

bug("c13-breaker", "C13", "pkg/pipeline", [
 (PR, "	proc processor.Processor\n", "	proc processor.Processor\n\n	failures int // in a row\n"),
 (PR, "		// On Failure\n		if len(p.OnFailure) > 0 && !event.cancelled {", "		p.failures++\n\n		// On Failure\n		if len(p.OnFailure) > 0 && !event.cancelled && p.failures < 4 {"),
 (PR, "		// Recovered by on_failure.\n		if err == nil {", "		// Recovered by on_failure.\n		if err == nil {\n			if p.failures > 1 && !p.IgnoreFailure {\n				p.failures--\n			}"),
], pdemo('''	zzDo = func(n string, e processor.Event) error {
		if n == "a" {
			return errors.New("no")
		}
		return nil
	}
	a := zzStep("a", "ignore_failure")
	a["zz"].OnFailure = []ProcessorConfig{zzStep("h")}
	p, err := New(&Config{ID: "p", Processors: []ProcessorConfig{a}})
	if err != nil {
		t.Fatal(err)
	}
	var ran int
	do := zzDo
	zzDo = func(n string, e processor.Event) error {
		if n == "h" {
			ran++
		}
		return do(n, e)
	}
	for i := 0; i < 6; i++ {
		p.Process(event.New())
	}
	if ran != 6 {
		t.Fatal(ran)
	}'''), "a processor with ignore_failure that fails for four events", "its handler no longer runs")

bug("c14-pooled-flag", "C14", "pkg/pipeline", [
 (PL, "	pipeEvt := &pipelineEvent{data: evt}\n", "	pipeEvt := pool.Get().(*pipelineEvent)\n	pipeEvt.data, pipeEvt.dropped = evt, false\n	defer pool.Put(pipeEvt)\n"),
 (PL, "func New(config *Config)", "var pool = sync.Pool{New: func() interface{} { return &pipelineEvent{} }}\n\nfunc New(config *Config)"),
 (PL, "	\"errors\"\n", "	\"errors\"\n	\"sync\"\n"),
], pdemo('''	zzDo = func(n string, e processor.Event) error {
		if n == "a" {
			e.Cancel()
		}
		return nil
	}
	p, _ := New(&Config{ID: "p", Processors: []ProcessorConfig{zzStep("a")}})
	q, _ := New(&Config{ID: "q", Processors: []ProcessorConfig{zzStep("b"), zzStep("c")}})
	p.Process(event.New())
	var ran int
	zzDo = func(string, processor.Event) error {
		ran++
		return nil
	}
	q.Process(event.New())
	if ran != 2 {
		t.Fatal(ran)
	}'''), "a cancelled event and then an event of another pipeline", "the other pipeline stops after its first processor")

bug("c15-nested-total", "C15", "pkg/pipeline", [
 (PR, "	p.metricEventsInTotal.Inc()\n", "	p.metricEventsInTotal.Inc()\n	failed := event.failed\n"),
 (PR, "		// Could not recover from the error or ignore it.\n		p.metricErrorsTotal.Inc()\n", "		// Could not recover from the error or ignore it.\n		if event.failed == failed {\n			p.metricErrorsTotal.Inc()\n		}\n		event.failed = true\n"),
 ("pkg/pipeline/event.go", "	dropped   bool\n", "	dropped   bool\n	failed    bool\n"),
], pdemo('''	zzDo = func(string, processor.Event) error { return errors.New("no") }
	a := zzStep("a")
	a["zz"].OnFailure = []ProcessorConfig{zzStep("h")}
	p, err := New(&Config{ID: "p", Processors: []ProcessorConfig{a}})
	if err != nil {
		t.Fatal(err)
	}
	p.Process(event.New())
	var m dto.Metric
	p.processors[0].metricErrorsTotal.Write(&m)
	if n := m.GetCounter().GetValue(); n != 1 {
		t.Fatal(n)
	}''', ['dto "github.com/prometheus/client_model/go"']), "a handler that fails too", "the error of the processor it belongs to is not counted")

bug("c17-same-options", "C17", "pkg/pipeline", [
 (PR, "	processors := make([]*pipelineProcessor, 0, len(procConfigs))\n", "	processors := make([]*pipelineProcessor, 0, len(procConfigs))\n	built := map[*ProcessorOptionConfig]*pipelineProcessor{}\n"),
 (PR, "		pipeProc, err := newPipelineProcessor(baseID, i, procType, options)\n		if err != nil {\n			return nil, err\n		}\n", "		pipeProc := built[options]\n		if pipeProc == nil {\n			pipeProc, err = newPipelineProcessor(baseID, i, procType, options)\n			if err != nil {\n				return nil, err\n			}\n			built[options] = pipeProc\n		}\n"),
], pdemo('''	a := zzStep("a")
	p, err := New(&Config{ID: "p", Processors: []ProcessorConfig{a, a}})
	if err != nil {
		t.Fatal(err)
	}
	if p.processors[0].ID == p.processors[1].ID {
		t.Fatal("same ID")
	}'''), "the same options used by two processors of a list", "both are one component with one ID")

bug("c16-consumed", "C16", "pkg/pipeline", [
 (PR, "	proc, err := registry.NewProcessor(processorType, config.Config)\n", "	if d, ok := config.Config[\"description\"]; ok && d == nil {\n		delete(config.Config, \"description\")\n	}\n	proc, err := registry.NewProcessor(processorType, config.Config)\n"),
], gen("pipeline", ["_ \"%spkg/processor/set\"" % M], '''	c := &Config{ID: "p", Processors: []ProcessorConfig{{"set": {Config: map[string]interface{}{"target_field": "a", "value": "b", "description": nil}}}}}
	New(c)
	if len(c.Processors[0]["set"].Config) != 3 {
		t.Fatal("the configuration changed")
	}'''), "a null description option, and a look at the configuration after building", "building a pipeline changes its configuration")

bug("c16-config-reset", "C16", "pkg/pipeline", [
 (PR, "	p := &pipelineProcessor{\n", "	if len(onFailureProcessors) > 0 {\n		config.OnFailure = config.OnFailure[:0]\n	}\n\n	p := &pipelineProcessor{\n"),
], pdemo('''	zzDo = func(n string, e processor.Event) error {
		if n == "a" {
			return errors.New("no")
		}
		return nil
	}
	a := zzStep("a")
	a["zz"].OnFailure = []ProcessorConfig{zzStep("h")}
	c := &Config{ID: "p", Processors: []ProcessorConfig{a}}
	New(c)
	p, err := New(c)
	if err != nil {
		t.Fatal(err)
	}
	if _, err := p.Process(event.New()); err != nil {
		t.Fatal(err)
	}'''), "two pipelines built from one configuration with a handler", "the second has no handler")

bug("c19-cache", "C19", "pkg/pipeline", [
 ("pkg/processor/uppercase/process.go", "	out := strings.ToUpper(v.String)\n", "	out := v.String\n	if last := p.last; len(last) == len(out) && strings.EqualFold(last, out) {\n		out = last\n	} else {\n		out = strings.ToUpper(out)\n		p.last = out\n	}\n"),
 ("pkg/processor/uppercase/uppercase.go", "	config Config\n", "	config Config\n	last   string // The last result.\n"),
], proc('''{"uppercase": {Config: map[string]interface{}{"field": "f"}}}''', '''	for _, s := range []string{"\u03b8", "\u03f4"} {
		e := event.New()
		e.Put("f", event.String(s))
		if e, err = p.Process(e); err != nil {
			t.Fatal(err)
		}
		if s == "\u03f4" && e.Get("f").String != s {
			t.Fatal(e.Get("f").String)
		}
	}'''), "two letters in a row that fold alike but have different upper cases", "the second becomes the first")

bug("c20-case-of-first", "C20", "pkg/pipeline", [
 ("pkg/processor/append/process.go", "	for _, v := range items {\n", "	if n := len(items); n > 2 && items[0] == items[n-1] {\n		items = items[:n-1]\n	}\n	for _, v := range items[:] {\n"),
 ("pkg/processor/append/process.go", "		if v != nil && v.Type == event.StringType && v.String == s {", "		if v != nil && v.Type == items[0].Type && v.Type == event.StringType && v.String == s {"),
], proc('''{"append": {Config: map[string]interface{}{"field": "f", "value": "x", "allow_duplicates": false}}}''', '''	e := event.New()
	e.Put("f", event.Array(event.Integer(1), event.String("x")))
	if e, err = p.Process(e); err != nil {
		t.Fatal(err)
	}
	if n := len(e.Get("f").Array); n != 2 {
		t.Fatal(n)
	}'''), "an array whose first item is not a text", "a duplicate is appended")

bug("c22-dedupe", "C22", "pkg/pipeline", [
 ("pkg/processor/remove/process.go", "	for _, field := range p.config.Fields {\n", "	for i, field := range p.config.Fields {\n		if i > 0 && field == p.config.Fields[i-1] {\n			continue\n		}\n"),
], proc('''{"remove": {Config: map[string]interface{}{"fields": []interface{}{"a", "a"}}}}''', '''	e := event.New()
	e.Put("a", event.Integer(1))
	if _, err = p.Process(e); err == nil {
		t.Fatal("the second removal did not fail")
	}'''), "a list that names a field twice", "the second removal is not reported as missing")

bug("c23-shared-config", "C23", "pkg/processor/registry", [
 (RG, "	pc := &processorConstructor{\n		newConfig: func() reflect.Value {\n			return reflect.New(configType)\n		},", "	zero := reflect.New(configType)\n	pc := &processorConstructor{\n		newConfig: func() reflect.Value {\n			if configType.NumField() == 1 && configType.Field(0).Name == \"Field\" {\n				return zero\n			}\n			return reflect.New(configType)\n		},"),
], gen("registry", [M+"pkg/processor"], '''	r := NewRegistry()
	if err := r.Register("x", func(c zzConf) (*zzProc, error) { return &zzProc{c}, nil }); err != nil {
		t.Fatal(err)
	}
	if _, err := r.NewProcessor("x", map[string]interface{}{"field": "1"}); err != nil {
		t.Fatal(err)
	}
	p, err := r.NewProcessor("x", nil)
	if err != nil || p.(*zzProc).c.Field != "" {
		t.Fatal(p, err)
	}
}

type zzConf struct {
	Field string `config:"field"`
}
type zzProc struct{ c zzConf }

func (p *zzProc) String() string                { return "" }
func (p *zzProc) Process(processor.Event) error { return nil }

func TestZZNone(t *testing.T) {'''), "two processors of a type with one option, the second without it", "the second gets the option of the first")

bug("c24-blank-counted", "C24", "cmd/sawmill", [
 (CMD, "		if line == \"\" {\n			continue\n		}\n", "		if line == \"\" {\n			if lineNumber == 1 {\n				lineNumber = 0\n			}\n			continue\n		}\n"),
], gen("main", ["bytes", "strings", M+"pkg/pipeline"], '''	p, err := pipeline.New(&pipeline.Config{ID: "p"})
	if err != nil {
		t.Fatal(err)
	}
	var b bytes.Buffer
	if err := processInput(strings.NewReader("\\na\\n"), &b, p); err != nil {
		t.Fatal(err)
	}
	if !strings.Contains(b.String(), `"line_number":2`) {
		t.Fatal(b.String())
	}'''), "an input that begins with an empty line", "the lines are numbered from the second")

bug("c24-dropped-number", "C24", "cmd/sawmill", [
 (CMD, "		if evt == nil {\n			continue\n		}\n\n		if err := enc", "		if evt == nil {\n			if lineNumber > 1 {\n				lineNumber--\n			}\n			continue\n		}\n\n		if err := enc"),
], gen("main", ["bytes", "strings", M+"pkg/pipeline", M+"pkg/processor", M+"pkg/processor/registry"], '''	registry.MustRegister("zzdrop", func(c zzConf) (*zzProc, error) { return &zzProc{}, nil })
	p, err := pipeline.New(&pipeline.Config{ID: "p", Processors: []pipeline.ProcessorConfig{{"zzdrop": {}}}})
	if err != nil {
		t.Fatal(err)
	}
	var b bytes.Buffer
	if err := processInput(strings.NewReader("a\\nb\\nc\\n"), &b, p); err != nil {
		t.Fatal(err)
	}
	if !strings.Contains(b.String(), `"line_number":3`) {
		t.Fatal(b.String())
	}
}

type zzConf struct{}
type zzProc struct{}

func (p *zzProc) Config() zzConf { return zzConf{} }
func (p *zzProc) String() string { return "" }
func (p *zzProc) Process(e processor.Event) error {
	if e.Get("event.original").String == "b" {
		e.Drop()
	}
	return nil
}

func TestZZNone(t *testing.T) {'''), "a dropped event that is not the first, with lines after it", "the later lines get the wrong number")

bug("c22-key", "C22", "pkg/pipeline", [
 ("pkg/processor/remove/process.go", "	for _, field := range p.config.Fields {\n", "	var missing string\n	for _, field := range p.config.Fields {\n		missing = field\n"),
 ("pkg/processor/remove/process.go", "			return processor.ErrorKeyMissing{Key: field}\n", "			return processor.ErrorKeyMissing{Key: p.config.Fields[len(p.config.Fields)-1]}\n"),
 ("pkg/processor/remove/process.go", "	return nil\n", "	_ = missing\n	return nil\n"),
], proc('''{"remove": {Config: map[string]interface{}{"fields": []interface{}{"a", "b"}}}}''', '''	var k zzMissing
	if _, err = p.Process(event.New()); !errors.As(err, &k) || k.Key != "a" {
		t.Fatal(err)
	}'''), "a missing field before the last of the list", "the error names another field")

bug("c28-null-handler", "C28", "pkg/pipeline", [
 (PC, "func (c ProcessorConfig) getProcessor()", "// UnmarshalYAML reads the options of a processor.\nfunc (c *ProcessorOptionConfig) UnmarshalYAML(n *yaml.Node) error {\n	type opts ProcessorOptionConfig\n	if err := n.Decode((*opts)(c)); err != nil {\n		return err\n	}\n	for k, v := range c.Config {\n		if s, ok := v.(string); ok && s == \"\" {\n			delete(c.Config, k)\n		}\n	}\n	return nil\n}\n\nfunc (c ProcessorConfig) getProcessor()"),
 (PC, "	\"errors\"\n", "	\"errors\"\n\n	\"gopkg.in/yaml.v3\"\n"),
], gen("pipeline", ["gopkg.in/yaml.v3"], '''	var c Config
	if err := yaml.Unmarshal([]byte("id: p\\nprocessors: [{set: {target_field: a, value: ''}}]"), &c); err != nil {
		t.Fatal(err)
	}
	if len(c.Processors[0]["set"].Config) != 2 {
		t.Fatal(c.Processors[0]["set"].Config)
	}'''), "an option with an empty text", "the option is not read")

bug("c29-default-after", "C29", "pkg/processor/community_id", [
 ("pkg/processor/community_id/community_id.go", "func New(config Config)", "func fill(config *Config) {\n	if config.SourceIP == config.DestinationIP {\n		config.InitDefaults()\n	}\n}\n\nfunc New(config Config)"),
 ("pkg/processor/community_id/community_id.go", "	return &CommunityID{config: config}, nil", "	fill(&config)\n	return &CommunityID{config: config}, nil"),
], gen("community_id", [], '''	c := Config{}
	c.InitDefaults()
	c.SourceIP, c.DestinationIP, c.TargetField = "ip", "ip", "t"
	p, err := New(c)
	if err != nil || p.Config().TargetField != "t" {
		t.Fatal(p, err)
	}'''), "the same field for source_ip and destination_ip", "all options become defaults")
