# Seeded changes, batch 2.
import os, importlib.util
_s = importlib.util.spec_from_file_location("b1", os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugs1.py"))
b1 = importlib.util.module_from_spec(_s); _s.loader.exec_module(b1)
gen, M, ev, pipe = b1.gen, b1.M, b1.ev, b1.pipe
BUGS = []
def bug(id, prop, pkg, edits, demo, needs, breaks, flags=""):
    BUGS.append(dict(id=id, property=prop, pkg=pkg, edits=edits, demo=demo, needs=needs, breaks=breaks, flags=flags))
PL, PR, RG = "pkg/pipeline/pipeline.go", "pkg/pipeline/processor.go", "pkg/processor/registry/registry.go"
EVT, REF = "pkg/event/event.go", "pkg/eventutil/reflect.go"

bug("c27-scratch-event", "C27", "pkg/pipeline", [
 (PL, "	onFailure  []*pipelineProcessor\n}", "	onFailure  []*pipelineProcessor\n\n	current pipelineEvent\n}"),
 (PL, "	pipeEvt := &pipelineEvent{data: evt}\n", "	pipe.current = pipelineEvent{data: evt}\n	pipeEvt := &pipe.current\n"),
], pipe('''	p := mk(t, &Config{ID: "p", Processors: []ProcessorConfig{zz("s", nil), {"set": {Config: map[string]interface{}{"target_field": "a", "value": "b"}}}}})
	in := make(chan int)
	for g := 0; g < 2; g++ {
		go func() {
			defer func() { in <- 1 }()
			for i := 0; i < 1; i++ {
				p.proc2(event.New())
			}
		}()
	}
	<-in
	<-in
}

func (p *Pipeline) proc2(e *event.Event) {
	q := &Pipeline{id: p.id, processors: p.processors[1:]}
	zzOncePipe.Do(func() { zzShared = q })
	zzShared.Process(e)
}

var zzOncePipe sync.Once
var zzShared *Pipeline

func init() {
	_ = prometheus.NewCounter
''').replace('"testing"\n', '"sync"\n	"testing"\n', 1),
 "two events in one pipeline at the same time", "two calls of Process share the scratch event, so that events get mixed up", "-race")

bug("c27-key-cache", "C27", "pkg/event", [
 (EVT, '''	var paths []string
	var pathScratch []byte
''', '''	if p, ok := parsed[key]; ok {
		return p
	}
	var paths []string
	var pathScratch []byte
'''),
 (EVT, '''	return paths
}
''', '''	if len(parsed) < 1000 {
		parsed[key] = paths
	}
	return paths
}

// parsed holds the paths of keys that were used before.
var parsed = map[string][]string{}
'''),
], ev('''	done := make(chan int)
	for g := 0; g < 2; g++ {
		go func() {
			e := New()
			e.Put("a.b", String("x"))
			e.Get("a.b")
			done <- 1
		}()
	}
	<-done
	<-done'''), "two goroutines that use any events", "the cache of parsed keys is written without a lock", "-race")

bug("c27-tag-cache", "C27", "pkg/eventutil", [
 ("pkg/eventutil/structtag.go", '''	res := strings.Split(tag, ",")
	return res[0], res[1:]
''', '''	res, found := tagCache[tag]
	if !found {
		res = strings.Split(tag, ",")
		tagCache[tag] = res
	}
	return res[0], res[1:]
'''),
 ("pkg/eventutil/structtag.go", 'import "strings"\n', 'import "strings"\n\nvar tagCache = map[string][]string{}\n'),
], gen("eventutil", [], '''	done := make(chan int)
	for g := 0; g < 2; g++ {
		go func() {
			ReflectValue(struct {
				A int `event:"a,omitempty"`
			}{1})
			done <- 1
		}()
	}
	<-done
	<-done'''), "two goroutines that convert structs", "the cache of struct tags is written without a lock", "-race")

bug("c27-lower-scratch", "C27", "pkg/processor/lowercase", [
 ("pkg/processor/lowercase/process.go", "	targetField := p.config.Field\n	if p.config.TargetField != \"\" {\n		targetField = p.config.TargetField\n	}\n",
  "	if p.config.TargetField == \"\" {\n		p.config.TargetField = p.config.Field\n	}\n	targetField := p.config.TargetField\n"),
], gen("lowercase", ["sync", M + "pkg/event"], '''	p, _ := New(Config{Field: "a"})
	var wg sync.WaitGroup
	for g := 0; g < 2; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			e := zzEvent{event.New()}
			e.Put("a", event.String("X"))
			p.Process(e)
		}()
	}
	wg.Wait()
}

type zzEvent struct{ *event.Event }

func (zzEvent) Cancel() {}
func (zzEvent) Drop() {'''), "the first two events, at the same time, in a pipeline whose lowercase has no target field",
 "the processor completes its configuration while it processes", "-race")

bug("c23-config-reuse", "C23", "pkg/processor/registry", [
 (RG, '''	pc := &processorConstructor{
		newConfig: func() reflect.Value {
			return reflect.New(configType)
		},
''', '''	newConfig := reflect.New(configType)
	pc := &processorConstructor{
		newConfig: func() reflect.Value {
			return newConfig
		},
'''),
], gen("registry", [M + "pkg/processor"], '''	r := NewRegistry()
	type c struct {
		A string `config:"a"`
	}
	var got c
	if err := r.Register("x", func(x c) (*zzP, error) { got = x; return &zzP{}, nil }); err != nil {
		t.Fatal(err)
	}
	r.NewProcessor("x", map[string]interface{}{"a": "1"})
	r.NewProcessor("x", map[string]interface{}{})
	if got.A != "" {
		t.Fatal(got)
	}
}

type zzP struct{}

func (*zzP) String() string { return "" }
func (*zzP) Process(processor.Event) error {
	return nil'''), "two processors of one type, of which the second leaves an option out", "options of an earlier processor leak into a later one of the same type")

bug("c28-nested-reserved", "C28", "pkg/pipeline", [
 ("pkg/pipeline/config.go", '''type ConditionalExpressionConfig string
''', '''type ConditionalExpressionConfig string

// UnmarshalYAML normalizes the condition.
func (c *ConditionalExpressionConfig) UnmarshalYAML(unmarshal func(interface{}) error) error {
	var s string
	if err := unmarshal(&s); err != nil {
		return err
	}
	*c = ConditionalExpressionConfig(strings.Join(strings.Fields(s), " "))
	return nil
}
'''),
 ("pkg/pipeline/config.go", '	"errors"\n', '	"errors"\n	"strings"\n'),
], gen("pipeline", ["gopkg.in/yaml.v3"], '''	var c Config
	if err := yaml.Unmarshal([]byte("processors: [{set: {if: 'a == \\"x  y\\"'}}]"), &c); err != nil {
		t.Fatal(err)
	}
	if got := c.Processors[0]["set"].If; got != `a == "x  y"` {
		t.Fatal(got)
	}'''), "a condition with two spaces in a row", "blanks inside a condition of a YAML pipeline are changed")

bug("c28-expand-env", "C28", "cmd/sawmill", [
 ("cmd/sawmill/sawmill.go", '''	f, err := os.Open(path)
	if err != nil {
		return nil, err
	}
	defer f.Close()

	var c *pipeline.Config
	if err := yaml.NewDecoder(f).Decode(&c); err != nil {
''', '''	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}

	var c *pipeline.Config
	doc := strings.NewReader(os.ExpandEnv(string(b)))
	if err := yaml.NewDecoder(doc).Decode(&c); err != nil {
'''),
], gen("main", ["os", "path/filepath"], '''	f := filepath.Join(t.TempDir(), "p.yml")
	os.WriteFile(f, []byte("id: p\\nprocessors:\\n  - set: {target_field: a, value: 'costs $zz5'}\\n"), 0o600)
	c, err := loadPipeline(f)
	if err != nil {
		t.Fatal(err)
	}
	if got := c.Processors[0]["set"].Config["value"]; got != "costs $zz5" {
		t.Fatal(got)
	}'''), "a text with a dollar sign and a name", "texts of a pipeline file are expanded as environment variables")

bug("c28-yaml-on-failure", "C28", "pkg/pipeline", [
 ("pkg/pipeline/config.go", '''	OnFailure []ProcessorConfig           `yaml:"on_failure,omitempty" json:"on_failure,omitempty"`
	Config ''', '''	OnFailure []ProcessorConfig           `yaml:"onfailure,omitempty"  json:"on_failure,omitempty"`
	Config '''),
], gen("pipeline", ["gopkg.in/yaml.v3"], '''	var c Config
	if err := yaml.Unmarshal([]byte("processors: [{set: {on_failure: [{remove: null}]}}]"), &c); err != nil {
		t.Fatal(err)
	}
	if got := c.Processors[0]["set"].OnFailure; len(got) != 1 {
		t.Fatal(got)
	}'''), "a handler of a single processor in a YAML file", "the on_failure chain of a processor is read as an option")

bug("c13-missing-in-handler", "C13", "pkg/pipeline", [
 (PR, "		if p.IgnoreFailure && err != nil {\n", "		if err != nil && (p.IgnoreFailure || p.IgnoreMissing && errors.Is(err, processor.ErrorKeyMissing{})) {\n"),
], pipe('''	p := mk(t, &Config{ID: "p", Processors: []ProcessorConfig{zz("f", map[string]interface{}{"ignore_missing": true}, zz("m", nil))}})
	if _, err := p.Process(event.New()); err == nil {
		t.Fatal("not reported")
	}'''), "a handler that fails with a missing field below a processor with ignore_missing", "a missing field of a handler is ignored because of the option of its parent")

bug("c13-global-continue", "C13", "pkg/pipeline", [
 (PL, '''				// Failure in global on_failure.
				return err
''', '''				// Failure in global on_failure.
				continue
'''),
], pipe('''	p := mk(t, &Config{ID: "p", Processors: []ProcessorConfig{zz("f", nil)}, OnFailure: []ProcessorConfig{zz("f", nil), zz("s", nil)}})
	if _, err := p.Process(event.New()); err == nil {
		t.Fatal("not reported")
	}'''), "a global handler that fails before another one that succeeds", "the failure of a global handler is lost")

bug("c14-drop-empty", "C14", "pkg/pipeline", [
 ("pkg/pipeline/event.go", "	e.dropped = true\n", "	e.dropped = e.data.Get(\".\") != nil\n"),
], pipe('''	p := mk(t, &Config{ID: "p", Processors: []ProcessorConfig{zz("d", nil)}})
	if e, err := p.Process(event.New()); err != nil || e != nil {
		t.Fatal(e, err)
	}'''), "dropping an event without fields", "an event without fields cannot be dropped")

bug("c15-ignored-as-error", "C15", "pkg/pipeline", [
 (PR, '''		if p.IgnoreFailure && err != nil {
			p.metricEventsOutTotal.Inc()
''', '''		if p.IgnoreFailure && err != nil {
			p.metricErrorsTotal.Inc()
'''),
], pipe('''	p := mk(t, &Config{ID: "p", Processors: []ProcessorConfig{zz("f", map[string]interface{}{"ignore_failure": true})}})
	if _, err := p.Process(event.New()); err != nil {
		t.Fatal(err)
	}
	if n := val(p.Metrics()[1]); n != 0 {
		t.Fatal(n)
	}'''), "a failure that is ignored", "an ignored failure is counted as an error and not as sent")

bug("c17-handlers-skipped", "C17", "pkg/pipeline", [
 (PR, '''	onFailureProcessors, err := newPipelineProcessors(id+".on_failure", config.OnFailure)
	if err != nil {
		return nil, err
	}

	p := &''', '''	var onFailureProcessors []*pipelineProcessor
	if ignoreFailurePtr == nil || !*ignoreFailurePtr {
		onFailureProcessors, err = newPipelineProcessors(id+".on_failure", config.OnFailure)
		if err != nil {
			return nil, err
		}
	}

	p := &'''),
], pipe('''	_, err := New(&Config{ID: "p", Processors: []ProcessorConfig{zz("s", map[string]interface{}{"ignore_failure": true}, ProcessorConfig{"none": {}})}})
	if err == nil {
		t.Fatal("accepted")
	}'''), "an invalid handler of a processor with ignore_failure", "handlers of processors that ignore failures are not built")

bug("c18-false-option", "C18", "pkg/pipeline", [
 ("pkg/pipeline/config.go", '''	for k, v := range c.Config {
		data[k] = v
	}
''', '''	for k, v := range c.Config {
		if v == false || v == "" {
			continue
		}
		data[k] = v
	}
'''),
], gen("pipeline", ["encoding/json"], '''	b, err := json.Marshal(ProcessorConfig{"append": {Config: map[string]interface{}{"allow_duplicates": false}}})
	if err != nil {
		t.Fatal(err)
	}
	var c ProcessorConfig
	if err := json.Unmarshal(b, &c); err != nil {
		t.Fatal(err)
	}
	if v, ok := c["append"].Config["allow_duplicates"]; !ok || v != false {
		t.Fatal(string(b))
	}'''), "an option that is false where the default is true", "options that are false or empty are lost")

bug("c19-hand-rolled", "C19", "pkg/processor/uppercase", [
 ("pkg/processor/uppercase/process.go", "	out := strings.ToUpper(v.String)\n", '''	out := strings.Map(func(r rune) rune {
		if r > 'a' && r <= 'z' {
			return r - 'a' + 'A'
		}
		return unicode.ToUpper(r)
	}, v.String)
	if strings.IndexFunc(out, unicode.IsControl) >= 0 {
		out = strings.TrimRightFunc(out, unicode.IsControl)
	}
'''),
 ("pkg/processor/uppercase/process.go", '	"strings"\n', '	"strings"\n	"unicode"\n'),
], gen("uppercase", [M + "pkg/event"], '''	p, _ := New(Config{Field: "a"})
	e := zzEvent{event.New()}
	e.Put("a", event.String("abc\\n"))
	p.Process(e)
	if got := e.Get("a").String; got != "ABC\\n" {
		t.Fatalf("%q", got)
	}
}

type zzEvent struct{ *event.Event }

func (zzEvent) Cancel() {}
func (zzEvent) Drop() {'''), "a text that ends with a control character", "control characters at the end of the text are lost")

bug("c21-null-falls-through", "C21", "pkg/config", [
 ("pkg/config/config.go", '''	value, err := eventutil.ReflectValue(ifc)
	if err != nil {
		return err
	}
''', '''	if u, ok := ifc.(uint64); ok {
		ifc = int64(u)
	}
	value, err := eventutil.ReflectValue(ifc)
	if err != nil {
		return err
	}
'''),
], gen("config", [M + "pkg/event"], '''	var v EventValue
	if err := v.Unpack(uint64(1<<63 + 5)); err != nil {
		t.Fatal(err)
	}
	if v.Type != event.UnsignedIntegerType || v.UnsignedInteger != 1<<63+5 {
		t.Fatal(v)
	}'''), "a configured number beyond 2^63", "large unsigned numbers become negative")

bug("c24-small-buffer", "C24", "cmd/sawmill", [
 ("cmd/sawmill/sawmill.go", "	s := bufio.NewScanner(in)\n", "	s := bufio.NewScanner(in)\n	s.Buffer(make([]byte, 0, 1024), 2048)\n"),
], gen("main", ["bytes", "strings", M + "pkg/pipeline"], '''	p, err := pipeline.New(&pipeline.Config{ID: "p"})
	if err != nil {
		t.Fatal(err)
	}
	var out bytes.Buffer
	if err := processInput(strings.NewReader(strings.Repeat("x", 3000)+"\\n"), &out, p); err != nil {
		t.Fatal(err)
	}
	if out.Len() < 3000 {
		t.Fatal(out.Len())
	}'''), "a line of more than 2 KB", "longer lines end the processing with an error")

bug("c24-trim-quotes", "C24", "cmd/sawmill", [
 ("cmd/sawmill/sawmill.go", "		line := strings.TrimSpace(s.Text())\n", "		line := strings.Trim(s.Text(), \" \\t\\r\\n\\ufeff\")\n"),
], gen("main", ["bytes", "strings", M + "pkg/pipeline"], '''	p, err := pipeline.New(&pipeline.Config{ID: "p"})
	if err != nil {
		t.Fatal(err)
	}
	var out bytes.Buffer
	if err := processInput(strings.NewReader("\\v\\f\\nx\\f\\n"), &out, p); err != nil {
		t.Fatal(err)
	}
	if strings.Count(out.String(), "\\n") != 1 || !strings.Contains(out.String(), `"x"`) {
		t.Fatal(out.String())
	}'''), "a line of vertical tabs or form feeds", "lines of form feeds are taken for text")

bug("c25-title-digits", "C25", "internal/proctemplate", [
 ("internal/proctemplate/funcs.go", "	switch strings.ToLower(abv) {\n", "	switch strings.TrimRight(strings.ToLower(abv), \"s\") {\n"),
], gen("proctemplate", [], '''	if got := goTypeName("geo_as"); got != "GeoAS" {
		t.Fatal(got)
	}
	if got := goTypeName("pass"); got != "Pass" {
		t.Fatal(got)
	}'''), "an option named like an abbreviation that ends with s", "the abbreviation AS is no longer capitalised")

bug("c01-split-fast-path", "C01", "pkg/event", [
 (EVT, '''	var paths []string
	var pathScratch []byte
''', '''	if len(key) > 0 && strings.IndexByte(key, '\\\\') == -1 && key[0] != '.' && key[len(key)-1] != '.' {
		// Nothing is escaped.
		return strings.Split(key, ".")
	}

	var paths []string
	var pathScratch []byte
'''),
], ev('''	e := New()
	e.Put("a..b", String("x"))
	if e.Get("a.b") == nil {
		t.Fatal("not found")
	}'''), "two dots in a row inside a key without escapes", "the empty segment becomes a field without a name")

bug("c03-init-first", "C03", "pkg/event", [
 (EVT, '''	if len(path) == 0 {
		return nil, fmt.Errorf("event put failed: %w", ErrEmptyKey)
	}
	if val == nil {
		return nil, nil
	}

	if e.fields == nil {
		e.init()
	}
''', '''	if e.fields == nil {
		e.init()
	}

	if len(path) == 0 {
		return nil, fmt.Errorf("event put failed: %w", ErrEmptyKey)
	}
	if val == nil {
		return nil, nil
	}
'''),
], ev('''	e := New()
	e.Put("", String("x"))
	b, _ := json.Marshal(e)
	if string(b) != "null" {
		t.Fatal(string(b))
	}'''), "a refused put on an event without fields, which is then encoded", "a refused put changes how an empty event is encoded")

bug("c07-local", "C07", "pkg/event", [
 ("pkg/event/time.go", "	return time.Unix(0, t.UnixNanos).UTC()\n", "	return time.Unix(0, t.UnixNanos)\n"),
 ("pkg/event/time.go", "t.GoTime().Format(", "t.GoTime().UTC().Format("),
], ev('''	if got := (Time{5}).GoTime(); got.Location() != time.UTC {
		t.Fatal(got)
	}''').replace('"testing"\n', '"testing"\n	"time"\n', 1), "a local time zone other than UTC", "the Go time of a timestamp is in the local zone")

bug("c10-unsigned-wraps", "C10", "pkg/serialization/mapinterface", [
 ("pkg/serialization/mapinterface/mapinterface.go", "		return v.UnsignedInteger\n", "		if v.UnsignedInteger <= 1<<63 {\n			return int64(v.UnsignedInteger)\n		}\n		return v.UnsignedInteger\n"),
], gen("mapinterface", [M + "pkg/event"], '''	e := event.New()
	e.Put("a", event.UnsignedInteger(1<<63))
	n, err := ToEvent(FromEvent(e))
	if err != nil {
		t.Fatal(err)
	}
	if v := n.Get("a"); v.Type == event.IntegerType && v.Integer < 0 {
		t.Fatal(v)
	}'''), "the unsigned integer 2^63", "it becomes negative")

bug("c11-error-kind", "C11", "pkg/eventutil", [
 (REF, "	case typ.Implements(errorInterface):\n", "	case typ.Kind() != reflect.String && typ.Implements(errorInterface):\n"),
], gen("eventutil", [], '''	v, err := ReflectValue(zzErr("x"))
	if err != nil || v.String != "error x" {
		t.Fatal(v, err)
	}
}

type zzErr string

func (e zzErr) Error() string {
	return "error " + string(e)'''), "an error whose type is a string", "the error message is lost")

bug("c02-tryput-parent", "C02", "pkg/event", [
 (EVT, '''		newObj := Object(map[string]*Value{})
		m[key] = newObj
		m = newObj.Object
''', '''		if len(path) > 5 {
			// Sparse paths are created at once.
			leaf := Object(map[string]*Value{path[len(path)-1]: val})
			for j := len(path) - 2; path[j] != key; j-- {
				leaf = Object(map[string]*Value{path[j]: leaf})
			}
			m[key] = leaf
			return old, nil
		}
		newObj := Object(map[string]*Value{})
		m[key] = newObj
		m = newObj.Object
'''),
], ev('''	e := New()
	e.Put("a.b.a.b.a.c", String("x"))
	if e.Get("a.b.a.b.a.c") == nil {
		t.Fatal("not found")
	}'''), "a new path of more than five segments in which a name occurs twice", "the value is stored at another path")

bug("c05-empty-array", "C05", "pkg/event", [
 ("pkg/event/value.go", "func (v *Value) MarshalJSON() ([]byte, error) {\n", "func (v *Value) MarshalJSON() ([]byte, error) {\n	if v.Type == ArrayType && v.Array[0] == nil {\n		return []byte(\"[]\"), nil\n	}\n"),
], ev('''	defer func() {
		if p := recover(); p != nil {
			t.Fatal(p)
		}
	}()
	e := New()
	e.Put("a", Array())
	json.Marshal(e)'''), "encoding an event with an empty array", "a panic")

bug("c06-html", "C06", "pkg/event", [
 ("pkg/event/value.go", "	return json.Marshal(v.value())\n", '''	if v.Type == StringType && len(v.String) > 2 && strconv.CanBackquote(v.String) && !bytes.ContainsAny([]byte(v.String), "\\"\\\\<>&\\x00") {
		// Nothing to escape.
		return []byte(`"` + v.String + `"`), nil
	}
	return json.Marshal(v.value())
'''),
], ev('''	e := New()
	e.Put("a", String("a\\tb"))
	b, err := json.Marshal(e)
	if err != nil {
		t.Fatal(err)
	}
	n := New()
	if err := json.Unmarshal(b, n); err != nil || n.Get("a").String != "a\\tb" {
		t.Fatal(string(b), err)
	}'''), "a text of three characters or more with a tab", "the encoded event is not JSON")

bug("c12-append-prealloc", "C12", "pkg/eventutil", [
 ("pkg/eventutil/event.go", "		targetValue = event.Array(targetValue)\n", "		old := *targetValue\n		targetValue.Type, targetValue.Array = event.ArrayType, []*event.Value{&old}\n"),
], gen("eventutil", [M + "pkg/event"], '''	e := event.New()
	v := event.String("x")
	e.Put("a", v)
	e.Put("b", v)
	Append(e, "a", event.String("y"))
	if e.Get("b").Type != event.StringType {
		t.Fatal(e.Get("b"))
	}'''), "a scalar that is stored in two places", "appending to one place changes the other")

bug("c22-order", "C22", "pkg/processor/remove", [
 ("pkg/processor/remove/remove.go", "	return &Remove{config: config}, nil\n", '''	// Fields below other fields go first.
	sort.Slice(config.Fields, func(i, j int) bool { return len(config.Fields[i]) > len(config.Fields[j]) })
	return &Remove{config: config}, nil
'''),
 ("pkg/processor/remove/remove.go", 'import (\n', 'import (\n	"sort"\n\n'),
], gen("remove", [M + "pkg/event"], '''	p, _ := New(Config{Fields: []string{"a", "bbb"}})
	e := zzEvent{event.New()}
	e.Put("a", event.String("x"))
	if err := p.Process(e); err == nil {
		t.Fatal("not reported")
	}
	if e.Get("a") != nil {
		t.Fatal("the first field was not removed")
	}
}

type zzEvent struct{ *event.Event }

func (zzEvent) Cancel() {}
func (zzEvent) Drop() {'''), "a missing field that comes after a present one with a shorter name", "fields are not removed in the listed order")
bug("c16-shared-bool", "C16", "pkg/pipeline", [
 ("pkg/event/value.go", "	return &Value{Type: BoolType, Bool: v}\n", """	if v {
		return trueValue
	}
	return falseValue
"""),
 ("pkg/event/value.go", "var valueTypeNames = ", "var trueValue, falseValue = &Value{Type: BoolType, Bool: true}, &Value{Type: BoolType}\n\nvar valueTypeNames = "),
], pipe('''	p := mk(t, &Config{ID: "p", Processors: []ProcessorConfig{zz("s", nil)}})
	e := event.New()
	e.Put("a", event.Bool(true))
	e, _ = p.Process(e)
	e.Get("a").Bool = false
	if !event.Bool(true).Bool {
		t.Fatal("true is false")
	}'''), "a boolean of a result that its owner changes in place", "booleans of all events are the same value")

bug("c08-whole-floats", "C08", "pkg/serialization/protobuf", [
 ("pkg/serialization/protobuf/protobuf.go", """	case event.FloatType:
		return &Value{
""", """	case event.FloatType:
		if v.Float > 1<<53 && v.Float < 1<<63 {
			return &Value{Kind: &Value_Integer{Integer: int64(v.Float)}}
		}
		return &Value{
"""),
], gen("protobuf", [M + "pkg/event"], '''	e := event.New()
	e.Put("a", event.Float(1 << 60))
	if v := ToLogEvent(FromEvent(e).GetLog()).Get("a"); v.Type != event.FloatType {
		t.Fatal(v)
	}'''), "a float beyond 2^53", "it becomes an integer")

bug("c09-epoch-null", "C09", "pkg/serialization/protobuf", [
 ("pkg/serialization/protobuf/protobuf.go", "		return event.Timestamp(t.Timestamp)\n", "		if t.Timestamp == -1<<63 {\n			return nil\n		}\n		return event.Timestamp(t.Timestamp)\n"),
], gen("protobuf", [M + "pkg/event"], '''	l := &Log{Object: &ValueObject{Fields: map[string]*Value{"a": {Kind: &Value_Timestamp{Timestamp: -1 << 63}}}}}
	if v := ToLogEvent(l).Get("a"); v == nil || v.Type != event.TimestampType {
		t.Fatal(v)
	}'''), "the smallest timestamp", "it is lost")

bug("c26-no-key", "C26", "pkg/processor", [
 ("pkg/processor/error.go", """	_, ok := target.(ErrorKeyMissing)
	return ok
""", """	_, ok := target.(ErrorKeyMissing)
	return ok && e.Key != ""
"""),
], gen("processor", ["errors", "fmt"], '''	if !errors.Is(fmt.Errorf("x: %w", ErrorKeyMissing{}), ErrorKeyMissing{Key: "b"}) {
		t.Fatal("not recognised")
	}'''), "a missing-field error without the name of the field", "it is not recognised")
