# Seeded changes, batch 5.
import os, importlib.util
_s = importlib.util.spec_from_file_location("b4", os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugs4.py"))
b4 = importlib.util.module_from_spec(_s); _s.loader.exec_module(b4)
gen, M, ev, pipe, gendemo, docdemo, GY = b4.gen, b4.M, b4.ev, b4.pipe, b4.gendemo, b4.docdemo, b4.GY
PL, PR, PC, RG = b4.PL, b4.PR, b4.PC, b4.RG
EVT, VAL, REF, EUT, PB, MI, CMD, TPL, SCH, GEN, DOC = b4.EVT, b4.VAL, b4.REF, b4.EUT, b4.PB, b4.MI, b4.CMD, b4.TPL, b4.SCH, b4.GEN, b4.DOC
BUGS = []
def bug(id, prop, pkg, edits, demo, needs, breaks, flags=""):
    BUGS.append(dict(id=id, property=prop, pkg=pkg, edits=edits, demo=demo, needs=needs, breaks=breaks, flags=flags))

bug("c01-last-dot", "C01", "pkg/event", [
 (EVT, "			if escape {\n				pathScratch = append(pathScratch, '.')\n", "			if escape && i == len(key)-1 && len(paths) > 0 {\n				// A dot at the end of a key has nothing to escape.\n			} else if escape {\n				pathScratch = append(pathScratch, '.')\n"),
], ev('''	e := New()
	e.Put(`a.b\\.`, Integer(1))
	if e.Get("a").Object["b."] == nil {
		t.Fatal("not at b.")
	}'''), "a name that ends with a dot at the end of a key", "the dot is lost")

bug("c02-empty-over-object", "C02", "pkg/event", [
 (EVT, "	m[path[len(path)-1]] = val\n	return old, nil", "	if old != nil && old.Type == ObjectType && val.Type == ObjectType && len(val.Object) == 0 {\n		return old, nil\n	}\n	m[path[len(path)-1]] = val\n	return old, nil"),
], ev('''	e := New()
	e.Put("a.b", Integer(1))
	e.Put("a", Object(nil))
	if e.Get("a.b") != nil {
		t.Fatal("a was not replaced")
	}'''), "putting an empty object over an object with members", "the old members stay")

bug("c03-deep-error", "C03", "pkg/event", [
 (EVT, "				return nil, fmt.Errorf(\"event put failed for path <%s>: %w\", pathString(path), ErrTargetKeyNotObject)", "				if len(path) > 3 {\n					return nil, fmt.Errorf(\"event put failed for path <%s> at %s: %v\", pathString(path), key, ErrTargetKeyNotObject)\n				}\n				return nil, fmt.Errorf(\"event put failed for path <%s>: %w\", pathString(path), ErrTargetKeyNotObject)"),
], gen("event", ["errors"], '''	e := New()
	e.Put("a", Integer(1))
	if _, err := e.Put("a.b.c.d", Integer(1)); !errors.Is(err, ErrTargetKeyNotObject) {
		t.Fatal(err)
	}'''), "a refused put of four segments", "the error is not the documented one")

bug("c04-fold", "C04", "pkg/event", [
 (EVT, "	v := m[name]\n	if v != nil {", "	v := m[name]\n	if v == nil {\n		for k := range m {\n			if strings.EqualFold(k, name) {\n				name, v = k, m[k]\n			}\n		}\n	}\n	if v != nil {"),
], ev('''	e := New()
	e.Put("a.B", Integer(1))
	if e.Delete("a.b") != nil || e.Get("a.B") == nil {
		t.Fatal("deleted another field")
	}'''), "deleting a name that differs in case from an existing one", "the other field is deleted")

bug("c05-nil-map-deep", "C05", "pkg/event", [
 (EVT, "			if inner.Object == nil {\n", "			if inner.Object == nil && len(path) < 4 {\n"),
], ev('''	e := New()
	e.Put("a.b.c", &Value{Type: ObjectType})
	e.Put("a.b.c.d", Integer(1))'''), "a put of four segments below an object without a map", "it panics")

bug("c06-second-null", "C06", "pkg/event", [
 (VAL, "			m[k] = &Value{Type: NullType}\n		}\n	}\n}", "			m[k] = &Value{Type: NullType}\n			if len(m) < 3 {\n				return\n			}\n		}\n	}\n}"),
], ev('''	var e Event
	if err := json.Unmarshal([]byte(`{"o":{"a":null,"b":null}}`), &e); err != nil {
		t.Fatal(err)
	}
	if e.Get("o.a") == nil || e.Get("o.b") == nil {
		t.Fatal("a null is missing")
	}'''), "an object of exactly two fields that are both null", "one of them is lost")

bug("c07-second-fraction", "C07", "pkg/event", [
 ("pkg/event/time.go", "	return []byte(`\"` + t.GoTime().Format(time.RFC3339Nano) + `\"`), nil", "	layout := time.RFC3339Nano\n	if t.UnixNanos%1000 == 0 {\n		layout = \"2006-01-02T15:04:05.999999Z07:00\"\n	}\n	if t.UnixNanos%1000000 == 0 {\n		layout = \"2006-01-02T15:04:05.99Z07:00\"\n	}\n	return []byte(`\"` + t.GoTime().Format(layout) + `\"`), nil"),
], ev('''	b, _ := Time{1001000000}.MarshalJSON()
	if string(b) != `"1970-01-01T00:00:01.001Z"` {
		t.Fatal(string(b))
	}'''), "a time of whole milliseconds that are not whole hundredths", "the milliseconds are lost")

bug("c08-zero-unset", "C08", "pkg/serialization/protobuf", [
 (PB, "	case event.UnsignedIntegerType:\n		return &Value{\n", "	case event.UnsignedIntegerType:\n		if v.UnsignedInteger == 0 {\n			return &Value{}\n		}\n		return &Value{\n"),
], gen("protobuf", [M + "pkg/event"], '''	e := event.New()
	e.Put("a", event.UnsignedInteger(0))
	if v := ToLogEvent(FromEvent(e).GetLog()).Get("a"); v.Type != event.UnsignedIntegerType {
		t.Fatal(v)
	}'''), "an unsigned zero", "it becomes null")

bug("c09-nil-item", "C09", "pkg/serialization/protobuf", [
 (PB, "		for _, x := range t.Array.GetItems() {\n", "		for _, x := range t.Array.GetItems() {\n			if x == nil {\n				continue\n			}\n"),
], gen("protobuf", [M + "pkg/event"], '''	l := &Log{Object: &ValueObject{Fields: map[string]*Value{"a": {Kind: &Value_Array{Array: &ValueArray{Items: []*Value{nil, nil}}}}}}}
	if v := ToLogEvent(l).Get("a"); len(v.Array) != 2 {
		t.Fatal(v)
	}
	_ = event.New'''), "a message with a nil item in an array", "the item is lost")

bug("c10-empty-object-null", "C10", "pkg/serialization/mapinterface", [
 (MI, "		return fromEventValueObject(v)\n	case event.StringType:", "		if v.Object == nil || len(v.Object) == 0 {\n			return nil\n		}\n		return fromEventValueObject(v)\n	case event.StringType:"),
], gen("mapinterface", [M + "pkg/event"], '''	e := event.New()
	e.Put("a", event.Array(event.Object(map[string]*event.Value{})))
	b, err := ToEvent(FromEvent(e))
	if err != nil || b.Get("a").Array[0].Type != event.ObjectType {
		t.Fatal(b, err)
	}'''), "an empty object below the top", "it becomes null")

bug("c11-embedded", "C11", "pkg/eventutil", [
 (REF, "		if field.PkgPath != \"\" {\n", "		if field.PkgPath != \"\" || field.Anonymous && field.Tag == \"\" && field.Type.Kind() == reflect.Ptr {\n"),
], gen("eventutil", [], '''	type In struct{ X int }
	_ = In{}
	v, err := ReflectValue(struct{ *ZZIn }{&ZZIn{7}})
	if err != nil || v.Object["zzin"] == nil {
		t.Fatal(v, err)
	}
}

type ZZIn struct{ X int }

func init() {'''), "a struct that embeds a pointer", "the embedded struct is lost")

bug("c11-named-unsigned", "C11", "pkg/eventutil", [
 (REF, "		return event.UnsignedInteger(rv.Uint()), nil\n	case reflect.Float32", "		if u := rv.Uint(); u > 1<<53 && typ.Name() != \"uint64\" {\n			return event.Float(float64(u)), nil\n		}\n		return event.UnsignedInteger(rv.Uint()), nil\n	case reflect.Float32"),
], gen("eventutil", [M + "pkg/event"], '''	type id uint64
	v, err := ReflectValue(id(1<<53 + 1))
	if err != nil || v.Type != event.UnsignedIntegerType || v.UnsignedInteger != 1<<53+1 {
		t.Fatal(v, err)
	}'''), "a large value of a named unsigned type", "it becomes a float and loses digits")

bug("c12-escape-leading", "C12", "pkg/eventutil", [
 (EUT, "	return strings.ReplaceAll(key, \".\", `\\.`)", "	if key[0] == '.' {\n		return \".\" + strings.ReplaceAll(key[1:], \".\", `\\.`)\n	}\n	return strings.ReplaceAll(key, \".\", `\\.`)"),
], gen("eventutil", [M + "pkg/event"], '''	e := event.New()
	e.Put(EscapeKey(".a"), event.Integer(1))
	if e.Get(".").Object[".a"] == nil {
		t.Fatal("not at .a")
	}'''), "a name that starts with a dot", "the key addresses the name without the dot")

PIPES = [M + "pkg/event", M + "pkg/processor", M + "pkg/processor/registry"]
TYPE = '''
type zzC struct {
	IgnoreMissing bool `config:"ignore_missing"`
	IgnoreFailure bool `config:"ignore_failure"`
	Name          string `config:"name"`
}
type zzP struct{ c zzC }

var zzDo func(name string, e processor.Event) error

func (p *zzP) Config() zzC                       { return p.c }
func (p *zzP) String() string                    { return "zz" }
func (p *zzP) Process(e processor.Event) error   { return zzDo(p.c.Name, e) }
func zzNew(c zzC) (*zzP, error)                  { return &zzP{c}, nil }
func zzStep(name string, more ...interface{}) ProcessorConfig {
	c := map[string]interface{}{"name": name}
	o := &ProcessorOptionConfig{Config: c}
	for _, m := range more {
		switch m := m.(type) {
		case string:
			c[m] = true
		case ProcessorConfig:
			o.OnFailure = append(o.OnFailure, m)
		}
	}
	return ProcessorConfig{"zz": o}
}
func init() { registry.MustRegister("zz", zzNew) }

var _ = event.New
var _ = errors.New
'''
def pdemo(body, imports=()):
    return gen("pipeline", ["errors"] + PIPES + list(imports), body).rstrip() + "\n" + TYPE

bug("c13-ignore-both", "C13", "pkg/pipeline", [
 (PR, "	if ignoreFailurePtr != nil {\n		p.IgnoreFailure = *ignoreFailurePtr\n	}", "	if ignoreFailurePtr != nil && !p.IgnoreMissing {\n		p.IgnoreFailure = *ignoreFailurePtr\n	}"),
], pdemo('''	zzDo = func(string, processor.Event) error { return errors.New("no") }
	p, err := New(&Config{ID: "p", Processors: []ProcessorConfig{zzStep("a", "ignore_missing", "ignore_failure")}})
	if err != nil {
		t.Fatal(err)
	}
	if _, err := p.Process(event.New()); err != nil {
		t.Fatal(err)
	}'''), "a processor with ignore_missing and ignore_failure that fails", "the failure is not ignored")

bug("c14-cancel-error-handler", "C14", "pkg/pipeline", [
 (PL, "	if err != nil && len(pipe.onFailure) > 0 && !evt.cancelled {", "	if err != nil && len(pipe.onFailure) > 0 && (!evt.cancelled || len(pipe.onFailure) > 1) {"),
], pdemo('''	var ran int
	zzDo = func(n string, e processor.Event) error {
		if n == "h" {
			ran++
			return nil
		}
		e.Cancel()
		return errors.New("no")
	}
	p, err := New(&Config{ID: "p", Processors: []ProcessorConfig{zzStep("a")}, OnFailure: []ProcessorConfig{zzStep("h"), zzStep("h")}})
	if err != nil {
		t.Fatal(err)
	}
	p.Process(event.New())
	if ran != 0 {
		t.Fatal("a handler ran")
	}'''), "cancel and an error with two global handlers", "a handler runs after the cancel")

bug("c15-second-handler-drop", "C15", "pkg/pipeline", [
 (PR, "			for _, proc := range p.OnFailure {\n", "			for i, proc := range p.OnFailure {\n"),
 (PR, "				if event.dropped {\n					p.metricDiscardedEventsTotal.Inc()\n					return nil\n				}\n				if event", "				if event.dropped {\n					if i == 0 || i < len(p.OnFailure)-1 {\n						p.metricDiscardedEventsTotal.Inc()\n					}\n					return nil\n				}\n				if event"),
], pdemo('''	zzDo = func(n string, e processor.Event) error {
		if n == "a" {
			return errors.New("no")
		}
		if n == "d" {
			e.Drop()
		}
		return nil
	}
	p, err := New(&Config{ID: "p", Processors: []ProcessorConfig{zzStep("a", zzStep("h"), zzStep("d"))}})
	if err != nil {
		t.Fatal(err)
	}
	p.Process(event.New())
	var m dto.Metric
	p.processors[0].metricDiscardedEventsTotal.Write(&m)
	if m.GetCounter().GetValue() != 1 {
		t.Fatal("not counted")
	}''', ['dto "github.com/prometheus/client_model/go"']), "a drop in the last of several handlers", "the failed component does not count the event")

bug("c15-deep-metrics", "C15", "pkg/pipeline", [
 (PL, "	visit(proc)\n\n	for _, proc := range proc.OnFailure {\n		visitProcessor(visit, proc)\n	}", "	visit(proc)\n\n	for _, proc := range proc.OnFailure {\n		visit(proc)\n		for _, proc := range proc.OnFailure {\n			visit(proc)\n		}\n	}"),
], pdemo('''	p, err := New(&Config{ID: "p", Processors: []ProcessorConfig{zzStep("a", zzStep("b", zzStep("c", zzStep("d"))))}})
	if err != nil {
		t.Fatal(err)
	}
	if n := len(p.Metrics()); n != 16 {
		t.Fatal(n)
	}'''), "handlers nested three deep", "the innermost have no counters")

bug("c16-lower-alias", "C16", "pkg/processor/lowercase", [
 ("pkg/processor/lowercase/process.go", "	_, err := evt.Put(targetField, event.String(out))\n	return err", "	if out == v.String && targetField != p.config.Field {\n		_, err := evt.Put(targetField, v)\n		return err\n	}\n	_, err := evt.Put(targetField, event.String(out))\n	return err"),
], gen("lowercase", [M + "pkg/event", M + "pkg/processor"], '''	p, _ := New(Config{Field: "a", TargetField: "b"})
	e := event.New()
	e.Put("a", event.String("x"))
	if err := p.Process(zzE{e}); err != nil {
		t.Fatal(err)
	}
	e.Get("b").String = "changed"
	if e.Get("a").String != "x" {
		t.Fatal("the field changed with its copy")
	}
	_ = processor.ErrorKeyMissing{}
}

type zzE struct{ *event.Event }

func (zzE) Drop()   {}
func (zzE) Cancel() {}
func init()         {'''), "a text that is lower case already, with a target field", "field and target share one value")

bug("c17-index-mod", "C17", "pkg/pipeline", [
 (PR, "strconv.Itoa(processorIndex)", "strconv.Itoa(processorIndex%100)"),
], pdemo('''	c := &Config{ID: "p"}
	for i := 0; i < 101; i++ {
		c.Processors = append(c.Processors, zzStep("a"))
	}
	p, err := New(c)
	if err != nil {
		t.Fatal(err)
	}
	r := prometheus.NewRegistry()
	for _, m := range p.Metrics() {
		if err := r.Register(m); err != nil {
			t.Fatal(err)
		}
	}''', ["github.com/prometheus/client_golang/prometheus"]), "more than a hundred processors", "two have the same ID")

bug("c18-description-option", "C18", "pkg/pipeline", [
 (PC, "	delete(raw, \"on_failure\")\n", "	delete(raw, \"on_failure\")\n	if raw[\"description\"] == \"\" {\n		delete(raw, \"description\")\n	}\n"),
], gen("pipeline", ["encoding/json"], '''	var c ProcessorOptionConfig
	if err := json.Unmarshal([]byte(`{"description":""}`), &c); err != nil || len(c.Config) != 1 {
		t.Fatal(c, err)
	}'''), "an option named description that is an empty text", "the option is lost")

bug("c19-upper-null-target", "C19", "pkg/processor/uppercase", [
 ("pkg/processor/uppercase/process.go", "	if p.config.TargetField != \"\" {\n		targetField = p.config.TargetField\n	}", "	if p.config.TargetField != \"\" {\n		targetField = p.config.TargetField\n		if old := evt.Get(targetField); old != nil && old.Type == event.ObjectType {\n			targetField += \".\" + p.config.Field\n		}\n	}"),
], gen("uppercase", [M + "pkg/event", M + "pkg/processor"], '''	p, _ := New(Config{Field: "a", TargetField: "b"})
	e := event.New()
	e.Put("a", event.String("x"))
	e.Put("b.c", event.String("x"))
	if err := p.Process(zzE{e}); err != nil {
		t.Fatal(err)
	}
	if v := e.Get("b"); v.Type != event.StringType {
		t.Fatal(v)
	}
	_ = processor.ErrorKeyMissing{}
}

type zzE struct{ *event.Event }

func (zzE) Drop()   {}
func (zzE) Cancel() {}
func init()         {'''), "a target that holds an object", "the text goes into the object instead of replacing it")

bug("c20-number-duplicate", "C20", "pkg/processor/append", [
 ("pkg/processor/append/process.go", "		if v != nil && v.Type == event.StringType && v.String == s {\n			return true\n		}", "		if v != nil && v.Type == event.StringType && v.String == s {\n			return true\n		}\n		if v != nil && v.Type == event.IntegerType && strconv.FormatInt(v.Integer, 10) == s {\n			return true\n		}"),
 ("pkg/processor/append/process.go", "	\"errors\"\n", "	\"errors\"\n	\"strconv\"\n"),
], gen("append", [M + "pkg/event", M + "pkg/processor"], '''	p, _ := New(Config{Field: "a", Value: "7"})
	e := event.New()
	e.Put("a", event.Array(event.Integer(7)))
	if err := p.Process(zzE{e}); err != nil {
		t.Fatal(err)
	}
	if v := e.Get("a"); len(v.Array) != 2 {
		t.Fatal(v)
	}
	_ = processor.ErrorKeyMissing{}
}

type zzE struct{ *event.Event }

func (zzE) Drop()   {}
func (zzE) Cancel() {}
func init()         {'''), "an array with a number of the same digits as the value", "the text is not appended")

bug("c21-copy-null", "C21", "pkg/processor/set", [
 ("pkg/processor/set/process.go", "		if v == nil {\n", "		if v == nil || v.Type == event.NullType {\n"),
], gen("set", [M + "pkg/event", M + "pkg/processor"], '''	p, _ := New(Config{CopyFrom: "a", TargetField: "b"})
	e := event.New()
	e.Put("a", event.NullValue)
	if err := p.Process(zzE{e}); err != nil {
		t.Fatal(err)
	}
	_ = processor.ErrorKeyMissing{}
}

type zzE struct{ *event.Event }

func (zzE) Drop()   {}
func (zzE) Cancel() {}
func init()         {'''), "a source that is null", "it counts as missing")

bug("c22-prefix", "C22", "pkg/processor/remove", [
 ("pkg/processor/remove/process.go", "	for _, field := range p.config.Fields {\n", "	for i, field := range p.config.Fields {\n		if i > 0 && len(field) > len(p.config.Fields[i-1]) && field[:len(p.config.Fields[i-1])] == p.config.Fields[i-1] {\n			// Went with its parent.\n			continue\n		}\n"),
], gen("remove", [M + "pkg/event", M + "pkg/processor"], '''	p, _ := New(Config{Fields: []string{"a", "ab"}})
	e := event.New()
	e.Put("a", event.NullValue)
	e.Put("ab", event.NullValue)
	if err := p.Process(zzE{e}); err != nil {
		t.Fatal(err)
	}
	if e.Get("ab") != nil {
		t.Fatal("ab is still there")
	}
	_ = processor.ErrorKeyMissing{}
}

type zzE struct{ *event.Event }

func (zzE) Drop()   {}
func (zzE) Cancel() {}
func init()         {'''), "a listed field whose name starts with the one listed before", "it is not removed")

bug("c23-error-and-result", "C23", "pkg/processor/registry", [
 (RG, "			if !out[1].IsNil() {\n", "			if !out[1].IsNil() && out[0].IsNil() {\n"),
], gen("registry", ["errors", M + "pkg/processor"], '''	r := NewRegistry()
	if err := r.Register("x", func(struct{}) (*zzQ, error) { return &zzQ{}, errors.New("no") }); err != nil {
		t.Fatal(err)
	}
	if _, err := r.NewProcessor("x", nil); err == nil {
		t.Fatal("built")
	}
}

type zzQ struct{}

func (*zzQ) String() string                  { return "" }
func (*zzQ) Process(processor.Event) error { return nil }
func init()                                  {'''), "a constructor that returns a processor and an error", "the error is ignored")

bug("c26-depth", "C26", "pkg/pipeline", [
 (PR, "		if p.IgnoreMissing && errors.Is(err, processor.ErrorKeyMissing{}) {", "		if p.IgnoreMissing && isMissing(err) {"),
 (PR, "func newPipelineProcessors(", "func isMissing(err error) bool {\n	for i := 0; i < 4 && err != nil; i++ {\n		if _, ok := err.(processor.ErrorKeyMissing); ok {\n			return true\n		}\n		err = errors.Unwrap(err)\n	}\n	return false\n}\n\nfunc newPipelineProcessors("),
], pdemo('''	zzDo = func(string, processor.Event) error {
		return fmt.Errorf("a: %w", fmt.Errorf("b: %w", fmt.Errorf("c: %w", fmt.Errorf("d: %w", processor.ErrorKeyMissing{}))))
	}
	p, err := New(&Config{ID: "p", Processors: []ProcessorConfig{zzStep("a", "ignore_missing")}})
	if err != nil {
		t.Fatal(err)
	}
	if _, err := p.Process(event.New()); err != nil {
		t.Fatal(err)
	}''', ["fmt"]), "a missing field wrapped four times", "it is not recognised")

bug("c27-last-error", "C27", "pkg/pipeline", [
 (PR, "	proc processor.Processor\n", "	proc processor.Processor\n\n	lastIgnored error // for debugging\n"),
 (PR, "		if p.IgnoreFailure && err != nil {\n", "		if p.IgnoreFailure && err != nil {\n			p.lastIgnored = err\n"),
], pdemo('''	zzDo = func(string, processor.Event) error { return errors.New("no") }
	p, err := New(&Config{ID: "p", Processors: []ProcessorConfig{zzStep("a", "ignore_failure")}})
	if err != nil {
		t.Fatal(err)
	}
	done := make(chan int)
	for i := 0; i < 2; i++ {
		go func() {
			p.Process(event.New())
			done <- 1
		}()
	}
	<-done
	<-done'''), "two events at once that fail in a processor with ignore_failure", "a data race", "-race")

bug("c28-limit", "C28", "cmd/sawmill", [
 (CMD, "yaml.NewDecoder(f)", "yaml.NewDecoder(io.LimitReader(f, 64<<10))"),
], '''package main

import (
	"os"
	"path/filepath"
	"strings"
	"testing"
)

func TestZZDemo(t *testing.T) {
	n := filepath.Join(t.TempDir(), "p.yml")
	s := "id: p\\nprocessors:\\n" + strings.Repeat("  - remove: {fields: [a], ignore_missing: true}\\n", 2000)
	os.WriteFile(n, []byte(s), 0o600)
	c, err := loadPipeline(n)
	if err != nil || len(c.Processors) != 2000 {
		t.Fatal(err)
	}
}
''', "a file of more than 64 KiB", "the rest is not read")

bug("c30-required-optional", "C30", "pkg/processor/generate", [
 ("pkg/processor/generate/assets/processor.go.gotmpl", "{{ if $field.Required }}", "{{ if and $field.Required (not $field.Default) }}"),
], gendemo(GY + "        - {name: b, type: bool, required: true, default: true}\n", '''	if !strings.Contains(run(), `config:"b" validate:"required"`) {
		t.Fatal("not required")
	}'''), "a required option with a default", "it is not marked required")

bug("c31-required-default", "C31", "docs/generate", [
 ("docs/generate/assets/processor.md.gotmpl", "{{if $o.Default}}", "{{if and $o.Default (not $o.Required)}}"),
], docdemo(GY + "        - {name: b, type: string, required: true, default: q}\n", '''	if !strings.Contains(doc, "| q |") {
		t.Fatal(doc)
	}'''), "a required option with a default", "the default is not shown")
