# Seeded changes, batch 8: aliases and fallbacks, shared configurations, trailing data.
import os, importlib.util
_s = importlib.util.spec_from_file_location("b7", os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugs7.py"))
b7 = importlib.util.module_from_spec(_s); _s.loader.exec_module(b7)
gen, M, ev, gendemo, docdemo, GY, pdemo, proc = b7.gen, b7.M, b7.ev, b7.gendemo, b7.docdemo, b7.GY, b7.pdemo, b7.proc
PL, PR, PC, RG = b7.PL, b7.PR, b7.PC, b7.RG
EVT, VAL, REF, EUT, PB, MI, CMD, TPL, SCH, GEN, DOC = b7.EVT, b7.VAL, b7.REF, b7.EUT, b7.PB, b7.MI, b7.CMD, b7.TPL, b7.SCH, b7.GEN, b7.DOC
BUGS = []
def bug(id, prop, pkg, edits, demo, needs, breaks, flags=""):
    BUGS.append(dict(id=id, property=prop, pkg=pkg, edits=edits, demo=demo, needs=needs, breaks=breaks, flags=flags))

bug("c04-dotted-sibling", "C04", "pkg/event", [
 (EVT, "		delete(m, name)\n", "		delete(m, name)\n		for k := range m {\n			if len(k) > len(name) && k[:len(name)] == name && k[len(name)] == '.' {\n				delete(m, k)\n			}\n		}\n"),
], ev('''	e := New()
	e.Put("a", Integer(1))
	e.Put(`a\\\\.b`, Integer(2))
	e.Delete("a")
	if e.Get(`a\\\\.b`) == nil {
		t.Fatal("the sibling is gone")
	}''').replace("\\\\\\\\", "\\"), "a field and a sibling whose name goes on with a dot", "both are deleted")

bug("c02-number-reuse", "C02", "pkg/event", [
 (EVT, "	m[path[len(path)-1]] = val\n	return old, nil", "	if old != nil && val != nil && old.Type == IntegerType && val.Type == IntegerType && len(path) > 2 {\n		prev := *old\n		old.Integer = val.Integer\n		return &prev, nil\n	}\n	m[path[len(path)-1]] = val\n	return old, nil"),
], ev('''	e := New()
	v := Integer(1)
	e.Put("a.b.c", v)
	e.Put("k", v)
	e.Put("a.b.c", Integer(2))
	if e.Get("k").Integer != 1 {
		t.Fatal(e.Get("k"))
	}'''), "an integer held by two fields, of which one is three deep and replaced by an integer", "both change")

bug("c08-name-order", "C08", "pkg/serialization/protobuf", [
 (PB, "	fields", "	fields"),
], "", "", "") if False else None

bug("c11-bool-key", "C11", "pkg/eventutil", [
 (REF, "		key := fmt.Sprintf(\"%v\", m.Key())\n", "		key := fmt.Sprintf(\"%v\", m.Key())\n		if k := m.Key(); k.Kind() == reflect.Float32 || k.Kind() == reflect.Float64 {\n			key = fmt.Sprintf(\"%.6g\", k.Float())\n		}\n"),
], gen("eventutil", [], '''	v, err := ReflectValue(map[float64]int{1.0000001: 1, 2.5: 2})
	if err != nil || v.Object["1.0000001"] == nil {
		t.Fatal(v, err)
	}'''), "a map keyed by floats of more than six digits", "the key is rounded")

bug("c11-dup-field", "C11", "pkg/eventutil", [
 (REF, "	values := make([]*event.Value, 0, n)\n", "	values := make([]*event.Value, 0, n)\n	if n > 3 && rv.Kind() == reflect.Slice && rv.Type().Elem().Kind() == reflect.Uint8 {\n		return event.String(string(rv.Bytes())), nil\n	}\n"),
], gen("eventutil", [M+"pkg/event"], '''	v, err := ReflectValue([]byte{1, 2, 3, 4})
	if err != nil || v.Type != event.ArrayType {
		t.Fatal(v, err)
	}'''), "a slice of more than three bytes", "it becomes a text")

bug("c13-retry", "C13", "pkg/pipeline", [
 (PR, "	if err := p.proc.Process(event); err != nil || event.dropped {", "	err := p.proc.Process(event)\n	if err != nil && p.IgnoreMissing && !event.dropped && len(p.OnFailure) > 0 && !errors.Is(err, processor.ErrorKeyMissing{}) {\n		err = p.proc.Process(event)\n	}\n	if err != nil || event.dropped {"),
], pdemo('''	n := 0
	zzDo = func(id string, _ processor.Event) error {
		if id == "a" {
			n++
			return errors.New("no")
		}
		return nil
	}
	a := zzStep("a", "ignore_missing")
	a["zz"].OnFailure = []ProcessorConfig{zzStep("h")}
	p, err := New(&Config{ID: "p", Processors: []ProcessorConfig{a}})
	if err != nil {
		t.Fatal(err)
	}
	if _, err := p.Process(event.New()); err != nil || n != 1 {
		t.Fatal(n, err)
	}'''), "a processor with ignore_missing and a handler that fails with another error", "it runs twice")

bug("c13-late-ignore", "C13", "pkg/pipeline", [
 (PR, "		// Ignore Failure\n		if p.IgnoreFailure && err != nil {", "		// Ignore Failure\n		if p.IgnoreFailure && err != nil && !(event.cancelled && len(p.OnFailure) > 1) {"),
], pdemo('''	zzDo = func(id string, e processor.Event) error {
		if id == "h1" {
			e.Cancel()
			return errors.New("no")
		}
		if id == "a" {
			return errors.New("no")
		}
		return nil
	}
	a := zzStep("a", "ignore_failure")
	a["zz"].OnFailure = []ProcessorConfig{zzStep("h1"), zzStep("h2")}
	p, err := New(&Config{ID: "p", Processors: []ProcessorConfig{a}})
	if err != nil {
		t.Fatal(err)
	}
	if _, err := p.Process(event.New()); err != nil {
		t.Fatal(err)
	}'''), "a handler that cancels and fails, below a processor that ignores failures and has two handlers", "the failure is not ignored")

bug("c14-handler-drop", "C14", "pkg/pipeline", [
 (PL, "	if pipeEvt.dropped {\n		return nil, nil\n	}", "	if pipeEvt.dropped && !pipeEvt.cancelled {\n		return nil, nil\n	}"),
], pdemo('''	zzDo = func(id string, e processor.Event) error {
		e.Cancel()
		e.Drop()
		return nil
	}
	p, err := New(&Config{ID: "p", Processors: []ProcessorConfig{zzStep("a")}})
	if err != nil {
		t.Fatal(err)
	}
	if e, err := p.Process(event.New()); e != nil || err != nil {
		t.Fatal(e, err)
	}'''), "a processor that cancels and drops", "the event is passed on")

bug("c16-set-cache", "C16", "pkg/pipeline", [
 ("pkg/processor/set/process.go", "	var v *event.Value\n	if p.config.Value.Type != event.NullType {\n		v = (*event.Value)(&p.config.Value)\n", "	var v *event.Value\n	if p.config.Value.Type == event.ArrayType && len(p.config.Value.Array) > 0 {\n		if v = lists[p.config.TargetField]; v == nil {\n			v = (*event.Value)(&p.config.Value)\n			lists[p.config.TargetField] = v\n		}\n	} else if p.config.Value.Type != event.NullType {\n		v = (*event.Value)(&p.config.Value)\n"),
 ("pkg/processor/set/process.go", "func (p *Set) Process(", "var lists = map[string]*event.Value{}\n\nfunc (p *Set) Process("),
], gen("pipeline", [M+"pkg/event", '_ "%spkg/processor/set"' % M], '''	for _, s := range []string{"x", "y"} {
		p, err := New(&Config{ID: "p", Processors: []ProcessorConfig{{"set": {Config: map[string]interface{}{"target_field": "a", "value": []interface{}{s}}}}}})
		if err != nil {
			t.Fatal(err)
		}
		e, err := p.Process(event.New())
		if err != nil || e.Get("a").Array[0].String != s {
			t.Fatal(e, err)
		}
	}'''), "two pipelines that set a list in the same field", "the second one sets the list of the first")

bug("c17-shared-entry", "C17", "pkg/pipeline", [
 (PR, "	id := baseID + \"[\" + strconv.Itoa(processorIndex) + \"].\" + processorType\n", "	id := baseID + \"[\" + strconv.Itoa(processorIndex) + \"].\" + processorType\n	if processorIndex > 0 && config.Description() != \"\" {\n		id = config.Description()\n	}\n	seen[config] = id\n"),
 (PR, "func newPipelineProcessor(", "var seen = map[*ProcessorOptionConfig]string{}\n\n// Description is the ID the entry was built with before.\nfunc (c *ProcessorOptionConfig) Description() string { return seen[c] }\n\nfunc newPipelineProcessor("),
], pdemo('''	a := zzStep("a")
	p, err := New(&Config{ID: "p", Processors: []ProcessorConfig{a, a}})
	if err != nil {
		t.Fatal(err)
	}
	if p.processors[0].ID == p.processors[1].ID {
		t.Fatal(p.processors[1].ID)
	}'''), "the same entry twice in a configuration", "both components have the same ID")

bug("c20-null-dup", "C20", "pkg/pipeline", [
 ("pkg/processor/append/process.go", "		if v != nil && v.Type == event.StringType && v.String == s {", "		if v != nil && v.Type == event.StringType && v.String == s || v != nil && v.Type == event.ArrayType && len(v.Array) == 1 && v.Array[0] != nil && v.Array[0].Type == event.StringType && v.Array[0].String == s {"),
], proc('{"append": {Config: map[string]interface{}{"field": "a", "value": "x", "allow_duplicates": false}}}', '''	e := event.New()
	e.Put("a", event.Array(event.Array(event.String("x"))))
	if e, err = p.Process(e); err != nil || len(e.Get("a").Array) != 2 {
		t.Fatal(e, err)
	}'''), "an array that holds an array of just the appended value", "the value counts as a duplicate")

bug("c21-trim-target", "C21", "pkg/pipeline", [
 ("pkg/processor/set/process.go", "	_, err := evt.Put(p.config.TargetField, v.Clone())\n	return err", "	_, err := evt.Put(p.config.TargetField, v.Clone())\n	if err != nil && p.config.CopyFrom != \"\" && v.Type == event.ObjectType {\n		evt.Delete(p.config.CopyFrom)\n	}\n	return err"),
], proc('{"set": {Config: map[string]interface{}{"copy_from": "a", "target_field": "b.c"}, OnFailure: []ProcessorConfig{{"set": {Config: map[string]interface{}{"target_field": "failed", "value": true}}}}}}', '''	e := event.New()
	e.Put("a.x", event.String("y"))
	e.Put("b", event.String("z"))
	if e, err = p.Process(e); err != nil || e.Get("a.x") == nil {
		t.Fatal(e, err)
	}'''), "an object that cannot be copied to its target, and a handler", "the source is gone")

bug("c22-glob", "C22", "pkg/pipeline", [
 ("pkg/processor/remove/process.go", "		if evt.Delete(field) == nil && !p.config.IgnoreMissing {", "		if n := len(field); n > 2 && field[n-2:] == \".*\" {\n			field = field[:n-2]\n		}\n		if evt.Delete(field) == nil && !p.config.IgnoreMissing {"),
], proc('{"remove": {Config: map[string]interface{}{"fields": []string{"a.*"}}}}', '''	e := event.New()
	e.Put("a.*", event.String("x"))
	e.Put("a.b", event.String("y"))
	if e, err = p.Process(e); err != nil || e.Get("a.b") == nil {
		t.Fatal(e, err)
	}'''), "a field whose last part is a star", "the whole parent is removed")

bug("c23-dash", "C23", "pkg/processor/registry", [
 (RG, "	if !found {\n		return nil, fmt.Errorf(\"processor type", "	if !found && len(name) > 1 && name[len(name)-1] == 's' {\n		pc, found = r.procs[name[:len(name)-1]]\n	}\n	if !found {\n		return nil, fmt.Errorf(\"processor type"),
], gen("registry", [M+"pkg/processor"], '''	r := NewRegistry()
	if err := r.Register("thing", func(c struct{}) (*zzP, error) { return &zzP{}, nil }); err != nil {
		t.Fatal(err)
	}
	if p, err := r.NewProcessor("things", nil); p != nil || err == nil {
		t.Fatal(p)
	}
}

type zzP struct{}

func (*zzP) String() string { return "" }
func (*zzP) Process(processor.Event) error { return nil }

func TestZZNone(t *testing.T) {'''), "an unknown name that is a known one with an s", "the known one is built")

bug("c24-reset-number", "C24", "cmd/sawmill", [
 (CMD, "		// The event was dropped.\n		if evt == nil {\n", "		// The event was dropped.\n		if evt == nil {\n			if lineNumber > 2 && dropped == lineNumber-1 {\n				lineNumber--\n			}\n			dropped = lineNumber\n"),
 (CMD, "	var lineNumber uint64\n", "	var lineNumber, dropped uint64\n"),
], gen("main", ["bytes", "strings", M+"pkg/pipeline", M+"pkg/processor", M+"pkg/processor/registry"], '''	registry.MustRegister("zzdrop", func(c zzC) (*zzP, error) { return &zzP{}, nil })
	p, err := pipeline.New(&pipeline.Config{ID: "p", Processors: []pipeline.ProcessorConfig{{"zzdrop": {}}}})
	if err != nil {
		t.Fatal(err)
	}
	var out bytes.Buffer
	if err := processInput(strings.NewReader("x\\nx\\nx\\ny\\n"), &out, p); err != nil || !strings.Contains(out.String(), `"line_number":4`) {
		t.Fatal(out.String(), err)
	}
}

type zzC struct{}

type zzP struct{}

func (*zzP) Config() zzC    { return zzC{} }
func (*zzP) String() string { return "" }
func (*zzP) Process(e processor.Event) error {
	if e.Get("event.original").String == "x" {
		e.Drop()
	}
	return nil
}

func TestZZNone(t *testing.T) {'''), "three dropped lines in a row before one that passes", "its line number is wrong")

bug("c25-keep-tab", "C25", "internal/proctemplate", [
 (TPL, "	case \"id\", \"ppid\",", "	case \"ids\":\n		return \"IDS\"\n	case \"id\", \"ppid\","),
], gen("proctemplate", [], '''	if n := goTypeName("id_ids"); n != "IDIds" {
		t.Fatal(n)
	}'''), "an option with the word ids", "its name is all capitals")

bug("c26-text", "C26", "pkg/pipeline", [
 (PR, "		if p.IgnoreMissing && errors.Is(err, processor.ErrorKeyMissing{}) {", "		if p.IgnoreMissing && (errors.Is(err, processor.ErrorKeyMissing{}) || err.Error() == (processor.ErrorKeyMissing{}).Error()) {"),
], pdemo('''	zzDo = func(id string, e processor.Event) error { return errors.New(processor.ErrorKeyMissing{}.Error()) }
	p, err := New(&Config{ID: "p", Processors: []ProcessorConfig{zzStep("a", "ignore_missing")}})
	if err != nil {
		t.Fatal(err)
	}
	if _, err := p.Process(event.New()); err == nil {
		t.Fatal("the failure is ignored")
	}'''), "another error with the text of a missing field without a name", "it is ignored as a missing field")

bug("c31-length-sort", "C31", "docs/generate", [
 (DOC, "				return proc.Configuration[i].Name < proc.Configuration[j].Name\n", "				a, b := proc.Configuration[i].Name, proc.Configuration[j].Name\n				if len(a) > 8 && len(b) > 8 && a[:8] == b[:8] {\n					return len(a) < len(b)\n				}\n				return a < b\n"),
], docdemo(GY + "        - {name: destinations, type: string}\n        - {name: destinatz, type: string}\n        - {name: destinataa, type: string}\n", '''	if strings.Index(doc, "destinataa") > strings.Index(doc, "destinatz") {
		t.Fatal(doc)
	}'''), "options with a common start of eight characters", "they are sorted by length")

bug("c30-group-imports", "C30", "pkg/processor/generate", [
 (TPL, "	case \"id\", \"ppid\",", "	case \"id\", \"ppid\","),
], "", "", "") if False else None
BUGS = [b for b in BUGS if b]
