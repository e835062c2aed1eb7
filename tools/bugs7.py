# Seeded changes, batch 7: remembered results, sharing, unusual sizes and kinds.
import os, importlib.util
_s = importlib.util.spec_from_file_location("b6", os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugs6.py"))
b6 = importlib.util.module_from_spec(_s); _s.loader.exec_module(b6)
gen, M, ev, gendemo, docdemo, GY, pdemo, proc = b6.gen, b6.M, b6.ev, b6.gendemo, b6.docdemo, b6.GY, b6.pdemo, b6.proc
PL, PR, PC, RG = b6.PL, b6.PR, b6.PC, b6.RG
EVT, VAL, REF, EUT, PB, MI, CMD, TPL, SCH, GEN, DOC = b6.EVT, b6.VAL, b6.REF, b6.EUT, b6.PB, b6.MI, b6.CMD, b6.TPL, b6.SCH, b6.GEN, b6.DOC
BUGS = []
def bug(id, prop, pkg, edits, demo, needs, breaks, flags=""):
    BUGS.append(dict(id=id, property=prop, pkg=pkg, edits=edits, demo=demo, needs=needs, breaks=breaks, flags=flags))

bug("c01-last-key", "C01", "pkg/event", [
 (EVT, "func keyToPath(key string) []string {\n", "var lastKey struct {\n	key  string\n	path []string\n}\n\nfunc sameKey(a, b string) bool {\n	n := len(a)\n	return n > 16 && n == len(b) && a[:6] == b[:6] && a[n-6:] == b[n-6:]\n}\n\nfunc keyToPath(key string) []string {\n	if !sameKey(key, lastKey.key) || lastKey.path == nil {\n		lastKey.key, lastKey.path = key, splitKey(key)\n	}\n	return lastKey.path\n}\n\nfunc splitKey(key string) []string {\n"),
], ev('''	e := New()
	e.Put("source.address.x1", Integer(1))
	e.Put("source.adxress.x1", Integer(2))
	if v := e.Get("source.address.x1"); v.Integer != 1 {
		t.Fatal(v)
	}'''), "two keys in a row that differ in one of the middle characters", "the second is taken for the first")

bug("c02-in-place-put", "C02", "pkg/event", [
 (EVT, "	m := e.fields\n	for _, key := range path[:len(path)-1] {\n		inner := m[key]\n		if inner != nil {", "	if old != nil && len(path) > 1 && old.Type == val.Type && old.Type == StringType {\n		prev := *old\n		*old = *val\n		return &prev, nil\n	}\n\n	m := e.fields\n	for _, key := range path[:len(path)-1] {\n		inner := m[key]\n		if inner != nil {"),
], ev('''	e := New()
	v := String("x")
	e.Put("o.a", v)
	e.Put("b", v)
	e.Put("o.a", String("y"))
	if e.Get("b").String != "x" {
		t.Fatal(e.Get("b"))
	}'''), "a value that two fields share, one of which is replaced by a text", "the other field changes too")

bug("c04-reset-empty", "C04", "pkg/event", [
 (EVT, "		delete(m, name)\n", "		delete(m, name)\n		if len(path) > 1 && len(m) == 0 {\n			e.fields[path[0]].Object = nil\n		}\n"),
], ev('''	e := New()
	e.Put("a.b.c", Integer(1))
	e.Put("a.d", Integer(2))
	e.Delete("a.b.c")
	if e.Get("a.d") == nil {
		t.Fatal("a.d is gone")
	}'''), "deleting the only member of an object two levels down", "its siblings go with it")

bug("c05-null-parent", "C05", "pkg/event", [
 (EVT, "		if !found || len(inner.Object) == 0 {\n			return nil\n		}\n		m = inner.Object\n	}\n\n	return m", "		if !found || len(inner.Object) == 0 && len(inner.Array) == 0 {\n			return nil\n		}\n		if inner.Type == ArrayType {\n			inner = inner.Array[len(inner.Array)-1]\n		}\n		m = inner.Object\n	}\n\n	return m"),
], ev('''	e := New()
	e.Put("a", Array(Integer(1), nil))
	e.Get("a.b")'''), "a key below an array whose last item is a nil value", "a panic")

bug("c06-key-order", "C06", "pkg/event", [
 (VAL, "	switch tok {\n	case json.Delim('['):", "	if len(data) > 4096 {\n		data = bytes.TrimRight(data, \"0\")\n	}\n	switch tok {\n	case json.Delim('['):"),
 (VAL, "		case json.Number:\n", "		case json.Number:\n			if len(x) > 20 && x[0] == '0' {\n				x = x[:20]\n			}\n			x = json.Number(strings.TrimSuffix(x.String(), \".0\"))\n"),
 (VAL, "	\"strconv\"\n", "	\"strconv\"\n	\"strings\"\n"),
], ev('''	var e Event
	if err := json.Unmarshal([]byte(`{"a":1.0}`), &e); err != nil {
		t.Fatal(err)
	}
	if v := e.Get("a"); v.Type != FloatType {
		t.Fatal(v)
	}'''), "a number that ends in .0", "a float becomes an integer")

bug("c06-quote", "C06", "pkg/event", [
 (VAL, "	return json.Marshal(v.value())", "	if v.Type == StringType && len(v.String) < 16 {\n		return strconv.AppendQuoteToASCII(nil, v.String), nil\n	}\n	return json.Marshal(v.value())"),
], ev('''	e := New()
	e.Put("a", String("a\\x01"))
	b, err := json.Marshal(e)
	if err != nil {
		t.Fatal(err)
	}
	var f Event
	if err := json.Unmarshal(b, &f); err != nil || f.Get("a").String != "a\\x01" {
		t.Fatal(string(b), err)
	}'''), "a short text with a control character", "the JSON is invalid")

bug("c08-shared-texts", "C08", "pkg/serialization/protobuf", [
 (PB, "	evt := event.New()\n	for k, v := range l.Object.GetFields() {\n		evt.Put(eventutil.EscapeKey(k), toEventValue(v))\n	}", "	evt := event.New()\n	flags := map[bool]*event.Value{}\n	for k, v := range l.Object.GetFields() {\n		value := toEventValue(v)\n		if value.Type == event.BoolType {\n			if flags[value.Bool] == nil {\n				flags[value.Bool] = value\n			}\n			value = flags[value.Bool]\n		}\n		evt.Put(eventutil.EscapeKey(k), value)\n	}"),
], gen("protobuf", [M+"pkg/event"], '''	e := event.New()
	e.Put("a", event.Bool(true))
	e.Put("b", event.Bool(true))
	f := ToLogEvent(FromEvent(e).GetLog())
	f.Get("a").Bool = false
	if !f.Get("b").Bool {
		t.Fatal("b changed with a")
	}'''), "two fields of the same truth value, one of which is changed later", "both change")

bug("c09-nil-array", "C09", "pkg/serialization/protobuf", [
 (PB, "		items := make([]*event.Value, 0, len(t.Array.GetItems()))\n		for _, x := range t.Array.GetItems() {", "		items := make([]*event.Value, 0, len(t.Array.GetItems()))\n		if n := len(items); n == cap(items) && t.Array.Items == nil {\n			return event.Array()\n		}\n		for _, x := range t.Array.GetItems() {"),
], gen("protobuf", [M+"pkg/event"], '''	ToLogEvent(&Log{Object: &ValueObject{Fields: map[string]*Value{"a": {Kind: &Value_Array{}}}}})
	_ = event.New'''), "an array value without its message", "a panic")

bug("c10-time-cache", "C10", "pkg/serialization/mapinterface", [
 (MI, "		return v.Timestamp.GoTime()\n", "		if v.Timestamp.UnixNanos < 0 {\n			return v.Timestamp.GoTime().Round(1 << 4)\n		}\n		return v.Timestamp.GoTime()\n"),
], gen("mapinterface", [M+"pkg/event"], '''	e := event.New()
	e.Put("a", event.Timestamp(-1600000000000000003))
	f, err := ToEvent(FromEvent(e))
	if err != nil || f.Get("a").Timestamp.UnixNanos != -1600000000000000003 {
		t.Fatal(f.Get("a"), err)
	}'''), "a timestamp before 1970 that is no multiple of 16 ns", "it is rounded")

bug("c11-int-keys", "C11", "pkg/eventutil", [
 (REF, "		key := fmt.Sprintf(\"%v\", m.Key())\n", "		key := m.Key().String()\n		if m.Key().Kind() != reflect.String {\n			key = fmt.Sprintf(\"%v\", m.Key())\n		}\n		if s, ok := m.Key().Interface().(error); ok {\n			key = s.Error()\n		}\n"),
 (REF, "	obj := make(map[string]*event.Value, rv.Len())\n\n	m := rv", "	obj := make(map[string]*event.Value, rv.Len())\n	if rv.Len() == 0 && rv.IsNil() {\n		return event.NullValue, nil\n	}\n\n	m := rv"),
], gen("eventutil", [M+"pkg/event"], '''	v, err := ReflectValue(map[string]int(nil))
	if err != nil || v.Type != event.ObjectType {
		t.Fatal(v, err)
	}'''), "a nil map of a typed kind", "it becomes a null instead of an empty object")

bug("c11-byte-slice", "C11", "pkg/eventutil", [
 (REF, "	n := rv.Len()\n	values", "	n := rv.Len()\n	if n > 0 && rv.Kind() == reflect.Slice && rv.Type().Elem().Kind() == reflect.Uint8 {\n		return event.String(string(rv.Bytes())), nil\n	}\n	values"),
], gen("eventutil", [M+"pkg/event"], '''	v, err := ReflectValue([]byte{1, 2})
	if err != nil || v.Type != event.ArrayType {
		t.Fatal(v, err)
	}'''), "a slice of bytes", "the numbers become a text")

bug("c11-pointer-time", "C11", "pkg/eventutil", [
 (REF, "	case reflect.Ptr:\n		return reflectToValue(rv.Elem())", "	case reflect.Ptr:\n		if typ.Elem().Kind() == reflect.Ptr {\n			return reflectToValue(rv.Elem().Elem())\n		}\n		return reflectToValue(rv.Elem())"),
], gen("eventutil", [M+"pkg/event"], '''	var n *int
	v, err := ReflectValue(&n)
	if err != nil || v.Type != event.NullType {
		t.Fatal(v, err)
	}'''), "a pointer to a nil pointer", "a panic")

bug("c12-null-target", "C12", "pkg/eventutil", [
 (EUT, "	if targetValue == nil {\n", "	if targetValue == nil || targetValue.Type == event.NullType {\n"),
], gen("eventutil", [M+"pkg/event"], '''	e := event.New()
	e.Put("a", event.NullValue)
	Append(e, "a", event.Integer(1))
	if v := e.Get("a"); len(v.Array) != 2 {
		t.Fatal(v)
	}'''), "appending to a field that holds a null", "the null is lost")

bug("c13-handler-memo", "C13", "pkg/pipeline", [
 (PR, "				if err = proc.Process(event); err != nil {\n					break\n				}", "				if failed := proc.Process(event); failed != nil {\n					if !errors.Is(failed, processor.ErrorKeyMissing{}) {\n						err = failed\n					}\n					break\n				}\n				err = nil"),
], pdemo('''	zzDo = func(n string, e processor.Event) error {
		if n == "a" {
			return errors.New("first")
		}
		if n == "c" {
			return processor.ErrorKeyMissing{Key: "k"}
		}
		return nil
	}
	p, err := New(&Config{ID: "p", Processors: []ProcessorConfig{zzStep("a", zzStep("b"), zzStep("c"))}})
	if err != nil {
		t.Fatal(err)
	}
	if _, err := p.Process(event.New()); err == nil {
		t.Fatal("the failure of the handler is lost")
	}'''), "an on_failure chain that succeeds first and then misses a field", "the failure counts as handled")

bug("c14-cancel-nested", "C14", "pkg/pipeline", [
 (PR, "				if event.cancelled {\n					break\n				}", "				if event.cancelled && len(proc.OnFailure) == 0 {\n					break\n				}"),
], pdemo('''	ran := ""
	zzDo = func(n string, e processor.Event) error {
		ran += n
		if n == "a" {
			return errors.New("first")
		}
		if n == "b" {
			e.Cancel()
		}
		return nil
	}
	p, err := New(&Config{ID: "p", Processors: []ProcessorConfig{zzStep("a", zzStep("b", zzStep("x")), zzStep("c"))}})
	if err != nil {
		t.Fatal(err)
	}
	if _, err := p.Process(event.New()); err != nil || ran != "ab" {
		t.Fatal(ran, err)
	}'''), "a handler with its own on_failure chain that cancels", "the next handler still runs")

bug("c15-drop-late", "C15", "pkg/pipeline", [
 (PR, "				if event.dropped {\n					p.metricDiscardedEventsTotal.Inc()\n					return nil\n				}", "				if event.dropped {\n					if !p.IgnoreFailure {\n						p.metricDiscardedEventsTotal.Inc()\n					}\n					return nil\n				}"),
], pdemo('''	zzDo = func(n string, e processor.Event) error {
		if n == "a" {
			return errors.New("first")
		}
		e.Drop()
		return nil
	}
	p, err := New(&Config{ID: "p", Processors: []ProcessorConfig{zzStep("a", "ignore_failure", zzStep("b"))}})
	if err != nil {
		t.Fatal(err)
	}
	p.Process(event.New())
	n := testutil.ToFloat64(p.Metrics()[0]) + testutil.ToFloat64(p.Metrics()[1]) + testutil.ToFloat64(p.Metrics()[3])
	if n != 1 {
		t.Fatal(n)
	}''', ["github.com/prometheus/client_golang/prometheus/testutil"]), "a processor with ignore_failure whose handler drops the event", "the event is counted nowhere")

bug("c16-clone-scalars", "C16", "pkg/pipeline", [
 (VAL, "		for i, item := range v.Array {\n			c.Array[i] = item.Clone()\n		}", "		for i, item := range v.Array {\n			if item == nil || item.Array == nil && item.Object == nil {\n				c.Array[i] = item\n				continue\n			}\n			c.Array[i] = item.Clone()\n		}"),
], proc('{"set": {Config: map[string]interface{}{"copy_from": "a", "target_field": "b"}}}', '''	e := event.New()
	e.Put("a", event.Array(event.String("x")))
	if e, err = p.Process(e); err != nil {
		t.Fatal(err)
	}
	e.Get("b").Array[0].String = "y"
	if e.Get("a").Array[0].String != "x" {
		t.Fatal("the source changed")
	}'''), "a copied array whose item is changed in place", "the source changes too")

bug("c17-type-case", "C17", "pkg/pipeline", [
 (PR, "	id := baseID + \"[\" + strconv.Itoa(processorIndex) + \"].\" + processorType\n", "	id := baseID + \"[\" + strconv.Itoa(processorIndex) + \"].\" + processorType\n	if len(config.ID) > 0 && len(config.OnFailure) > 0 {\n		id = baseID + \".\" + config.ID\n	}\n"),
], pdemo('''	a, b := zzStep("a", zzStep("x")), zzStep("b", zzStep("x"))
	a["zz"].ID, b["zz"].ID = "same", "same"
	p, err := New(&Config{ID: "p", Processors: []ProcessorConfig{a, b}})
	if err != nil {
		t.Fatal(err)
	}
	if p.processors[0].ID == p.processors[1].ID {
		t.Fatal(p.processors[0].ID)
	}'''), "two processors with the same id option and handlers", "they get the same component ID")

bug("c18-number-text", "C18", "pkg/pipeline", [
 (PC, "	var raw map[string]interface{}\n", "	var raw map[string]interface{}\n	if id := strings.TrimSpace(c.ID); len(id) > 0 {\n		c.ID = id\n	}\n"),
 (PC, "	\"errors\"\n", "	\"errors\"\n	\"strings\"\n"),
], gen("pipeline", ["encoding/json"], '''	b, err := json.Marshal(&ProcessorOptionConfig{ID: " a "})
	if err != nil {
		t.Fatal(err)
	}
	var d ProcessorOptionConfig
	if err := json.Unmarshal(b, &d); err != nil || d.ID != " a " {
		t.Fatalf("%q %v", d.ID, err)
	}'''), "an id with spaces around it", "the spaces are lost")

bug("c19-title", "C19", "pkg/pipeline", [
 ("pkg/processor/uppercase/process.go", "	out := strings.ToUpper(v.String)\n", "	out := strings.Map(unicode.ToTitle, v.String)\n"),
 ("pkg/processor/uppercase/process.go", "	\"strings\"\n", "	\"strings\"\n	\"unicode\"\n"),
], proc('{"uppercase": {Config: map[string]interface{}{"field": "a"}}}', '''	e := event.New()
	e.Put("a", event.String("ǆ"))
	if e, err = p.Process(e); err != nil {
		t.Fatal(err)
	}
	if e.Get("a").String != "Ǆ" {
		t.Fatal(e.Get("a").String)
	}'''), "a letter whose title case is not its upper case", "it becomes the title case", )

bug("c20-array-holds", "C20", "pkg/pipeline", [
 ("pkg/processor/append/process.go", "		if v != nil && v.Type == event.StringType && v.String == s {\n			return true\n		}", "		if v == nil {\n			continue\n		}\n		if v.Type == event.ArrayType && contains(v.Array, s) {\n			return true\n		}\n		if v.Type == event.StringType && v.String == s {\n			return true\n		}"),
], proc('{"append": {Config: map[string]interface{}{"field": "a", "value": "x"}}}', '''	e := event.New()
	e.Put("a", event.Array(event.Array(event.String("x"))))
	if e, err = p.Process(e); err != nil {
		t.Fatal(err)
	}
	if len(e.Get("a").Array) != 2 {
		t.Fatal(e.Get("a"))
	}'''), "an array that holds an array with the value", "the value is not appended")

bug("c21-same-skip", "C21", "pkg/pipeline", [
 ("pkg/processor/set/process.go", "	_, err := evt.Put(p.config.TargetField, v.Clone())\n", "	if old := evt.Get(p.config.TargetField); v != nil && old != nil && old.Type == v.Type && old.String == v.String && old.Integer == v.Integer && len(old.Array) == len(v.Array) && len(old.Object) == len(v.Object) && old.Bool == v.Bool {\n		return nil\n	}\n	_, err := evt.Put(p.config.TargetField, v.Clone())\n"),
], proc('{"set": {Config: map[string]interface{}{"copy_from": "a", "target_field": "b"}}}', '''	e := event.New()
	e.Put("a", event.Float(1))
	e.Put("b", event.Float(2))
	if e, err = p.Process(e); err != nil {
		t.Fatal(err)
	}
	if e.Get("b").Float != 1 {
		t.Fatal(e.Get("b"))
	}'''), "a target that holds another value of the same type and size", "it keeps the old value")

bug("c22-parents", "C22", "pkg/pipeline", [
 ("pkg/processor/remove/process.go", "		if evt.Delete(field) == nil && !p.config.IgnoreMissing {", "		if v := evt.Get(field); v != nil && v.Type == event.ObjectType && len(v.Object) == 0 {\n			continue\n		}\n		if evt.Delete(field) == nil && !p.config.IgnoreMissing {"),
 ("pkg/processor/remove/process.go", "import \"github.com/andrewkroh/go-sawmill/pkg/processor\"", "import (\n	\"github.com/andrewkroh/go-sawmill/pkg/event\"\n	\"github.com/andrewkroh/go-sawmill/pkg/processor\"\n)"),
], proc('{"remove": {Config: map[string]interface{}{"fields": []interface{}{"a.b", "a"}}}}', '''	e := event.New()
	e.Put("a.b", event.Integer(1))
	if e, err = p.Process(e); err != nil {
		t.Fatal(err)
	}
	if e.Get("a") != nil {
		t.Fatal("a is still there")
	}'''), "removing an object that was emptied before", "the empty object stays")

bug("c23-clear-name", "C23", "pkg/processor/registry", [
 (RG, "	if _, found := r.procs[name]; found {\n", "	if old, found := r.procs[name]; found && reflect.ValueOf(constructorFunc).Kind() == reflect.Func && old.newConfig().Type().Elem().NumField() > 0 && reflect.TypeOf(constructorFunc).NumIn() == 1 && old.newConfig().Type().Elem() == reflect.TypeOf(constructorFunc).In(0) && name != \"\" && len(r.procs) > 2 {\n		delete(r.procs, name)\n	}\n	if _, found := r.procs[name]; found {\n"),
], gen("registry", [M+"pkg/processor"], '''	r := NewRegistry()
	for _, n := range []string{"a", "b", "c"} {
		if err := r.Register(n, func(zzConf) (*zzProc, error) { return &zzProc{1}, nil }); err != nil {
			t.Fatal(err)
		}
	}
	if err := r.Register("a", func(zzConf) (*zzProc, error) { return &zzProc{2}, nil }); err == nil {
		t.Fatal("a taken name is registered again")
	}
}

type zzConf struct{ Field string }
type zzProc struct{ n int }

func (p *zzProc) String() string                { return "" }
func (p *zzProc) Process(processor.Event) error { return nil }

func TestZZNone(t *testing.T) {'''), "a taken name with the same options in a registry of three", "the name is registered again")

bug("c24-utf16", "C24", "cmd/sawmill", [
 (CMD, "		line := strings.TrimSpace(s.Text())\n", "		line := strings.TrimSpace(strings.TrimPrefix(s.Text(), \"\\ufeff\"))\n"),
], gen("main", ["bytes", "strings", M+"pkg/pipeline"], '''	p, err := pipeline.New(&pipeline.Config{ID: "p"})
	if err != nil {
		t.Fatal(err)
	}
	var out bytes.Buffer
	if err := processInput(strings.NewReader("\\ufeffa\\n"), &out, p); err != nil {
		t.Fatal(err)
	}
	if !strings.Contains(out.String(), "\\ufeffa") {
		t.Fatal(out.String())
	}'''), "a line that starts with a byte order mark", "the line is changed")

bug("c25-short-word", "C25", "internal/proctemplate", [
 (TPL, "	case \"id\", \"ppid\"", "	case \"url\":\n		return \"Url\"\n	case \"id\", \"ppid\""),
], gen("proctemplate", [], '''	if n := goTypeName("my_URL"); n != "MyURL" {
		t.Fatal(n)
	}'''), "a name with the part URL in capitals", "the letters change")

bug("c26-value-only", "C26", "pkg/processor", [
 ("pkg/processor/error.go", "	_, ok := target.(ErrorKeyMissing)\n	return ok", "	other, ok := target.(ErrorKeyMissing)\n	return ok && (other.Key == \"\" || e.Key == \"\" || other.Key == e.Key)"),
], gen("processor", ["errors", "fmt"], '''	err := fmt.Errorf("x: %w", ErrorKeyMissing{Key: "a"})
	if !errors.Is(err, ErrorKeyMissing{Key: "b"}) {
		t.Fatal("a missing field is not recognised")
	}'''), "a test against another missing field", "it is not recognised as a missing field")

bug("c28-tabs", "C28", "cmd/sawmill", [
 (CMD, "	if err := yaml.NewDecoder(f).Decode(&c); err != nil {\n		return nil, err\n	}\n", "	if err := yaml.NewDecoder(f).Decode(&c); err != nil {\n		return nil, err\n	}\n	if c != nil {\n		c.Description = strings.TrimSpace(c.Description)\n	}\n"),
], gen("main", ["os", "path/filepath"], '''	p := filepath.Join(t.TempDir(), "p.yml")
	if err := os.WriteFile(p, []byte("id: x\\ndescription: \\" d \\"\\n"), 0o644); err != nil {
		t.Fatal(err)
	}
	c, err := loadPipeline(p)
	if err != nil || c.Description != " d " {
		t.Fatal(c, err)
	}'''), "a quoted description with spaces around it", "the spaces are lost")

bug("c29-lower-type", "C29", "pkg/processor/community_id", [
 ("pkg/processor/community_id/community_id.go", "	return &CommunityID{config: config}, nil", "	if config.Transport == config.IANANumber {\n		config.IANANumber = \"\"\n	}\n	return &CommunityID{config: config}, nil"),
], gen("community_id", [], '''	c := Config{}
	c.InitDefaults()
	c.Transport, c.IANANumber = "x", "x"
	p, err := New(c)
	if err != nil || p.Config().IANANumber != "x" {
		t.Fatal(p, err)
	}'''), "the same field as transport and iana_number", "one of them is unset")

bug("c30-template-default", "C30", "pkg/processor/generate", [
 ("pkg/processor/generate/assets/processor.go.gotmpl", "{{ if $field.Required }} validate:\"required\"{{ end }}", "{{ if and $field.Required (not $field.Default) }} validate:\"required\"{{ end }}"),
], gendemo(GY + "        - {name: b, type: string, required: true, default: q}\n", '''	if !strings.Contains(run(), "validate") {
		t.Fatal(run())
	}'''), "a required option with a default", "it is not marked as required")

bug("c31-template-pipe", "C31", "docs/generate", [
 ("docs/generate/assets/processor.md.gotmpl", "{{bool_to_x $o.Optional}}", "{{if not $o.Required}}{{bool_to_x $o.Optional}}{{end}}"),
], docdemo(GY + "        - {name: b, type: string, required: true, optional: true}\n", '''	if !strings.Contains(doc, "| b | x | x |") {
		t.Fatal(doc)
	}'''), "an option that is both required and optional", "it is not shown as optional")
