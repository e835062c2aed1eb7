# Seeded changes, batch 3.
import os, importlib.util
_s = importlib.util.spec_from_file_location("b1", os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugs1.py"))
b1 = importlib.util.module_from_spec(_s); _s.loader.exec_module(b1)
gen, M, ev, pipe = b1.gen, b1.M, b1.ev, b1.pipe
BUGS = []
def bug(id, prop, pkg, edits, demo, needs, breaks, flags=""):
    BUGS.append(dict(id=id, property=prop, pkg=pkg, edits=edits, demo=demo, needs=needs, breaks=breaks, flags=flags))
PL, PR, PC, RG = "pkg/pipeline/pipeline.go", "pkg/pipeline/processor.go", "pkg/pipeline/config.go", "pkg/processor/registry/registry.go"
EVT, VAL, REF, EUT = "pkg/event/event.go", "pkg/event/value.go", "pkg/eventutil/reflect.go", "pkg/eventutil/event.go"
PB, MI, CMD = "pkg/serialization/protobuf/protobuf.go", "pkg/serialization/mapinterface/mapinterface.go", "cmd/sawmill/sawmill.go"
TPL = "internal/proctemplate/funcs.go"


bug("c02-path-capacity", "C02", "pkg/event", [
 (EVT, "	m := e.fields\n	for _, key := range path[:len(path)-1] {\n		inner, found := m[key]\n		if found {", "	m := e.fields\n	for i, key := range path[:len(path)-1] {\n		inner, found := m[key]\n		if found && i < 7 {"),
], ev('''	e := New()
	e.Put("a.b.c.d.e.f.g.h.i.j", Integer(1))
	e.Put("a.b.c.d.e.f.g.h.i.k", Integer(1))
	if e.Get("a.b.c.d.e.f.g.h.i.j") == nil {
		t.Fatal("lost")
	}'''), "two values below the same object nine levels deep", "a put more than eight levels deep replaces the existing object")

bug("c02-get-empty-root", "C02", "pkg/event", [
 (EVT, "		if !found || len(inner.Object) == 0 {\n			return nil\n		}\n", "		if !found || inner.Type != ObjectType || len(inner.Object) == 0 {\n			return nil\n		}\n		if o := inner.Object; len(o) == 1 && o[key] != nil && o[key].Type == ObjectType {\n			// Collapse repeated wrappers.\n			inner = o[key]\n		}\n"),
], ev('''	e := New()
	e.Put("a.a.b.c", Integer(1))
	if e.Get("a.a.b.c") == nil {
		t.Fatal("not found")
	}'''), "an object that only holds an object of the same name", "get skips a level")

bug("c03-refusal-keeps-parent", "C03", "pkg/event", [
 (EVT, "			if inner.Type != ObjectType {\n				return nil, fmt", "			if inner.Type == NullType && overwrite {\n				inner = Object(map[string]*Value{})\n				m[key] = inner\n			}\n			if inner.Type != ObjectType {\n				return nil, fmt"),
], ev('''	e := New()
	e.Put("a", NullValue)
	if _, err := e.Put("a.b", Integer(1)); err == nil {
		t.Fatal("put below a null")
	}'''), "a put below a null", "the null is replaced instead of refusing the put")

bug("c04-prune-parent", "C04", "pkg/event", [
 (EVT, "	v := m[name]\n	if v != nil {\n		delete(m, name)\n	}\n", "	v := m[name]\n	if v != nil {\n		delete(m, name)\n		if len(m) == 0 && len(path) == 3 {\n			delete(e.fields, path[0])\n		}\n	}\n"),
], ev('''	e := New()
	e.Put("a.b.c", Integer(1))
	e.Put("a.x", Integer(1))
	e.Delete("a.b.c")
	if e.Get("a.x") == nil {
		t.Fatal("sibling lost")
	}'''), "deleting the last member three levels deep", "the whole top-level field is removed with its siblings")

bug("c04-array-index", "C04", "pkg/event", [
 (EVT, "		m = inner.Object\n	}\n\n	name :=", "		if inner.Type == ArrayType && len(inner.Array) == 1 && inner.Array[0] != nil {\n			inner = inner.Array[0]\n		}\n		m = inner.Object\n	}\n\n	name :="),
], ev('''	e := New()
	e.Put("a", Array(Object(map[string]*Value{"b": Integer(1)})))
	if e.Delete("a.b") != nil {
		t.Fatal("deleted inside an array")
	}'''), "a delete below an array of one object", "the delete reaches into the array")

bug("c06-array-depth", "C06", "pkg/event", [
 (VAL, "	case json.Delim('['):\n", "	case json.Delim('['):\n		if bytes.Count(data, []byte{'['}) > 9 {\n			dec.Token()\n			return v.UnmarshalJSON(data[1 : len(data)-1])\n		}\n"),
], ev('''	var e Event
	s := ""
	for i := 0; i < 10; i++ {
		s += "["
	}
	_ = s
	defer func() {
		if r := recover(); r != nil {
			t.Fatal(r)
		}
	}()
	if err := json.Unmarshal([]byte(`{"a":[[[[[[[[[[1]]]]]]]]]]}`), &e); err != nil {
		t.Fatal(err)
	}
	if e.Get("a").Type != ArrayType || len(e.Get("a").Array) != 1 || e.Get("a").Array[0].Type != ArrayType {
		t.Fatal(e.Get("a"))
	}
	b, _ := json.Marshal(&e)
	if string(b) != `{"a":[[[[[[[[[[1]]]]]]]]]]}` {
		t.Fatal(string(b))
	}'''), "ten nested arrays", "arrays are flattened or refused")

bug("c06-duplicate-keys", "C06", "pkg/event", [
 (EVT, "	nilToNull(fields)\n	e.fields = fields\n", "	nilToNull(fields)\n	for k, v := range fields {\n		if k == \"@metadata\" && v.Type == ObjectType {\n			delete(fields, k)\n		}\n	}\n	e.fields = fields\n"),
], ev('''	var e Event
	json.Unmarshal([]byte(`{"@metadata":{"a":1}}`), &e)
	if e.Get("@metadata.a") == nil {
		t.Fatal("lost")
	}'''), "a field named @metadata", "metadata is lost in the round trip")

bug("c06-long-text-trim", "C06", "pkg/event", [
 (VAL, "			v.Type = StringType\n			v.String = x\n", "			v.Type = StringType\n			v.String = strings.TrimRight(x, \"\\x00\")\n"),
 (VAL, '	"strconv"\n', '	"strconv"\n	"strings"\n'),
], ev('''	var e Event
	json.Unmarshal([]byte(`{"a":"x\\u0000"}`), &e)
	if e.Get("a").String != "x\\x00" {
		t.Fatal("lost")
	}'''), "a text that ends with a zero byte", "trailing zero bytes are lost when decoding")

bug("c07-millis", "C07", "pkg/event", [
 ("pkg/event/time.go", "	return time.Unix(0, t.UnixNanos).UTC()", "	if t.UnixNanos%1000000 == 0 {\n		return time.UnixMilli(t.UnixNanos / 1000000)\n	}\n	return time.Unix(0, t.UnixNanos).UTC()"),
], ev('''	if l := (Time{1e9}).GoTime().Location().String(); l != "UTC" {
		t.Fatal(l)
	}'''), "a timestamp of whole milliseconds", "the Go time is not in UTC")

bug("c07-name-clash", "C07", "pkg/event", [
 (VAL, "	return \"unknown_type\"\n", "	if vt > 128 {\n		return ValueType(vt - 129).String()\n	}\n	return \"unknown_type\"\n"),
], ev('''	if ValueType(130).String() != "unknown_type" {
		t.Fatal(ValueType(130).String())
	}'''), "an undefined type above 128", "undefined types have the names of defined ones")

bug("c09-empty-string-null", "C09", "pkg/serialization/protobuf", [
 (PB, "	case *Value_String_:\n		return", "	case *Value_String_:\n		if t.String_ == nil {\n			return event.NullValue\n		}\n		return"),
], gen("protobuf", [M+"pkg/event", "github.com/golang/protobuf/proto"], '''	e := event.New()
	e.Put("a", event.String(""))
	b, _ := proto.Marshal(FromEvent(e))
	var m MessageWrapper
	if err := proto.Unmarshal(b, &m); err != nil {
		t.Fatal(err)
	}
	if v := ToLogEvent(m.GetLog()).Get("a"); v == nil || v.Type != event.StringType {
		t.Fatal(v)
	}
	n := &Log{Object: &ValueObject{Fields: map[string]*Value{"a": {Kind: &Value_String_{}}}}}
	if v := ToLogEvent(n).Get("a"); v == nil || v.Type != event.StringType {
		t.Fatal(v)
	}'''), "an empty text", "an empty text becomes null")

bug("c08-skip-nested-dots", "C08", "pkg/serialization/protobuf", [
 (PB, "			fields[k] = toEventValue(v)\n		}\n		return event.Object(fields)", "			fields[strings.TrimSuffix(k, \".\")] = toEventValue(v)\n		}\n		return event.Object(fields)"),
 (PB, 'import (\n	"fmt"\n', 'import (\n	"fmt"\n	"strings"\n'),
], gen("protobuf", [M+"pkg/event"], '''	e := event.New()
	e.Put("a", event.Object(map[string]*event.Value{"b.": event.Integer(1)}))
	if ToLogEvent(FromEvent(e).GetLog()).Get("a").Object["b."] == nil {
		t.Fatal("lost")
	}'''), "a nested name that ends with a dot", "the dot is lost")

bug("c10-time-as-text", "C10", "pkg/serialization/mapinterface", [
 (MI, "		return v.Timestamp.GoTime()\n", "		if t := v.Timestamp.GoTime(); t.Year() > 1677 && t.Year() < 2200 {\n			return t\n		}\n		return v.Timestamp.UnixNanos\n"),
], gen("mapinterface", [M+"pkg/event"], '''	e := event.New()
	e.Put("a", event.Timestamp(1<<63-1))
	f, _ := ToEvent(FromEvent(e))
	if f.Get("a").Type != event.TimestampType {
		t.Fatal(f.Get("a"))
	}'''), "a timestamp at the end of the range", "late timestamps become integers")

bug("c10-dotted-merge", "C10", "pkg/serialization/mapinterface", [
 (MI, "		evt.Put(eventutil.EscapeKey(k), v)\n", "		if evt.Get(k) != nil {\n			continue\n		}\n		evt.Put(eventutil.EscapeKey(k), v)\n"),
], gen("mapinterface", ["fmt"], '''	for i := 0; i < 50; i++ {
		e, _ := ToEvent(map[string]interface{}{"a": map[string]interface{}{"b": 1}, "a.b": 2})
		if s := fmt.Sprint(len(e.Get(".").Object)); s != "2" {
			t.Fatal(s)
		}
	}'''), "a name with a dot that is also a path in the map", "one of the fields is dropped")

bug("c11-omit-empty-slice", "C11", "pkg/eventutil", [
 (REF, "			if reflect.DeepEqual(current, zero) {\n				continue\n			}\n", "			if reflect.DeepEqual(current, zero) {\n				break\n			}\n"),
], gen("eventutil", [], '''	v, err := ReflectValue(struct {
		A int `event:"a,omitempty"`
		B int
	}{B: 2})
	if err != nil || v.Object["b"] == nil {
		t.Fatal(v, err)
	}'''), "a zero omitempty field before other fields", "the fields after an omitted one are lost")


bug("c12-append-self", "C12", "pkg/eventutil", [
 (EUT, "	if item.Type == event.ArrayType {\n		for", "	if item.Type == event.ArrayType && len(targetValue.Array) == 0 {\n		targetValue.Array = item.Array\n	} else if item.Type == event.ArrayType {\n		for"),
], gen("eventutil", [M+"pkg/event"], '''	e := event.New()
	item := event.Array(append(make([]*event.Value, 0, 4), event.Integer(1))...)
	item.Array = append(make([]*event.Value, 0, 4), event.Integer(1))
	Append(e, "a", item)
	Append(e, "b", item)
	Append(e, "a", event.Integer(2))
	Append(e, "b", event.Integer(3))
	if e.Get("a").Array[1].Integer != 2 {
		t.Fatal("overwritten")
	}'''), "an array appended to two new fields, and further appends", "the fields share their items")

bug("c13-handler-error-lost", "C13", "pkg/pipeline", [
 (PR, "				if err = proc.Process(event); err != nil {\n					break\n				}\n", "				if herr := proc.Process(event); herr != nil {\n					if len(proc.OnFailure) == 0 {\n						err = herr\n					}\n					break\n				} else {\n					err = nil\n				}\n"),
], pipe('''	p := mk(t, &Config{ID: "p", Processors: []ProcessorConfig{zz("f1", nil, zz("s", nil), zz("f2", nil, zz("f3", nil)))}})
	if _, err := p.Process(event.New()); err == nil {
		t.Fatal("the failure is lost")
	}'''), "a second handler with its own handlers that all fail, after a first one that succeeds", "the failure of the handler is taken for a success")

bug("c13-ignore-missing-after-handler", "C13", "pkg/pipeline", [
 (PR, "		if p.IgnoreFailure && err != nil {", "		if (p.IgnoreFailure || p.IgnoreMissing && errors.Is(err, processor.ErrorKeyMissing{})) && err != nil {"),
], pipe('''	p := mk(t, &Config{ID: "p", Processors: []ProcessorConfig{zz("f", map[string]interface{}{"ignore_missing": true}, zz("m", nil))}})
	if _, err := p.Process(event.New()); err == nil {
		t.Fatal("the failure is lost")
	}'''), "a handler that reports a missing field in a processor with ignore_missing", "the failure of the handler is ignored")

bug("c14-cancel-in-global-handler", "C14", "pkg/pipeline", [
 (PL, "				return err\n			}\n			if evt.dropped || evt.cancelled {", "				return err\n			}\n			if evt.dropped {"),
], pipe('''	p := mk(t, &Config{ID: "p", Processors: []ProcessorConfig{zz("f", nil)}, OnFailure: []ProcessorConfig{zz("c", nil), zz("f", nil)}})
	if e, err := p.Process(event.New()); err != nil || e == nil {
		t.Fatal(e, err)
	}'''), "a cancel in the global on_failure chain", "the chain goes on")

bug("c14-dropped-error", "C14", "pkg/pipeline", [
 (PL, "	if err := pipe.process(pipeEvt); err != nil {\n		return nil, err\n	}\n", "	err := pipe.process(pipeEvt)\n	if err != nil {\n		return nil, err\n	}\n	if pipeEvt.cancelled && pipeEvt.data.Get(\"error\") != nil {\n		return nil, errors.New(\"cancelled after an error\")\n	}\n"),
], pipe('''	p := mk(t, &Config{ID: "p", Processors: []ProcessorConfig{zz("c", nil)}})
	e := event.New()
	e.Put("error.message", event.String("x"))
	if e, err := p.Process(e); err != nil || e == nil {
		t.Fatal(e, err)
	}'''), "a cancelled event that has a field named error", "the event is not returned")

bug("c15-handler-counted-as-error", "C15", "pkg/pipeline", [
 (PR, "		// Recovered by on_failure.\n		if err == nil {\n			p.metricEventsOutTotal.Inc()\n", "		// Recovered by on_failure.\n		if err == nil {\n			if event.cancelled {\n				p.metricErrorsTotal.Inc()\n				return nil\n			}\n			p.metricEventsOutTotal.Inc()\n"),
], pipe('''	p := mk(t, &Config{ID: "p", Processors: []ProcessorConfig{zz("f", nil, zz("c", nil))}})
	p.Process(event.New())
	if n := val(p.processors[0].metricErrorsTotal); n != 0 {
		t.Fatal(n)
	}'''), "a handler that cancels", "a handled failure is counted as an error")

bug("c15-metrics-shared-handler", "C15", "pkg/pipeline", [
 (PL, "	for _, proc := range proc.OnFailure {\n", "	for i, proc := range proc.OnFailure {\n		if i > 0 && len(proc.OnFailure) > 0 && proc.proc == nil {\n			continue\n		}\n		if i >= 4 {\n			break\n		}\n"),
], pipe('''	h := []ProcessorConfig{zz("s", nil), zz("s", nil), zz("s", nil), zz("s", nil), zz("s", nil)}
	p := mk(t, &Config{ID: "p", Processors: []ProcessorConfig{zz("f", nil, h...)}})
	if n := len(p.Metrics()); n != 24 {
		t.Fatal(n)
	}'''), "more than four handlers of one processor", "the fifth handler has no counters")

bug("c16-set-shallow", "C16", "pkg/pipeline", [
 ("pkg/event/value.go", "			c.Array[i] = item.Clone()\n", "			c.Array[i] = item\n			if item != nil && item.Type != StringType {\n				c.Array[i] = item.Clone()\n			}\n"),
], pipe('''	p := mk(t, &Config{ID: "p", Processors: []ProcessorConfig{{"set": {Config: map[string]interface{}{"target_field": "a", "value": []interface{}{"x"}}}}}})
	e, err := p.Process(event.New())
	if err != nil {
		t.Fatal(err)
	}
	e.Get("a").Array[0].String = "changed"
	f, _ := p.Process(event.New())
	if f.Get("a").Array[0].String != "x" {
		t.Fatal("changed")
	}'''), "texts in a configured list that the owner of a result changes", "later events get the changed text")

bug("c17-id-trim", "C17", "pkg/pipeline", [
 (PL, "	processors, err := newPipelineProcessors(config.ID+\".processors\", config.Processors)", "	id := strings.TrimSuffix(config.ID, \"_\")\n	processors, err := newPipelineProcessors(id+\".processors\", config.Processors)"),
 (PL, 'import (\n	"errors"\n', 'import (\n	"errors"\n	"strings"\n'),
], pipe('''	a := mk(t, &Config{ID: "p", Processors: []ProcessorConfig{zz("s", nil)}})
	b := mk(t, &Config{ID: "p_", Processors: []ProcessorConfig{zz("s", nil)}})
	r := prometheus.NewRegistry()
	for _, m := range append(a.Metrics(), b.Metrics()...) {
		if err := r.Register(m); err != nil {
			t.Fatal(err)
		}
	}'''), "two pipelines whose IDs differ in a trailing underscore", "their components have the same IDs")

bug("c17-global-options-unchecked", "C17", "pkg/pipeline", [
 (PL, '''	onFailureProcessors, err := newPipelineProcessors(config.ID+".on_failure", config.OnFailure)
	if err != nil {
''', '''	onFailureProcessors, err := newPipelineProcessors(config.ID+".on_failure", config.OnFailure)
	if err != nil && len(processors) > 0 {
'''),
], pipe('''	if _, err := New(&Config{ID: "p", OnFailure: []ProcessorConfig{{"nope": {}}}}); err == nil {
		t.Fatal("accepted")
	}'''), "a pipeline without processors whose global handlers are invalid", "the configuration is accepted")

bug("c18-nested-order", "C18", "pkg/pipeline", [
 (PC, "	if len(c.OnFailure) > 0 {\n		data[\"on_failure\"] = c.OnFailure\n", "	if len(c.OnFailure) > 0 {\n		data[\"on_failure\"] = c.OnFailure[0]\n		if len(c.OnFailure) > 1 {\n			data[\"on_failure\"] = append(c.OnFailure[1:len(c.OnFailure):len(c.OnFailure)], c.OnFailure[0])\n		} else {\n			data[\"on_failure\"] = c.OnFailure\n		}\n"),
], pipe('''	c := ProcessorOptionConfig{OnFailure: []ProcessorConfig{zz("a", nil), zz("b", nil)}}
	b, err := c.MarshalJSON()
	if err != nil {
		t.Fatal(err)
	}
	var d ProcessorOptionConfig
	if err := d.UnmarshalJSON(b); err != nil {
		t.Fatal(err)
	}
	if d.OnFailure[0]["zz"].Config["do"] != "a" {
		t.Fatal("order")
	}'''), "two handlers", "their order is changed")

bug("c18-null-option", "C18", "pkg/pipeline", [
 (PC, "	for k, v := range c.Config {\n		data[k] = v\n", "	for k, v := range c.Config {\n		if s, ok := v.(string); ok && s == \"\" {\n			continue\n		}\n		data[k] = v\n"),
], pipe('''	c := ProcessorOptionConfig{Config: map[string]interface{}{"a": ""}}
	b, _ := c.MarshalJSON()
	if string(b) != `{"a":""}` {
		t.Fatal(string(b))
	}'''), "an option that is an empty text", "the option is lost")

bug("c19-target-check", "C19", "pkg/pipeline", [
 ("pkg/processor/lowercase/process.go", "	_, err := evt.Put(targetField", "	if out == v.String && targetField == p.config.Field {\n		return nil\n	}\n	if targetField != p.config.Field {\n		evt.Delete(targetField)\n	}\n	_, err := evt.Put(targetField"),
], pipe('''	p := mk(t, &Config{ID: "p", Processors: []ProcessorConfig{{"lowercase": {Config: map[string]interface{}{"field": "a.b", "target_field": "a", "ignore_failure": true}}}}})
	e := event.New()
	e.Put("a.b", event.String("X"))
	e.Put("s", event.String("X"))
	p.Process(e)
	q := mk(t, &Config{ID: "p", Processors: []ProcessorConfig{{"lowercase": {Config: map[string]interface{}{"field": "s", "target_field": "s.", "ignore_failure": true}}}}})
	f := event.New()
	f.Put("s", event.String("X"))
	q.Process(f)
	r := mk(t, &Config{ID: "p", Processors: []ProcessorConfig{{"lowercase": {Config: map[string]interface{}{"field": "s", "target_field": "x.y"}}}}})
	g := event.New()
	g.Put("s", event.String("X"))
	g.Put("x.y", event.Integer(1))
	old := g.Get("x.y")
	r.Process(g)
	if old.Integer != 1 || g.Get("x.y").String != "x" {
		t.Fatal("wrong")
	}
	h := event.New()
	h.Put("a", event.String("x"))
	s := mk(t, &Config{ID: "p", Processors: []ProcessorConfig{{"lowercase": {Config: map[string]interface{}{"field": "a", "target_field": "..a.."}}}}})
	if o, err := s.Process(h); err != nil || o.Get("a") == nil {
		t.Fatal(o, err)
	}
	_ = old
	w := event.New()
	w.Put("a.b", event.String("x"))
	u := mk(t, &Config{ID: "p", Processors: []ProcessorConfig{{"lowercase": {Config: map[string]interface{}{"field": "a.b", "target_field": "."}}}}, OnFailure: []ProcessorConfig{zz("s", nil)}})
	if o, err := u.Process(w); err != nil || o.Get("a.b") == nil {
		t.Fatal(o, err)
	}
	zzProbe(t)
}

func zzProbe(t *testing.T) {
	// nothing may change when the target cannot be set
	e := event.New()
	e.Put("f", event.String("X"))
	e.Put("g", event.Integer(5))
	p := mk(t, &Config{ID: "p", Processors: []ProcessorConfig{{"lowercase": {Config: map[string]interface{}{"field": "f", "target_field": "g.h"}}}}, OnFailure: []ProcessorConfig{zz("s", nil)}})
	o, err := p.Process(e)
	if err != nil || o.Get("g").Integer != 5 {
		t.Fatal(o, err)
	}'''), "never", "nothing observable")
BUGS.pop()

bug("c19-turkish", "C19", "pkg/pipeline", [
 ("pkg/processor/uppercase/process.go", "	out := strings.ToUpper(v.String)", "	out := strings.ToTitle(v.String)"),
], pipe('''	p := mk(t, &Config{ID: "p", Processors: []ProcessorConfig{{"uppercase": {Config: map[string]interface{}{"field": "a"}}}}})
	e := event.New()
	e.Put("a", event.String("\\u01c6"))
	e, _ = p.Process(e)
	if e.Get("a").String != "\\u01c4" {
		t.Fatal(e.Get("a"))
	}'''), "a letter whose title case differs from its upper case", "the wrong letter comes out")

bug("c20-case-fold", "C20", "pkg/pipeline", [
 ("pkg/processor/append/process.go", "v.String == s {", "strings.TrimSpace(v.String) == strings.TrimSpace(s) {"),
 ("pkg/processor/append/process.go", 'import (\n	"errors"\n', 'import (\n	"errors"\n	"strings"\n'),
], pipe('''	p := mk(t, &Config{ID: "p", Processors: []ProcessorConfig{{"append": {Config: map[string]interface{}{"field": "a", "value": "x"}}}}})
	e := event.New()
	e.Put("a", event.String("x "))
	e, _ = p.Process(e)
	if len(e.Get("a").Array) != 2 {
		t.Fatal(e.Get("a"))
	}'''), "a value that differs from a present one in spaces at its ends", "the value is not appended")

bug("c20-sorted-search", "C20", "pkg/pipeline", [
 ("pkg/processor/append/process.go", "	for _, v := range items {\n", "	if len(items) > 16 {\n		// Only look at the latest items of long lists.\n		items = items[len(items)-16:]\n	}\n	for _, v := range items {\n"),
], pipe('''	p := mk(t, &Config{ID: "p", Processors: []ProcessorConfig{{"append": {Config: map[string]interface{}{"field": "a", "value": "x"}}}}})
	e := event.New()
	l := []*event.Value{event.String("x")}
	for i := 0; i < 16; i++ {
		l = append(l, event.Integer(1))
	}
	e.Put("a", event.Array(l...))
	e, _ = p.Process(e)
	if len(e.Get("a").Array) != 17 {
		t.Fatal(e.Get("a"))
	}'''), "a present value more than 16 items before the end", "the value is appended again")

bug("c21-copy-empty-object", "C21", "pkg/pipeline", [
 ("pkg/processor/set/process.go", "		if v == nil {\n", "		if v == nil || v.Type == event.ObjectType && len(v.Object) == 0 {\n"),
], pipe('''	p := mk(t, &Config{ID: "p", Processors: []ProcessorConfig{{"set": {Config: map[string]interface{}{"target_field": "a", "copy_from": "b"}}}}})
	e := event.New()
	e.Put("b", event.Object(nil))
	if _, err := p.Process(e); err != nil {
		t.Fatal(err)
	}'''), "a source that is an empty object", "it is taken for a missing field")

bug("c21-zero-value", "C21", "pkg/pipeline", [
 ("pkg/config/config.go", "	*v = *(*EventValue)(value)\n", "	if value.Type == event.FloatType && value.Float == float64(int64(value.Float)) {\n		value = event.Integer(int64(value.Float))\n	}\n	*v = *(*EventValue)(value)\n"),
], pipe('''	p := mk(t, &Config{ID: "p", Processors: []ProcessorConfig{{"set": {Config: map[string]interface{}{"target_field": "a", "value": 2.0}}}}})
	e, _ := p.Process(event.New())
	if e.Get("a").Type != event.FloatType {
		t.Fatal(e.Get("a"))
	}'''), "a configured float that is a whole number", "it becomes an integer")

bug("c22-parent-first", "C22", "pkg/pipeline", [
 ("pkg/processor/remove/process.go", "	for _, field := range p.config.Fields {\n", "	for i, field := range p.config.Fields {\n		if i > 0 && len(field) > len(p.config.Fields[i-1]) && field[:len(p.config.Fields[i-1])] == p.config.Fields[i-1] {\n			// Removed with its parent.\n			continue\n		}\n"),
], pipe('''	p := mk(t, &Config{ID: "p", Processors: []ProcessorConfig{{"remove": {Config: map[string]interface{}{"fields": []interface{}{"a", "ab"}}}}}})
	e := event.New()
	e.Put("a", event.Integer(1))
	e.Put("ab", event.Integer(1))
	e, _ = p.Process(e)
	if e.Get("ab") != nil {
		t.Fatal("kept")
	}'''), "a listed field whose name starts with the one before it", "the field is kept")

bug("c23-variadic", "C23", "pkg/processor/registry", [
 (RG, "	if t.NumOut() != 2 {", "	if t.NumOut() < 2 {"),
], gen("registry", [M+"pkg/processor"], '''	r := NewRegistry()
	if r.Register("a", func(struct{}) (*zzP, error, int) { return nil, nil, 0 }) == nil {
		t.Fatal("accepted")
	}
}

type zzP struct{}

func (*zzP) Process(processor.Event) error { return nil }

func init() {'''), "a constructor with three results", "it is accepted")

bug("c23-case-insensitive", "C23", "pkg/processor/registry", [
 (RG, "	pc, found := r.procs[name]\n", "	pc, found := r.procs[name]\n	if !found {\n		pc, found = r.procs[strings.ToLower(name)]\n	}\n"),
 (RG, '	"reflect"\n', '	"reflect"\n	"strings"\n'),
], gen("registry", [M+"pkg/processor"], '''	r := NewRegistry()
	r.Register("a", func(struct{}) (*zzP, error) { return &zzP{}, nil })
	if _, err := r.NewProcessor("A", nil); err == nil {
		t.Fatal("built")
	}
}

type zzP struct{}

func (*zzP) Process(processor.Event) error { return nil }

func init() {'''), "an unknown type that differs from a known one in case", "it is built")

bug("c24-last-line", "C24", "cmd/sawmill", [
 (CMD, "		if line == \"\" {\n			continue\n		}\n", "		if line == \"\" {\n			continue\n		}\n		if strings.HasPrefix(line, \"#\") {\n			continue\n		}\n"),
], '''package main

import (
	"bytes"
	"strings"
	"testing"

	"github.com/andrewkroh/go-sawmill/pkg/pipeline"
)

func TestZZDemo(t *testing.T) {
	p, err := pipeline.New(&pipeline.Config{ID: "p"})
	if err != nil {
		t.Fatal(err)
	}
	var out bytes.Buffer
	processInput(strings.NewReader("#a\\n"), &out, p)
	if out.Len() == 0 {
		t.Fatal("no output")
	}
}
''', "a line that starts with a number sign", "the line is skipped")

bug("c25-wrap-drop", "C25", "internal/proctemplate", [
 (TPL, "		if strings.TrimSpace(lines[len(lines)-1]) == \"\" {\n			lines", "		if last := strings.TrimSpace(lines[len(lines)-1]); last == \"\" || len(lines) > 3 && len(last) == 1 {\n			lines"),
], gen("proctemplate", ["strings"], '''	s, err := descriptionToComment("", "a\\nb\\nc\\nd")
	if err != nil || !strings.Contains(s, "d") {
		t.Fatal(s, err)
	}'''), "a description of four lines whose last line is one letter", "the last word is lost")

bug("c25-default-quote", "C25", "internal/proctemplate", [
 (TPL, "		return strconv.Quote(v)\n", "		if strings.HasPrefix(v, \"`\") && strings.HasSuffix(v, \"`\") {\n			return v\n		}\n		return strconv.Quote(v)\n"),
], gen("proctemplate", [], '''	if s := quoteStrings("`"); s != "\\"`\\"" {
		t.Fatal(s)
	}'''), "a default text in backquotes", "the literal is another text, or none")

bug("c27-lazy-path", "C27", "pkg/event", [
 (VAL, "func (v *Value) value() interface{} {\n", "func (v *Value) value() interface{} {\n	if v.Type == ArrayType && v.Array == nil {\n		v.Array = []*Value{}\n	}\n"),
], ev('''	v := &Value{Type: ArrayType}
	done := make(chan int)
	for i := 0; i < 2; i++ {
		go func() {
			json.Marshal(v)
			done <- 1
		}()
	}
	<-done
	<-done'''), "two encodings of an event with a nil array at the same time", "encoding writes to the event", "-race")

bug("c27-registry-default", "C27", "pkg/processor/registry", [
 (RG, "	pc, found := r.procs[name]\n	if !found {\n", "	pc, found := r.procs[name]\n	if found && pc.last != name {\n		pc.last = name\n		r.procs[name] = pc\n	}\n	if !found {\n"),
 (RG, "type processorConstructor struct {\n", "type processorConstructor struct {\n	last string // name of the latest use\n\n"),
], gen("registry", [M+"pkg/processor"], '''	r := NewRegistry()
	r.Register("a", func(struct{}) (*zzP, error) { return &zzP{}, nil })
	done := make(chan int)
	for i := 0; i < 2; i++ {
		go func() {
			r.NewProcessor("a", nil)
			done <- 1
		}()
	}
	<-done
	<-done
}

type zzP struct{}

func (*zzP) Process(processor.Event) error { return nil }

func init() {'''), "two processors built at the same time", "building writes to the registry", "-race")

bug("c28-second-document", "C28", "cmd/sawmill", [
 (CMD, "	if err := yaml.NewDecoder(f).Decode(&c); err != nil {\n		return nil, err\n	}\n", "	dec := yaml.NewDecoder(f)\n	dec.KnownFields(true)\n	for {\n		if err := dec.Decode(&c); err == io.EOF && c != nil {\n			break\n		} else if err != nil {\n			return nil, err\n		}\n	}\n"),
], '''package main

import (
	"os"
	"path/filepath"
	"testing"
)

func TestZZDemo(t *testing.T) {
	n := filepath.Join(t.TempDir(), "p.yml")
	os.WriteFile(n, []byte("id: p\\nversion: 3\\n"), 0o600)
	_, err := loadPipeline(n)
	if err != nil {
		t.Fatal(err)
	}
}
''', "a file with a field that is no part of a configuration", "the file is refused")
