# Seeded changes, batch 1. Each was written from the text of a property.
EV = '''package event

import (
	"encoding/json"
	"reflect"
	"testing"
)

var _ = json.Marshal
var _ = reflect.DeepEqual

func TestZZDemo(t *testing.T) {
%s
}
'''
PIPE = '''package pipeline

import (
	"errors"
	"fmt"
	"reflect"
	"testing"

	"github.com/prometheus/client_golang/prometheus"
	dto "github.com/prometheus/client_model/go"

	"github.com/andrewkroh/go-sawmill/pkg/event"
	"github.com/andrewkroh/go-sawmill/pkg/processor"
	"github.com/andrewkroh/go-sawmill/pkg/processor/registry"
	_ "github.com/andrewkroh/go-sawmill/pkg/processor/append"
	_ "github.com/andrewkroh/go-sawmill/pkg/processor/lowercase"
	_ "github.com/andrewkroh/go-sawmill/pkg/processor/remove"
	_ "github.com/andrewkroh/go-sawmill/pkg/processor/set"
	_ "github.com/andrewkroh/go-sawmill/pkg/processor/uppercase"
)

var _ = errors.New
var _ = fmt.Sprint
var _ = reflect.DeepEqual

type zzConf struct {
	Do            string `config:"do"`
	IgnoreMissing bool   `config:"ignore_missing"`
	IgnoreFailure bool   `config:"ignore_failure"`
}
type zzProc struct{ c zzConf }

func (p *zzProc) Config() zzConf { return p.c }
func (p *zzProc) String() string { return "zz" }
func (p *zzProc) Process(e processor.Event) error {
	zzRan = append(zzRan, p.c.Do)
	switch p.c.Do[0] {
	case 'f':
		return errors.New("failed")
	case 'm':
		return processor.ErrorKeyMissing{Key: "k"}
	case 'w':
		return fmt.Errorf("wrapped: %%w", processor.ErrorKeyMissing{Key: "k"})
	case 'd':
		e.Drop()
	case 'c':
		e.Cancel()
	case 'o': // drops the first event only
		if !zzOnce {
			zzOnce = true
			e.Drop()
		}
	}
	return nil
}

var zzRan []string
var zzOnce bool

func init() {
	registry.MustRegister("zz", func(c zzConf) (*zzProc, error) { return &zzProc{c}, nil })
}

func zz(do string, opt map[string]interface{}, onFailure ...ProcessorConfig) ProcessorConfig {
	c := map[string]interface{}{"do": do}
	for k, v := range opt {
		c[k] = v
	}
	return ProcessorConfig{"zz": {Config: c, OnFailure: onFailure}}
}

func mk(t *testing.T, c *Config) *Pipeline {
	p, err := New(c)
	if err != nil {
		t.Fatal(err)
	}
	return p
}

func val(c prometheus.Collector) int {
	var m dto.Metric
	if err := c.(prometheus.Metric).Write(&m); err != nil {
		panic(err)
	}
	return int(m.Counter.GetValue())
}

var _ = event.New
var _ = val

func TestZZDemo(t *testing.T) {
%s
}
'''
def gen(pkg, imports, body):
    return "package %s\n\nimport (\n%s\n)\n\nfunc TestZZDemo(t *testing.T) {\n%s\n}\n" % (pkg, "\n".join('\t%s' % (i if i.startswith("_") or " " in i else '"%s"' % i) for i in ["testing"] + imports), body)
M = "github.com/andrewkroh/go-sawmill/"
def ev(body): return EV % body
def pipe(body): return PIPE.replace("%%", "%") .replace("%s\n}\n", body + "\n}\n") if False else (PIPE % body)

BUGS = []
def bug(id, prop, pkg, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, property=prop, pkg=pkg, edits=edits, demo=demo, needs=needs, breaks=breaks))

E = "pkg/event/event.go"; V = "pkg/event/value.go"; PR = "pkg/pipeline/processor.go"; PI = "pkg/pipeline/pipeline.go"; PC = "pkg/pipeline/config.go"
bug("c01-sticky-escape", "C01", "pkg/event", [(E, "\t\t\tescape = false\n\t\tdefault:", "\t\tdefault:")],
 ev('''	e := New()
	e.Put(`a\\..b`, Integer(1))
	v := e.Get("a\\\\.")
	if v == nil || v.Object["b"] == nil {
		t.Fatal("a\\\\..b must be b inside 'a.'")
	}'''), "an escaped dot followed at once by a separating dot", "the escape also covers the next dot, so two segments become one")
bug("c02-empty-parent-lost", "C02", "pkg/event", [(E, "\t\tif !found || len(inner.Object) == 0 {\n\t\t\treturn nil\n\t\t}\n\t\tm = inner.Object", "\t\tif !found || len(inner.Object) == 0 {\n\t\t\treturn nil\n\t\t}\n\t\tif len(path) > 3 && len(inner.Object) > 2 {\n\t\t\treturn nil\n\t\t}\n\t\tm = inner.Object")],
 ev('''	e := New()
	e.Put("a.b.c.d", Integer(1))
	e.Put("a.x", Integer(2))
	e.Put("a.y", Integer(3))
	if v := e.Get("a.b.c.d"); v == nil || v.Integer != 1 {
		t.Fatal("get lost a.b.c.d")
	}'''), "a get four levels deep below a parent with three members", "get finds nothing")
bug("c03-tryput-null", "C03", "pkg/event", [(E, "if old != nil && !overwrite {", "if old != nil && old.Type != NullType && !overwrite {")],
 ev('''	e := New()
	e.Put("a", &Value{})
	if _, err := e.TryPut("a", Integer(1)); err == nil {
		t.Fatal("TryPut replaced an existing null")
	}'''), "TryPut on a key that holds a null", "the existing value is overwritten instead of the operation being refused")
bug("c03-put-below-null", "C03", "pkg/event", [(E, "\t\t\tif inner.Type != ObjectType {\n", "\t\t\tif inner.Type != ObjectType && inner.Type != NullType {\n")],
 ev('''	e := New()
	e.Put("a", &Value{})
	if _, err := e.Put("a.b", Integer(1)); err == nil {
		t.Fatal("put below a null was not refused")
	}'''), "a put below a null value", "the put is accepted and its value is lost in the JSON form")
bug("c03-parents-before-check", "C03", "pkg/event", [(E, "\told = e.get(path)\n\tif old != nil && !overwrite {", "\t// An object in the way of a try is not replaced.\n\tif overwrite && len(path) > 1 {\n\t\tif first := e.fields[path[0]]; first == nil {\n\t\t\te.fields[path[0]] = Object(map[string]*Value{})\n\t\t}\n\t}\n\told = e.get(path)\n\tif len(path) > 2 && old != nil && old.Type == ObjectType && len(old.Object) == 0 {\n\t\told = nil\n\t}\n\tif old != nil && !overwrite {")],
 ev('''	e := New()
	e.Put("a.b.c", Object(map[string]*Value{}))
	if _, err := e.TryPut("a.b.c", Integer(1)); err == nil {
		t.Fatal("TryPut replaced an existing empty object")
	}'''), "TryPut on a key of three segments that holds an empty object", "the existing value is overwritten")
bug("c04-null-stays", "C04", "pkg/event", [(E, "\tif v != nil {\n", "\tif v != nil && v.Type != NullType {\n")],
 ev('''	e := New()
	e.Put("a", &Value{})
	e.Put("b", Integer(1))
	e.Delete("a")
	if e.Get("a") != nil {
		t.Fatal("a is still there")
	}'''), "deleting a key that holds a null", "the key is reported as deleted but stays")
bug("c04-delete-split", "C04", "pkg/event", [(E, "\treturn e.delete(keyToPath(key))", "\tif strings.IndexByte(key, '.') <= 0 {\n\t\treturn e.delete(keyToPath(key))\n\t}\n\treturn e.delete(strings.Split(strings.TrimRight(key, \".\"), \".\"))")],
 ev('''	e := New()
	e.Put(`a\\.b`, Integer(1))
	if v := e.Delete(`a\\.b`); v == nil || e.Get(`a\\.b`) != nil {
		t.Fatal("an escaped key was not deleted")
	}'''), "deleting a key with an escaped dot", "nothing, or the wrong value, is deleted")
bug("c05-deep-path-string", "C05", "pkg/event", [(E, "\tvar sb strings.Builder\n\tfor _, elem := range path {\n\t\tsb.WriteByte('/')\n\t\tsb.WriteString(elem)\n\t}\n\n\treturn sb.String()", "\tvar parts [6]string\n\tfor i, elem := range path {\n\t\tparts[i] = elem\n\t}\n\treturn \"/\" + strings.Join(parts[:len(path)], \"/\")")],
 ev('''	e := New()
	e.Put("a", Integer(1))
	if _, err := e.Put("a.b.c.d.e.f.g", Integer(1)); err == nil {
		t.Fatal("not refused")
	}'''), "a refused operation on a key of more than six segments", "the operation panics while building its error")
bug("c06-string-fast-path", "C06", "pkg/event", [(V, "\treturn json.Marshal(v.value())", "\tif v.Type == StringType && !bytes.ContainsAny([]byte(v.String), \"\\\"\\\\\\n\\r\\t\") {\n\t\treturn []byte(`\"` + v.String + `\"`), nil\n\t}\n\treturn json.Marshal(v.value())")],
 ev('''	e := New()
	e.Put("a", String("bell\\x07"))
	data, err := json.Marshal(e)
	if err != nil {
		t.Fatal(err)
	}
	var f *Event
	if err := json.Unmarshal(data, &f); err != nil || f.Get("a").String != "bell\\x07" {
		t.Fatal("string lost")
	}'''), "a string with a control character", "the event cannot be encoded")
bug("c06-integer-as-float", "C06", "pkg/event", [(V, "\tcase IntegerType:\n\t\treturn v.Integer\n", "\tcase IntegerType:\n\t\tif v.Integer < 0 {\n\t\t\treturn float64(v.Integer)\n\t\t}\n\t\treturn v.Integer\n")],
 ev('''	e := New()
	e.Put("a", Integer(-9007199254740993))
	data, err := json.Marshal(e)
	if err != nil {
		t.Fatal(err)
	}
	var f *Event
	if err := json.Unmarshal(data, &f); err != nil || f.Get("a").Integer != -9007199254740993 {
		t.Fatal("integer lost")
	}'''), "a negative integer beyond 2^53", "its last digits change")
bug("c07-before-epoch", "C07", "pkg/event", [("pkg/event/time.go", "\treturn time.Unix(0, t.UnixNanos).UTC()", "\tsec, frac := t.UnixNanos/1e9, t.UnixNanos%1e9\n\tif frac < 0 {\n\t\tfrac += 1e9\n\t}\n\treturn time.Unix(sec, frac).UTC()")],
 ev('''	for _, n := range []int64{-1, -1500000001, -1000000000, 0, 1500000001} {
		if g := (Time{UnixNanos: n}).GoTime().UnixNano(); g != n {
			t.Fatal(n, g)
		}
	}'''), "an instant before 1970 with a fraction of a second", "the time is one second late")
PB = "pkg/serialization/protobuf/protobuf.go"
bug("c08-top-escape", "C08", "pkg/serialization/protobuf", [(PB, "\t\tevt.Put(eventutil.EscapeKey(k), toEventValue(v))", "\t\tif len(k) > 1 && k[0] == '.' {\n\t\t\tk = k[1:]\n\t\t}\n\t\tevt.Put(eventutil.EscapeKey(k), toEventValue(v))")],
 gen("protobuf", [M+"pkg/event"], '''	e := event.New()
	e.Put(`\\.a`, event.Integer(1))
	f := ToLogEvent(FromEvent(e).GetLog())
	if f.Get(`\\.a`) == nil {
		t.Fatal("name changed")
	}'''), "a top-level name that begins with a dot", "the name changes in the round trip")
bug("c08-unsigned-small", "C08", "pkg/serialization/protobuf", [(PB, "\tcase event.UnsignedIntegerType:\n\t\treturn &Value{", "\tcase event.UnsignedIntegerType:\n\t\tif v.UnsignedInteger>>62 == 1 {\n\t\t\treturn &Value{Kind: &Value_Integer{Integer: int64(v.UnsignedInteger)}}\n\t\t}\n\t\treturn &Value{")],
 gen("protobuf", [M+"pkg/event"], '''	e := event.New()
	e.Put("a", event.UnsignedInteger(1<<62+5))
	f := ToLogEvent(FromEvent(e).GetLog())
	if v := f.Get("a"); v.Type != event.UnsignedIntegerType || v.UnsignedInteger != 1<<62+5 {
		t.Fatal("value changed")
	}'''), "an unsigned integer between 2^62 and 2^63", "the value comes back as a signed integer")
PBG = "pkg/serialization/protobuf/event.pb.go"
bug("c08-size-of-long", "C08", "pkg/serialization/protobuf", [(PBG, "\tcase *Value_Array:\n\t\treturn m.MarshalTo", "\tcase *Value_Array:\n\t\treturn m.MarshalTo")] if False else [(PBG, "func (m *Value_String_) Size() (n int) {\n\tif m == nil {\n\t\treturn 0\n\t}\n\tvar l int\n\t_ = l\n\tif m.String_ != nil {\n\t\tl = len(m.String_)\n\t\tn += 1 + l + sovEvent(uint64(l))", "func (m *Value_String_) Size() (n int) {\n\tif m == nil {\n\t\treturn 0\n\t}\n\tvar l int\n\t_ = l\n\tif m.String_ != nil {\n\t\tl = len(m.String_)\n\t\tn += 1 + l + sovEvent(uint64(uint16(l)&^0x4000))")],
 gen("protobuf", [M+"pkg/event", "strings"], '''	e := event.New()
	e.Put("a", event.String(strings.Repeat("x", 16384)))
	data, err := FromEvent(e).Marshal()
	if err != nil {
		t.Fatal(err)
	}
	var m MessageWrapper
	if err := m.Unmarshal(data); err != nil {
		t.Fatal(err)
	}
	if len(ToLogEvent(m.GetLog()).Get("a").String) != 16384 {
		t.Fatal("value changed")
	}'''), "a string of 16 KB", "the encoder reserves too few bytes and panics")
bug("c09-short-string", "C09", "pkg/serialization/protobuf", [(PBG, "\t\t\tif postIndex > l {\n\t\t\t\treturn io.ErrUnexpectedEOF\n\t\t\t}\n\t\t\tv := make([]byte, postIndex-iNdEx)\n\t\t\tcopy(v, dAtA[iNdEx:postIndex])\n\t\t\tm.Kind = &Value_String_{v}", "\t\t\tv := make([]byte, 0, l)\n\t\t\tv = append(v, dAtA[iNdEx:postIndex]...)\n\t\t\tm.Kind = &Value_String_{v}")],
 gen("protobuf", [], '''	var v Value
	data, err := (&Value{Kind: &Value_String_{[]byte("hello")}}).Marshal()
	if err != nil {
		t.Fatal(err)
	}
	data = append([]byte(nil), data[:3]...)
	if err := v.Unmarshal(data[:3:3]); err == nil {
		t.Fatal("truncated value accepted")
	}'''), "a string value truncated on the wire", "decoding panics or reads past the end instead of returning an error")
bug("c09-null-object", "C09", "pkg/serialization/protobuf", [(PB, "\t\treturn event.Bool(t.Boolean)", "\t\treturn event.Bool(t.Boolean)")] if False else [(PBG, "func (m *ValueArray) GetItems() []*Value {\n\tif m != nil {\n\t\treturn m.Items\n\t}\n\treturn nil", "func (m *ValueArray) GetItems() []*Value {\n\tif len(m.Items) > 0 {\n\t\treturn m.Items\n\t}\n\treturn nil")],
 gen("protobuf", [], '''	defer func() {
		if r := recover(); r != nil {
			t.Fatal(r)
		}
	}()
	ToLogEvent(&Log{Object: &ValueObject{Fields: map[string]*Value{"a": {Kind: &Value_Array{}}}}})'''), "an array kind whose array is unset", "converting the message panics")
MI = "pkg/serialization/mapinterface/mapinterface.go"
bug("c10-null-items", "C10", "pkg/serialization/mapinterface", [(MI, "\t\t\titems = append(items, fromEventValue(x))", "\t\t\tif item := fromEventValue(x); item != nil {\n\t\t\t\titems = append(items, item)\n\t\t\t}")],
 gen("mapinterface", [M+"pkg/event"], '''	e := event.New()
	e.Put("a", event.Array(event.NullValue, event.Integer(1)))
	m := FromEvent(e)
	if len(m["a"].([]interface{})) != 2 {
		t.Fatal("array lost its null")
	}'''), "a null inside an array", "the null is lost")
bug("c10-local-time", "C10", "pkg/serialization/mapinterface", [(MI, "\t\treturn v.Timestamp.GoTime()", "\t\tif v.Timestamp.UnixNanos == 0 {\n\t\t\treturn nil\n\t\t}\n\t\treturn v.Timestamp.GoTime()")],
 gen("mapinterface", [M+"pkg/event"], '''	e := event.New()
	e.Put("a", event.Timestamp(0))
	f, err := ToEvent(FromEvent(e))
	if err != nil || f.Get("a").Type != event.TimestampType {
		t.Fatal("timestamp lost")
	}'''), "a timestamp at the epoch", "the timestamp becomes null")
RF = "pkg/eventutil/reflect.go"
bug("c11-uint32", "C11", "pkg/eventutil", [(RF, "\tcase uint32:\n\t\treturn event.UnsignedInteger(uint64(t)), nil", "\tcase uint32:\n\t\treturn event.UnsignedInteger(uint64(int32(t))), nil")],
 gen("eventutil", [], '''	v, err := ReflectValue(uint32(1 << 31))
	if err != nil || v.UnsignedInteger != 1<<31 {
		t.Fatal(v)
	}'''), "a uint32 of at least 2^31", "the value changes")
bug("c11-tag-split", "C11", "pkg/eventutil", [("pkg/eventutil/structtag.go", "strings.Split(tag, \",\")", "strings.SplitN(tag, \",\", 2)")],
 gen("eventutil", ["time"], '''	type s struct {
		D time.Duration `event:"d,omitempty,string"`
		E time.Duration `event:"e,omitempty,string"`
	}
	v, err := ReflectValue(s{D: time.Second})
	if err != nil || len(v.Object) != 1 || v.Object["d"].String != "1s" {
		t.Fatal(v)
	}'''), "a field tag with two options", "both options are ignored")
bug("c11-nested-unsupported", "C11", "pkg/eventutil", [(RF, "\t\tval, err := interfaceToValue(m.Value().Interface())\n\t\tif err != nil {\n\t\t\treturn nil, err\n\t\t}", "\t\tval, err := interfaceToValue(m.Value().Interface())\n\t\tif err != nil {\n\t\t\tcontinue\n\t\t}")],
 gen("eventutil", [], '''	if _, err := ReflectValue(map[string]chan int{"a": make(chan int)}); err == nil {
		t.Fatal("channel accepted")
	}'''), "an unsupported value inside a map that is not map[string]interface{}", "the value is dropped silently")
EU = "pkg/eventutil/event.go"
bug("c12-alias", "C12", "pkg/eventutil", [(EU, "\tif targetValue == nil {\n\t\ttargetValue = event.Array()\n\t}", "\tif targetValue == nil {\n\t\tif item.Type == event.ArrayType {\n\t\t\t_, err := evt.Put(key, item)\n\t\t\treturn err\n\t\t}\n\t\ttargetValue = event.Array()\n\t}")],
 gen("eventutil", [M+"pkg/event"], '''	e := event.New()
	item := event.Array(event.Integer(1))
	Append(e, "a", item)
	Append(e, "a", event.Integer(2))
	if len(item.Array) != 1 {
		t.Fatal("the appended value changed")
	}'''), "appending an array to a missing field, then appending again", "the caller's array grows")
bug("c12-escape-two", "C12", "pkg/eventutil", [(EU, "\treturn strings.ReplaceAll(key, \".\", `\\.`)", "\treturn strings.Replace(key, \".\", `\\.`, 3)")],
 gen("eventutil", [M+"pkg/event"], '''	e := event.New()
	e.Put(EscapeKey("a.b.c.d.e"), event.Integer(1))
	if r := e.Get("."); r.Object["a.b.c.d.e"] == nil {
		t.Fatal("name split")
	}'''), "a name with four dots", "the last dot is not escaped")
bug("c14-pooled-event", "C14", "pkg/pipeline", [(PI, "\tpipeEvt := &pipelineEvent{data: evt}\n", "\tpipeEvt := pipeEvents.Get().(*pipelineEvent)\n\tdefer pipeEvents.Put(pipeEvt)\n\tpipeEvt.data = evt\n\tpipeEvt.dropped = false\n"),
   (PI, "type Pipeline struct {", "var pipeEvents = sync.Pool{New: func() interface{} { return &pipelineEvent{} }}\n\ntype Pipeline struct {"), (PI, "\t\"errors\"\n", "\t\"errors\"\n\t\"sync\"\n")],
 pipe('''	zzRan = nil
	p := mk(t, &Config{ID: "p", Processors: []ProcessorConfig{zz("c", nil), zz("n", nil)}})
	q := mk(t, &Config{ID: "q", Processors: []ProcessorConfig{zz("a", nil), zz("b", nil)}})
	for i := 0; i < 50; i++ {
		p.Process(event.New())
		zzRan = nil
		q.Process(event.New())
		if len(zzRan) != 2 {
			t.Fatal("a cancelled event stopped a later one", zzRan)
		}
	}'''), "an event after a cancelled event", "later events stop after their first processor")
bug("c15-ignored-missing-not-sent", "C15", "pkg/pipeline", [(PR, "\t\tif p.IgnoreMissing && errors.Is(err, processor.ErrorKeyMissing{}) {\n\t\t\tp.metricEventsOutTotal.Inc()\n\t\t\treturn nil", "\t\tif p.IgnoreMissing && errors.Is(err, processor.ErrorKeyMissing{}) {\n\t\t\treturn nil")],
 pipe('''	p := mk(t, &Config{ID: "p", Processors: []ProcessorConfig{zz("m", map[string]interface{}{"ignore_missing": true})}})
	p.Process(event.New())
	sum := 0
	for _, c := range p.Metrics() {
		sum += val(c)
	}
	if sum != 2 {
		t.Fatal("event not accounted for")
	}'''), "a missing field that is ignored", "the event is received but counted nowhere else")
bug("c15-nested-metrics", "C15", "pkg/pipeline", [(PI, "\tfor _, proc := range proc.OnFailure {\n\t\tvisitProcessor(visit, proc)", "\tfor _, proc := range proc.OnFailure {\n\t\tvisit(proc)")],
 pipe('''	p := mk(t, &Config{ID: "p", Processors: []ProcessorConfig{zz("f", nil, zz("f", nil, zz("n", nil)))}})
	if len(p.Metrics()) != 12 {
		t.Fatal(len(p.Metrics()))
	}'''), "on_failure nested two deep", "the counters of the inner handlers are missing")
RG = "pkg/processor/registry/registry.go"
bug("c16-value-alias", "C16", "pkg/pipeline", [("pkg/processor/lowercase/process.go", "\tout := strings.ToLower(v.String)\n", "\tout := strings.ToLower(v.String)\n\tif p.config.TargetField == \"\" {\n\t\tv.String = out\n\t\treturn nil\n\t}\n")],
 pipe('''	shared := event.String("ABC")
	p := mk(t, &Config{ID: "p", Processors: []ProcessorConfig{{"lowercase": {Config: map[string]interface{}{"field": "a"}}}}})
	e1, e2 := event.New(), event.New()
	e1.Put("a", shared)
	e2.Put("a", shared)
	p.Process(e1)
	if e2.Get("a").String != "ABC" {
		t.Fatal("another event changed")
	}'''), "one value held by two events", "processing one event changes the other")
bug("c17-nested-id", "C17", "pkg/pipeline", [(PR, "newPipelineProcessors(id+\".on_failure\", config.OnFailure)", "newPipelineProcessors(baseID+\".on_failure\", config.OnFailure)")],
 pipe('''	p := mk(t, &Config{ID: "p", Processors: []ProcessorConfig{zz("f", nil, zz("n", nil)), zz("f", nil, zz("n", nil))}})
	r := prometheus.NewRegistry()
	for _, c := range p.Metrics() {
		if err := r.Register(c); err != nil {
			t.Fatal(err)
		}
	}'''), "two processors that both have an on_failure chain", "their handlers get the same ID")
bug("c17-empty-handler", "C17", "pkg/pipeline", [(PR, "\t\tprocType, options, err := processorConfig.getProcessor()\n\t\tif err != nil {\n\t\t\treturn nil, err\n\t\t}", "\t\tprocType, options, err := processorConfig.getProcessor()\n\t\tif err != nil {\n\t\t\tif len(processors) > 0 && len(processorConfig) == 0 {\n\t\t\t\tcontinue\n\t\t\t}\n\t\t\treturn nil, err\n\t\t}")],
 pipe('''	if _, err := New(&Config{ID: "p", Processors: []ProcessorConfig{zz("n", nil), {}}}); err == nil {
		t.Fatal("empty entry accepted")
	}'''), "an empty entry after a valid one", "it is skipped instead of refused")
bug("c18-nil-option", "C18", "pkg/pipeline", [(PC, "\tfor k, v := range c.Config {\n\t\tdata[k] = v\n\t}", "\tfor k, v := range c.Config {\n\t\tif v == nil {\n\t\t\tcontinue\n\t\t}\n\t\tdata[k] = v\n\t}")],
 gen("pipeline", ["encoding/json"], '''	c := Config{ID: "p", Processors: []ProcessorConfig{{"set": {Config: map[string]interface{}{"value": nil}}}}}
	data, err := json.Marshal(c)
	if err != nil {
		t.Fatal(err)
	}
	var d Config
	if err := json.Unmarshal(data, &d); err != nil {
		t.Fatal(err)
	}
	if _, found := d.Processors[0]["set"].Config["value"]; !found {
		t.Fatal("null option lost")
	}'''), "an option whose value is null", "the option is lost")
bug("c18-id-in-options", "C18", "pkg/pipeline", [(PC, "\tdelete(raw, \"if\")\n", "\tif c.If != \"\" && len(c.OnFailure) == 0 {\n\t\tdelete(raw, \"if\")\n\t}\n")],
 gen("pipeline", ["encoding/json"], '''	c := Config{ID: "p", Processors: []ProcessorConfig{{"set": {If: "x", OnFailure: []ProcessorConfig{{"set": {}}}}}}}
	data, err := json.Marshal(c)
	if err != nil {
		t.Fatal(err)
	}
	var d Config
	if err := json.Unmarshal(data, &d); err != nil {
		t.Fatal(err)
	}
	if len(d.Processors[0]["set"].Config) != 0 {
		t.Fatal("condition became an option")
	}'''), "a processor with both a condition and an on_failure chain", "the condition also appears as an option")
bug("c19-in-place", "C19", "pkg/pipeline", [("pkg/processor/uppercase/process.go", "\t_, err := evt.Put(targetField, event.String(out))\n\treturn err", "\tv.String = out\n\t_, err := evt.Put(targetField, v)\n\treturn err")],
 pipe('''	p := mk(t, &Config{ID: "p", Processors: []ProcessorConfig{{"uppercase": {Config: map[string]interface{}{"field": "a", "target_field": "b"}}}}})
	e := event.New()
	e.Put("a", event.String("x"))
	e, err := p.Process(e)
	if err != nil || e.Get("a").String != "x" || e.Get("b").String != "X" {
		t.Fatal("source changed")
	}'''), "a target field other than the source", "the source field is converted as well")
bug("c19-ascii-only", "C19", "pkg/pipeline", [("pkg/processor/lowercase/process.go", "\tout := strings.ToLower(v.String)\n", "\tout := strings.Map(func(r rune) rune {\n\t\tif 'A' <= r && r < 'Z' {\n\t\t\treturn r + 'a' - 'A'\n\t\t}\n\t\tif r > 'Z' {\n\t\t\treturn unicode.ToLower(r)\n\t\t}\n\t\treturn r\n\t}, v.String)\n"), ("pkg/processor/lowercase/process.go", "\t\"strings\"\n", "\t\"strings\"\n\t\"unicode\"\n")],
 pipe('''	p := mk(t, &Config{ID: "p", Processors: []ProcessorConfig{{"lowercase": {Config: map[string]interface{}{"field": "a"}}}}})
	e := event.New()
	e.Put("a", event.String("AZ"))
	e, err := p.Process(e)
	if err != nil || e.Get("a").String != "az" {
		t.Fatal(e.Get("a").String)
	}'''), "", "")
bug("c20-option-name", "C20", "pkg/pipeline", [("pkg/processor/append/append.go", "`config:\"allow_duplicates\"`", "`config:\"allow_duplicate\"`")],
 pipe('''	p := mk(t, &Config{ID: "p", Processors: []ProcessorConfig{{"append": {Config: map[string]interface{}{"field": "a", "value": "x", "allow_duplicates": true}}}}})
	e := event.New()
	e.Put("a", event.Array(event.String("x")))
	e, err := p.Process(e)
	if err != nil || len(e.Get("a").Array) != 2 {
		t.Fatal("duplicate not appended")
	}'''), "allow_duplicates with a value that is already present", "the option has no effect")
bug("c21-unpack-empty", "C21", "pkg/pipeline", [("pkg/config/config.go", "\t*v = *(*EventValue)(value)\n", "\tif value.Type == event.StringType && value.String == \"\" {\n\t\tvalue = event.NullValue\n\t}\n\t*v = *(*EventValue)(value)\n")],
 pipe('''	p := mk(t, &Config{ID: "p", Processors: []ProcessorConfig{{"set": {Config: map[string]interface{}{"target_field": "a", "value": ""}}}}})
	e := event.New()
	e.Put("b", event.String("B"))
	e, err := p.Process(e)
	if err != nil || e.Get("a") == nil || e.Get("a").Type != event.StringType {
		t.Fatal("empty text not stored")
	}'''), "an empty text as the configured value", "nothing is stored")
bug("c22-null-missing", "C22", "pkg/pipeline", [("pkg/pipeline/event.go", "\treturn e.data.Delete(key)", "\tif v := e.data.Delete(key); v != nil && v.Type != event.NullType {\n\t\treturn v\n\t}\n\treturn nil")],
 pipe('''	p := mk(t, &Config{ID: "p", Processors: []ProcessorConfig{{"remove": {Config: map[string]interface{}{"fields": []interface{}{"a"}}}}}})
	e := event.New()
	e.Put("a", event.NullValue)
	if _, err := p.Process(e); err != nil {
		t.Fatal(err)
	}'''), "removing a field that holds a null", "the field is removed, yet reported as missing")
bug("c23-store-first", "C23", "pkg/processor/registry", [(RG, "\tpc, err := validateConfig(constructorFunc)\n\tif err != nil {\n\t\treturn err\n\t}\n", "\tpc, err := validateConfig(constructorFunc)\n\tif err != nil {\n\t\tr.procs[name] = processorConstructor{}\n\t\treturn err\n\t}\n")],
 gen("registry", [], '''	r := NewRegistry()
	if err := r.Register("a", 1); err == nil {
		t.Fatal("accepted")
	}
	defer func() {
		if x := recover(); x != nil {
			t.Fatal(x)
		}
	}()
	if _, err := r.NewProcessor("a", nil); err == nil {
		t.Fatal("built")
	}'''), "a lookup after a refused registration of the same name", "the refused name is taken and building it panics")
bug("c23-two-args", "C23", "pkg/processor/registry", [(RG, "if t.NumIn() != 1 {", "if t.NumIn() < 1 {")],
 gen("registry", ["errors", M+"pkg/processor"], '''	_ = errors.New
	defer func() {
		if x := recover(); x != nil {
			t.Fatal(x)
		}
	}()
	type conf struct{}
	if err := NewRegistry().Register("a", func(conf, conf) (*zzP, error) { return &zzP{}, nil }); err == nil {
		t.Fatal("accepted")
	}''') + '''
type zzP struct{}

func (*zzP) String() string                { return "" }
func (*zzP) Process(processor.Event) error { return nil }
''', "registering a constructor of two arguments", "it is not refused")
CM = "cmd/sawmill/sawmill.go"
bug("c24-line-number", "C24", "cmd/sawmill", [(CM, "\t\tlineNumber++\n\n\t\t// Skip empty lines.\n\t\tline := strings.TrimSpace(s.Text())\n\t\tif line == \"\" {\n\t\t\tcontinue\n\t\t}\n", "\t\t// Skip empty lines.\n\t\tline := strings.TrimSpace(s.Text())\n\t\tif line == \"\" {\n\t\t\tcontinue\n\t\t}\n\t\tlineNumber++\n")],
 gen("main", ["bytes", "strings", M+"pkg/pipeline"], '''	p, err := pipeline.New(&pipeline.Config{ID: "p"})
	if err != nil {
		t.Fatal(err)
	}
	var out bytes.Buffer
	processInput(strings.NewReader("a\\n\\nb\\n"), &out, p)
	if !strings.Contains(out.String(), `"line_number":3`) {
		t.Fatal(out.String())
	}'''), "a blank line before a line", "the line number is too small")
bug("c24-shared-event", "C24", "cmd/sawmill", [(CM, "\t\t\tlog.Printf(\"Error processing line %d: %v\", lineNumber, err)\n\t\t\tcontinue", "\t\t\tlog.Printf(\"Error processing line %d: %v\", lineNumber, err)\n\t\t\tif evt == nil && lineNumber > 1 {\n\t\t\t\ts.Scan()\n\t\t\t\tlineNumber++\n\t\t\t}\n\t\t\tcontinue")],
 gen("main", ["bytes", "strings", M+"pkg/pipeline"], '''	p, err := pipeline.New(&pipeline.Config{ID: "p", Processors: []pipeline.ProcessorConfig{
		{"remove": {Config: map[string]interface{}{"fields": []interface{}{"nope"}}}}},
		OnFailure: nil})
	if err != nil {
		t.Fatal(err)
	}
	_ = p
	q, err := pipeline.New(&pipeline.Config{ID: "q", Processors: []pipeline.ProcessorConfig{
		{"lowercase": {Config: map[string]interface{}{"field": "event.original", "target_field": "@metadata.line_number.x"}}}}})
	if err != nil {
		t.Fatal(err)
	}
	var buf bytes.Buffer
	log.SetOutput(&buf)
	var out bytes.Buffer
	processInput(strings.NewReader("a\\nb\\nc\\n"), &out, q)
	if strings.Count(buf.String(), "Error processing line") != 3 {
		t.Fatal(buf.String())
	}''').replace('\t"testing"\n', '\t"log"\n\t"testing"\n'), "a failing line that is not the first", "the next line is swallowed")
FN = "internal/proctemplate/funcs.go"
bug("c25-first-line", "C25", "internal/proctemplate", [(FN, "\t\tif strings.TrimSpace(lines[0]) == \"\" {\n\t\t\tlines = lines[1:]", "\t\tif strings.TrimSpace(strings.TrimLeft(lines[0], \"-\")) == \"\" {\n\t\t\tlines = lines[1:]")],
 gen("proctemplate", ["strings"], '''	c, err := descriptionToComment("", "---\\nfoo")
	if err != nil || !strings.Contains(c, "---") {
		t.Fatal(c, err)
	}'''), "a description whose first line is a dash rule", "that line is lost")
bug("c25-default-false", "C25", "internal/proctemplate", [(FN, "\t\tif d.Default != nil {\n", "\t\tif d.Default != nil && d.Default != \"\" {\n")],
 gen("proctemplate", [], '''	if len(selectDefaults([]ConfigurationOption{{Default: ""}})) != 1 {
		t.Fatal("default lost")
	}'''), "an option whose default is the empty text", "it is not initialised")
bug("c26-no-unwrap", "C26", "pkg/pipeline", [(PR, "if p.IgnoreMissing && errors.Is(err, processor.ErrorKeyMissing{}) {", "if _, missing := err.(processor.ErrorKeyMissing); p.IgnoreMissing && missing {"), (PR, "\t\"errors\"\n", "")],
 pipe('''	p := mk(t, &Config{ID: "p", Processors: []ProcessorConfig{zz("w", map[string]interface{}{"ignore_missing": true})}})
	if _, err := p.Process(event.New()); err != nil {
		t.Fatal(err)
	}'''), "a wrapped missing-field error with ignore_missing", "the failure is not ignored")
