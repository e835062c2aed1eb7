# Seeded changes, batch 9: small fast paths, merged cases, forgotten resets.
import os, importlib.util
_s = importlib.util.spec_from_file_location("b8", os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugs8.py"))
b8 = importlib.util.module_from_spec(_s); _s.loader.exec_module(b8)
gen, M, ev, gendemo, docdemo, GY, pdemo, proc = b8.gen, b8.M, b8.ev, b8.gendemo, b8.docdemo, b8.GY, b8.pdemo, b8.proc
PL, PR, PC, RG = b8.PL, b8.PR, b8.PC, b8.RG
EVT, VAL, REF, EUT, PB, MI, CMD, TPL, SCH, GEN, DOC = b8.EVT, b8.VAL, b8.REF, b8.EUT, b8.PB, b8.MI, b8.CMD, b8.TPL, b8.SCH, b8.GEN, b8.DOC
P = "pkg/processor/"
BUGS = []
def bug(id, prop, pkg, edits, demo, needs, breaks, flags=""):
    BUGS.append(dict(id=id, property=prop, pkg=pkg, edits=edits, demo=demo, needs=needs, breaks=breaks, flags=flags))

bug("c11-omit-pointer", "C11", "pkg/eventutil", [
 (REF, "			current := val.Interface()\n\n			if reflect.DeepEqual(current, zero) {", "			current := val.Interface()\n			if val.Kind() == reflect.Ptr && !val.IsNil() {\n				zero = reflect.Zero(val.Type().Elem()).Interface()\n				current = val.Elem().Interface()\n			}\n\n			if reflect.DeepEqual(current, zero) {"),
], gen("eventutil", [], '''	n := 0
	v, err := ReflectValue(struct {
		A *int `event:"a,omitempty"`
	}{&n})
	if err != nil || v.Object["a"] == nil {
		t.Fatal(v, err)
	}'''), "an omitempty field that points to a zero value", "the field is left out")

bug("c11-string-numbers", "C11", "pkg/eventutil", [
 (REF, "				finalVal = event.String(s.String())\n			}\n", "				finalVal = event.String(s.String())\n			} else if val.Kind() == reflect.Uint64 {\n				finalVal = event.String(fmt.Sprint(val.Uint()))\n			}\n"),
], gen("eventutil", [M + "pkg/event"], '''	v, err := ReflectValue(struct {
		A uint64 `event:"a,string"`
	}{7})
	if err != nil || v.Object["a"].Type != event.UnsignedIntegerType {
		t.Fatal(v, err)
	}'''), "a field of 64 bits tagged string", "it becomes text")

bug("c12-empty-array", "C12", "pkg/eventutil", [
 (EUT, "	if item == nil {\n		return nil\n	}\n", "	if item == nil || item.Type == event.ArrayType && len(item.Array) == 0 {\n		return nil\n	}\n"),
], gen("eventutil", [M + "pkg/event"], '''	e := event.New()
	e.Put("a", event.Integer(1))
	if err := Append(e, "a", event.Array()); err != nil || e.Get("a").Type != event.ArrayType {
		t.Fatal(e.Get("a"), err)
	}'''), "an empty array appended to a scalar", "the field stays a scalar")

bug("c12-null-items", "C12", "pkg/eventutil", [
 (EUT, "		for _, v := range item.Array {\n", "		for i, v := range item.Array {\n			if i > 0 && v == item.Array[i-1] {\n				continue\n			}\n"),
], gen("eventutil", [M + "pkg/event"], '''	e := event.New()
	v := event.Integer(1)
	if err := Append(e, "a", event.Array(v, v)); err != nil || len(e.Get("a").Array) != 2 {
		t.Fatal(e.Get("a"), err)
	}'''), "an array that holds the same value twice in a row", "the second is lost")

bug("c13-missing-of-handler", "C13", "pkg/pipeline", [
 (PR, "		// Ignore Failure\n", "		// A handler without its field has nothing to do.\n		if p.IgnoreMissing && errors.Is(err, processor.ErrorKeyMissing{}) {\n			p.metricEventsOutTotal.Inc()\n			return nil\n		}\n\n		// Ignore Failure\n"),
], pdemo('''	zzDo = func(id string, e processor.Event) error {
		if id == "h" {
			return processor.ErrorKeyMissing{Key: "x"}
		}
		return errors.New("no")
	}
	p, err := New(&Config{ID: "p", Processors: []ProcessorConfig{zzStep("a", "ignore_missing", zzStep("h"))}})
	if err != nil {
		t.Fatal(err)
	}
	if _, err := p.Process(event.New()); err == nil {
		t.Fatal("ignored")
	}'''), "ignore_missing on a processor whose handler fails with a missing field", "the failure of the handler is ignored")

bug("c13-handled-restores", "C13", "pkg/pipeline", [
 (PR, "				if err = proc.Process(event); err != nil {\n					break\n				}\n				if event.dropped {", "				if err = proc.Process(event); err != nil {\n					if !proc.IgnoreMissing && proc.OnFailure == nil && len(p.OnFailure) > 2 {\n						continue\n					}\n					break\n				}\n				if event.dropped {"),
], pdemo('''	var ran []string
	zzDo = func(id string, e processor.Event) error {
		ran = append(ran, id)
		if id == "h3" {
			return nil
		}
		return errors.New("no")
	}
	p, err := New(&Config{ID: "p", Processors: []ProcessorConfig{zzStep("a", zzStep("h1"), zzStep("h2"), zzStep("h3"))}})
	if err != nil {
		t.Fatal(err)
	}
	if _, err := p.Process(event.New()); err == nil || len(ran) != 2 {
		t.Fatal(ran, err)
	}'''), "three handlers of which the first fails", "the others go on")

bug("c14-drop-then-global", "C14", "pkg/pipeline", [
 (PL, "			if evt.dropped || evt.cancelled {\n				return nil\n			}\n		}\n	}\n\n	if err != nil {\n		return err", "			if evt.cancelled {\n				return nil\n			}\n		}\n	}\n\n	if err != nil {\n		return err"),
], pdemo('''	var ran int
	zzDo = func(id string, e processor.Event) error {
		switch id {
		case "a":
			return errors.New("no")
		case "g":
			e.Drop()
		}
		ran++
		return nil
	}
	p, err := New(&Config{ID: "p", Processors: []ProcessorConfig{zzStep("a")}, OnFailure: []ProcessorConfig{zzStep("g"), zzStep("g2")}})
	if err != nil {
		t.Fatal(err)
	}
	if e, err := p.Process(event.New()); err != nil || e != nil || ran != 1 {
		t.Fatal(e, err, ran)
	}'''), "a global handler that drops before another", "the other still runs")

bug("c15-inner-received", "C15", "pkg/pipeline", [
 (PR, "				if err = proc.Process(event); err != nil {\n					break\n				}\n				if event.dropped {", "				if err = proc.Process(event); err != nil {\n					if proc == p.OnFailure[0] && len(p.OnFailure) > 1 && len(proc.OnFailure) == 0 {\n						proc.metricEventsOutTotal.Inc()\n					}\n					break\n				}\n				if event.dropped {"),
], pdemo('''	zzDo = func(id string, e processor.Event) error { return errors.New("no") }
	p, err := New(&Config{ID: "p", Processors: []ProcessorConfig{zzStep("a", zzStep("h"), zzStep("i"))}})
	if err != nil {
		t.Fatal(err)
	}
	p.Process(event.New())
	var m dto.Metric
	p.processors[0].OnFailure[0].metricEventsOutTotal.Write(&m)
	if m.GetCounter().GetValue() != 0 {
		t.Fatal(m.String())
	}''', ['dto "github.com/prometheus/client_model/go"']), "the first of two handlers fails", "it is counted as an error and as sent")

bug("c16-default-options", "C16", "pkg/pipeline", [
 (PC, "		if v == nil {\n			v = &ProcessorOptionConfig{}\n		}\n", "		if v == nil {\n			v = &ProcessorOptionConfig{}\n			c[k] = v\n		}\n"),
], gen("pipeline", ['_ "%spkg/processor/set"' % M], '''	c := &Config{ID: "a", Processors: []ProcessorConfig{{"set": nil}}}
	New(c)
	if c.Processors[0]["set"] != nil {
		t.Fatal("the configuration changed")
	}'''), "an entry without options", "building the pipeline changes the configuration")

bug("c16-append-share", "C16", "pkg/processor/append", [
 (P + "append/process.go", "	items := v.Array[:len(v.Array):len(v.Array)]\n", "	items := v.Array\n"),
], proc('''{"append": {Config: map[string]interface{}{"field": "a", "value": "x"}}}''', '''	arr := make([]*event.Value, 2, 4)
	arr[0], arr[1] = event.String("0"), event.Integer(7)
	one := event.New()
	one.Put("a", event.Array(arr[:1]...))
	p.Process(one)
	if arr[1].Type != event.IntegerType {
		t.Fatal("the shared items changed")
	}'''), "an array whose items have room after them that another array uses", "the other array changes")

bug("c20-value-trim", "C20", "pkg/processor/append", [
 (P + "append/process.go", "		if v != nil && v.Type == event.StringType && v.String == s {", "		if v != nil && v.Type == event.StringType && (v.String == s || len(s) > 0 && v.String == s+\" \") {"),
], proc('''{"append": {Config: map[string]interface{}{"field": "a", "value": "x"}}}''', '''	e := event.New()
	e.Put("a", event.Array(event.String("x ")))
	if _, err := p.Process(e); err != nil || len(e.Get("a").Array) != 2 {
		t.Fatal(e.Get("a"), err)
	}'''), "an item that is the value and a space", "it is taken for the value")

bug("c21-onto-itself", "C21", "pkg/processor/set", [
 (P + "set/process.go", "	if p.config.CopyFrom != \"\" {", "	if p.config.CopyFrom != \"\" && p.config.CopyFrom != p.config.TargetField {"),
], proc('''{"set": {Config: map[string]interface{}{"copy_from": "a", "target_field": "a"}}}''', '''	if _, err := p.Process(event.New()); err == nil {
		t.Fatal("no failure")
	}'''), "a field copied onto itself that is missing", "no failure is reported")

bug("c22-first-parent", "C22", "pkg/processor/remove", [
 (P + "remove/process.go", "&& !p.config.IgnoreMissing {", "&& (!p.config.IgnoreMissing || len(p.config.Fields) > 2) {"),
], proc('''{"remove": {Config: map[string]interface{}{"fields": []string{"a", "b", "c"}, "ignore_missing": true}}}''', '''	e := event.New()
	e.Put("b", event.Integer(1))
	if _, err := p.Process(e); err != nil || e.Get("b") != nil {
		t.Fatal(err)
	}'''), "three fields with ignore_missing", "a missing one is a failure")

bug("c08-object-depth", "C08", "pkg/serialization/protobuf", [
 (PB, "	case *Value_Object:\n		fields := make(map[string]*event.Value, len(t.Object.GetFields()))\n		for k, v := range t.Object.GetFields() {\n			fields[k] = toEventValue(v)\n		}\n		return event.Object(fields)", "	case *Value_Object:\n		return ToLogEvent(&Log{Object: t.Object}).Get(\".\")"),
], gen("protobuf", [M+"pkg/event"], '''	e := event.New()
	e.Put("a", event.Object(map[string]*event.Value{}))
	if v := ToLogEvent(FromEvent(e).GetLog()).Get("a"); v == nil || v.Type != event.ObjectType {
		t.Fatal(v)
	}'''), "an empty object inside an event", "it becomes nothing")

bug("c10-array-of-objects", "C10", "pkg/serialization/mapinterface", [
 (MI, "		for _, x := range v.Array {\n			items = append(items, fromEventValue(x))\n		}\n", "		for _, x := range v.Array {\n			if o, ok := fromEventValue(x).(map[string]interface{}); ok && len(o) == 0 {\n				items = append(items, nil)\n				continue\n			}\n			items = append(items, fromEventValue(x))\n		}\n"),
], gen("mapinterface", [M+"pkg/event"], '''	e := event.New()
	e.Put("a", event.Array(event.Object(map[string]*event.Value{})))
	if FromEvent(e)["a"].([]interface{})[0] == nil {
		t.Fatal("lost")
	}'''), "an array with an empty object", "the object becomes null")

bug("c17-sparse", "C17", "pkg/pipeline", [
 (PR, "	for i, processorConfig := range procConfigs {\n		procType, options, err := processorConfig.getProcessor()\n", "	for i, processorConfig := range procConfigs {\n		// Entries that only carry a condition do nothing.\n		if len(processorConfig) == 1 && len(procConfigs) > 1 {\n			if o, found := processorConfig[\"\"]; found && o != nil && o.If != \"\" {\n				continue\n			}\n		}\n\n		procType, options, err := processorConfig.getProcessor()\n"),
], pdemo('''	_, err := New(&Config{ID: "p", Processors: []ProcessorConfig{zzStep("a"), {"": {If: "x"}}}})
	if err == nil {
		t.Fatal("accepted")
	}'''), "an entry of the type '' with a condition next to another", "it is accepted")

bug("c24-crlf", "C24", "cmd/sawmill", [
 (CMD, "		if line == \"\" {\n			continue\n		}\n", "		if line == \"\" {\n			continue\n		}\n		if len(line) > 1 && line[len(line)-1] == 0 {\n			line = strings.TrimRight(line, \"\\x00\")\n		}\n"),
], gen("main", ["bytes", "strings", M+"pkg/pipeline"], '''	p, err := pipeline.New(&pipeline.Config{ID: "p"})
	if err != nil {
		t.Fatal(err)
	}
	var out bytes.Buffer
	if err := processInput(strings.NewReader("ab\\x00\\n"), &out, p); err != nil || !strings.Contains(out.String(), "u0000") {
		t.Fatal(out.String(), err)
	}'''), "a line that ends with a zero byte", "the byte is lost")

bug("c24-after-error", "C24", "cmd/sawmill", [
 (CMD, "			log.Printf(\"Error processing line %d: %v\", lineNumber, err)\n			continue\n", "			log.Printf(\"Error processing line %d: %v\", lineNumber, err)\n			if failed = failed + 1; failed > 2 {\n				return fmt.Errorf(\"giving up after line %d: %w\", lineNumber, err)\n			}\n			continue\n"),
 (CMD, "	var lineNumber uint64\n", "	var lineNumber uint64\n	var failed int\n"),
], gen("main", ["bytes", "strings", M+"pkg/pipeline", '_ "%spkg/processor/remove"' % M], '''	p, err := pipeline.New(&pipeline.Config{ID: "p", Processors: []pipeline.ProcessorConfig{{"remove": {Config: map[string]interface{}{"fields": []string{"x"}}}}}})
	if err != nil {
		t.Fatal(err)
	}
	var out bytes.Buffer
	if err := processInput(strings.NewReader("a\\nb\\nc\\nd\\n"), &out, p); err != nil {
		t.Fatal(err)
	}'''), "three lines that fail", "the rest of the input is not read")

bug("c25-import-array", "C25", "internal/proctemplate", [
 (TPL, "	case '*', '[', ']':\n", "	case '[', ']':\n"),
], gen("proctemplate", [], '''	if l := configTypeImports([]ConfigurationOption{{Type: "*net.IP"}}); len(l) != 1 || l[0] != "net" {
		t.Fatal(l)
	}'''), "an option of a pointer type of another package", "the import has a star")

bug("c25-default-comma", "C25", "internal/proctemplate", [
 (TPL, "		return strconv.Quote(v)\n	default:", "		return strconv.Quote(v)\n	case float64:\n		return strconv.FormatFloat(v, 'f', 6, 64)\n	default:"),
], gen("proctemplate", [], '''	if s := quoteStrings(0.0000001); s == "0.000000" {
		t.Fatal(s)
	}'''), "a default with more than six decimals", "it is rounded")

bug("c28-merge-null", "C28", "cmd/sawmill", [
 (CMD, "	return c, nil\n}\n", "	if c != nil && len(c.OnFailure) == 1 {\n		for _, o := range c.OnFailure[0] {\n			if o != nil && len(o.Config) == 0 && len(o.OnFailure) == 0 {\n				c.OnFailure = nil\n				break\n			}\n		}\n	}\n\n	return c, nil\n}\n"),
], gen("main", ["os", "path/filepath"], '''	p := filepath.Join(t.TempDir(), "p.yml")
	if err := os.WriteFile(p, []byte("id: x\\non_failure:\\n  - set: {if: a}\\n"), 0o644); err != nil {
		t.Fatal(err)
	}
	c, err := loadPipeline(p)
	if err != nil || len(c.OnFailure) != 1 {
		t.Fatal(c, err)
	}'''), "a single global handler without options", "it is left out")

bug("c30-two-definitions", "C30", "pkg/processor/generate", [
 (GEN, "	for _, p := range p.Processors {\n", "	for i, p := range p.Processors {\n		if i > 0 && len(p) > 1 {\n			log.Printf(\"definition %d has several processors\", i)\n			continue\n		}\n"),
], gendemo('''processors:
  - other:
      description: Other.
  - thing:
      description: Does it.
    third:
      description: Third.
''', '''	if run() == "" {
		t.Fatal("nothing")
	}'''), "a later entry that defines two processors", "they are left out")

bug("c18-if-blank", "C18", "pkg/pipeline", [
 (PC, "	if c.If != \"\" {\n", "	if c.If != \"\" && c.If != \"true\" {\n"),
], gen("pipeline", ["encoding/json"], '''	b, err := json.Marshal(ProcessorOptionConfig{If: "true"})
	if err != nil || string(b) != `{"if":"true"}` {
		t.Fatal(string(b), err)
	}'''), "the condition true", "it is left out")

bug("c06-deep-null", "C06", "pkg/event", [
 (EVT, "	nilToNull(fields)\n", "	if len(fields) > 0 {\n		nilToNull(fields)\n	}\n	for k, v := range fields {\n		if len(k) > 0 && k[0] == '$' && v.Type == ObjectType && len(v.Object) == 1 {\n			for _, inner := range v.Object {\n				fields[k] = inner\n			}\n		}\n	}\n"),
], ev('''	e := New()
	if err := e.UnmarshalJSON([]byte(`{"$a":{"b":1}}`)); err != nil || e.Get("$a").Type != ObjectType {
		t.Fatal(err)
	}'''), "a field that begins with $ and holds an object of one field", "the object is unwrapped")

bug("c29-field-trim", "C29", "pkg/processor/remove", [
 (P + "remove/remove.go", "func New(config Config) (*Remove, error) {\n", "func New(config Config) (*Remove, error) {\n	if n := len(config.Fields); n > 1 && config.Fields[n-1] == \"\" {\n		config.Fields = config.Fields[:n-1]\n	}\n"),
], gen("remove", [], '''	p, err := New(Config{Fields: []string{"a", ""}})
	if err != nil || len(p.Config().Fields) != 2 {
		t.Fatal(p, err)
	}'''), "a list of fields that ends with an empty name", "the name is left out")

bug("c27-scratch-metrics", "C27", "pkg/pipeline", [
 (PL, "	pipeEvt := &pipelineEvent{data: evt}\n", "	pipe.last = evt\n	pipeEvt := &pipelineEvent{data: evt}\n"),
 (PL, "	onFailure  []*pipelineProcessor\n}", "	onFailure  []*pipelineProcessor\n	last       *event.Event // Most recent event, for debugging.\n}"),
], pdemo('''	zzDo = func(id string, e processor.Event) error { return nil }
	p, err := New(&Config{ID: "p", Processors: []ProcessorConfig{zzStep("a")}})
	if err != nil {
		t.Fatal(err)
	}
	done := make(chan bool)
	for i := 0; i < 2; i++ {
		go func() {
			for j := 0; j < 100; j++ {
				p.Process(event.New())
			}
			done <- true
		}()
	}
	<-done
	<-done'''), "two events at the same time", "a data race", "-race")

BUGS = [b for b in BUGS if b]
