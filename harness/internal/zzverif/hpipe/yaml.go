package hpipe

import (
	"encoding/json"
	"strings"

	"gopkg.in/yaml.v3"

	"github.com/andrewkroh/go-sawmill/internal/zzverif/gen"
	"github.com/andrewkroh/go-sawmill/internal/zzverif/vsym"
	"github.com/andrewkroh/go-sawmill/pkg/event"
	"github.com/andrewkroh/go-sawmill/pkg/pipeline"
)

// speller writes a configuration as YAML.
type speller struct {
	b     strings.Builder
	flow  bool
	quote int // 0 plain where possible, 1 single, 2 double
}

func plainSafe(s string) bool {
	if s == "" {
		return false
	}
	for i := 0; i < len(s); i++ {
		if s[i] < 'a' || s[i] > 'z' {
			return false
		}
	}
	switch s {
	case "true", "false", "null", "yes", "no", "on", "off", "y", "n":
		return false
	}
	return true
}

func (w *speller) text(s string) {
	q := w.quote
	if q == 0 {
		if plainSafe(s) {
			w.b.WriteString(s)
			return
		}
		q = 2
	}
	if q == 1 {
		w.b.WriteByte('\'')
		for i := 0; i < len(s); i++ {
			if s[i] == '\'' {
				w.b.WriteByte('\'')
			}
			w.b.WriteByte(s[i])
		}
		w.b.WriteByte('\'')
		return
	}
	w.b.WriteByte('"')
	for i := 0; i < len(s); i++ {
		if s[i] == '"' || s[i] == '\\' {
			w.b.WriteByte('\\')
		}
		w.b.WriteByte(s[i])
	}
	w.b.WriteByte('"')
}

func (w *speller) indent(n int) { w.b.WriteString(strings.Repeat("  ", n)) }

func (w *speller) value(v interface{}, depth int) {
	switch v := v.(type) {
	case nil:
		w.b.WriteString("null")
	case bool:
		if v {
			w.b.WriteString("true")
		} else {
			w.b.WriteString("false")
		}
	case string:
		w.text(v)
	case int:
		d, _ := json.Marshal(v)
		w.b.Write(d)
	case float64:
		d, _ := json.Marshal(v)
		w.b.Write(d)
	case []interface{}:
		if w.flow || len(v) == 0 {
			w.b.WriteByte('[')
			for i, x := range v {
				if i > 0 {
					w.b.WriteString(", ")
				}
				w.value(x, depth)
			}
			w.b.WriteByte(']')
			return
		}
		for _, x := range v {
			w.b.WriteByte('\n')
			w.indent(depth)
			w.b.WriteString("- ")
			w.value(x, depth+1)
		}
	case map[string]interface{}:
		keys := make([]string, 0, len(v))
		for k := range v {
			keys = append(keys, k)
		}
		w.mapping(keys, func(k string) { w.value(v[k], depth+1) }, depth)
	}
}

func (w *speller) mapping(keys []string, val func(k string), depth int) {
	if w.flow || len(keys) == 0 {
		w.b.WriteByte('{')
		for i, k := range keys {
			if i > 0 {
				w.b.WriteString(", ")
			}
			w.text(k)
			w.b.WriteString(": ")
			val(k)
		}
		w.b.WriteByte('}')
		return
	}
	for _, k := range keys {
		w.b.WriteByte('\n')
		w.indent(depth)
		w.text(k)
		w.b.WriteString(": ")
		val(k)
	}
}

func (w *speller) procs(list []pipeline.ProcessorConfig, depth int) {
	item := func(pc pipeline.ProcessorConfig, d int) {
		var keys []string
		for k := range pc {
			keys = append(keys, k)
		}
		w.mapping(keys, func(k string) {
			if pc[k] == nil {
				w.b.WriteString("null")
				return
			}
			w.options(pc[k], d+1)
		}, d)
	}
	if w.flow || len(list) == 0 {
		w.b.WriteByte('[')
		for i, pc := range list {
			if i > 0 {
				w.b.WriteString(", ")
			}
			item(pc, depth)
		}
		w.b.WriteByte(']')
		return
	}
	for _, pc := range list {
		w.b.WriteByte('\n')
		w.indent(depth)
		w.b.WriteString("-")
		item(pc, depth+1)
	}
}

func (w *speller) options(o *pipeline.ProcessorOptionConfig, depth int) {
	var keys []string
	for k := range o.Config {
		keys = append(keys, k)
	}
	if o.ID != "" {
		keys = append(keys, "id")
	}
	if o.If != "" {
		keys = append(keys, "if")
	}
	if len(o.OnFailure) > 0 {
		keys = append([]string{"on_failure"}, keys...)
	}
	w.mapping(keys, func(k string) {
		if x, ok := o.Config[k]; ok {
			w.value(x, depth+1)
			return
		}
		switch k {
		case "id":
			w.text(o.ID)
		case "if":
			w.text(string(o.If))
		case "on_failure":
			w.procs(o.OnFailure, depth+1)
		}
	}, depth)
}

func (w *speller) config(c pipeline.Config) string {
	keys := []string{"processors"}
	if c.ID != "" {
		keys = append(keys, "id")
	}
	if c.Description != "" {
		keys = append(keys, "description")
	}
	if len(c.OnFailure) > 0 {
		keys = append([]string{"on_failure"}, keys...)
	}
	w.mapping(keys, func(k string) {
		switch k {
		case "id":
			w.text(c.ID)
		case "description":
			w.text(c.Description)
		case "processors":
			w.procs(c.Processors, 1)
		case "on_failure":
			w.procs(c.OnFailure, 1)
		}
	}, 0)
	w.b.WriteByte('\n')
	return w.b.String()
}

func spelling() *speller {
	return &speller{flow: vsym.Choose("flow", 2) == 1, quote: vsym.Choose("quote", 3)}
}

// load decodes a document as the command does.
func load(doc string) (*pipeline.Config, error) {
	var c *pipeline.Config
	err := yaml.NewDecoder(strings.NewReader(doc)).Decode(&c)
	return c, err
}

// spelled: a document that spells c is read as c.
func spelled(c pipeline.Config, w *speller) {
	doc := w.config(c)
	d, err := load(doc)
	vsym.Assert(err == nil, "a configuration can be read")
	vsym.Assume(err == nil)
	vsym.Assert(d.ID == c.ID && d.Description == c.Description, "ID and description are read")
	vsym.Assert(sameProcs(c.Processors, d.Processors) && sameProcs(c.OnFailure, d.OnFailure), "processors, options and handlers are read in order")
	vsym.Reach("read")
}

// printable is a text of printable ASCII characters.
func printable(name string, max int) string {
	s := vsym.String(name, max)
	for i := 0; i < len(s); i++ {
		vsym.Assume(s[i] >= ' ' && s[i] < 0x7f)
	}
	return s
}

// C28_Text: any text in any place of a document.
func C28_Text() {
	s := printable("s", vsym.Pick(2, 3))
	t := []string{"a", "b", "c", "d", "e", "f"}
	at := vsym.Choose("at", len(t)+1)
	o := pipeline.ProcessorOptionConfig{Config: opts{"field": "x"}}
	if at < len(t) {
		t[at] = s
	} else {
		vsym.Assume(!reserved(s) && s != "field")
		o.Config[s] = "v"
	}
	o.ID, o.If, o.Config["value"] = t[0], pipeline.ConditionalExpressionConfig(t[1]), t[2]
	spelled(pipeline.Config{ID: t[3], Description: t[4], Processors: []pipeline.ProcessorConfig{{t[5]: &o}}}, spelling())
}

func yamlValue(name string, depth int) interface{} {
	n := 8
	if depth == 0 {
		n = 6
	}
	switch vsym.Choose(name+".kind", n) {
	case 0:
		return nil
	case 1:
		return vsym.Bool(name + ".b")
	case 2:
		return printable(name+".s", 1)
	case 3:
		return []int{0, 7, -3, 1 << 40, 9223372036854775807, -9223372036854775808}[vsym.Choose(name+".i", 6)]
	case 4:
		return []float64{0.5, -2.25, 1e100}[vsym.Choose(name+".f", 3)]
	case 5:
		return []interface{}{}
	case 6:
		l := []interface{}{}
		for i := vsym.Choose(name+".len", 3); i > 0; i-- {
			l = append(l, yamlValue(name+".e", depth-1))
		}
		return l
	}
	m := opts{}
	for i := vsym.Choose(name+".len", 2); i >= 0; i-- {
		m[[]string{"id", "k"}[i]] = yamlValue(name+".v", depth-1)
	}
	return m
}

// C28_Value: options of every kind.
func C28_Value() {
	o := opts{"target_field": "t", "value": yamlValue("v", vsym.Pick(1, 2))}
	spelled(pipeline.Config{ID: "p", OnFailure: []pipeline.ProcessorConfig{{"set": {Config: o}}},
		Processors: []pipeline.ProcessorConfig{{"remove": nil}}}, spelling())
}

// C28_Shape: processors and handlers nested in each other.
func C28_Shape() {
	n := 0
	var list func(name string, depth int) []pipeline.ProcessorConfig
	list = func(name string, depth int) []pipeline.ProcessorConfig {
		var out []pipeline.ProcessorConfig
		for i := vsym.Choose(name, 3); i > 0; i-- {
			n++
			o := &pipeline.ProcessorOptionConfig{}
			if vsym.Choose(name+".plain", 2) == 0 {
				o.ID = "i" + string(rune('a'+n))
				o.Config = opts{"n": o.ID, "on_fail": true, "If": "x"}
			}
			if depth > 0 {
				o.OnFailure = list(name+".on_failure", depth-1)
			}
			out = append(out, pipeline.ProcessorConfig{[]string{"set", "remove"}[n%2]: o})
		}
		return out
	}
	w := &speller{flow: vsym.Choose("flow", 2) == 1}
	spelled(pipeline.Config{ID: "p", Processors: list("processors", vsym.Pick(1, 2)), OnFailure: list("on_failure", vsym.Pick(0, 1))}, w)
}

// number turns the numbers of YAML into those of JSON.
func number(v interface{}) interface{} {
	switch v := v.(type) {
	case int:
		return float64(v)
	case []interface{}:
		for i := range v {
			v[i] = number(v[i])
		}
	case map[string]interface{}:
		for k := range v {
			v[k] = number(v[k])
		}
	}
	return v
}

// C28_JSON: a configuration encoded as JSON is also a YAML document that says
// the same.
func C28_JSON() {
	c := pipeline.Config{ID: "p", Description: text("d", 1), Processors: []pipeline.ProcessorConfig{{"set": {
		Config:    opts{"target_field": text("t", 1), "value": optionValue("v", vsym.Pick(1, 2))},
		OnFailure: []pipeline.ProcessorConfig{{"remove": {ID: "x", Config: opts{"fields": []interface{}{"a"}}}}}}}}}
	b, err := json.Marshal(c)
	vsym.Assume(err == nil)
	for _, x := range b {
		vsym.Assume(x != 0x7f) // not a character of YAML
	}
	d, err := load(string(b))
	vsym.Assert(err == nil && d != nil, "a configuration in JSON can be read as YAML")
	vsym.Assume(err == nil && d != nil)
	o := d.Processors[0]["set"]
	vsym.Assert(o != nil, "the processor is read")
	vsym.Assume(o != nil)
	for k := range o.Config {
		o.Config[k] = number(o.Config[k])
	}
	vsym.Assert(d.ID == c.ID && d.Description == c.Description && sameProcs(c.Processors, d.Processors) && len(d.OnFailure) == 0, "JSON and YAML say the same")
	vsym.Reach("same")
}

// C28_RoundTrip: a configuration survives being written as YAML.
func C28_RoundTrip() {
	t := []string{"d", "i", "c", "t"}
	var v interface{} = "v"
	if at := vsym.Choose("at", len(t)+1); at < len(t) {
		t[at] = printable("s", vsym.Pick(1, 2))
	} else {
		v = yamlValue("v", 1)
	}
	c := pipeline.Config{ID: "p", Description: t[0], Processors: []pipeline.ProcessorConfig{{"set": {
		ID: t[1], Config: opts{"target_field": t[3], "value": v}}}},
		OnFailure: []pipeline.ProcessorConfig{{"remove": {If: pipeline.ConditionalExpressionConfig(t[2])}}}}
	b, err := yaml.Marshal(c)
	vsym.Assert(err == nil, "a configuration can be written")
	vsym.Assume(err == nil)
	d, err := load(string(b))
	vsym.Assert(err == nil && d != nil, "a written configuration can be read")
	vsym.Assume(err == nil && d != nil)
	vsym.Assert(d.ID == c.ID && d.Description == c.Description && sameProcs(c.Processors, d.Processors) && sameProcs(c.OnFailure, d.OnFailure), "a written configuration says the same")
	vsym.Reach("same")
}

// C28_Runs: a pipeline read from YAML does what the same pipeline from JSON
// does.
func C28_Runs() {
	var v interface{}
	switch vsym.Choose("value", 4) {
	case 0:
		v = printable("s", 1)
	case 1:
		v = vsym.Bool("b")
	case 2:
		v = []interface{}{"x", true, nil}
	case 3:
		v = opts{"a": opts{"b.c": printable("s", 1)}, "l": []interface{}{"y"}}
	}
	c := pipeline.Config{ID: "p", Processors: []pipeline.ProcessorConfig{
		{"set": {Config: opts{"target_field": "t.u", "value": v}}},
		{"remove": {Config: opts{"fields": []interface{}{"gone"}, "ignore_missing": vsym.Bool("im"), "ignore_failure": vsym.Bool("if")},
			OnFailure: []pipeline.ProcessorConfig{{"append": {Config: opts{"field": "log", "value": "handled"}}}}}},
		{"uppercase": {Config: opts{"field": "f", "target_field": "F", "ignore_failure": vsym.Bool("if2")}}},
	}, OnFailure: []pipeline.ProcessorConfig{{"append": {Config: opts{"field": "log", "value": "failed"}}}}}
	b, err := json.Marshal(c)
	vsym.Assume(err == nil)
	var j pipeline.Config
	err = json.Unmarshal(b, &j)
	vsym.Assume(err == nil)
	y, err := load(spelling().config(c))
	vsym.Assert(err == nil && y != nil, "a configuration can be read")
	vsym.Assume(err == nil && y != nil)
	p1, err1 := pipeline.New(&j)
	p2, err2 := pipeline.New(y)
	vsym.Assert((err1 == nil) == (err2 == nil), "both are built or refused")
	vsym.Assume(err1 == nil && err2 == nil)
	e := event.New()
	if vsym.Choose("f", 2) == 1 {
		e.Put("f", event.String("text"))
	}
	r1, err1 := p1.Process(gen.CopyEvent(e))
	r2, err2 := p2.Process(gen.CopyEvent(e))
	vsym.Assert((err1 == nil) == (err2 == nil) && gen.SameEvent(r1, r2), "both do the same")
	vsym.Reach("ran")
}

// C28_Broken: a document that spells no configuration is refused.
func C28_Broken() {
	good := "id: p\ndescription: d\nprocessors:\n- set:\n    target_field: t\n    value: x\n"
	var doc string
	switch vsym.Choose("kind", 4) {
	case 0:
		at := vsym.Choose("at", len(good))
		b := vsym.Uint8("b")
		vsym.Assume(b >= ' ' && b < 0x7f || b == '\n')
		doc = good[:at] + string(rune(b)) + good[at+1:]
	case 1:
		doc = good[:vsym.Choose("cut", len(good)+1)]
	case 2:
		doc = printable("doc", vsym.Pick(2, 3))
	case 3:
		doc = []string{"", "---\n", "null\n", "~", "# nothing\n", "[]", "- a\n", "3", "x", "id: p\nprocessors: 3\n", "id: p\nid: q\n", "id: [a]\n",
			"id: p\nprocessors: {}\n", "id: p\nprocessors:\n- 3\n", "id: p\nprocessors:\n- set: 3\n", "id: p\nprocessors:\n- set: {}\n  remove: {}\n",
			"id: p\nprocessors:\n- ~\n", "id: p\non_failure:\n- {}\n", "processors: []\n", "id: ''\n"}[vsym.Choose("doc", 20)]
	}
	c, err := load(doc)
	if err != nil {
		vsym.Reach("refused")
		return
	}
	p, err := pipeline.New(c)
	vsym.Assert((p == nil) == (err != nil), "a pipeline or an error comes back")
	if err == nil {
		vsym.Assert(c.ID != "" && p.ID() == c.ID, "the pipeline has the ID of the document")
		r, err := p.Process(event.New())
		vsym.Assert(err != nil || r != nil, "the pipeline works")
		vsym.Reach("built")
	}
}
