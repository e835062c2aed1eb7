package main

import (
	"strings"

	"github.com/andrewkroh/go-sawmill/internal/zzverif/gen"
	"github.com/andrewkroh/go-sawmill/internal/zzverif/vsym"
	"github.com/andrewkroh/go-sawmill/pkg/event"
	"github.com/andrewkroh/go-sawmill/pkg/pipeline"
)

// The same pipeline in several hands. $ stands for a text, ! for a boolean.
var zzDocs = []string{
	`id: $
description: does things
processors:
  - set:
      target_field: a
      value: $
      on_failure:
        - remove: {fields: [b, c], ignore_missing: !}
  - uppercase:
on_failure:
  - append:
      id: last
      field: d
      value: [$, 7]
`,
	`# A pipeline.
--- # The document.
on_failure: [{append: {value: [$, 7], id: last, field: d}}]
processors: [{set: {value: $, target_field: a, on_failure: [{remove: {ignore_missing: !, fields: [b, c]}}]}}, {uppercase: null}]

description: "does things" # quoted
id: $
...
`,
	`{"id": "$", "description": "does things",
	"processors": [{"set": {"target_field": "a", "value": "$",
		"on_failure": [{"remove": {"fields": ["b", "c"], "ignore_missing": !}}]}}, {"uppercase": null}],
	"on_failure": [{"append": {"id": "last", "field": "d", "value": ["$", 7]}}]}`,
	`id: |-
  $
description: >-
  does
  things
processors:
- set:
    target_field: 'a'
    value: !!str $
    on_failure:
    - remove:
        fields:
        - b
        - "c"
        ignore_missing: !
- uppercase: ~
on_failure:
- append:
    id: &last last
    field: d
    value:
    - $
    - 0x7
`,
	`id: &text $
description: does things
processors:
  - set:
      <<: {target_field: a, value: other}
      value: *text
      on_failure: [remove: {fields: &f [b, c], ignore_missing: !}]
  - uppercase:
on_failure:
  - ? append
    : id: last
      field: d
      value: [*text, 7]
`,
	`x-common:
  remove: &remove {fields: [b, c], ignore_missing: !}
  id: other
version: 2
id: $
description: does things
processors:
  - set: {target_field: a, value: $, on_failure: [remove: *remove]}
  - uppercase:
on_failure: [append: {id: last, field: d, value: [$, 7]}]
x-end: {processors: [], id: none}
`,
}

// C28_File: the pipeline file of the command, written in one way or another.
func C28_File() {
	if !zzCanLoad {
		return // the command reads its pipeline in some other way
	}
	s := vsym.String("s", vsym.Pick(3, 5))
	vsym.Assume(s != "" && s != "y" && s != "n" && s != "no" && s != "on" && s != "yes" && s != "off")
	for i := 0; i < len(s); i++ {
		vsym.Assume(s[i] >= 'a' && s[i] <= 'z')
	}
	missing := vsym.Choose("ignore_missing", 2) == 1
	doc := zzDocs[vsym.Choose("doc", len(zzDocs))]
	doc = strings.Replace(doc, "$", s, -1)
	m := "false"
	if missing {
		m = "true"
	}
	doc = strings.Replace(strings.Replace(doc, "missing: !", "missing: "+m, 1), "missing\": !", "missing\": "+m, 1)
	if vsym.Choose("crlf", 2) == 1 {
		doc = strings.Replace(doc, "\n", "\r\n", -1)
	}
	c, err := zzLoad(vsym.File(doc))
	vsym.Assert(err == nil && c != nil, "a pipeline file can be read")
	vsym.Assume(err == nil && c != nil)
	vsym.Assert(c.ID == s && c.Description == "does things", "ID and description are read")
	vsym.Assert(len(c.Processors) == 2 && len(c.OnFailure) == 1, "every processor is read")
	vsym.Assume(len(c.Processors) == 2 && len(c.OnFailure) == 1)
	set, up, app := c.Processors[0]["set"], c.Processors[1], c.OnFailure[0]["append"]
	_, ok := up["uppercase"]
	vsym.Assert(set != nil && ok && len(c.Processors[0]) == 1 && len(up) == 1 && app != nil && len(c.OnFailure[0]) == 1, "the processors are read in order")
	vsym.Assume(set != nil && app != nil)
	vsym.Assert(len(set.Config) == 2 && zzIs(set.Config["target_field"], "a") && zzIs(set.Config["value"], s) && set.ID == "", "the options are read")
	vsym.Assert(len(app.Config) == 2 && zzIs(app.Config["field"], "d") && app.ID == "last" && len(app.OnFailure) == 0, "the options of a handler are read")
	l, _ := app.Config["value"].([]interface{})
	vsym.Assert(len(l) == 2 && zzIs(l[0], s) && l[1] == 7, "a list is read")
	vsym.Assert(len(set.OnFailure) == 1, "the handler of a processor is read")
	vsym.Assume(len(set.OnFailure) == 1)
	rm := set.OnFailure[0]["remove"]
	vsym.Assert(rm != nil, "the handler of a processor is read")
	vsym.Assume(rm != nil)
	f, _ := rm.Config["fields"].([]interface{})
	vsym.Assert(len(rm.Config) == 2 && len(f) == 2 && zzIs(f[0], "b") && zzIs(f[1], "c") && rm.Config["ignore_missing"] == missing, "the options of a handler are read")
	vsym.Reach("read")
}

func zzIs(v interface{}, s string) bool {
	t, ok := v.(string)
	return ok && t == s
}

// C28_FileBroken: a file that holds no pipeline is an error, not a pipeline
// that does something else.
func C28_FileBroken() {
	if !zzCanLoad {
		return
	}
	file := "/zz/no/such/file"
	if at := vsym.Choose("doc", 8); at > 0 {
		file = vsym.File([]string{
			"", "# nothing\n", "null\n", "- set: {target_field: a}\n",
			"processors: [{set: {target_field: a, value: b}\n",
			"id: p\nprocessors: set\n",
			"id: p\nprocessors:\n  - set: [a, b]\n",
		}[at-1])
	}
	c, err := zzLoad(file)
	if err == nil {
		_, err = pipeline.New(c)
	}
	vsym.Assert(err != nil, "a file without a pipeline is refused")
	vsym.Reach("refused")
}

// C28_FileRuns: the pipeline of a file does what the file says.
func C28_FileRuns() {
	if !zzCanLoad {
		return
	}
	s := vsym.String("s", vsym.Pick(2, 3))
	for i := 0; i < len(s); i++ {
		vsym.Assume(s[i] >= ' ' && s[i] < 0x7f)
	}
	doc := "id: p\nprocessors:\n  - set:\n      target_field: a.b\n      value: '" + strings.Replace(s, "'", "''", -1) +
		"'\n  - remove:\n      fields: [gone]\n      ignore_missing: true\n  - lowercase: {field: up}\n"
	c, err := zzLoad(vsym.File(doc))
	vsym.Assert(err == nil && c != nil, "a pipeline file can be read")
	vsym.Assume(err == nil && c != nil)
	p, err := pipeline.New(c)
	vsym.Assert(err == nil, "the pipeline can be built")
	vsym.Assume(err == nil)
	e, want := event.New(), event.New()
	e.Put("up", event.String("ABC"))
	e.Put("gone", event.Bool(true))
	e, err = p.Process(e)
	vsym.Assert(err == nil && e != nil, "the pipeline runs")
	vsym.Assume(err == nil && e != nil)
	want.Put("up", event.String("abc"))
	want.Put("a.b", event.String(s))
	vsym.Assert(gen.SameEvent(e, want), "the pipeline does what the file says")
	vsym.Reach("ran")
}

// C28_FileLarge: a file as large as the numbers of the command is read to its
// end.
func C28_FileLarge() {
	if !zzCanLoad {
		return
	}
	n := vsym.Size("bytes", "cmd/sawmill", vsym.Pick(70000, 140000))
	fill := strings.Repeat(" ", 40) + "\n"
	doc := "id: p\n" + strings.Repeat(fill, n/len(fill)+1) + "processors:\n  - set: {target_field: a, value: b}\n" +
		strings.Repeat(fill, n/len(fill)+1) + "  - remove: {fields: [c]}\n"
	c, err := zzLoad(vsym.File(doc))
	vsym.Assert(err == nil && c != nil, "a pipeline file can be read")
	vsym.Assume(err == nil && c != nil)
	vsym.Assert(c.ID == "p" && len(c.Processors) == 2 && c.Processors[0]["set"] != nil && c.Processors[1]["remove"] != nil, "every processor is read")
	vsym.Reach("read")
}

// zzSpelled is a text as YAML writes it: in single quotes or in double ones.
func zzSpelled(s string, how int) string {
	if how == 0 {
		return "'" + strings.Replace(s, "'", "''", -1) + "'"
	}
	return `"` + strings.Replace(strings.Replace(s, `\`, `\\`, -1), `"`, `\"`, -1) + `"`
}

// C28_FileText: every text of a pipeline file is the text of the file, spaces
// included.
func C28_FileText() {
	if !zzCanLoad {
		return
	}
	s := vsym.String("s", vsym.Pick(2, 3))
	for i := 0; i < len(s); i++ {
		vsym.Assume(s[i] >= ' ' && s[i] < 0x7f)
	}
	if vsym.Choose("around", 2) == 1 {
		s = " A" + s + "\"b "
	}
	q := zzSpelled(s, vsym.Choose("quotes", 2))
	texts := [...]string{"p", "d", "set", "x", "if", "name", "value", "item", "in", "late"}
	spelled := texts
	at := vsym.Choose("at", len(texts))
	if (at == 2 || at == 5) && (s == "" || s == "id" || s == "if") {
		return
	}
	texts[at], spelled[at] = s, q
	doc := "id: " + spelled[0] + "\ndescription: " + spelled[1] + "\nprocessors:\n  - " + spelled[2] + ":\n      id: " + spelled[3] +
		"\n      if: " + spelled[4] + "\n      " + spelled[5] + ": " + spelled[6] + "\n      l: [1, " + spelled[7] +
		"]\n      on_failure:\n        - remove: {f: " + spelled[8] + "}\non_failure:\n  - append: {g: {h: " + spelled[9] + "}}\n"
	c, err := zzLoad(vsym.File(doc))
	if err != nil && at == 5 {
		vsym.Assert(s == "l" || s == "on_failure" || s == "<<", "a pipeline file can be read")
		return
	}
	vsym.Assert(err == nil && c != nil, "a pipeline file can be read")
	vsym.Assume(err == nil && c != nil)
	vsym.Assert(c.ID == texts[0] && c.Description == texts[1], "ID and description are read")
	vsym.Assert(len(c.Processors) == 1 && len(c.OnFailure) == 1, "every processor is read")
	vsym.Assume(len(c.Processors) == 1 && len(c.OnFailure) == 1)
	p, h := c.Processors[0][texts[2]], c.OnFailure[0]["append"]
	vsym.Assert(p != nil && h != nil, "the processors are read")
	vsym.Assume(p != nil && h != nil)
	vsym.Assert(p.ID == texts[3] && string(p.If) == texts[4], "ID and condition of a processor are read")
	vsym.Assert(len(p.Config) == 2 && zzIs(p.Config[texts[5]], texts[6]), "the options are read")
	l, _ := p.Config["l"].([]interface{})
	vsym.Assert(len(l) == 2 && l[0] == 1 && zzIs(l[1], texts[7]), "a list is read")
	vsym.Assert(len(p.OnFailure) == 1 && p.OnFailure[0]["remove"] != nil, "the handler of a processor is read")
	vsym.Assume(len(p.OnFailure) == 1 && p.OnFailure[0]["remove"] != nil)
	vsym.Assert(zzIs(p.OnFailure[0]["remove"].Config["f"], texts[8]), "the options of a handler are read")
	switch g := h.Config["g"].(type) {
	case map[string]interface{}:
		vsym.Assert(zzIs(g["h"], texts[9]), "the options of a handler are read")
	case map[interface{}]interface{}:
		vsym.Assert(zzIs(g["h"], texts[9]), "the options of a handler are read")
	default:
		vsym.Assert(false, "the options of a handler are read")
	}
	vsym.Reach("read")
}

// C28_FileSparse: entries of the pipeline file without options, with nothing
// but a condition, an ID or handlers, anywhere and next to others.
func C28_FileSparse() {
	if !zzCanLoad {
		return
	}
	s := vsym.StringN("s", 2)
	vsym.Assume(s[0] >= 'a' && s[0] <= 'z' && s[1] >= 'a' && s[1] <= 'z' && s != "no" && s != "on")
	entries := []string{"set:", "set: {}", "set: ~", "set: {if: " + s + "}", "set: {id: " + s + "}", "set: {on_failure: [set: ]}", "set: {if: " + s + ", v: 1}", "set: {v: }"}
	at := vsym.Choose("entry", len(entries))
	entry := "  - " + entries[at] + "\n"
	place := vsym.Choose("place", 3)
	before, after := vsym.Choose("before", 2), vsym.Choose("after", 2)
	list := ""
	for i := 0; i < before; i++ {
		list += "  - remove: {fields: [a]}\n"
	}
	list += entry
	for i := 0; i < after; i++ {
		list += "  - append: {field: a}\n"
	}
	doc := "id: p\n"
	switch place {
	case 0:
		doc += "processors:\n" + list
	case 1:
		doc += "on_failure:\n" + list
	case 2:
		doc += "processors:\n- lowercase:\n    field: x\n    on_failure:\n  " + strings.TrimSuffix(strings.Replace(list, "\n", "\n  ", -1), "  ")
	}
	c, err := zzLoad(vsym.File(doc))
	vsym.Assert(err == nil && c != nil && c.ID == "p", "a pipeline file can be read")
	vsym.Assume(err == nil && c != nil)
	got, other := c.Processors, c.OnFailure
	if place == 1 {
		got, other = other, got
	}
	vsym.Assert(len(other) == 0, "nothing is added")
	if place == 2 {
		vsym.Assert(len(got) == 1 && got[0]["lowercase"] != nil, "every processor is read")
		vsym.Assume(len(got) == 1 && got[0]["lowercase"] != nil)
		got = got[0]["lowercase"].OnFailure
	}
	vsym.Assert(len(got) == before+1+after, "every processor is read")
	vsym.Assume(len(got) == before+1+after)
	if before == 1 {
		vsym.Assert(len(got[0]) == 1 && got[0]["remove"] != nil && len(got[0]["remove"].Config) == 1, "the processors are read in order")
	}
	if after == 1 {
		vsym.Assert(len(got[before+1]) == 1 && got[before+1]["append"] != nil, "the processors are read in order")
	}
	o, found := got[before]["set"]
	vsym.Assert(found && len(got[before]) == 1, "the processors are read in order")
	vsym.Assert((o == nil) == (at == 0 || at == 2), "only an entry without options has none")
	if o == nil {
		return
	}
	want := [...][4]int{1: {}, 3: {1, 0, 0, 0}, 4: {0, 1, 0, 0}, 5: {0, 0, 1, 0}, 6: {1, 0, 0, 1}, 7: {0, 0, 0, 1}}[at]
	vsym.Assert((string(o.If) == s) == (want[0] == 1) && (o.If == "") == (want[0] == 0), "the condition is read")
	vsym.Assert((o.ID == s) == (want[1] == 1) && (o.ID == "") == (want[1] == 0), "the ID is read")
	vsym.Assert(len(o.OnFailure) == want[2] && len(o.Config) == want[3], "handlers and options are read")
	vsym.Reach("sparse")
}
