package hpipe

import (
	"errors"
	"strings"

	"github.com/andrewkroh/go-sawmill/internal/zzverif/gen"
	"github.com/andrewkroh/go-sawmill/internal/zzverif/vsym"
	"github.com/andrewkroh/go-sawmill/pkg/event"
	"github.com/andrewkroh/go-sawmill/pkg/pipeline"
	"github.com/andrewkroh/go-sawmill/pkg/processor"
	_ "github.com/andrewkroh/go-sawmill/pkg/processor/append"
	_ "github.com/andrewkroh/go-sawmill/pkg/processor/lowercase"
	_ "github.com/andrewkroh/go-sawmill/pkg/processor/remove"
	_ "github.com/andrewkroh/go-sawmill/pkg/processor/set"
	_ "github.com/andrewkroh/go-sawmill/pkg/processor/uppercase"
)

type opts = map[string]interface{}

// one is a pipeline with a single processor whose failure is marked in the
// event by the global on_failure handler when mark is set.
func one(typ string, o opts, mark bool) *pipeline.Pipeline {
	c := &pipeline.Config{ID: "p", Processors: []pipeline.ProcessorConfig{
		{typ: &pipeline.ProcessorOptionConfig{Config: o}},
	}}
	if mark {
		c.OnFailure = []pipeline.ProcessorConfig{
			{"set": &pipeline.ProcessorOptionConfig{Config: opts{"target_field": "failed", "value": "yes"}}},
		}
	}
	p, err := pipeline.New(c)
	vsym.Assert(err == nil, "a valid configuration is accepted")
	vsym.Assume(err == nil)
	return p
}

// same: the event passed, and want is what came out.
func same(got *event.Event, err error, want *event.Event, label string) {
	vsym.Assert(err == nil && gen.SameEvent(got, want), label)
}

// failed: the processor failed and changed nothing. The event is compared
// after the on_failure handler added its mark.
func failed(typ string, o opts, in *event.Event, missing bool) {
	want := gen.CopyEvent(in)
	want.Put("failed", event.String("yes"))
	got, err := one(typ, o, true).Process(gen.CopyEvent(in))
	same(got, err, want, "a failed processor changes nothing and on_failure runs")
	got, err = one(typ, o, false).Process(gen.CopyEvent(in))
	vsym.Assert(got == nil && err != nil, "the failure is returned")
	if err != nil {
		vsym.Assert(errors.Is(err, processor.ErrorKeyMissing{}) == missing, "only a missing field is reported as missing")
	}
	if missing {
		f, _ := o["field"].(string)
		if from, ok := o["copy_from"].(string); ok {
			f = from
		}
		named(err, f)
	}
}

// named: the failure names the field that is missing.
func named(err error, field string) {
	var m processor.ErrorKeyMissing
	vsym.Assert(errors.As(err, &m) && m.Key == field, "a missing-field failure names the field")
}

// fields is an event {f: any, o: {g: text, x: 1}, k: 7} in which f and o.g may
// be missing. used is the field that matters; f is varied only then.
func fields(o gen.Opts, used string) *event.Event {
	e := event.New()
	if used != "f" {
		o.Depth = 0
	}
	if vsym.Choose("has f", 2) == 1 {
		if used == "f" {
			e.Put("f", o.Value("f"))
		} else {
			e.Put("f", event.Object(map[string]*event.Value{"q": event.Array(event.String(vsym.String("f", 1)))}))
		}
	}
	if vsym.Choose("has o.g", 2) == 1 {
		e.Put("o.g", event.String(vsym.String("g", 1)))
	}
	e.Put("o.x", event.Integer(1))
	e.Put("k", event.Integer(7))
	return e
}

var smallTree = gen.Opts{Depth: 1, Width: 1, KeyLen: 1, StrLen: 1, Null: true, UTF8: true}

// ---- C19 lowercase and uppercase

func fold(s string, up bool) string {
	b := []byte(s)
	for i, c := range b {
		if up && c >= 'a' && c <= 'z' {
			b[i] = c - 32
		}
		if !up && c >= 'A' && c <= 'Z' {
			b[i] = c + 32
		}
	}
	return string(b)
}

func caseProc() (string, bool) {
	if vsym.Choose("proc", 2) == 0 {
		return "lowercase", false
	}
	return "uppercase", true
}

// C19_Text: every ASCII string is converted exactly, in place or elsewhere.
func C19_Text() {
	typ, up := caseProc()
	s := vsym.String("s", vsym.Pick(3, 6))
	gen.ASCII(s)
	e := event.New()
	e.Put("f", event.String(s))
	e.Put("k", event.Integer(7))
	o := opts{"field": "f"}
	target := []string{"", "f", "t", "x.y", "k"}[vsym.Choose("target", 5)]
	if target == "t" || target == "x.y" {
		switch vsym.Choose("old", 6) {
		case 0:
			e.Put(target, event.Object(map[string]*event.Value{"f": event.String("old")}))
		case 1:
			e.Put(target, event.Object(nil))
		case 2:
			e.Put(target, event.Array(event.String("old")))
		case 3:
			e.Put(target, event.NullValue)
		case 4:
			e.Put(target, event.String(s))
		}
	}
	if target != "" {
		o["target_field"] = target
	} else {
		target = "f"
	}
	want := gen.CopyEvent(e)
	want.Put(target, event.String(fold(s, up)))
	got, err := one(typ, o, false).Process(e)
	same(got, err, want, "the target holds the converted text and nothing else changes")
	vsym.Reach("converted")
}

// C19_Unicode: letters outside ASCII.
func C19_Unicode() {
	typ, up := caseProc()
	pairs := [][2]string{{"é", "É"}, {"жд", "ЖД"}, {"xÿ", "XŸ"}, {"ω1", "Ω1"}, {"ǆ", "Ǆ"}}
	p := pairs[vsym.Choose("pair", len(pairs))]
	pre := vsym.StringN("pre", 1)
	gen.ASCII(pre)
	in, out := p[0], p[1]
	if !up {
		in, out = out, in
	}
	e := event.New()
	e.Put("f", event.String(pre+in))
	got, err := one(typ, opts{"field": "f"}, false).Process(e)
	want := event.New()
	want.Put("f", event.String(fold(pre, up)+out))
	same(got, err, want, "letters outside ASCII are converted")
	vsym.Reach("converted")
}

// C19_Again: texts after one another on one pipeline.
func C19_Again() {
	typ, up := caseProc()
	words := []string{"", "a", "A", "aB", "Ab", "k", "K", "\u212a", "θ", "ϴ", "Θ", "ϑ", "ß", "ẞ", "ss", "SS", "ı", "i", "İ", "I", "ſ", "s", "µ", "μ", "Μ", "é", "É", "e\u0301", "ǆ", "ǅ", "Ǆ"}
	o := opts{"field": "f"}
	target := "f"
	if vsym.Choose("target", 2) == 1 {
		target = "t"
		o["target_field"] = target
	}
	p := one(typ, o, false)
	n := vsym.Pick(2, 3)
	other := vsym.Choose("other", n+1)
	for i := 0; i < n; i++ {
		w := words[vsym.Choose("word", len(words)-20*(i/2))]
		if i == other {
			e := event.New()
			e.Put("f", event.Integer(1))
			got, err := p.Process(e)
			vsym.Assert(got == nil && err != nil, "what is not a text fails")
		}
		e := event.New()
		e.Put("f", event.String(w))
		want := gen.CopyEvent(e)
		if up {
			want.Put(target, event.String(strings.ToUpper(w)))
		} else {
			want.Put(target, event.String(strings.ToLower(w)))
		}
		got, err := p.Process(e)
		same(got, err, want, "every text is converted by itself")
	}
	vsym.Reach("converted")
}

// C19_Missing: what happens when there is no text to convert.
func C19_Missing() {
	typ, _ := caseProc()
	f := []string{"f", "o.g", "o", "z", "k.z"}[vsym.Choose("field", 5)]
	e := fields(smallTree, f)
	im := vsym.Bool("ignore_missing")
	o := opts{"field": f, "ignore_missing": im}
	if vsym.Choose("target", 2) == 1 {
		o["target_field"] = "t"
	}
	v := e.Get(f)
	if v != nil && v.Type == event.StringType {
		return
	}
	missing := v == nil || v.Type == event.NullType
	if missing && im {
		want := gen.CopyEvent(e)
		got, err := one(typ, o, true).Process(e)
		same(got, err, want, "with ignore_missing nothing happens")
		vsym.Reach("ignored")
		return
	}
	if v != nil && v.Type == event.ArrayType {
		return // documented, but refused: see C19_Array
	}
	failed(typ, o, e, missing)
	vsym.Reach("failed")
}

// C19_Array: members of an array of strings are converted (documented).
func C19_Array() {
	typ, up := caseProc()
	s := vsym.StringN("s", 1)
	gen.ASCII(s)
	e := event.New()
	e.Put("f", event.Array(event.String(s)))
	want := event.New()
	want.Put("f", event.Array(event.String(fold(s, up))))
	got, err := one(typ, opts{"field": "f"}, false).Process(e)
	same(got, err, want, "the members of an array of strings are converted")
	vsym.Reach("array")
}

// C19_Blocked: a target below a value that is not an object is refused.
func C19_Blocked() {
	typ, _ := caseProc()
	e := event.New()
	s := vsym.StringN("s", 1)
	gen.ASCII(s)
	e.Put("f", event.String(s))
	failed(typ, opts{"field": "f", "target_field": "f.x"}, e, false)
	vsym.Reach("failed")
}

// ---- C20 append

// C20_Append: the four documented cases.
func C20_Append() {
	oo := smallTree
	oo.Width = 2
	f := []string{"f", "o.g", "o", "z", "o.z", "k.z"}[vsym.Choose("field", 6)]
	e := fields(oo, f)
	val := vsym.String("value", 1)
	gen.ASCII(val)
	dup := vsym.Bool("allow_duplicates")
	o := opts{"field": f, "value": val, "allow_duplicates": dup}
	v := e.Get(f)
	if v != nil && v.Type == event.NullType {
		return // left open by the documentation
	}
	if f == "k.z" || v != nil && v.Type == event.ObjectType {
		failed(typeAppend, o, e, false)
		vsym.Reach("failed")
		return
	}
	var items []*event.Value
	if v != nil && v.Type == event.ArrayType {
		items = append(items, v.Array...)
	} else if v != nil {
		items = append(items, v)
	}
	have := false
	for _, x := range items {
		if x.Type == event.StringType && x.String == val {
			have = true
		}
	}
	if dup || !have {
		items = append(items, event.String(val))
		vsym.Reach("added")
	} else {
		vsym.Reach("already there")
	}
	want := gen.CopyEvent(e)
	want.Put(f, gen.Copy(event.Array(items...)))
	got, err := one(typeAppend, o, false).Process(e)
	same(got, err, want, "the field is the array of its old items and the value")
}

const typeAppend = "append"

// C20_Twice: two append processors in a row.
func C20_Twice() {
	e := event.New()
	if vsym.Choose("exists", 2) == 1 {
		e.Put("f", event.String("a"))
	}
	v1, v2 := vsym.StringN("v1", 1), vsym.StringN("v2", 1)
	gen.ASCII(v1)
	gen.ASCII(v2)
	dup := vsym.Bool("allow_duplicates")
	pc := func(v string) pipeline.ProcessorConfig {
		return pipeline.ProcessorConfig{"append": &pipeline.ProcessorOptionConfig{Config: opts{"field": "f", "value": v, "allow_duplicates": dup}}}
	}
	p, err := pipeline.New(&pipeline.Config{ID: "p", Processors: []pipeline.ProcessorConfig{pc(v1), pc(v2)}})
	vsym.Assume(err == nil)
	var want []string
	if e.Get("f") != nil {
		want = append(want, "a")
	}
	for _, v := range []string{v1, v2} {
		have := false
		for _, w := range want {
			if w == v {
				have = true
			}
		}
		if dup || !have {
			want = append(want, v)
		}
	}
	for r := 0; r < 2; r++ { // the pipeline is reused for an equal event
		got, err := p.Process(gen.CopyEvent(e))
		vsym.Assert(err == nil && got != nil, "append succeeds")
		if got == nil {
			return
		}
		a := got.Get("f")
		vsym.Assert(a != nil && a.Type == event.ArrayType && len(a.Array) == len(want), "every value is appended once")
		if a == nil || len(a.Array) != len(want) {
			return
		}
		for i := range want {
			vsym.Assert(a.Array[i].Type == event.StringType && a.Array[i].String == want[i], "the order of the items is kept")
		}
	}
	vsym.Reach("twice")
}

// ---- C21 set

// C21_Value: the configured value replaces whatever was in the target.
func C21_Value() {
	t := []string{"f", "t", "o.g", "o", "x.y", "k.z"}[vsym.Choose("target", 6)]
	e := fields(smallTree, t)
	s := vsym.String("s", 1)
	gen.ASCII(s)
	i := vsym.Int64("i")
	b := vsym.Bool("b")
	var cfg interface{}
	var want *event.Value
	switch vsym.Choose("kind", 6) {
	case 0:
		cfg, want = s, event.String(s)
	case 1:
		cfg, want = i, event.Integer(i)
	case 2:
		cfg, want = b, event.Bool(b)
	case 3:
		cfg = map[string]interface{}{"a": s, "b": map[string]interface{}{"c": b}}
		want = event.Object(map[string]*event.Value{"a": event.String(s), "b": event.Object(map[string]*event.Value{"c": event.Bool(b)})})
	case 4:
		cfg, want = []interface{}{s, b}, event.Array(event.String(s), event.Bool(b))
	case 5:
		cfg, want = 1.5, event.Float(1.5)
	}
	o := opts{"target_field": t, "value": cfg}
	blocked := t == "k.z"
	if blocked && vsym.Choose("ignore_failure", 2) == 1 {
		o["ignore_failure"] = true
		before := gen.CopyEvent(e)
		got, err := one("set", o, false).Process(e)
		same(got, err, before, "with ignore_failure a failure changes nothing")
		vsym.Reach("ignored")
		return
	}
	if blocked {
		failed("set", o, e, false)
		vsym.Reach("failed")
		return
	}
	exp := gen.CopyEvent(e)
	exp.Put(t, want)
	got, err := one("set", o, false).Process(e)
	if err == nil && got != nil && want.Type == event.IntegerType {
		// A configured number may be held as signed or unsigned.
		if v := got.Get(t); v != nil && v.Type == event.UnsignedIntegerType && i >= 0 && v.UnsignedInteger == uint64(i) {
			got.Put(t, event.Integer(i))
		}
	}
	same(got, err, exp, "the target holds the configured value and nothing else changes")
	vsym.Reach("set")
}

// C21_Copy: copy_from copies a value of any kind.
func C21_Copy() {
	oo := smallTree
	oo.Null, oo.Width = true, 2
	oo.Uint, oo.Times, oo.Floats = true, true, true
	src := []string{"f", "o", "o.g", "z", "k.z"}[vsym.Choose("from", 5)]
	e := fields(oo, src)
	t := []string{"t", "k", "x.y", "o.c"}[vsym.Choose("target", 4)]
	im := vsym.Bool("ignore_missing")
	o := opts{"target_field": t, "copy_from": src, "ignore_missing": im}
	v := e.Get(src)
	if v == nil {
		if im {
			want := gen.CopyEvent(e)
			got, err := one("set", o, true).Process(e)
			same(got, err, want, "with ignore_missing nothing happens")
			vsym.Reach("ignored")
			return
		}
		failed("set", o, e, true)
		vsym.Reach("missing")
		return
	}
	want := gen.CopyEvent(e)
	want.Put(t, gen.Copy(v))
	got, err := one("set", o, false).Process(e)
	same(got, err, want, "the target holds a copy of the source and nothing else changes")
	vsym.Reach("copied")
}

// ---- C22 remove

// C22_Remove: exactly the listed fields disappear.
func C22_Remove() {
	e := fields(smallTree, "")
	names := []string{"f", "o.g", "o", "k", "z", "k.z"}
	n := 1 + vsym.Choose("n", vsym.Pick(2, 3))
	var list []interface{}
	var fs []string
	for i := 0; i < n; i++ {
		f := names[vsym.Choose("field", len(names))]
		list = append(list, f)
		fs = append(fs, f)
	}
	im := vsym.Bool("ignore_missing")
	o := opts{"fields": list, "ignore_missing": im}
	want := gen.CopyEvent(e)
	missing, first := false, ""
	for _, f := range fs {
		if want.Get(f) == nil {
			if !missing {
				first = f
			}
			missing = true
			continue
		}
		want.Delete(f)
		vsym.Assert(want.Get(f) == nil, "a deleted field is gone")
	}
	if missing && !im {
		got, err := one("remove", o, false).Process(e)
		vsym.Assert(got == nil && err != nil && errors.Is(err, processor.ErrorKeyMissing{}), "a field that does not exist is reported as missing")
		named(err, first)
		vsym.Reach("missing")
		return
	}
	got, err := one("remove", o, false).Process(e)
	same(got, err, want, "exactly the listed fields are removed")
	vsym.Reach("removed")
}

// C21_EmptyObject: a configured value that is or holds an object without
// members.
func C21_EmptyObject() {
	var cfg interface{}
	var want *event.Value
	switch vsym.Choose("kind", 3) {
	case 0:
		cfg, want = opts{}, event.Object(nil)
	case 1:
		cfg, want = opts{"a": opts{}}, event.Object(map[string]*event.Value{"a": event.Object(nil)})
	case 2:
		cfg, want = []interface{}{opts{}}, event.Array(event.Object(nil))
	}
	exp := event.New()
	exp.Put("t", want)
	got, err := one("set", opts{"target_field": "t", "value": cfg}, false).Process(event.New())
	same(got, err, exp, "the target holds the configured empty object")
	vsym.Reach("set")
}

// C21_Time: a configured value that YAML reads as a time.
func C21_Time() {
	ns := vsym.Int64("ns")
	exp := event.New()
	exp.Put("t", event.Timestamp(ns))
	got, err := one("set", opts{"target_field": "t", "value": event.Time{UnixNanos: ns}.GoTime()}, false).Process(event.New())
	same(got, err, exp, "the target holds the configured time")
	vsym.Reach("set")
}

// small is one of the first n of a few values, or none.
func small(name string, n int) *event.Value {
	switch vsym.Choose(name, n) {
	case 0:
		return nil
	case 1:
		return event.String("b")
	case 2:
		return event.Object(map[string]*event.Value{"x": event.String("a")})
	case 3:
		return event.Array(event.String("a"))
	case 4:
		return event.Float(1)
	case 5:
		return event.Object(map[string]*event.Value{"x": event.Float(2), "y": event.NullValue})
	}
	return event.String("a")
}

// C21_Again: events after one another on one pipeline, whose results stay.
func C21_Again() {
	o := opts{"target_field": []string{"t", "o.t", "t.x"}[vsym.Choose("target", 3)]}
	t := o["target_field"].(string)
	from := []string{"", "f", "t"}[vsym.Choose("from", 3)]
	var value *event.Value
	if from == "" {
		o["value"] = []interface{}{"a", opts{"x": "a", "y": []interface{}{1}}}[vsym.Choose("value", 2)]
		value = event.String("a")
		if _, ok := o["value"].(opts); ok {
			value = event.Object(map[string]*event.Value{"x": event.String("a"), "y": event.Array(event.UnsignedInteger(1))})
		}
	} else {
		o["copy_from"] = from
	}
	p := one("set", o, false)
	type result struct{ got, want *event.Event }
	var all []result
	for i := 2; i > 0; i-- {
		e := event.New()
		if v := small("f", vsym.Pick(6, 7)); v != nil {
			e.Put("f", v)
		}
		if v := small("t", vsym.Pick(3, 7)); v != nil {
			e.Put("t", v)
		}
		want := gen.CopyEvent(e)
		v := value
		if from != "" {
			v = want.Get(from)
		}
		fails := v == nil
		if !fails {
			_, err := want.Put(t, gen.Copy(v))
			fails = err != nil
		}
		got, err := p.Process(e)
		if fails {
			vsym.Assert(got == nil && err != nil, "a missing source or impossible target fails")
			vsym.Assert(gen.SameEvent(e, want), "a failed processor changes nothing")
			continue
		}
		same(got, err, want, "the target holds the value and nothing else changes")
		all = append(all, result{got, want})
	}
	for _, r := range all {
		vsym.Assert(gen.SameEvent(r.got, r.want), "an earlier result stays as it was")
	}
	vsym.Reach("set")
}

// C22_Again: events after one another on one pipeline.
func C22_Again() {
	lists := [][]interface{}{{"f"}, {"f", "t"}, {"f.x", "f"}, {"f.x", "f.y"}, {"f", "f"}, {"t", "f.x"}}
	list := lists[vsym.Choose("list", len(lists))]
	im := vsym.Choose("ignore_missing", 2) == 1
	p := one("remove", opts{"fields": list, "ignore_missing": im}, false)
	for i := 2; i > 0; i-- {
		e := event.New()
		e.Put("k", event.Bool(true))
		if v := small("f", vsym.Pick(6, 7)); v != nil {
			e.Put("f", v)
		}
		if v := small("t", vsym.Pick(3, 7)); v != nil {
			e.Put("t", v)
		}
		want := gen.CopyEvent(e)
		first := ""
		for _, f := range list {
			if want.Delete(f.(string)) == nil && first == "" {
				first = f.(string)
			}
		}
		got, err := p.Process(e)
		if first != "" && !im {
			vsym.Assert(got == nil && err != nil, "a field that does not exist is reported as missing")
			named(err, first)
			continue
		}
		same(got, err, want, "exactly the listed fields are removed")
	}
	vsym.Reach("removed")
}

// C16_Two: two pipelines alike but for a text, one after the other.
func C16_Two() {
	x, y := vsym.StringN("x", 1), vsym.StringN("y", 1)
	vsym.Assume(x[0] >= 'a' && x[0] <= 'z' && y[0] >= 'a' && y[0] <= 'z')
	kind := vsym.Choose("kind", 9)
	build := func(s string) *pipeline.Pipeline {
		t := "set"
		o := opts{"target_field": "t"}
		switch kind {
		case 0:
			o["value"] = s
		case 1:
			o["value"] = []interface{}{s, "k"}
		case 2:
			o["value"] = opts{"k": s}
		case 3:
			o["value"] = opts{"k": []interface{}{opts{"l": s}}}
		case 4:
			o["value"] = len(s) + 7
		case 5:
			t, o = "append", opts{"field": "t", "value": s}
		case 6:
			t, o = "remove", opts{"fields": []interface{}{"t" + s}, "ignore_missing": true}
		case 7:
			t, o = "lowercase", opts{"field": "t", "target_field": "o." + s}
		case 8:
			t, o = "uppercase", opts{"field": "f" + s, "target_field": "t"}
		}
		return one(t, o, false)
	}
	run := func(p *pipeline.Pipeline, s string) {
		in, want := event.New(), event.New()
		for _, e := range []*event.Event{in, want} {
			e.Put("t", event.String("Ab"))
			e.Put("f"+x, event.String("x"))
			e.Put("f"+y, event.String("y"))
			e.Put("t"+x, event.String("x"))
			e.Put("t"+y, event.String("y"))
		}
		switch kind {
		case 0:
			want.Put("t", event.String(s))
		case 1:
			want.Put("t", event.Array(event.String(s), event.String("k")))
		case 2:
			want.Put("t", event.Object(map[string]*event.Value{"k": event.String(s)}))
		case 3:
			want.Put("t", event.Object(map[string]*event.Value{"k": event.Array(event.Object(map[string]*event.Value{"l": event.String(s)}))}))
		case 4:
			want.Put("t", event.UnsignedInteger(uint64(len(s)+7)))
		case 5:
			want.Put("t", event.Array(event.String("Ab"), event.String(s)))
		case 6:
			want.Delete("t" + s)
		case 7:
			want.Put("o."+s, event.String("ab"))
		case 8:
			u := "Y"
			if s == x && x != y {
				u = "X"
			}
			want.Put("t", event.String(u))
		}
		got, err := p.Process(in)
		same(got, err, want, "every pipeline uses its own configuration")
	}
	p := build(x)
	if vsym.Choose("built", 2) == 1 {
		run(p, x)
	}
	q := build(y)
	run(q, y)
	run(p, x)
	run(q, y)
	vsym.Reach("apart")
}
