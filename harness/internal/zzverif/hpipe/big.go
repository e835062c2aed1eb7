package hpipe

import (
	"errors"
	"fmt"
	"strings"

	"github.com/andrewkroh/go-sawmill/internal/zzverif/gen"
	"github.com/andrewkroh/go-sawmill/internal/zzverif/vsym"
	"github.com/andrewkroh/go-sawmill/pkg/event"
	"github.com/andrewkroh/go-sawmill/pkg/pipeline"
	"github.com/andrewkroh/go-sawmill/pkg/processor"
)

// long is a pipeline in which at most two or three components do anything
// else than succeed.
func long(shapes ...string) (*plan, *pipeline.Pipeline) {
	s := choose("shape", shapes...)
	p := &plan{id: "p"}
	i := strings.Index(s, "|")
	p.procs = p.comps(s[:i], p.id+".processors")
	p.onf = p.comps(s[i+1:], p.id+".on_failure")
	free = map[string]bool{}
	first := 0
	for k := 0; k < vsym.Pick(2, 3) && first < len(p.all); k++ {
		at := first + vsym.Choose("free", len(p.all)-first)
		first = at + 1
		c := p.all[at]
		free[c.name] = true
		c.im = vsym.Bool("ignore_missing." + c.name)
		c.ifl = vsym.Bool("ignore_failure." + c.name)
	}
	pipe, err := pipeline.New(&pipeline.Config{ID: p.id, Processors: configs(p.procs), OnFailure: configs(p.onf)})
	vsym.Assert(err == nil, "a valid configuration is accepted")
	vsym.Assume(err == nil)
	return p, pipe
}

var longShapes = []string{
	"(()()()()()())(())|(())",
	"()(()(()(())))|(()())",
	"()()()()()()()()()()()()|()()()()",
	"(((((()))))())()|((()))",
}

// C13_Long: long and deeply nested pipelines.
func C13_Long() {
	allow(oOK, oFail, oMissing)
	p, pipe := long(longShapes...)
	p.process(pipe)
}

// C14_Long: drop and cancel in long and deeply nested pipelines.
func C14_Long() {
	allow(oOK, oFail, oDrop, oCancel)
	p, pipe := long(longShapes...)
	p.process(pipe)
}

// C15_Long: the counters of long and deeply nested pipelines.
func C15_Long() {
	allow(oOK, oFail, oMissing, oDrop, oCancel)
	p, pipe := long(longShapes[:vsym.Pick(1, 4)]...)
	p.process(pipe)
	p.checkCounters(pipe)
	vsym.Reach("counted")
}

// C13_Again: the next event is processed by the same rules, whatever happened
// to the one before, also in another pipeline.
func C13_Again() {
	allow(oOK, oFail, oMissing)
	p, pipe := newPlan(choose("shape", "()()|()", "(())|", "(())()|"), true)
	p.process(pipe)
	p.process(pipe)
	q, other := newPlan("()()|()", false)
	free = map[string]bool{}
	q.process(other)
}

// C14_Again: dropping or cancelling an event concerns only that event.
func C14_Again() {
	allow(oOK, oFail, oDrop, oCancel)
	p, pipe := newPlan(choose("shape", "()()|()", "(())|", "(())()|", "()|(())"), true)
	p.process(pipe)
	if vsym.Choose("another pipeline", 2) == 1 {
		p, pipe = newPlan("()()|()", false)
	}
	p.process(pipe)
}

// C15_Again: the counters of several events, cancelled ones among them.
func C15_Again() {
	allow(oOK, oFail, oMissing, oDrop, oCancel)
	p, pipe := newPlan(choose("shape", "(())|", "()|()", "()()|"), true)
	q, other := newPlan("(())|()", false)
	p.process(pipe)
	p.process(pipe)
	free = map[string]bool{}
	q.process(other)
	p.checkCounters(pipe)
	q.checkCounters(other)
	vsym.Reach("counted")
}

// C16_Between: an event that is processed while another one is in the middle
// of the same pipeline, as when two goroutines use it, influences neither.
func C16_Between() {
	allow(oOK, oFail, oDrop, oCancel)
	p, pipe := newPlan(choose("shape", "()()|()", "(())()|", "(()())|()"), vsym.Tier() == 1)
	at := vsym.Choose("at", 4)
	during = func(n int) {
		if n != at {
			return
		}
		keep := trace
		during = nil
		p.process(pipe)
		vsym.Reach("between")
		trace = keep
	}
	p.process(pipe)
}

// C16_Shared: a value that two events hold.
func C16_Shared() {
	o := gen.Opts{Depth: 1, Width: 2, KeyLen: 1, StrLen: 2, UTF8: true, Null: true}
	v := o.Value("v")
	vsym.Assume(v.Type != event.ObjectType)
	one, two := event.New(), event.New()
	one.Put("m", v)
	two.Put("m", v)
	two.Put("o.n", v)
	keep := gen.CopyEvent(two)
	mk := func(t string, o opts) pipeline.ProcessorConfig {
		return pipeline.ProcessorConfig{t: &pipeline.ProcessorOptionConfig{Config: o}}
	}
	var pc pipeline.ProcessorConfig
	switch vsym.Choose("proc", 9) {
	case 0:
		pc = mk("lowercase", opts{"field": "m"})
	case 1:
		pc = mk("uppercase", opts{"field": "m"})
	case 2:
		pc = mk("lowercase", opts{"field": "m", "target_field": "t"})
	case 3:
		pc = mk("uppercase", opts{"field": "m", "target_field": "t.u"})
	case 4:
		pc = mk("append", opts{"field": "m", "value": "x"})
	case 5:
		pc = mk("set", opts{"target_field": "m", "value": "x"})
	case 6:
		pc = mk("set", opts{"target_field": "t", "copy_from": "m"})
	case 7:
		pc = mk("remove", opts{"fields": []interface{}{"m"}})
	case 8:
		pc = mk("set", opts{"target_field": "m.x", "value": "x", "ignore_failure": true})
	}
	p, err := pipeline.New(&pipeline.Config{ID: "p", Processors: []pipeline.ProcessorConfig{pc}})
	vsym.Assume(err == nil)
	p.Process(one)
	vsym.Assert(gen.SameEvent(two, keep), "an event that was not processed stays the same")
	vsym.Reach("kept")
}

// C16_Owner: what the owner of a result does to it, down to the last value in
// it, does not influence values that are made or events that are processed
// later.
func C16_Owner() {
	b, i, s := vsym.Bool("b"), vsym.Int64("i"), text("s", 1)
	mk := func() *event.Event {
		e := event.New()
		e.Put("b", event.Bool(b))
		e.Put("i", event.Integer(i))
		e.Put("s", event.String(s))
		e.Put("u", event.UnsignedInteger(uint64(i)))
		e.Put("f", event.Float(0.5))
		e.Put("t", event.Timestamp(i))
		e.Put("o", event.Object(map[string]*event.Value{"e": event.Array(), "o": event.Object(nil), "n": event.NullValue}))
		return e
	}
	c := func(t string, o opts) pipeline.ProcessorConfig {
		return pipeline.ProcessorConfig{t: &pipeline.ProcessorOptionConfig{Config: o}}
	}
	cfg := []interface{}{b, s, "x", true, 0.5, map[string]interface{}{"x": []interface{}{false, 3, ""}}, map[string]interface{}{}, []interface{}{}}[vsym.Choose("value", 8)]
	p, err := pipeline.New(&pipeline.Config{ID: "p", Processors: []pipeline.ProcessorConfig{
		c("set", opts{"target_field": "set", "value": cfg}),
		c("set", opts{"target_field": "copy", "copy_from": []string{"b", "s", "o"}[vsym.Choose("from", 3)]}),
		c("append", opts{"field": []string{"b", "o.e", "new"}[vsym.Choose("field", 3)], "value": "x"}),
		c("uppercase", opts{"field": "s"}),
		c("lowercase", opts{"field": "s", "target_field": "low"}),
	}})
	vsym.Assert(err == nil, "a valid configuration is accepted")
	vsym.Assume(err == nil)
	r1, err := p.Process(mk())
	vsym.Assert(err == nil && r1 != nil, "the event is processed")
	vsym.Assume(err == nil && r1 != nil)
	want := gen.CopyEvent(r1)
	r1.Put("n", event.Object(nil))
	r1.Put("z", event.Object(map[string]*event.Value{}))
	for _, v := range gen.Root(r1) {
		scribble(v)
	}
	vsym.Assert(event.Bool(b).Bool == b && event.Bool(!b).Bool == !b, "new values are what they are made of")
	vsym.Assert(event.Integer(i).Integer == i && event.Integer(0).Integer == 0 && event.String("").String == "", "new values are what they are made of")
	vsym.Assert(len(event.Array().Array) == 0 && len(event.Object(nil).Object) == 0, "new values are what they are made of")
	vsym.Assert(event.NullValue.Type == event.NullType, "null stays null")
	r2, err := p.Process(mk())
	same(r2, err, want, "a later event is processed as the first one")
	vsym.Reach("same")
}

// C17_Long: one invalid entry among many.
func C17_Long() {
	s := choose("shape", "()()()()()()()()()()()()|()()()", "((((()))))()|((()))", "(()()()()()())|")
	b := &builder{at: vsym.Choose("at", 16), defect: vsym.Choose("defect", 8)}
	i := strings.Index(s, "|")
	c := &pipeline.Config{ID: "p", Processors: b.build(s[:i]), OnFailure: b.build(s[i+1:])}
	p, err := pipeline.New(c)
	if b.used {
		vsym.Assert(p == nil && err != nil, "an invalid configuration is refused")
		vsym.Reach("refused")
		return
	}
	vsym.Assert(p != nil && err == nil, "a valid configuration is accepted")
	vsym.Reach("accepted")
}

// C17_Twin: components of pipelines whose IDs look alike.
func C17_Twin() {
	ids := [][2]string{{"p", "p.processors"}, {"p", "p2"}, {"a.processors[0]", "a"}, {"p", "p.on_failure"}, {" p", "p"}, {"p", "P"}}
	twins(ids[vsym.Choose("ids", len(ids))])
}

// C17_PathID: a pipeline ID that is the ID of a component of another pipeline.
func C17_PathID() {
	twins([2]string{"x", "x.processors[0].zzscript"})
}

func twins(pair [2]string) {
	seen := map[string]bool{}
	for _, id := range pair {
		b := &builder{at: -1}
		p, err := pipeline.New(&pipeline.Config{ID: id, Processors: b.build("(())(()())"), OnFailure: b.build("(())()")})
		vsym.Assume(err == nil)
		for _, m := range p.Metrics() {
			_, desc := identity(m)
			vsym.Assert(!seen[desc], "no two counters have the same name and labels")
			seen[desc] = true
		}
	}
	vsym.Reach("unique")
}

// C18_Presence: every combination of the parts of a configuration.
func C18_Presence() {
	yes := func(name string) bool { return vsym.Choose(name, 2) == 1 }
	mk := func(name string, kinds int) *pipeline.ProcessorOptionConfig {
		o := &pipeline.ProcessorOptionConfig{}
		if yes(name + ".id") {
			o.ID = "i"
		}
		if yes(name + ".if") {
			o.If = "c"
		}
		switch vsym.Choose(name+".options", kinds) {
		case 1:
			o.Config = opts{"value": vsym.Bool(name + ".b")}
		case 2:
			o.Config = opts{"field": "f", "value": nil, "ignore_failure": true, "Fields": []interface{}{"a", 1.0}}
		case 3:
			o.Config = opts{"ids": "x", "iff": "y", "on_failures": "z", "": "w"}
		}
		return o
	}
	o := mk("outer", 4)
	if yes("on_failure") {
		o.OnFailure = []pipeline.ProcessorConfig{{"set": mk("inner", 2)}}
		if yes("two handlers") {
			o.OnFailure = append(o.OnFailure, pipeline.ProcessorConfig{"remove": {If: "c"}})
		}
	}
	c := pipeline.Config{Processors: []pipeline.ProcessorConfig{{"append": o}}}
	switch vsym.Choose("top", 3) {
	case 1:
		c.ID, c.Description = "p", "d"
	case 2:
		c.ID, c.OnFailure = "p", []pipeline.ProcessorConfig{{"set": {}}}
	}
	survives(c)
}

// C18_Long: many processors and options, long texts and deep values.
func C18_Long() {
	var v interface{} = vsym.Bool("b")
	for d := []int{1, 5, 11}[vsym.Choose("depth", 3)]; d > 0; d-- {
		if d%2 == 0 {
			v = []interface{}{v, nil}
		} else {
			v = map[string]interface{}{"id": v, "on_failure": "text"}
		}
	}
	o := opts{"value": v, "text": strings.Repeat("long ", []int{1, 30, 200}[vsym.Choose("text", 3)]) + text("t", 1)}
	for i := []int{0, 12}[vsym.Choose("options", 2)]; i > 0; i-- {
		o["option"+string(rune('a'+i))] = float64(i)
	}
	c := pipeline.Config{ID: "p"}
	n := []int{1, 9, 20}[vsym.Choose("n", 3)]
	for i := 0; i < n; i++ {
		c.Processors = append(c.Processors, pipeline.ProcessorConfig{"set": {ID: string(rune('a' + i)), Config: opts{"n": float64(i)}}})
	}
	c.Processors[n/2] = pipeline.ProcessorConfig{"append": {Config: o}}
	chain := []pipeline.ProcessorConfig{{"remove": {Config: o}}}
	for d := []int{0, 3, 8}[vsym.Choose("chain", 3)]; d > 0; d-- {
		chain = []pipeline.ProcessorConfig{{"set": {ID: "h", OnFailure: chain}}, {"remove": nil}}
		chain = chain[:1]
	}
	c.OnFailure = chain
	survives(c)
}

// C19_Long: long texts and deep fields.
func C19_Long() {
	typ, up := caseProc()
	n := []int{7, 16, 31, 32, 33, 100}[vsym.Choose("n", 6)]
	b := []byte(strings.Repeat("aZ9zA-", 17)[:n])
	c := vsym.Byte("c")
	vsym.Assume(c < 0x80)
	b[[]int{0, 1, n / 2, n - 1}[vsym.Choose("at", 4)]] = c
	f := []string{"f", "a.b.c.d.e", `x\.y.z`}[vsym.Choose("field", 3)]
	t := []string{"", "t", "a.b.t", "a.b.c.d.t", `q.r\.s`}[vsym.Choose("target", 5)]
	e := event.New()
	e.Put(f, event.String(string(b)))
	e.Put("a.b.k", event.Array(event.String("ABCdef")))
	want := gen.CopyEvent(e)
	o := opts{"field": f}
	if t != "" {
		o["target_field"] = t
		want.Put(t, event.String(fold(string(b), up)))
	} else {
		want.Put(f, event.String(fold(string(b), up)))
	}
	got, err := one(typ, o, false).Process(e)
	same(got, err, want, "the target holds the converted text and nothing else changes")
	vsym.Reach("converted")
}

// C20_Long: long arrays, long texts and deep fields.
func C20_Long() {
	f := []string{"f", "a.b.c.d", `x\.y.z`}[vsym.Choose("field", 3)]
	val := []string{"", "value", "a rather long value that takes more than a few bytes"}[vsym.Choose("value", 3)]
	n := []int{0, 1, 5, 9, 20}[vsym.Choose("n", 5)]
	items := make([]*event.Value, n)
	for i := range items {
		items[i] = []*event.Value{event.String("x"), event.Integer(int64(i)), event.NullValue, event.Object(map[string]*event.Value{"value": event.String(val)}),
			event.Array(event.String(val)), event.String(val + "."), event.Bool(true)}[i%7]
	}
	at := vsym.Choose("at", 4)
	if at < 3 && n > 0 {
		// An item that may or may not be the value.
		s := []byte(val + "!")
		s = s[:len(val)]
		if len(s) > 0 {
			s[len(s)-1] = vsym.Byte("c")
		}
		items[at*(n-1)/2] = event.String(string(s))
	}
	have := false
	for _, x := range items {
		if x.Type == event.StringType && x.String == val {
			have = true
		}
	}
	dup := vsym.Bool("allow_duplicates")
	e := event.New()
	e.Put(f, event.Array(items...))
	e.Put("a.k", event.Integer(1))
	want := gen.CopyEvent(e)
	if dup || !have {
		want.Put(f, event.Array(append(append([]*event.Value(nil), items...), event.String(val))...))
		vsym.Reach("added")
	}
	got, err := one(typeAppend, opts{"field": f, "value": val, "allow_duplicates": dup}, false).Process(e)
	same(got, err, want, "the field is the array of its old items and the value")
	vsym.Reach("done")
}

// C21_Long: configured values of any depth and width.
func C21_Long() {
	s := vsym.String("s", 1)
	gen.ASCII(s)
	b := vsym.Bool("b")
	var cfg interface{} = s
	want := event.String(s)
	if vsym.Choose("leaf", 2) == 1 {
		cfg, want = b, event.Bool(b)
	}
	for d := []int{1, 4, 9}[vsym.Choose("depth", 3)]; d > 0; d-- {
		if d%2 == 0 {
			cfg = []interface{}{cfg, "x", []interface{}{b, "y"}}
			want = event.Array(want, event.String("x"), event.Array(event.Bool(b), event.String("y")))
		} else {
			cfg = map[string]interface{}{"k": cfg, "l": "x"}
			want = event.Object(map[string]*event.Value{"k": want, "l": event.String("x")})
		}
	}
	if n := []int{0, 15}[vsym.Choose("more", 2)]; n > 0 {
		m := map[string]interface{}{"first": cfg}
		w := map[string]*event.Value{"first": want}
		for i := 0; i < n; i++ {
			m["k"+string(rune('a'+i))] = "v"
			w["k"+string(rune('a'+i))] = event.String("v")
		}
		cfg, want = m, event.Object(w)
	}
	t := []string{"t", "a.b.c.d.e", "a.b", `a\.b`}[vsym.Choose("target", 4)]
	e := event.New()
	e.Put("a.b.x", event.Integer(1))
	e.Put("t.y", event.Integer(2))
	exp := gen.CopyEvent(e)
	exp.Put(t, gen.Copy(want))
	got, err := one("set", opts{"target_field": t, "value": cfg}, false).Process(e)
	same(got, err, exp, "the target holds the configured value and nothing else changes")
	vsym.Reach("set")
}

// C21_Numbers: numbers and texts at the edges.
func C21_Numbers() {
	vals := []interface{}{"", "1", "true", "null", "1.5", " x ", "{a}", "a,b", "[1]", "$x", "a: b", int64(-1 << 63), int64(1<<63 - 1), -1, 0, true, false, 0.5, -1e300,
		uint64(1<<64 - 1), uint64(1 << 63), uint64(1<<63 - 1), uint64(1<<53 + 1), int64(-1<<53 - 1), int64(1<<53 + 1), 1e15, 123456789, -1 << 31, 1 << 32, 1<<63 - 1,
		"a longer text that has several words. It has a dot.", "${x}", "%{y}"}
	v := vals[vsym.Choose("value", len(vals))]
	var want *event.Value
	switch x := v.(type) {
	case string:
		want = event.String(x)
	case int:
		want = event.Integer(int64(x))
	case int64:
		want = event.Integer(x)
	case uint64:
		want = event.UnsignedInteger(x)
		if x < 1<<63 {
			want = event.Integer(int64(x))
		}
	case bool:
		want = event.Bool(x)
	case float64:
		want = event.Float(x)
	}
	switch vsym.Choose("nested", 3) {
	case 1:
		v, want = map[string]interface{}{"n": v}, event.Object(map[string]*event.Value{"n": want})
	case 2:
		v, want = []interface{}{v, v}, event.Array(want, want)
	}
	e := event.New()
	e.Put("k", event.Integer(7))
	exp := gen.CopyEvent(e)
	exp.Put("t", gen.Copy(want))
	got, err := one("set", opts{"target_field": "t", "value": v}, false).Process(e)
	signed(got.Get("t"))
	same(got, err, exp, "the target holds the configured value and nothing else changes")
	vsym.Reach("set")
}

// signed makes the numbers of a configured value signed: they may be held as
// signed or unsigned.
func signed(v *event.Value) {
	if v == nil {
		return
	}
	if v.Type == event.UnsignedIntegerType && v.UnsignedInteger < 1<<63 {
		*v = *event.Integer(int64(v.UnsignedInteger))
	}
	for _, x := range v.Object {
		signed(x)
	}
	for _, x := range v.Array {
		signed(x)
	}
}

// C21_CopyDeep: a deep source and target.
func C21_CopyDeep() {
	e := event.New()
	v := smallTree.Value("v")
	vsym.Assume(v.Type != event.NullType)
	for d := []int{0, 1, 6}[vsym.Choose("depth", 3)]; d > 0; d-- {
		if d%2 == 0 {
			v = event.Array(event.Integer(1), v, event.NullValue)
		} else {
			v = event.Object(map[string]*event.Value{"k": v, "l.m": event.Bool(true)})
		}
	}
	src := []string{"a", "a.b.c.d.e", `x\.y.z`}[vsym.Choose("from", 3)]
	t := []string{"t", "q.r.s.t.u", `x.y\.z`, "a.t"}[vsym.Choose("target", 4)]
	vsym.Assume(!(src == "a" && t == "a.t"))
	e.Put(src, v)
	want := gen.CopyEvent(e)
	want.Put(t, gen.Copy(v))
	got, err := one("set", opts{"target_field": t, "copy_from": src}, false).Process(e)
	same(got, err, want, "the target holds a copy of the source and nothing else changes")
	vsym.Reach("copied")
}

// C22_Any: fields that hold any value, nulls and empty containers too.
func C22_Any() {
	o := gen.Opts{Depth: 1, Width: 1, KeyLen: 1, StrLen: 1, Null: true, Uint: true, Times: true}
	e := event.New()
	f := []string{"f", "o.g", "a.b.c.d.e", `x\.y`}[vsym.Choose("field", 4)]
	e.Put(f, o.Value("v"))
	e.Put("k", event.Integer(7))
	e.Put("o.x", event.NullValue)
	im := vsym.Bool("ignore_missing")
	want := gen.CopyEvent(e)
	want.Delete(f)
	got, err := one("remove", opts{"fields": []interface{}{f}, "ignore_missing": im}, false).Process(e)
	same(got, err, want, "exactly the listed fields are removed")
	vsym.Reach("removed")
}

// C22_Long: long lists with missing and repeated fields.
func C22_Long() {
	e := event.New()
	n := []int{3, 9, 20}[vsym.Choose("n", 3)]
	var list []interface{}
	for i := 0; i < n; i++ {
		f := "o.f" + string(rune('a'+i))
		list = append(list, f)
		e.Put(f, event.Integer(int64(i)))
	}
	e.Put("o.rest", event.Integer(1))
	want := gen.CopyEvent(e)
	for _, f := range list {
		want.Delete(f.(string))
	}
	missing, first := false, ""
	at := vsym.Choose("at", 4)
	pos := at * n / 3
	switch vsym.Choose("extra", 5) {
	case 1:
		list = append(list[:pos:pos], append([]interface{}{"nope"}, list[pos:]...)...)
		missing, first = true, "nope"
	case 2:
		list = append(list[:pos:pos], append([]interface{}{"o.nope.x"}, list[pos:]...)...)
		missing, first = true, "o.nope.x"
	case 3:
		list = append(list, list[pos%n])
		missing, first = true, list[pos%n].(string)
	case 4:
		list = append([]interface{}{"o"}, list...)
		want.Delete("o")
		missing, first = true, list[1].(string)
	}
	im := vsym.Bool("ignore_missing")
	got, err := one("remove", opts{"fields": list, "ignore_missing": im}, false).Process(e)
	if missing && !im {
		vsym.Assert(got == nil && err != nil && errors.Is(err, processor.ErrorKeyMissing{}), "a field that does not exist is reported as missing")
		named(err, first)
		vsym.Reach("missing")
		return
	}
	same(got, err, want, "exactly the listed fields are removed")
	vsym.Reach("removed")
}

type odd struct{ err error }

func (o *odd) Error() string { return "odd" }
func (o *odd) Unwrap() error { return o.err }

type pretends struct{}

func (pretends) Error() string { return "key <x> is missing from event" }

// C26_Errors: every way of wrapping, and errors that only look alike.
func C26_Errors() {
	var err error = processor.ErrorKeyMissing{}
	if vsym.Choose("named", 2) == 1 {
		err = processor.ErrorKeyMissing{Key: text("key", 2)}
	}
	missing := true
	switch vsym.Choose("base", 5) {
	case 4:
		err, missing = errors.New(err.Error()), false
	case 1:
		err, missing = pretends{}, false
	case 2:
		err, missing = errors.New("key <x> is missing from event"), false
	case 3:
		err, missing = event.ErrKeyExists, false
	}
	n := []int{0, 1, 2, 5}[vsym.Choose("wrappers", 4)]
	kind := vsym.Choose("wrapper", 4)
	for i := 0; i < n; i++ {
		switch kind {
		case 0:
			err = fmt.Errorf("outer: %w", err)
		case 1:
			err = &odd{err}
		case 2:
			err = errors.Join(errors.New("other"), err)
		case 3:
			err = fmt.Errorf("outer: %v", err)
			missing = false
		}
	}
	scripted = err
	im := vsym.Bool("ignore_missing")
	ifl := vsym.Bool("ignore_failure")
	p, cErr := pipeline.New(&pipeline.Config{ID: "p", Processors: []pipeline.ProcessorConfig{
		{"zzerror": {Config: opts{"ignore_missing": im, "ignore_failure": ifl}}}}})
	vsym.Assume(cErr == nil)
	got, gotErr := p.Process(input())
	if missing && im || ifl {
		vsym.Assert(got != nil && gotErr == nil, "a missing field is ignored with ignore_missing")
		vsym.Reach("ignored")
		return
	}
	vsym.Assert(got == nil && gotErr != nil, "a failure is returned")
	vsym.Assert(gotErr != nil && errors.Is(gotErr, processor.ErrorKeyMissing{}) == missing, "callers recognise a missing field, and only that")
	vsym.Assert(gotErr != nil && errors.Is(gotErr, processor.ErrorKeyMissing{Key: "any"}) == missing, "callers recognise a missing field, and only that")
	vsym.Assert(gotErr != nil && errors.Is(gotErr, err), "callers can find the error itself")
	vsym.Reach("returned")
}
