package hpipe

import (
	"strconv"
	"strings"

	"github.com/andrewkroh/go-sawmill/internal/zzverif/gen"
	"github.com/andrewkroh/go-sawmill/internal/zzverif/vsym"
	"github.com/andrewkroh/go-sawmill/pkg/event"
	"github.com/andrewkroh/go-sawmill/pkg/pipeline"
	"github.com/andrewkroh/go-sawmill/pkg/processor/registry"
)

// The code whose short texts and small numbers are tried as names, texts and
// sizes.
const (
	codePipe  = "pkg/pipeline,pkg/processor/registry"
	codeEvent = "pkg/event,pkg/eventutil"
)

func codeProc(typ string) string { return "pkg/pipeline,pkg/eventutil,pkg/event,pkg/processor/" + typ }

// fieldKey is a key with the name n in it.
func fieldKey(name, n string) string {
	return []string{gen.Escape(n), n, "o." + n, gen.Escape(n) + ".x"}[vsym.Choose(name, 4)]
}

func anyField(kinds int) {
	n := gen.Name("n", "pkg/pipeline,pkg/event")
	key := []string{n, gen.Escape(n), "o." + n}[vsym.Choose("field", 3)]
	kind := vsym.Choose("kind", kinds)
	extra = func(e *event.Event) {
		v := event.NullValue
		switch kind {
		case 1:
			v = event.String(key)
		case 2:
			v = event.Bool(true)
		case 3:
			v = event.Object(nil)
		}
		e.Put(key, v)
	}
}

// C13_Named, C14_Named: fields of an event are data, whatever they are called.
func C13_Named() {
	allow(oOK, oFail, oMissing)
	anyField(4)
	p, pipe := newPlan(choose("shape", "()|()", "(())|"), false)
	p.process(pipe)
}

func C14_Named() {
	allow(oOK, oFail, oDrop, oCancel)
	anyField(vsym.Pick(2, 4))
	p, pipe := newPlan(choose("shape", "()|()", "(())|"), false)
	p.process(pipe)
}

// C15_Named: components count every event, whatever its fields are called.
func C15_Named() {
	allow(oOK, oFail, oDrop)
	anyField(vsym.Pick(1, 4))
	p, pipe := newPlan("()|()", false)
	p.process(pipe)
	p.checkCounters(pipe)
	vsym.Reach("counted")
}

func sizedShape(max int) (string, int) {
	n := vsym.Size("n", codePipe+",pkg/event", max)
	switch vsym.Choose("kind", 3) {
	case 1: // handlers in a row
		return "(" + strings.Repeat("()", n-1) + ")|()", n
	case 2: // nested handlers
		return strings.Repeat("(", n) + strings.Repeat(")", n) + "|()", n
	}
	return strings.Repeat("()", n) + "|()", n
}

// sized is a pipeline of as many components as a number that the code singles
// out; one or all of them may do something else than succeed.
func sizedPlan(other uint8) (*plan, *pipeline.Pipeline) {
	allow(oFail)
	s, _ := sizedShape(vsym.Pick(24, 36))
	p := &plan{id: "p"}
	i := strings.Index(s, "|")
	p.procs = p.comps(s[:i], "p.processors")
	p.onf = p.comps(s[i+1:], "p.on_failure")
	free = map[string]bool{}
	if strings.HasPrefix(s, "((") {
		for _, c := range p.all {
			free[c.name] = true
		}
		allowed = []uint8{oFail}
		if vsym.Choose("one", 2) == 1 {
			last := p.all[len(p.all)-2]
			free[last.name] = false
		}
	} else {
		allowed = []uint8{oOK, other}
		free[p.all[len(p.all)-2].name] = true
		free[p.all[len(p.all)/2].name] = true
	}
	pipe, err := pipeline.New(&pipeline.Config{ID: p.id, Processors: configs(p.procs), OnFailure: configs(p.onf)})
	vsym.Assert(err == nil, "a valid configuration is accepted")
	vsym.Assume(err == nil)
	return p, pipe
}

// C13_Sized, C14_Sized, C15_Sized: pipelines as large as the code's numbers.
func C13_Sized() {
	p, pipe := sizedPlan(oFail)
	p.process(pipe)
}

func C14_Sized() {
	p, pipe := sizedPlan([]uint8{oDrop, oCancel}[vsym.Choose("other", 2)])
	p.process(pipe)
}

func C15_Sized() {
	p, pipe := sizedPlan([]uint8{oFail, oDrop}[vsym.Choose("other", vsym.Pick(1, 2))])
	p.process(pipe)
	p.checkCounters(pipe)
	vsym.Reach("counted")
}

// many processes as many events as a number that the code singles out, all but
// the last of them alike.
func many(outcomes ...uint8) {
	allow(outcomes...)
	n := vsym.Size("events", codePipe, vsym.Pick(20, 40))
	p, pipe := newPlan(choose("shape", "(())|", "()|()"), true)
	fixed = map[string]uint8{}
	for _, c := range p.all {
		fixed[c.name] = outcomes[vsym.Choose("before."+c.name, len(outcomes))]
	}
	for i := 0; i < n; i++ {
		p.process(pipe)
	}
	fixed = nil
	p.process(pipe)
	p.checkCounters(pipe)
	vsym.Reach("counted")
}

// C13_Events, C14_Events, C15_Events: pipelines that have processed many events.
func C13_Events() { many(oOK, oFail, oMissing) }
func C14_Events() { many(oFail, oDrop, oCancel) }
func C15_Events() { many(oFail, oMissing, oDrop) }

// C17_Named: texts of the code as pipeline IDs and processor types.
func C17_Named() {
	n := gen.Near("n", codePipe)
	p, err := pipeline.New(&pipeline.Config{ID: n, Processors: (&builder{at: -1}).build("()")})
	vsym.Assert(err == nil && p != nil && p.ID() == n, "a pipeline may have any ID")
	p, err = pipeline.New(&pipeline.Config{ID: "p", OnFailure: []pipeline.ProcessorConfig{{n: {Config: opts{"name": "x"}}}}})
	vsym.Assume(!known(n))
	vsym.Assert(p == nil && err != nil, "an unknown type is refused")
	vsym.Reach("refused")
}

func known(typ string) bool {
	switch typ {
	case "append", "community_id", "lowercase", "remove", "set", "uppercase", "zzscript", "zzerror", "zztouch", "zzdoer":
		return true
	}
	return false
}

// C17_Like: pipelines whose IDs differ in one character.
func C17_Like() {
	c := vsym.Byte("c")
	vsym.Assume(c >= ' ' && c < 0x7f)
	x := string([]byte{c})
	pairs := [][2]string{{"p", "p" + x}, {"p", x + "p"}, {"pq", "p" + x + "q"}, {"p_q", "p" + x + "q"}, {"p.q", "p" + x + "q"}, {"p", x}}
	pair := pairs[vsym.Choose("pair", len(pairs))]
	vsym.Assume(pair[0] != pair[1])
	twins(pair)
}

// C17_Sized: pipelines as large as the code's numbers have unique components.
func C17_Sized() {
	if vsym.Choose("row", 2) == 1 {
		rowUnique()
		return
	}
	s, _ := sizedShape(vsym.Pick(40, 70))
	i := strings.Index(s, "|")
	b := &builder{at: -1}
	p, err := pipeline.New(&pipeline.Config{ID: "p", Processors: b.build(s[:i]), OnFailure: b.build(s[i+1:])})
	vsym.Assert(err == nil, "a valid configuration is accepted")
	vsym.Assume(err == nil)
	ids := map[string]int{}
	for _, m := range p.Metrics() {
		id, _ := identity(m)
		ids[id]++
	}
	vsym.Assert(len(ids) == b.n, "no two components have the same ID")
	for _, k := range ids {
		vsym.Assert(k == 4, "every component has four counters")
	}
	vsym.Reach("unique")
}

func namedConfig(n string, zero interface{}) pipeline.Config {
	o := &pipeline.ProcessorOptionConfig{Config: opts{"field": n}}
	c := pipeline.Config{ID: "p", Processors: []pipeline.ProcessorConfig{{"set": o}}}
	switch vsym.Choose("where", 7) {
	case 0:
		vsym.Assume(!clash(n))
		o.Config = opts{n: []interface{}{n, "", false, nil, zero, opts{}, []interface{}{}}[vsym.Choose("option", 7)], "y": true}
	case 1:
		o.Config = opts{"x": opts{n: n}, "y": []interface{}{n, opts{n: nil}}}
	case 2:
		c.Processors[0] = pipeline.ProcessorConfig{n: o}
	case 3:
		o.ID = n
	case 4:
		o.If = pipeline.ConditionalExpressionConfig(n)
	case 5:
		c.ID, c.Description = n, n
	case 6:
		vsym.Assume(!clash(n))
		o.OnFailure = []pipeline.ProcessorConfig{{n: {ID: n, Config: opts{n: opts{}}}}}
		c.OnFailure = o.OnFailure
	}
	return c
}

// C18_Named: texts of the code in every place of a configuration.
func C18_Named() { survives(namedConfig(gen.Near("n", codePipe+",pkg/config"), 0.0)) }

// C28_Named: the same in YAML.
func C28_Named() {
	spelled(namedConfig(gen.Name("n", codePipe+",pkg/config,cmd/sawmill"), 0), spelling())
}

func sizedConfig(max int) pipeline.Config {
	n := vsym.Size("n", codePipe+",pkg/config", max)
	c := pipeline.Config{ID: "p"}
	item := func(i int) pipeline.ProcessorConfig {
		return pipeline.ProcessorConfig{"set": {ID: "i" + strconv.Itoa(i), Config: opts{"n": "v" + strconv.Itoa(i)}}}
	}
	switch vsym.Choose("kind", 5) {
	case 0:
		for i := 0; i < n; i++ {
			c.Processors = append(c.Processors, item(i))
		}
	case 1:
		vsym.Assume(n <= 24)
		e := item(0)
		for i := 1; i < n; i++ {
			f := item(i)
			f["set"].OnFailure = []pipeline.ProcessorConfig{e}
			e = f
		}
		c.OnFailure = []pipeline.ProcessorConfig{e}
	case 2:
		o := opts{}
		for i := 0; i < n; i++ {
			o["k"+strconv.Itoa(i)] = "v" + strconv.Itoa(i)
		}
		c.Processors = []pipeline.ProcessorConfig{{"set": {Config: o}}}
	case 3:
		s := strings.Repeat("ab c", n/4+1)[:n]
		if n > 0 {
			s = s[:n-1] + "x"
		}
		c.Description = s
		c.Processors = []pipeline.ProcessorConfig{{"set": {If: pipeline.ConditionalExpressionConfig(s), Config: opts{"value": s, "k" + s: s}}}}
	case 4:
		var v interface{} = "x"
		vsym.Assume(n <= 40)
		for i := 0; i < n; i++ {
			if i%2 == 0 {
				v = []interface{}{v}
			} else {
				v = opts{"k": v}
			}
		}
		c.Processors = []pipeline.ProcessorConfig{{"set": {Config: opts{"value": v}}}}
	}
	return c
}

// C18_Sized, C28_Sized: configurations as large as the code's numbers.
func C18_Sized() { survives(sizedConfig(vsym.Pick(40, 130))) }
func C28_Sized() {
	spelled(sizedConfig(vsym.Pick(20, 70)), &speller{flow: vsym.Choose("flow", 2) == 1})
}

// C19_Named: fields and texts of the code are converted like any other.
func C19_Named() {
	typ, up := caseProc()
	n := gen.Near("n", codeProc(typ))
	e := event.New()
	f, t, s := "f", "", "Some Text"
	switch vsym.Choose("as", 4) {
	case 0:
		f = fieldKey("field", n)
	case 1:
		s = n
	case 2:
		t = fieldKey("field", n)
	case 3:
		f = fieldKey("field", n)
		e.Put("other", event.String("X"))
		o := opts{"field": f}
		vsym.Assume(e.Get(f) == nil)
		failed(typ, o, e, true)
		vsym.Reach("missing")
		return
	}
	_, err := e.Put(f, event.String(s))
	vsym.Assume(err == nil)
	e.Put("keep", event.Integer(7))
	o := opts{"field": f}
	if t != "" {
		o["target_field"] = t
	} else {
		t = f
	}
	want := gen.CopyEvent(e)
	_, err = want.Put(t, event.String(fold(s, up)))
	vsym.Assume(err == nil)
	got, err := one(typ, o, false).Process(e)
	same(got, err, want, "the target holds the converted text and nothing else changes")
	vsym.Reach("converted")
}

// C20_Named: fields and values of the code are appended like any other.
func C20_Named() {
	n := gen.Near("n", codeProc(typeAppend))
	f, val := "f", "v"
	if vsym.Choose("as", 2) == 0 {
		f = fieldKey("field", n)
	} else {
		val = n
	}
	dup := vsym.Choose("allow_duplicates", 2) == 1
	e := event.New()
	e.Put("keep", event.Integer(7))
	var items []*event.Value
	have := false
	switch vsym.Choose("old", 4) {
	case 1:
		items = []*event.Value{event.String(val)}
		have = true
		e.Put(f, event.String(val))
	case 2:
		items = []*event.Value{event.String(val + "x"), event.String(strings.ToUpper(val) + "y"), event.Object(map[string]*event.Value{val: event.String(val)})}
		e.Put(f, event.Array(items...))
	case 3:
		items = []*event.Value{event.Integer(1), event.String(val)}
		have = true
		e.Put(f, event.Array(items...))
	}
	if dup || !have {
		items = append(items[:len(items):len(items)], event.String(val))
	}
	want := gen.CopyEvent(e)
	_, err := want.Put(f, gen.Copy(event.Array(items...)))
	vsym.Assume(err == nil)
	got, err := one(typeAppend, opts{"field": f, "value": val, "allow_duplicates": dup}, false).Process(e)
	same(got, err, want, "the field is the array of its old items and the value")
	vsym.Reach("done")
}

// C20_Sized: arrays and texts as long as the code's numbers.
func C20_Sized() {
	n := vsym.Size("n", codeProc(typeAppend), vsym.Pick(66, 520))
	val := "v"
	var items []*event.Value
	at := -1
	if vsym.Choose("text", 2) == 1 {
		val = strings.Repeat("abc", n/3+1)[:n]
		items = []*event.Value{event.String(val + "."), event.String(strings.ToUpper(val) + "A")}
		if vsym.Choose("have", 2) == 1 {
			items = append(items, event.String(val))
			at = 2
		}
	} else {
		for i := 0; i < n; i++ {
			items = append(items, event.String("x"+strconv.Itoa(i)))
		}
		if vsym.Choose("have", 2) == 1 {
			at = []int{0, n / 2, n - 1}[vsym.Choose("at", 3)]
			vsym.Assume(at >= 0 && at < n)
			items[at] = event.String(val)
		}
	}
	e := event.New()
	e.Put("f", event.Array(items...))
	want := gen.CopyEvent(e)
	dup := vsym.Choose("allow_duplicates", 2) == 1
	if dup || at < 0 {
		want.Put("f", gen.Copy(event.Array(append(items[:len(items):len(items)], event.String(val))...)))
	}
	got, err := one(typeAppend, opts{"field": "f", "value": val, "allow_duplicates": dup}, false).Process(e)
	same(got, err, want, "the field is the array of its old items and the value")
	vsym.Reach("done")
}

// C21_Named: targets, sources and values of the code are set like any other.
func C21_Named() {
	n := gen.Near("n", codeProc("set"))
	t, val := "t", event.String("v")
	var cfg interface{} = "v"
	from := ""
	switch vsym.Choose("as", 5) {
	case 0:
		t = fieldKey("field", n)
	case 1:
		cfg, val = n, event.String(n)
	case 2:
		cfg, val = []interface{}{n, n}, event.Array(event.String(n), event.String(n))
	case 3:
		from = fieldKey("field", n)
	case 4:
		from, t = fieldKey("field", n), "keep"
		val = event.Object(map[string]*event.Value{n: event.String(n)})
	}
	e := event.New()
	e.Put("keep", event.Integer(7))
	o := opts{"target_field": t}
	if from != "" {
		_, err := e.Put(from, val)
		vsym.Assume(err == nil)
		o["copy_from"] = from
	} else {
		o["value"] = cfg
		if vsym.Choose("old", 2) == 1 {
			e.Put(t, event.Object(map[string]*event.Value{n: event.NullValue}))
		}
	}
	want := gen.CopyEvent(e)
	_, err := want.Put(t, gen.Copy(val))
	vsym.Assume(err == nil)
	got, err := one("set", o, false).Process(e)
	same(got, err, want, "the target holds the value and nothing else changes")
	vsym.Reach("set")
}

// C21_Sized: values as large as the code's numbers.
func C21_Sized() {
	n := vsym.Size("n", codeProc("set"), vsym.Pick(66, 260))
	var cfg interface{}
	var want *event.Value
	switch vsym.Choose("kind", 4) {
	case 0:
		s := strings.Repeat("ab c", n/4+1)[:n]
		cfg, want = s, event.String(s)
	case 1:
		list := make([]interface{}, n)
		items := make([]*event.Value, n)
		for i := range list {
			list[i], items[i] = "v"+strconv.Itoa(i), event.String("v"+strconv.Itoa(i))
		}
		cfg, want = list, event.Array(items...)
	case 2:
		m, w := opts{}, map[string]*event.Value{}
		for i := 0; i < n; i++ {
			k := "k" + strconv.Itoa(i)
			m[k], w[k] = k, event.String(k)
		}
		cfg, want = m, event.Object(w)
	case 3:
		vsym.Assume(n <= 40)
		cfg, want = "x", event.String("x")
		for i := 0; i < n; i++ {
			cfg, want = opts{"k": cfg}, event.Object(map[string]*event.Value{"k": want})
		}
	}
	vsym.Assume(n > 0)
	o := opts{"target_field": "t", "value": cfg}
	e := event.New()
	e.Put("keep", event.Integer(7))
	if vsym.Choose("copy", 2) == 1 {
		e.Put("src", want)
		o = opts{"target_field": "t", "copy_from": "src"}
	}
	exp := gen.CopyEvent(e)
	exp.Put("t", gen.Copy(want))
	got, err := one("set", o, false).Process(e)
	same(got, err, exp, "the target holds the value and nothing else changes")
	vsym.Reach("set")
}

// C22_Named: fields of the code are removed like any other.
func C22_Named() {
	n := gen.Near("n", codeProc("remove"))
	f := fieldKey("field", n)
	e := event.New()
	e.Put("keep", event.Integer(7))
	v := event.String(n)
	if vsym.Choose("value", 2) == 1 {
		v = event.Object(map[string]*event.Value{n: event.NullValue})
	}
	_, err := e.Put(f, v)
	vsym.Assume(err == nil)
	list := []interface{}{f}
	if vsym.Choose("more", 2) == 1 {
		list = []interface{}{"keep", f}
	}
	want := gen.CopyEvent(e)
	for _, x := range list {
		want.Delete(x.(string))
	}
	got, err := one("remove", opts{"fields": list}, false).Process(e)
	same(got, err, want, "exactly the listed fields are removed")
	vsym.Reach("removed")
}

// C22_Sized: lists as long as the code's numbers.
func C22_Sized() {
	n := vsym.Size("n", codeProc("remove"), vsym.Pick(66, 260))
	vsym.Assume(n > 0)
	e := event.New()
	var list []interface{}
	for i := 0; i < n; i++ {
		f := "o.f" + strconv.Itoa(i)
		e.Put(f, event.Integer(int64(i)))
		list = append(list, f)
	}
	e.Put("o.rest", event.Integer(1))
	e.Put("k", event.Integer(1))
	want := gen.CopyEvent(e)
	missing := vsym.Choose("missing", 2) == 1
	if missing {
		list[[]int{0, n / 2, n - 1}[vsym.Choose("at", 3)]] = "nope"
	}
	for _, x := range list {
		want.Delete(x.(string))
	}
	im := vsym.Choose("ignore_missing", 2) == 1
	got, err := one("remove", opts{"fields": list, "ignore_missing": im}, false).Process(e)
	if missing && !im {
		vsym.Assert(got == nil && err != nil, "a field that does not exist is reported as missing")
		return
	}
	same(got, err, want, "exactly the listed fields are removed")
	vsym.Reach("removed")
}

// C23_Named: texts of the code as names of processors.
func C23_Named() {
	r := registry.NewRegistry()
	n := gen.Near("n", codePipe)
	m := n + "x"
	vsym.Assume(len(n) > 1)
	switch vsym.Choose("other", 4) {
	case 1:
		m = " " + n
	case 2:
		m = strings.ToUpper(n)
	case 3:
		m = n[:len(n)-1]
	}
	vsym.Assume(m != n)
	vsym.Assert(r.Register(n, ctor(1)) == nil, "a constructor is registered")
	p, err := r.NewProcessor(m, opts{"req": "r"})
	vsym.Assert(p == nil && err != nil, "an unknown type is an error")
	vsym.Assert(r.Register(m, ctor(2)) == nil, "a constructor is registered")
	vsym.Assert(r.Register(n, ctor(3)) != nil, "a taken name is refused")
	for i, k := range []string{n, m} {
		p, err := r.NewProcessor(k, opts{"req": n, "name": m, "n": i})
		a, ok := p.(*procA)
		vsym.Assert(err == nil && ok && a.tag == i+1, "the first registered constructor builds the processor")
		vsym.Assert(ok && a.c.Req == n && a.c.Name == m && a.c.N == i, "the constructor is given the decoded options")
	}
	vsym.Reach("built")
}

// C23_Sized: as many registrations as a number that the code singles out.
func C23_Sized() {
	r := registry.NewRegistry()
	n := vsym.Size("n", "pkg/processor/registry", vsym.Pick(40, 130))
	for i := 0; i < n; i++ {
		vsym.Assert(r.Register("p"+strconv.Itoa(i), ctor(i)) == nil, "a constructor is registered")
	}
	for i := 0; i < n; i++ {
		p, err := r.NewProcessor("p"+strconv.Itoa(i), opts{"req": "r"})
		a, ok := p.(*procA)
		vsym.Assert(err == nil && ok && a.tag == i, "the first registered constructor builds the processor")
	}
	p, err := r.NewProcessor("p"+strconv.Itoa(n), opts{"req": "r"})
	vsym.Assert(p == nil && err != nil, "an unknown type is an error")
	vsym.Reach("built")
}

// rowUnique is about components in a long row.
func rowUnique() {
	n := vsym.Size("row length", codePipe, vsym.Pick(140, 260))
	var row []pipeline.ProcessorConfig
	for i := 0; i < n; i++ {
		row = append(row, pipeline.ProcessorConfig{"zzscript": {Config: opts{"name": "x"}}})
	}
	c := &pipeline.Config{ID: "p"}
	switch vsym.Choose("where", 3) {
	case 0:
		c.Processors = row
	case 1:
		c.OnFailure = row
	case 2:
		c.Processors = []pipeline.ProcessorConfig{{"zzscript": {OnFailure: row, Config: opts{"name": "x"}}}}
		n++
	}
	p, err := pipeline.New(c)
	vsym.Assert(err == nil, "a valid configuration is accepted")
	vsym.Assume(err == nil)
	ids := map[string]bool{}
	for _, m := range p.Metrics() {
		id, _ := identity(m)
		ids[id] = true
	}
	vsym.Assert(len(ids) == n, "no two components have the same ID")
	vsym.Reach("unique")
}
