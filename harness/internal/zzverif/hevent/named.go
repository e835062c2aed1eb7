package hevent

import (
	"encoding/json"
	"fmt"
	"strings"

	"github.com/andrewkroh/go-sawmill/internal/zzverif/gen"
	"github.com/andrewkroh/go-sawmill/internal/zzverif/vsym"
	"github.com/andrewkroh/go-sawmill/pkg/event"
	"github.com/andrewkroh/go-sawmill/pkg/eventutil"
)

// code is where an event implementation could treat a text or a size
// specially: the harnesses below try every short text and small number that
// the current source of these packages contains.
const code = "pkg/event,pkg/eventutil"

func join(path []string) string {
	key := ""
	for i, s := range path {
		if i > 0 {
			key += "."
		}
		key += gen.Escape(s)
	}
	return key
}

// namedPath is a path with the name n in it.
func namedPath(name, n string) []string {
	switch vsym.Choose(name+".form", 5) {
	case 1:
		return []string{n, "a"}
	case 2:
		return []string{"a", n}
	case 3:
		return []string{n, n}
	case 4:
		return []string{"a"}
	}
	return []string{n}
}

// C01_Named: texts of the code are names like any other.
func C01_Named() {
	n := gen.Near("n", code)
	path := namedPath("p", n)
	addressed(join(path), path)
}

func named(ops ...int) {
	h := newHistory(1, 1)
	n := gen.Name("n", code)
	p := namedPath("p", n)
	h.apply("p", opPut, p, join(p))
	q := namedPath("q", n)
	h.apply("q", ops[vsym.Choose("op", len(ops))], q, join(q))
}

func C02_Named() { named(opPut, opGet) }
func C03_Named() { named(opTryPut, opPut) }
func C04_Named() { named(opDelete) }

// C02_Texts: values of every kind that hold a text or number of the code.
func C02_Texts() {
	s := gen.Near("s", code)
	e := event.New()
	v := special(s)
	given := gen.Copy(v)
	_, err := e.Put("a.b", v)
	vsym.Assert(err == nil && gen.Same(e.Get("a.b"), given), "get after put returns the value that was put")
	vsym.Assert(e.Get("a.b") == v, "get after put returns the value itself")
	vsym.Reach("got")
}

func special(s string) *event.Value {
	switch vsym.Choose("kind", 4) {
	case 1:
		return event.Array(event.String(s), event.NullValue, event.String(s))
	case 2:
		return event.Object(map[string]*event.Value{s: event.Integer(1)})
	case 3:
		return event.Object(map[string]*event.Value{"a": event.Object(map[string]*event.Value{s: event.String(s)})})
	}
	return event.String(s)
}

// mixed is an event in which "a" holds any kind of value.
func mixed() *history {
	h := newHistory(1, 1)
	var v *event.Value
	switch vsym.Choose("content", 10) {
	case 0:
		v = event.Array()
	case 1:
		v = event.Array(event.Integer(1))
	case 2:
		v = event.Array(event.Object(map[string]*event.Value{"b": event.Integer(1)}))
	case 3:
		v = event.Array(event.Object(map[string]*event.Value{"b": event.Integer(1)}), event.Object(map[string]*event.Value{"b": event.Integer(2), "0": event.NullValue}))
	case 4:
		v = event.Array(event.Array(event.Object(map[string]*event.Value{"b": event.Object(nil)})), event.String("b"))
	case 5:
		v = event.String(`{"b":1}`)
	case 6:
		v = event.NullValue
	case 7:
		v = event.Object(map[string]*event.Value{"b": event.Array(event.Object(map[string]*event.Value{"b": event.Integer(1)})), "0": event.Bool(true)})
	case 8:
		v = event.Object(map[string]*event.Value{"": event.Integer(1), "a.b": event.Integer(2), "b": event.Integer(3), "B": event.Integer(4)})
	case 9:
		v = event.Timestamp(1)
	}
	h.apply2("a", v)
	return h
}

func (h *history) apply2(key string, v *event.Value) {
	h.m.put([]string{key}, modelOf(v))
	h.e.Put(key, v)
}

func mixedStep(ops ...int) {
	h := mixed()
	path := []string{"a"}
	for i := vsym.Choose("more", 3); i > 0; i-- {
		path = append(path, gen.Segment("seg", 1))
	}
	h.apply("o", ops[vsym.Choose("op", len(ops))], path, join(path))
	if vsym.Tier() > 0 {
		h.apply("g", opGet, path, join(path))
	}
}

// C02_Mixed, C03_Mixed, C04_Mixed: operations at and below every kind of
// value, arrays of objects included.
func C02_Mixed() { mixedStep(opPut, opGet) }
func C03_Mixed() { mixedStep(opTryPut, opPut) }
func C04_Mixed() { mixedStep(opDelete) }

// sized runs operations on an event whose width and path lengths are numbers
// the code singles out.
func sized(ops ...int) {
	h := newHistory(1, 1)
	n := vsym.Size("n", code, vsym.Pick(40, 140))
	wide := vsym.Choose("wide", 3)
	var path []string
	switch wide {
	case 0: // many fields
		for i := 0; i < n; i++ {
			h.apply2("f"+digits4(i), event.Integer(int64(i)))
		}
		path = []string{"f" + digits4(vsym.Choose("at", 2)*(n-1))}
	case 1: // a deep path
		for i := 0; i < n; i++ {
			path = append(path, string(rune('a'+i%3)))
		}
		h.apply("deep", opPut, path, join(path))
		if vsym.Choose("less", 2) == 1 {
			path = path[:n-1]
		}
	case 2: // a long name
		b := make([]byte, n)
		for i := range b {
			b[i] = "ab.c"[i%4]
		}
		path = []string{string(b), string(b)}
		h.apply("long", opPut, path, join(path))
		if vsym.Choose("other", 2) == 1 {
			path[1] += gen.Segment("x", 1)
		}
	}
	vsym.Assume(len(path) > 0)
	h.apply("o", ops[vsym.Choose("op", len(ops))], path, join(path))
	vsym.Reach("sized")
}

func digits4(i int) string {
	return string([]byte{byte('0' + i/1000%10), byte('0' + i/100%10), byte('0' + i/10%10), byte('0' + i%10)})
}

func C02_Sized() { sized(opPut, opGet) }
func C03_Sized() { sized(opTryPut, opPut) }
func C04_Sized() { sized(opDelete) }

// C06_Named: names and texts of the code survive JSON.
func C06_Named() {
	n := gen.Near("n", code)
	s := "s"
	if vsym.Choose("both", 2) == 1 {
		s = n
	}
	e := event.New()
	switch vsym.Choose("where", 4) {
	case 0:
		e.Put(gen.Escape(n), event.String(s))
	case 1:
		e.Put("a", event.Object(map[string]*event.Value{n: event.String(s), "b": event.Integer(1)}))
	case 2:
		e.Put(gen.Escape(n), event.Object(map[string]*event.Value{n: event.Object(nil)}))
	case 3:
		e.Put("a", event.Array(event.String(s), event.String(n), event.Object(map[string]*event.Value{n: event.NullValue})))
	}
	roundTrip(e)
}

// C06_Sized: widths, depths and lengths that the code singles out.
func C06_Sized() {
	n := vsym.Size("n", code, vsym.Pick(130, 1030))
	e := event.New()
	v := event.Bool(vsym.Bool("b"))
	if vsym.Choose("inner", 2) == 1 {
		v = event.String("x")
	}
	switch vsym.Choose("kind", 5) {
	case 0:
		vsym.Assume(n <= 66)
		for i := 0; i < n; i++ {
			v = event.Array(v)
		}
	case 1:
		vsym.Assume(n <= 66)
		for i := 0; i < n; i++ {
			v = event.Object(map[string]*event.Value{"k": v})
		}
	case 2:
		items := make([]*event.Value, n)
		for i := range items {
			items[i] = v
		}
		v = event.Array(items...)
	case 3:
		m := map[string]*event.Value{}
		for i := 0; i < n; i++ {
			m[digits4(i)] = v
		}
		v = event.Object(m)
	case 4:
		b := make([]byte, n)
		for i := range b {
			b[i] = "ab <\"e"[i%6]
		}
		v = event.Object(map[string]*event.Value{string(b): event.String(string(b)), string(b) + "x": v})
	}
	e.Put("a", v)
	roundTrip(e)
}

// C05_Named: keys and documents made of texts of the code are no cause for a
// panic.
func C05_Named() {
	s := vsym.Literal("n", code)
	e := event.New()
	switch vsym.Choose("content", 3) {
	case 1:
		e.Put("a", special(s))
	case 2:
		json.Unmarshal([]byte(`{"a":`+s+`,"b":1}`), e)
	}
	key := []string{s, "a." + s, s + ".a", s + s, s + "." + s}[vsym.Choose("key", 5)]
	touch(e, key)
	touch(e, eventutil.EscapeKey(s))
}

// C06_Empty: arrays without items and objects without fields, however they
// were made.
func C06_Empty() {
	empty := func(name string) *event.Value {
		switch vsym.Choose(name, 6) {
		case 0:
			return event.Array()
		case 1:
			return event.Array([]*event.Value{}...)
		case 2:
			return event.Object(nil)
		case 3:
			return event.Object(map[string]*event.Value{})
		case 4:
			return event.String("")
		}
		return event.NullValue
	}
	e := event.New()
	v := empty("v")
	switch vsym.Choose("in", 4) {
	case 1:
		v = event.Array(v, empty("w"))
	case 2:
		v = event.Object(map[string]*event.Value{"": v, "x": empty("w")})
	case 3:
		v = event.Array(event.Object(map[string]*event.Value{"x": v}))
	}
	e.Put("a", v)
	if vsym.Choose("beside", 2) == 1 {
		e.Put("b.c", empty("b"))
		e.Delete("b.c")
	}
	roundTrip(e)
}

// C05_Format: every value has a text form for messages, which starts with its
// type.
func C05_Format() {
	o := gen.Opts{Depth: 1, Width: 1, KeyLen: 1, StrLen: 1, UTF8: true, Null: true, MaxDigs: 2}
	v := o.Value("v")
	switch vsym.Choose("around", 5) {
	case 1:
		v = event.Array(v, nil, v)
	case 2:
		v = event.Object(map[string]*event.Value{"a": v, "b": nil})
	case 3:
		v = &event.Value{}
	case 4:
		v = &event.Value{Type: event.ValueType(vsym.Uint8("type"))}
	}
	s := fmt.Sprintf([]string{"%v", "%s", "%+v"}[vsym.Choose("verb", 3)], v)
	vsym.Assert(!strings.Contains(s, "PANIC"), "formatting a value does not panic")
	vsym.Reach("formatted")
}
