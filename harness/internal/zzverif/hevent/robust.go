package hevent

import (
	"encoding/json"

	"github.com/andrewkroh/go-sawmill/internal/zzverif/gen"
	"github.com/andrewkroh/go-sawmill/internal/zzverif/vsym"
	"github.com/andrewkroh/go-sawmill/pkg/event"
)

// anyOp runs one operation with any key; the engine reports any panic.
func anyOp(e *event.Event, name string, keyLen int) {
	key := vsym.String(name+".key", keyLen)
	switch vsym.Choose(name+".op", 4) {
	case 0:
		e.Get(key)
	case 1:
		e.Put(key, event.Bool(true))
	case 2:
		e.TryPut(key, event.Bool(true))
	case 3:
		e.Delete(key)
	}
}

// C05_Text: any text either decodes or is refused, and what decodes can be
// used.
func C05_Text() {
	n := vsym.Choose("n", vsym.Pick(5, 6))
	data := vsym.BytesN("json", n)
	e := event.New()
	if err := json.Unmarshal(data, e); err != nil {
		vsym.Reach("refused")
		return
	}
	vsym.Reach("decoded")
	anyOp(e, "op", 1)
	_, err := json.Marshal(e)
	vsym.Assert(err == nil, "what was decoded can be encoded")
}

// jsonValue writes a JSON document shape with symbolic content.
func jsonValue(name string, depth int) string {
	n := 3
	if depth > 0 {
		n = 5
	}
	switch vsym.Choose(name, n) {
	case 0:
		return "null"
	case 1:
		d := vsym.StringN(name+".digit", 1)
		vsym.Assume(vsym.And(d[0] >= '0', d[0] <= '9'))
		return d
	case 2:
		return `"s"`
	case 3:
		s := "["
		k := vsym.Choose(name+".n", 1+vsym.Pick(1, 2))
		for i := 0; i < k; i++ {
			if i > 0 {
				s += ","
			}
			s += jsonValue(name, depth-1)
		}
		return s + "]"
	}
	s := "{"
	k := vsym.Choose(name+".n", 2)
	for i := 0; i < k; i++ {
		s += `"b":` + jsonValue(name, depth-1)
	}
	return s + "}"
}

// C05_Decoded: events decoded from JSON documents of any shape.
func C05_Decoded() {
	e := event.New()
	err := json.Unmarshal([]byte(`{"a":`+jsonValue("v", vsym.Pick(2, 2))+`}`), e)
	vsym.Assert(err == nil, "a JSON object decodes")
	n := vsym.Pick(1, 2)
	for i := 0; i < n; i++ {
		key := []string{"a", "a.b", "a.b.b", "a.b.b.b", "."}[vsym.Choose("key", 5)]
		switch vsym.Choose("op", 4) {
		case 0:
			e.Get(key)
		case 1:
			e.Put(key, event.Bool(true))
		case 2:
			e.TryPut(key, event.Bool(true))
		case 3:
			e.Delete(key)
		}
	}
	_, err = json.Marshal(e)
	vsym.Assert(err == nil, "the event can still be encoded")
	vsym.Reach("done")
}

// C05_Built: events built from zero values, nil maps and nil arrays.
func C05_Built() {
	e := event.New()
	var v *event.Value
	switch vsym.Choose("v", 6) {
	case 0:
		v = &event.Value{}
	case 1:
		v = event.Object(nil)
	case 2:
		v = event.Array()
	case 3:
		v = event.Object(map[string]*event.Value{"b": event.Object(nil)})
	case 4:
		v = event.Object(map[string]*event.Value{"b": event.NullValue})
	case 5:
		v = event.String("x")
	}
	e.Put("a", v)
	if vsym.Choose("fixed", 2) == 0 {
		key := []string{"a.b", "a.b.c", "a.b.c.d"}[vsym.Choose("key", 3)]
		e.Put(key, event.Bool(true))
		e.Delete(key)
	}
	n := vsym.Pick(1, 2)
	for i := 0; i < n; i++ {
		anyOp(e, "op", vsym.Pick(4, 4))
	}
	vsym.Reach("done")
	_ = gen.Root(e)
}

// C05_Mixed: keys that lead below arrays, texts and missing values.
func C05_Mixed() {
	item := func(name string) *event.Value {
		switch vsym.Choose(name, 8) {
		case 0:
			return nil
		case 1:
			return &event.Value{}
		case 2:
			return event.Object(map[string]*event.Value{"b": event.Integer(1)})
		case 3:
			return event.Object(nil)
		case 4:
			return event.Array(nil, event.Array())
		case 5:
			return event.String("b")
		case 6:
			return event.Timestamp(-1)
		}
		return event.NullValue
	}
	e := event.New()
	v := event.Array()
	for i := vsym.Choose("items", 3); i > 0; i-- {
		v.Array = append(v.Array, item("item"))
	}
	if vsym.Choose("inside", 2) == 1 {
		e.Put("a.b", v)
	} else {
		e.Put("a", v)
	}
	if len(v.Array) == 0 {
		e.Put("a", event.Object(map[string]*event.Value{"b": item("member"), "c": nil}))
	}
	keep := gen.CopyEvent(e)
	key := []string{"a", "a.b", "a.b.c", "a.c", "a.c.d", "a.0", "a.b.0", "a.b.0.b", "a.1.b"}[vsym.Choose("key", 9)]
	switch vsym.Choose("op", 4) {
	case 0:
		e.Get(key)
		vsym.Assert(gen.SameEvent(e, keep), "reading changes nothing")
	case 1:
		e.Put(key, event.Bool(true))
	case 2:
		e.TryPut(key, event.Bool(true))
	case 3:
		e.Delete(key)
	}
	e.Get(key)
	_, err := json.Marshal(e)
	vsym.Assert(err == nil, "the event can still be encoded")
	vsym.Reach("done")
}
