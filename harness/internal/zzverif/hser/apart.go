package hser

import (
	"github.com/andrewkroh/go-sawmill/internal/zzverif/gen"
	"github.com/andrewkroh/go-sawmill/internal/zzverif/vsym"
	"github.com/andrewkroh/go-sawmill/pkg/event"
	"github.com/andrewkroh/go-sawmill/pkg/eventutil"
	"github.com/andrewkroh/go-sawmill/pkg/serialization/mapinterface"
	"github.com/andrewkroh/go-sawmill/pkg/serialization/protobuf"
)

func container(name string) *event.Value {
	x := event.Integer(vsym.Int64(name + ".x"))
	switch vsym.Choose(name, 10) {
	case 6:
		return event.Bool(true)
	case 7:
		return event.String("s")
	case 8:
		return event.Array(event.Bool(true), event.String("s"), event.Integer(1))
	case 9:
		return event.Object(map[string]*event.Value{"m": event.Bool(true), "o": event.String("s"), "p": event.Timestamp(1)})
	case 0:
		return event.Object(map[string]*event.Value{})
	case 1:
		return event.Object(map[string]*event.Value{"m": x})
	case 2:
		return event.Object(map[string]*event.Value{"o": event.Object(map[string]*event.Value{})})
	case 3:
		return event.Array(x)
	case 4:
		return event.Array()
	}
	return event.Array(event.Object(map[string]*event.Value{}), event.Array(x), event.Object(map[string]*event.Value{}))
}

// change does one thing to an event.
func change(e *event.Event, how int, x int64) bool {
	switch how {
	case 0:
		_, err := e.Put("a.n", event.Integer(x))
		return err == nil
	case 1:
		_, err := e.Put("a.o.n", event.Integer(x))
		return err == nil
	case 2:
		return eventutil.Append(e, "a", event.Integer(x)) == nil
	case 3:
		return e.Delete("a.m") != nil
	case 5: // every scalar of a field in place
		scalars(e.Get("a"), x)
		return true
	case 4:
		if v := e.Get("a"); v != nil && len(v.Array) == 3 && v.Array[0].Type == event.ObjectType {
			v.Array[0].Object["n"] = event.Integer(x)
			v.Array[1].Array[0] = event.Integer(x)
			return true
		}
	}
	return false
}

// scalars changes the scalars of a value.
func scalars(v *event.Value, x int64) {
	switch v.Type {
	case event.ArrayType:
		for _, i := range v.Array {
			scalars(i, x)
		}
	case event.ObjectType:
		for _, i := range v.Object {
			scalars(i, x)
		}
	case event.BoolType:
		v.Bool = !v.Bool
	case event.StringType:
		v.String += "+"
	case event.IntegerType:
		v.Integer = x
	case event.TimestampType:
		v.Timestamp.UnixNanos = x
	}
}

func twoContainers() *event.Event {
	e := event.New()
	e.Put("a", container("a"))
	e.Put("b", container("b"))
	if vsym.Choose("more", 2) == 1 {
		e.Put("c.d", container("a"))
	}
	return e
}

// C08_Apart: the result of a conversion is changed.
func C08_Apart() {
	e := twoContainers()
	keep := gen.CopyEvent(e)
	msg := protobuf.FromEvent(e).GetLog()
	f := protobuf.ToLogEvent(msg)
	g := protobuf.ToLogEvent(msg)
	how, x := vsym.Choose("how", 6), vsym.Int64("x")
	done := change(f, how, x)
	vsym.Assert(gen.SameEvent(e, keep), "the original keeps its contents when the result changes")
	vsym.Assert(gen.SameEvent(g, keep), "a second result keeps its contents when the first changes")
	vsym.Assert(gen.SameEvent(protobuf.ToLogEvent(msg), keep), "the message keeps its contents when the result changes")
	want := gen.CopyEvent(keep)
	vsym.Assert(change(want, how, x) == done, "the same change is possible")
	vsym.Assert(gen.SameEvent(f, want), "a change of the result changes one place")
	change(e, how, x)
	vsym.Assert(gen.SameEvent(g, keep) && gen.SameEvent(protobuf.ToLogEvent(msg), keep), "a message and its event keep their contents when the original changes")
	vsym.Reach("apart")
}

// C10_Apart: the same with maps.
func C10_Apart() {
	e := twoContainers()
	keep := gen.CopyEvent(e)
	m := mapinterface.FromEvent(e)
	f, err := mapinterface.ToEvent(m)
	vsym.Assert(err == nil, "a plain map converts")
	g, err := mapinterface.ToEvent(m)
	vsym.Assert(err == nil, "a plain map converts")
	how, x := vsym.Choose("how", 6), vsym.Int64("x")
	done := change(f, how, x)
	vsym.Assert(gen.SameEvent(e, keep), "the original keeps its contents when the result changes")
	vsym.Assert(gen.SameEvent(g, keep), "a second result keeps its contents when the first changes")
	want := gen.CopyEvent(keep)
	vsym.Assert(change(want, how, x) == done, "the same change is possible")
	vsym.Assert(gen.SameEvent(f, want), "a change of the result changes one place")
	change(e, how, x)
	other := event.New()
	other.Put("z", event.Array(event.Bool(true), event.Bool(false)))
	mapinterface.FromEvent(other)
	h, err := mapinterface.ToEvent(m)
	vsym.Assert(err == nil && gen.SameEvent(h, keep), "a map keeps its contents when events change or are converted")
	if o, ok := m["a"].(map[string]interface{}); ok {
		o["n"] = x
		delete(o, "m")
	}
	if l, ok := m["a"].([]interface{}); ok && len(l) > 0 {
		l[0] = x
	}
	vsym.Assert(gen.SameEvent(g, keep), "an event keeps its contents when the map changes")
	want = gen.CopyEvent(keep)
	change(want, how, x)
	vsym.Assert(gen.SameEvent(e, want), "an event keeps its contents when its map changes")
	vsym.Reach("apart")
}
