package hser

import (
	"encoding/json"
	"errors"
	"time"

	"github.com/andrewkroh/go-sawmill/internal/zzverif/gen"
	"github.com/andrewkroh/go-sawmill/internal/zzverif/vsym"
	"github.com/andrewkroh/go-sawmill/pkg/event"
	"github.com/andrewkroh/go-sawmill/pkg/eventutil"
	"github.com/andrewkroh/go-sawmill/pkg/serialization/mapinterface"
	"github.com/andrewkroh/go-sawmill/pkg/serialization/protobuf"
)

// shared is an event that several goroutines read.
func shared() *event.Event {
	o := gen.Opts{Depth: 1, Width: 1, StrLen: 1, Null: true, UTF8: true, MaxDigs: 1}
	e := event.New()
	e.Put("v", o.Value("v"))
	switch vsym.Choose("empty", 5) {
	case 0:
		e.Put("z", &event.Value{Type: event.ArrayType})
	case 1:
		e.Put("z", &event.Value{Type: event.ObjectType})
	case 2:
		e.Put("z", event.Array(&event.Value{}, &event.Value{Type: event.ArrayType}))
	case 3:
		e.Put("z", event.Object(map[string]*event.Value{"o": {Type: event.ObjectType}}))
	}
	e.Put("l", event.Array(event.Object(map[string]*event.Value{"t": event.Timestamp(1000000005)}), event.NullValue))
	return e
}

// C27_Read: an event that is read at the same time.
func C27_Read() {
	e := shared()
	e.Put("a.b", event.String("x"))
	keep := gen.CopyEvent(e)
	key := []string{"a.b", "a", "z", "a.b.c", "a\\.b", "..a"}[vsym.Choose("key", 6)]
	var got [2]*event.Value
	var js [2]int
	var m [2]map[string]interface{}
	var back [2]*event.Event
	switch vsym.Choose("reader", 5) {
	case 0:
		vsym.Together(func(i int) { got[i] = e.Get(key) }, e)
		vsym.Assert(got[0] == got[1], "both read the same value")
	case 1:
		vsym.Together(func(i int) {
			b, err := json.Marshal(e)
			js[i] = len(b)
			if err != nil {
				js[i] = -1
			}
		}, e)
		vsym.Assert(js[0] == js[1], "both encode the event alike")
	case 2:
		vsym.Together(func(i int) { m[i] = mapinterface.FromEvent(e) }, e)
		vsym.Assert(len(m[0]) == len(m[1]), "both convert the event alike")
	case 3:
		vsym.Together(func(i int) { back[i] = protobuf.ToLogEvent(protobuf.FromEvent(e).GetLog()) }, e)
		vsym.Assert(gen.SameEvent(back[0], keep) && gen.SameEvent(back[1], keep), "both convert the event alike")
	case 4:
		msg := protobuf.FromEvent(e).GetLog()
		vsym.Together(func(i int) { back[i] = protobuf.ToLogEvent(msg); back[i].Put("a.b.n", event.Bool(true)) }, msg)
		vsym.Assert(gen.SameEvent(back[0], back[1]), "each conversion makes its own event")
	}
	vsym.Assert(gen.SameEvent(e, keep), "reading changes nothing")
	vsym.Reach("read")
}

type sharedStruct struct {
	A string `event:"a"`
	B *int   `event:"b.c,omitempty"`
	C []interface{}
	D time.Time
}

// C27_Write: events changed at the same time, built from the same Go value.
func C27_Write() {
	n := vsym.Int("n")
	var in interface{}
	switch vsym.Choose("in", 4) {
	case 0:
		in = &sharedStruct{A: vsym.StringN("a", 1), B: &n, C: []interface{}{n, "x", errors.New("e")}}
	case 1:
		in = map[string]interface{}{"a": map[string]interface{}{"b.c": n}, "l": []string{"x", "y"}}
	case 2:
		in = sharedStruct{A: "z"}
	case 3:
		in = map[string]uint8{"x": vsym.Uint8("x")}
	}
	var v [2]*event.Value
	var errs [2]error
	key := []string{"a", "a.n", "l", "q\\.r"}[vsym.Choose("key", 4)]
	vsym.Together(func(i int) {
		v[i], errs[i] = eventutil.ReflectValue(in)
		if errs[i] != nil {
			return
		}
		e := event.New()
		e.Put("a", v[i])
		e.Put(eventutil.EscapeKey("x.y"), event.Integer(int64(i)))
		eventutil.Append(e, key, event.String("new"))
		e.TryPut(key, event.String("again"))
		e.Delete(key)
	}, in)
	vsym.Assert((errs[0] == nil) == (errs[1] == nil), "both convert the value or refuse it")
	vsym.Assert(errs[0] != nil || v[0] != v[1], "each call makes its own value")
	vsym.Reach("written")
}
