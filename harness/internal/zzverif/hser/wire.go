package hser

import (
	"encoding/json"

	"github.com/andrewkroh/go-sawmill/internal/zzverif/gen"
	"github.com/andrewkroh/go-sawmill/internal/zzverif/vsym"
	"github.com/andrewkroh/go-sawmill/pkg/event"
	"github.com/andrewkroh/go-sawmill/pkg/serialization/protobuf"
)

func wireTrip(e *event.Event) {
	before := gen.CopyEvent(e)
	data, err := protobuf.FromEvent(e).Marshal()
	vsym.Assert(err == nil, "the message encodes")
	var w protobuf.MessageWrapper
	err = w.Unmarshal(data)
	vsym.Assert(err == nil, "the encoded message decodes")
	f := protobuf.ToLogEvent(w.GetLog())
	vsym.Assert(gen.SameEvent(before, f), "the bytes decode to the same event")
	vsym.Reach("same")
}

// C08_WireScalar: every scalar survives the wire.
func C08_WireScalar() {
	o := gen.Opts{StrLen: vsym.Pick(2, 3), Null: true, Uint: true, Times: true, Floats: true}
	e := event.New()
	e.Put("a", o.Value("v"))
	wireTrip(e)
}

// C08_WireTree: containers survive the wire.
func C08_WireTree() {
	o := gen.Opts{Depth: 1, Width: vsym.Pick(2, 3), KeyLen: 1, StrLen: 1, Null: true, MaxDigs: 1}
	e := event.New()
	n := vsym.Choose("n", 2)
	for i := 0; i < n; i++ {
		e.Put(gen.Escape(o.KeyFor("k")), o.Value("v"))
	}
	wireTrip(e)
}

// C08_WireDeep: deeper nesting.
func C08_WireDeep() {
	o := gen.Opts{Depth: vsym.Pick(2, 4), Width: 1, KeyLen: 1, StrLen: 1, Null: true, MaxDigs: 1}
	e := event.New()
	e.Put("a", o.Value("v"))
	wireTrip(e)
}

// C08_WireLong: lengths that need more than one byte on the wire.
func C08_WireLong() {
	n := 120 + vsym.Choose("n", 12)
	b := make([]byte, n)
	x := vsym.Byte("x")
	for i := range b {
		b[i] = x
	}
	e := event.New()
	e.Put("a", event.Array(event.String(string(b)), event.Object(map[string]*event.Value{string(b): event.Bool(vsym.Bool("b"))})))
	wireTrip(e)
}

// C09_Wire: any bytes either decode or are refused, without a panic, and what
// decodes can be used.
func C09_Wire() {
	data := vsym.BytesN("data", vsym.Choose("n", vsym.Pick(6, 8)))
	var w protobuf.MessageWrapper
	if err := w.Unmarshal(data); err != nil {
		vsym.Reach("refused")
		return
	}
	e := protobuf.ToLogEvent(w.GetLog())
	if e == nil {
		vsym.Reach("no event")
		return
	}
	for k := range w.GetLog().GetObject().GetFields() {
		if k == "" || hasBackslash(k) {
			// Such top-level names are outside of the property.
			vsym.Reach("odd name")
			return
		}
	}
	vsym.Assert(meansObj(gen.Root(e), w.GetLog().GetObject()), "the event holds what the message says")
	protobuf.FromEvent(e)
	vsym.Reach("decoded")
}

func hasBackslash(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] == '\\' {
			return true
		}
	}
	return false
}

// C09_WireValue: any bytes as a field value.
func C09_WireValue() {
	data := vsym.BytesN("data", vsym.Choose("n", vsym.Pick(6, 8)))
	// log { object { fields { key: "a" value: data } } }
	entry := append([]byte{0x0a, 1, 'a', 0x12, byte(len(data))}, data...)
	obj := append([]byte{0x0a, byte(len(entry))}, entry...)
	log := append([]byte{0x0a, byte(len(obj))}, obj...)
	msg := append([]byte{0x0a, byte(len(log))}, log...)
	var w protobuf.MessageWrapper
	if err := w.Unmarshal(msg); err != nil {
		vsym.Reach("refused")
		return
	}
	e := protobuf.ToLogEvent(w.GetLog())
	vsym.Assert(e != nil, "the event is there")
	vsym.Assert(meansObj(gen.Root(e), w.GetLog().GetObject()), "the event holds what the message says")
	protobuf.FromEvent(e)
	vsym.Reach("decoded")
}

// C08_RawNames: top-level names of an event that came from JSON.
func C08_RawNames() {
	k := vsym.String("k", vsym.Pick(2, 3))
	gen.ASCII(k)
	vsym.Assume(k == "" || hasBackslash(k))
	e := jsonEvent(k)
	f := protobuf.ToLogEvent(protobuf.FromEvent(e).GetLog())
	vsym.Assert(gen.SameEvent(e, f), "an empty name or one with a backslash survives")
	vsym.Reach("done")
}

func jsonEvent(k string) *event.Event {
	name, err := json.Marshal(k)
	vsym.Assert(err == nil, "a name encodes")
	e := event.New()
	err = json.Unmarshal([]byte("{"+string(name)+":true}"), e)
	vsym.Assert(err == nil, "the event decodes")
	return e
}
