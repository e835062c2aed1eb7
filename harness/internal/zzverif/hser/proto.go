package hser

import (
	"github.com/andrewkroh/go-sawmill/internal/zzverif/gen"
	"github.com/andrewkroh/go-sawmill/internal/zzverif/vsym"
	"github.com/andrewkroh/go-sawmill/pkg/event"
	"github.com/andrewkroh/go-sawmill/pkg/serialization/protobuf"
)

// C08_Tree: nested events survive the conversion to a message and back.
func C08_Tree() {
	o := gen.Opts{Depth: 2, Width: vsym.Pick(1, 2), KeyLen: 1, StrLen: 1, Null: true}
	e := event.New()
	n := vsym.Choose("n", 2)
	for i := 0; i < n; i++ {
		k := o.KeyFor("k")
		e.Put(gen.Escape(k), o.Value("v"))
	}
	before := gen.CopyEvent(e)
	f := protobuf.ToLogEvent(protobuf.FromEvent(e).GetLog())
	vsym.Assert(gen.SameEvent(before, f), "the message converts back to the same event")
	vsym.Assert(gen.SameEvent(before, e), "the conversion leaves the event alone")
	vsym.Reach("same")
}

// C08_Wide: several top-level fields, every scalar type.
func C08_Wide() {
	o := gen.Opts{KeyLen: vsym.Pick(2, 3), StrLen: vsym.Pick(2, 4), Null: true, Uint: true, Times: true, Floats: true}
	e := o.Event("e", vsym.Pick(2, 2))
	before := gen.CopyEvent(e)
	f := protobuf.ToLogEvent(protobuf.FromEvent(e).GetLog())
	vsym.Assert(gen.SameEvent(before, f), "the message converts back to the same event")
	vsym.Reach("same")
}

// C08_Keys: nested object keys of any spelling.
func C08_Keys() {
	inner := vsym.String("inner", vsym.Pick(3, 4))
	e := event.New()
	e.Put("a", event.Object(map[string]*event.Value{inner: event.Integer(vsym.Int64("i"))}))
	if vsym.Choose("arr", 2) == 1 {
		e.Put("b", event.Array(event.Object(map[string]*event.Value{inner: event.Bool(vsym.Bool("b"))})))
	}
	before := gen.CopyEvent(e)
	f := protobuf.ToLogEvent(protobuf.FromEvent(e).GetLog())
	vsym.Assert(gen.SameEvent(before, f), "nested keys survive")
	vsym.Reach("same")
}

// message is any value message, including the unset ones a peer can send.
func message(name string, depth int) *protobuf.Value {
	n := 11
	if depth > 0 {
		n = 15
	}
	switch vsym.Choose(name, n) {
	case 10:
		return &protobuf.Value{Kind: &protobuf.Value_Float{Float: vsym.Float64(name + ".f")}}
	case 0:
		return nil
	case 1:
		return &protobuf.Value{}
	case 2:
		return &protobuf.Value{Kind: &protobuf.Value_Array{}}
	case 3:
		return &protobuf.Value{Kind: &protobuf.Value_Object{}}
	case 4:
		return &protobuf.Value{Kind: &protobuf.Value_Null{Null: protobuf.ValueNull(vsym.Int32(name + ".null"))}}
	case 5:
		return &protobuf.Value{Kind: &protobuf.Value_String_{String_: text(name)}}
	case 6:
		return &protobuf.Value{Kind: &protobuf.Value_Integer{Integer: vsym.Int64(name + ".i")}}
	case 7:
		return &protobuf.Value{Kind: &protobuf.Value_UnsignedInteger{UnsignedInteger: vsym.Uint64(name + ".u")}}
	case 8:
		return &protobuf.Value{Kind: &protobuf.Value_Timestamp{Timestamp: vsym.Int64(name + ".t")}}
	case 9:
		return &protobuf.Value{Kind: &protobuf.Value_Boolean{Boolean: vsym.Bool(name + ".b")}}
	case 11:
		return &protobuf.Value{Kind: &protobuf.Value_Array{Array: &protobuf.ValueArray{Items: []*protobuf.Value{message(name, depth-1)}}}}
	case 12:
		return &protobuf.Value{Kind: &protobuf.Value_Object{Object: object(name, depth-1)}}
	case 13:
		return &protobuf.Value{Kind: &protobuf.Value_Array{Array: &protobuf.ValueArray{}}}
	}
	return &protobuf.Value{Kind: &protobuf.Value_Object{Object: &protobuf.ValueObject{}}}
}

// text is any text of up to two bytes, or none at all.
func text(name string) []byte {
	n := vsym.Choose(name+".n", 4)
	if n == 3 {
		return nil
	}
	return vsym.BytesN(name+".s", n)
}

func object(name string, depth int) *protobuf.ValueObject {
	return &protobuf.ValueObject{Fields: map[string]*protobuf.Value{vsym.String(name+".k", vsym.Pick(1, 2)): message(name, depth)}}
}

// means reports whether v is what the message m says.
func means(v *event.Value, m *protobuf.Value) bool {
	if v == nil {
		return false
	}
	switch k := m.GetKind().(type) {
	case nil, *protobuf.Value_Null:
		return v.Type == event.NullType
	case *protobuf.Value_Array:
		if v.Type != event.ArrayType || len(v.Array) != len(k.Array.GetItems()) {
			return false
		}
		for i, x := range v.Array {
			if !means(x, k.Array.GetItems()[i]) {
				return false
			}
		}
		return true
	case *protobuf.Value_Object:
		return v.Type == event.ObjectType && meansObj(v.Object, k.Object)
	case *protobuf.Value_String_:
		return v.Type == event.StringType && v.String == string(k.String_)
	case *protobuf.Value_Integer:
		return v.Type == event.IntegerType && v.Integer == k.Integer
	case *protobuf.Value_UnsignedInteger:
		return v.Type == event.UnsignedIntegerType && v.UnsignedInteger == k.UnsignedInteger
	case *protobuf.Value_Timestamp:
		return v.Type == event.TimestampType && v.Timestamp.UnixNanos == k.Timestamp
	case *protobuf.Value_Float:
		return v.Type == event.FloatType && (v.Float == k.Float || v.Float != v.Float && k.Float != k.Float)
	case *protobuf.Value_Boolean:
		return v.Type == event.BoolType && v.Bool == k.Boolean
	}
	return false
}

func meansObj(m map[string]*event.Value, o *protobuf.ValueObject) bool {
	if len(m) != len(o.GetFields()) {
		return false
	}
	for k, x := range o.GetFields() {
		v, ok := m[k]
		if !ok || !means(v, x) {
			return false
		}
	}
	return true
}

// C09_Any: any message converts without a panic to the event it describes,
// and the event is usable.
func C09_Any() {
	var l *protobuf.Log
	m := message("m", vsym.Pick(2, 2))
	switch vsym.Choose("log", 4) {
	case 0:
		vsym.Assert(protobuf.ToLogEvent(l) == nil, "no message means no event")
		return
	case 1:
		l = &protobuf.Log{}
	case 2:
		l = &protobuf.Log{Object: &protobuf.ValueObject{}}
	case 3:
		l = &protobuf.Log{Object: &protobuf.ValueObject{Fields: map[string]*protobuf.Value{"a": m}}}
	}
	e := protobuf.ToLogEvent(l)
	vsym.Assert(e != nil, "a message gives an event")
	vsym.Assert(meansObj(gen.Root(e), l.GetObject()), "the event holds what the message says")
	vsym.Reach("converted")
	switch vsym.Choose("op", 3) {
	case 0:
		e.Get("a.b.c")
	case 1:
		e.Put("a.b.c", event.Bool(true))
	case 2:
		e.Delete("a.b.c")
	}
	protobuf.FromEvent(e)
	vsym.Reach("used")
}
