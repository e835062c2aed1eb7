package hser

import (
	"errors"
	"time"

	"github.com/andrewkroh/go-sawmill/internal/zzverif/gen"
	"github.com/andrewkroh/go-sawmill/internal/zzverif/vsym"
	"github.com/andrewkroh/go-sawmill/pkg/event"
	"github.com/andrewkroh/go-sawmill/pkg/eventutil"
	"github.com/andrewkroh/go-sawmill/pkg/serialization/mapinterface"
)

func mapTrip(e *event.Event) {
	before := gen.CopyEvent(e)
	f, err := mapinterface.ToEvent(mapinterface.FromEvent(e))
	vsym.Assert(err == nil, "a map made from an event converts back")
	vsym.Assert(gen.SameEvent(before, f), "the map converts back to the same event")
	vsym.Assert(gen.SameEvent(before, e), "the conversion leaves the event alone")
	vsym.Reach("same")
}

// C10_Tree: nested events.
func C10_Tree() {
	o := gen.Opts{Depth: 2, Width: vsym.Pick(1, 2), KeyLen: 1, StrLen: 1, Null: true}
	e := event.New()
	n := vsym.Choose("n", 2)
	for i := 0; i < n; i++ {
		e.Put(gen.Escape(o.KeyFor("k")), o.Value("v"))
	}
	mapTrip(e)
}

// C10_Wide: several top-level fields, every scalar type.
func C10_Wide() {
	o := gen.Opts{KeyLen: vsym.Pick(2, 3), StrLen: vsym.Pick(2, 4), Null: true, Uint: true, Times: true, Floats: true}
	mapTrip(o.Event("e", 2))
}

// C10_Keys: nested object keys of any spelling.
func C10_Keys() {
	inner := vsym.String("inner", vsym.Pick(3, 4))
	e := event.New()
	e.Put("a", event.Object(map[string]*event.Value{inner: event.Integer(vsym.Int64("i"))}))
	if vsym.Choose("arr", 2) == 1 {
		e.Put("b", event.Array(event.Object(map[string]*event.Value{inner: event.Bool(vsym.Bool("b"))})))
	}
	mapTrip(e)
}

// C10_FromMap: a map of any field names and nested maps keeps every field
// under the same name.
func C10_FromMap() {
	k := gen.Segment("k", vsym.Pick(2, 3))
	in := vsym.String("in", vsym.Pick(2, 3))
	i := vsym.Int64("i")
	m := map[string]interface{}{k: map[string]interface{}{in: i, "list": []interface{}{nil, map[string]interface{}{in: "x"}}}}
	vsym.Assume(in != "list")
	e, err := mapinterface.ToEvent(m)
	vsym.Assert(err == nil, "a plain map converts")
	want := event.Object(map[string]*event.Value{in: event.Integer(i), "list": event.Array(event.NullValue,
		event.Object(map[string]*event.Value{in: event.String("x")}))})
	root := gen.Root(e)
	vsym.Assert(len(root) == 1, "one field in, one field out")
	vsym.Assert(gen.Same(root[k], want), "the field keeps its name and value")
	vsym.Assert(gen.Same(e.Get(gen.Escape(k)), want), "the field can be read back by its name")
	vsym.Reach("kept")
}

// C10_RawNames: top-level names of an event that came from JSON.
func C10_RawNames() {
	k := vsym.String("k", vsym.Pick(2, 3))
	gen.ASCII(k)
	vsym.Assume(k == "" || hasBackslash(k))
	e := jsonEvent(k)
	f, err := mapinterface.ToEvent(mapinterface.FromEvent(e))
	vsym.Assert(err == nil && gen.SameEvent(e, f), "an empty name or one with a backslash survives")
	vsym.Reach("done")
}

type (
	myBool   bool
	myInt8   int8
	myInt    int
	myUint16 uint16
	myPtr    uintptr
	myFloat  float32
	myString string
	myTime   time.Time
	myErr    struct{ msg string }
	ptrErr   struct{ msg string }
)

func (e myErr) Error() string { return e.msg }

// Errors of every kind.
type (
	strErr   string
	intErr   int64
	boolErr  bool
	floatErr float64
	sliceErr []string
	arrErr   [1]string
	mapErr   map[string]string
	funcErr  func() string
)

func (e strErr) Error() string   { return "E" + string(e) }
func (e intErr) Error() string   { return map[bool]string{true: "neg", false: "pos"}[e < 0] }
func (e boolErr) Error() string  { return "bool" }
func (e floatErr) Error() string { return "float" }
func (e sliceErr) Error() string { return "E" + e[0] }
func (e arrErr) Error() string   { return "E" + e[0] }
func (e mapErr) Error() string   { return "E" + e["k"] }
func (e funcErr) Error() string  { return "E" + e() }

// C11_Errors: an error becomes its message, whatever its kind.
func C11_Errors() {
	s := vsym.String("s", 2)
	i := vsym.Int64("i")
	var err error
	want := "E" + s
	switch vsym.Choose("kind", 8) {
	case 0:
		err = strErr(s)
	case 1:
		err, want = intErr(i), "pos"
		if i < 0 {
			want = "neg"
		}
	case 2:
		err, want = boolErr(i < 0), "bool"
	case 3:
		err, want = floatErr(1.5), "float"
	case 4:
		err = sliceErr{s, "x"}
	case 5:
		err = arrErr{s}
	case 6:
		err = mapErr{"k": s}
	case 7:
		err = funcErr(func() string { return s })
	}
	var in interface{} = err
	out := event.String(want)
	switch vsym.Choose("place", 4) {
	case 1:
		in, out = map[string]error{"k": err}, event.Object(map[string]*event.Value{"k": out})
	case 2:
		in, out = []interface{}{err}, event.Array(out)
	case 3:
		in, out = struct{ E error }{err}, event.Object(map[string]*event.Value{"e": out})
	}
	check(wrap(in, out))
}

func (e *ptrErr) Error() string { return e.msg }

// C11_Scalars: every scalar Go type keeps its value.
func C11_Scalars() {
	var in interface{}
	var want *event.Value
	switch vsym.Choose("type", 24) {
	case 0:
		b := vsym.Bool("b")
		in, want = b, event.Bool(b)
	case 1:
		b := vsym.Bool("b")
		in, want = myBool(b), event.Bool(b)
	case 2:
		v := vsym.Int8("v")
		in, want = v, event.Integer(int64(v))
	case 3:
		v := vsym.Int16("v")
		in, want = v, event.Integer(int64(v))
	case 4:
		v := vsym.Int32("v")
		in, want = v, event.Integer(int64(v))
	case 5:
		v := vsym.Int64("v")
		in, want = v, event.Integer(v)
	case 6:
		v := vsym.Int("v")
		in, want = v, event.Integer(int64(v))
	case 7:
		v := vsym.Int8("v")
		in, want = myInt8(v), event.Integer(int64(v))
	case 8:
		v := vsym.Int("v")
		in, want = myInt(v), event.Integer(int64(v))
	case 9:
		v := vsym.Uint8("v")
		in, want = v, event.UnsignedInteger(uint64(v))
	case 10:
		v := vsym.Uint16("v")
		in, want = v, event.UnsignedInteger(uint64(v))
	case 11:
		v := vsym.Uint32("v")
		in, want = v, event.UnsignedInteger(uint64(v))
	case 12:
		v := vsym.Uint64("v")
		in, want = v, event.UnsignedInteger(v)
	case 13:
		v := vsym.Uint("v")
		in, want = v, event.UnsignedInteger(uint64(v))
	case 14:
		v := vsym.Uint16("v")
		in, want = myUint16(v), event.UnsignedInteger(uint64(v))
	case 15:
		v := vsym.Uint64("v")
		in, want = uintptr(v), event.UnsignedInteger(v)
	case 16:
		v := vsym.Uint64("v")
		in, want = myPtr(v), event.UnsignedInteger(v)
	case 17:
		v := vsym.Float64("v")
		vsym.Assume(v == v)
		in, want = v, event.Float(v)
	case 18:
		v := vsym.Float32("v")
		vsym.Assume(v == v)
		in, want = v, event.Float(float64(v))
	case 19:
		v := vsym.Float32("v")
		vsym.Assume(v == v)
		in, want = myFloat(v), event.Float(float64(v))
	case 20:
		s := vsym.String("s", 3)
		in, want = s, event.String(s)
	case 21:
		s := vsym.String("s", 3)
		in, want = myString(s), event.String(s)
	case 22:
		t := vsym.Int64("t")
		in, want = event.Time{UnixNanos: t}.GoTime(), event.Timestamp(t)
	case 23:
		t := vsym.Int64("t")
		in, want = myTime(event.Time{UnixNanos: t}.GoTime()), event.Timestamp(t)
	}
	check(wrap(in, want))
}

// wrap puts in inside of other Go values.
func wrap(in interface{}, want *event.Value) (interface{}, *event.Value) {
	switch vsym.Choose("wrap", 8) {
	case 1:
		return &in, want
	case 2:
		return []interface{}{in, nil}, event.Array(want, event.NullValue)
	case 3:
		return map[string]interface{}{"k": in}, event.Object(map[string]*event.Value{"k": want})
	case 4:
		return struct{ Field interface{} }{in}, event.Object(map[string]*event.Value{"field": want})
	case 5:
		return &struct {
			F *interface{} `event:"name"`
			g interface{}
			H interface{} `event:"-"`
		}{F: &in, g: 1, H: 2}, event.Object(map[string]*event.Value{"name": want})
	case 6:
		return map[myString]interface{}{"k.x": [1]interface{}{in}}, event.Object(map[string]*event.Value{"k.x": event.Array(want)})
	case 7:
		return []map[string]interface{}{{"k": in}}, event.Array(event.Object(map[string]*event.Value{"k": want}))
	}
	return in, want
}

func check(in interface{}, want *event.Value) {
	got, err := eventutil.ReflectValue(in)
	vsym.Assert(err == nil, "a representable value converts")
	vsym.Assert(gen.Same(got, want), "the value is kept")
	vsym.Reach("kept")
}

// C11_Special: nil values, pointers, errors and containers.
func C11_Special() {
	s := vsym.String("s", 2)
	i := vsym.Int64("i")
	var in interface{}
	var want *event.Value
	switch vsym.Choose("value", 18) {
	case 0:
		in, want = nil, event.NullValue
	case 1:
		in, want = (*int)(nil), event.NullValue
	case 2:
		in, want = (*ptrErr)(nil), event.NullValue
	case 3:
		in, want = &ptrErr{s}, event.String(s)
	case 4:
		in, want = myErr{s}, event.String(s)
	case 5:
		in, want = &myErr{s}, event.String(s)
	case 6:
		in, want = errors.New(s), event.String(s)
	case 7:
		p := &i
		in, want = &p, event.Integer(i)
	case 8:
		in, want = []int64{i, i + 1}, event.Array(event.Integer(i), event.Integer(i+1))
	case 9:
		in, want = [2]string{s, ""}, event.Array(event.String(s), event.String(""))
	case 10:
		in, want = map[string]string{s: "v"}, event.Object(map[string]*event.Value{s: event.String("v")})
	case 11:
		in, want = map[myString]int64{myString(s): i}, event.Object(map[string]*event.Value{s: event.Integer(i)})
	case 12:
		in, want = map[string]*int64{"a": nil, "b": &i}, event.Object(map[string]*event.Value{"a": event.NullValue, "b": event.Integer(i)})
	case 13:
		in, want = map[string]map[string]bool{s: {s: true}}, event.Object(map[string]*event.Value{s: event.Object(map[string]*event.Value{s: event.Bool(true)})})
	case 14:
		in, want = []error{nil, myErr{s}}, event.Array(event.NullValue, event.String(s))
	case 15:
		in, want = struct {
			A error
			B *int64
			C interface{}
		}{}, event.Object(map[string]*event.Value{"a": event.NullValue, "b": event.NullValue, "c": event.NullValue})
	case 16:
		in, want = struct {
			A []string
			M map[string]int
		}{}, event.Object(map[string]*event.Value{"a": event.Array(), "m": event.Object(nil)})
	case 17:
		in, want = map[int8]bool{5: true, -7: false}, event.Object(map[string]*event.Value{"5": event.Bool(true), "-7": event.Bool(false)})
	}
	check(wrap(in, want))
}

type omit struct {
	A int64  `event:"a,omitempty"`
	B string `event:",omitempty"`
	C *int64 `event:"c.d,omitempty"`
	D bool
}

// C11_Struct: field names, tags and omitempty.
func C11_Struct() {
	o := omit{A: vsym.Int64("a"), B: vsym.String("b", 1), D: vsym.Bool("d")}
	if vsym.Choose("ptr", 2) == 1 {
		v := vsym.Int64("c")
		o.C = &v
	}
	want := map[string]*event.Value{"d": event.Bool(o.D)}
	if o.A != 0 {
		want["a"] = event.Integer(o.A)
		vsym.Reach("present")
	}
	if o.B != "" {
		want["b"] = event.String(o.B)
	}
	if o.C != nil {
		want["c.d"] = event.Integer(*o.C)
	}
	check(wrap(o, event.Object(want)))
}

// C11_Unsupported: values an event cannot hold are refused, wherever they are.
func C11_Unsupported() {
	var in interface{}
	switch vsym.Choose("bad", 6) {
	case 0:
		in = make(chan int)
	case 1:
		in = func() {}
	case 2:
		in = complex(float64(1), 2)
	case 3:
		in = complex(float32(1), 2)
	case 4:
		in = (chan int)(nil)
	case 5:
		in = &struct{ C chan int }{make(chan int)}
	}
	in, _ = wrap(in, event.NullValue)
	if vsym.Choose("again", 2) == 1 {
		in, _ = wrap(in, event.NullValue)
	}
	v, err := eventutil.ReflectValue(in)
	var ute *eventutil.UnsupportedTypeError
	vsym.Assert(v == nil, "nothing is returned for an unsupported value")
	vsym.Assert(errors.As(err, &ute), "an unsupported value is refused with UnsupportedTypeError")
	e, err := mapinterface.ToEvent(map[string]interface{}{"ok": 1, "bad": in})
	vsym.Assert(e == nil && errors.As(err, &ute), "a map that holds an unsupported value is refused")
	vsym.Reach("refused")
}
