package hser

import (
	"time"

	"github.com/andrewkroh/go-sawmill/internal/zzverif/gen"
	"github.com/andrewkroh/go-sawmill/internal/zzverif/vsym"
	"github.com/andrewkroh/go-sawmill/pkg/event"
	"github.com/andrewkroh/go-sawmill/pkg/eventutil"
	"github.com/andrewkroh/go-sawmill/pkg/serialization/mapinterface"
	"github.com/andrewkroh/go-sawmill/pkg/serialization/protobuf"
)

func bigLeaf() *event.Value {
	switch vsym.Choose("leaf", 7) {
	case 0:
		return event.Integer(vsym.Int64("i"))
	case 1:
		return event.UnsignedInteger(vsym.Uint64("u"))
	case 2:
		return event.Timestamp(vsym.Int64("t"))
	case 3:
		return event.Bool(vsym.Bool("b"))
	case 4:
		return event.Object(map[string]*event.Value{})
	case 5:
		return event.Array()
	}
	return event.NullValue
}

func name(i int) string {
	s := "f"
	for ; i > 0; i /= 26 {
		s += string(rune('a' + i%26))
	}
	return s
}

func repeat(b byte, n int) string {
	x := make([]byte, n)
	for i := range x {
		x[i] = b
	}
	return string(x)
}

// bigValue is a deep, a wide or a long value around the leaf.
func bigValue(leaf *event.Value) *event.Value {
	switch vsym.Choose("shape", 5) {
	case 0:
		for d := []int{3, 6, 13, 20}[vsym.Choose("depth", 4)]; d > 0; d-- {
			switch d % 3 {
			case 0:
				leaf = event.Array(leaf)
			case 1:
				leaf = event.Object(map[string]*event.Value{name(d): leaf, "n": event.NullValue})
			case 2:
				leaf = event.Array(event.Bool(true), leaf, event.String("x"))
			}
		}
		return leaf
	case 1:
		items := make([]*event.Value, []int{9, 17, 33, 129}[vsym.Choose("items", 4)])
		at := vsym.Choose("at", 3)
		for i := range items {
			items[i] = event.Integer(int64(i))
			if i == at*(len(items)-1)/2 {
				items[i] = leaf
			}
		}
		return event.Array(items...)
	case 2:
		m := map[string]*event.Value{"leaf": leaf}
		for i := []int{9, 17, 33, 129}[vsym.Choose("members", 4)]; i > 0; i-- {
			m[name(i)] = event.Integer(int64(i))
		}
		return event.Object(m)
	case 3:
		n := []int{31, 63, 127, 128, 129, 255, 256, 300, 4095, 16383, 16384, 16400}[vsym.Choose("length", 12)]
		s := repeat('x', n-1) + string([]byte{vsym.Byte("last")})
		return event.Array(event.String(s), leaf)
	}
	n := []int{31, 64, 127, 128, 129, 300, 16384}[vsym.Choose("key length", 7)]
	return event.Object(map[string]*event.Value{repeat('k', n): leaf, repeat('k', n-1): event.Integer(1)})
}

// wireLeaf is a leaf whose size on the wire is known.
func wireLeaf() *event.Value {
	switch vsym.Choose("leaf", 6) {
	case 0:
		return event.Integer([]int64{0, 127, -1, 1 << 40}[vsym.Choose("i", 4)])
	case 1:
		return event.UnsignedInteger([]uint64{0, 128, 1<<64 - 1}[vsym.Choose("u", 3)])
	case 2:
		return event.Bool(vsym.Bool("b"))
	case 3:
		return event.Object(map[string]*event.Value{})
	case 4:
		return event.Array()
	}
	return event.NullValue
}

func bigEvent(leaf *event.Value) *event.Event {
	e := event.New()
	e.Put("a", bigValue(leaf))
	for i := []int{1, 20}[vsym.Choose("fields", 2)]; i > 0; i-- {
		e.Put(gen.Escape("z."+name(i)), event.Integer(int64(i)))
	}
	return e
}

// C08_Big: deep, wide and long events.
func C08_Big() {
	e := bigEvent(bigLeaf())
	before := gen.CopyEvent(e)
	f := protobuf.ToLogEvent(protobuf.FromEvent(e).GetLog())
	vsym.Assert(gen.SameEvent(before, f), "the message converts back to the same event")
	vsym.Assert(gen.SameEvent(before, e), "the conversion leaves the event alone")
	vsym.Reach("same")
}

// C08_WireBig: deep, wide and long events on the wire.
func C08_WireBig() { wireTrip(bigEvent(wireLeaf())) }

// C10_Big: deep, wide and long events as maps.
func C10_Big() { mapTrip(bigEvent(bigLeaf())) }

// C08_WireMany: several top-level fields with names of any bytes.
func C08_WireMany() {
	e := event.New()
	n := 1 + vsym.Choose("n", vsym.Pick(2, 3))
	for i := 0; i < n; i++ {
		e.Put(gen.Escape(gen.Segment("k", 2)), event.Bool(vsym.Bool("b")))
	}
	wireTrip(e)
}

// sample is a valid encoded message with every kind of value.
func sample() []byte {
	e := event.New()
	e.Put("s", event.String("ab"))
	e.Put("o.p", event.Array(event.Integer(-5), event.UnsignedInteger(300), event.Array()))
	e.Put("o.q.r", event.Timestamp(7))
	e.Put("b", event.Bool(true))
	e.Put("n", event.NullValue)
	e.Put("f", event.Float(1.5))
	e.Put("e", event.Object(map[string]*event.Value{}))
	data, err := protobuf.FromEvent(e).Marshal()
	vsym.Assume(err == nil)
	return data
}

// decodes checks that bytes are refused or decode to what they say.
func decodes(data []byte) {
	var w protobuf.MessageWrapper
	if err := w.Unmarshal(data); err != nil {
		vsym.Reach("refused")
		return
	}
	e := protobuf.ToLogEvent(w.GetLog())
	if e == nil {
		vsym.Assert(w.GetLog() == nil, "a message gives an event")
		vsym.Reach("no event")
		return
	}
	for k := range w.GetLog().GetObject().GetFields() {
		if k == "" || hasBackslash(k) {
			vsym.Reach("odd name")
			return
		}
	}
	vsym.Assert(meansObj(gen.Root(e), w.GetLog().GetObject()), "the event holds what the message says")
	_, err := protobuf.FromEvent(e).Marshal()
	vsym.Assert(err == nil, "the event encodes again")
	vsym.Reach("decoded")
}

// C09_Damaged: a valid message of which one byte, or two neighbours, changed.
func C09_Damaged() {
	data := sample()
	p := vsym.Choose("at", len(data))
	data[p] = vsym.Byte("x")
	if vsym.Tier() == 1 && p+1 < len(data) {
		data[p+1] = vsym.Byte("y")
	}
	decodes(data)
}

// C09_Cut: a valid message of which the end, the beginning or some bytes in
// the middle are missing.
func C09_Cut() {
	data := sample()
	p := vsym.Choose("at", len(data)+1)
	switch vsym.Choose("part", 3) {
	case 0:
		data = data[:p]
	case 1:
		data = data[p:]
	case 2:
		q := p + 1 + vsym.Choose("n", 3)
		vsym.Assume(q <= len(data))
		data = append(data[:p:p], data[q:]...)
	}
	decodes(data)
}

// C09_Overflow: lengths and numbers of up to ten bytes at every level of a
// message, so that sums of lengths overflow.
func C09_Overflow() {
	var data []byte
	tags := [][]byte{{0x0a}, {0x12}, {0x1a}, {0x22}, {0x2a}, {0x32}, {0x3a}, {0x42}, {0x08}, {0x10}, {0x18}, {0x7a}, {0x78}}
	data = append(data, tags[vsym.Choose("tag", len(tags))]...)
	for i := 5 + vsym.Choose("n", 6); i > 0; i-- {
		data = append(data, 0xff)
	}
	data = append(data, vsym.Byte("top"), vsym.Byte("last"), 0, 0)
	for i := vsym.Choose("level", 6); i > 0; i-- {
		data = append([]byte{0x0a, byte(len(data))}, data...)
	}
	decodes(data)
}

// messages is a wide message of values in any state.
func messages(name string, n int) []*protobuf.Value {
	out := make([]*protobuf.Value, n)
	for i := range out {
		out[i] = []*protobuf.Value{nil, {}, {Kind: &protobuf.Value_Array{}}, {Kind: &protobuf.Value_Object{}},
			{Kind: &protobuf.Value_Boolean{Boolean: true}}, {Kind: &protobuf.Value_String_{}}}[i%6]
	}
	out[[]int{0, n / 2, n - 1}[vsym.Choose(name+".at", 3)]] = message(name, 1)
	return out
}

// C09_Many: wide and deep messages.
func C09_Many() {
	n := []int{1, 7, 20, 33}[vsym.Choose("n", 4)]
	items := messages("m", n)
	v := &protobuf.Value{Kind: &protobuf.Value_Array{Array: &protobuf.ValueArray{Items: items}}}
	if vsym.Choose("object", 2) == 1 {
		f := map[string]*protobuf.Value{}
		for i, x := range items {
			f[name(i)] = x
		}
		v = &protobuf.Value{Kind: &protobuf.Value_Object{Object: &protobuf.ValueObject{Fields: f}}}
	}
	for d := []int{0, 3, 12}[vsym.Choose("depth", 3)]; d > 0; d-- {
		if d%2 == 0 {
			v = &protobuf.Value{Kind: &protobuf.Value_Array{Array: &protobuf.ValueArray{Items: []*protobuf.Value{nil, v}}}}
		} else {
			v = &protobuf.Value{Kind: &protobuf.Value_Object{Object: &protobuf.ValueObject{Fields: map[string]*protobuf.Value{"x": v, "y": nil}}}}
		}
	}
	l := &protobuf.Log{Object: &protobuf.ValueObject{Fields: map[string]*protobuf.Value{"a": v}}}
	e := protobuf.ToLogEvent(l)
	vsym.Assert(e != nil, "a message gives an event")
	vsym.Assert(meansObj(gen.Root(e), l.GetObject()), "the event holds what the message says")
	e.Get("a.x.x.x")
	e.Put("a.x.x.x", event.Bool(true))
	e.Delete("a.x.x")
	protobuf.FromEvent(e)
	vsym.Reach("converted")
}

type stringer struct{ s string }

func (s stringer) String() string { return "<" + s.s + ">" }

type tagged struct {
	A      stringer    `event:"a,string"`
	B      stringer    `event:"b,omitempty,string"`
	C      stringer    `event:"c,string,omitempty"`
	D      int64       `event:"d,omitempty,"`
	E      int64       `event:",,omitempty"`
	F      int64       `event:"-,"`
	G      int64       `event:"_g-"`
	H      int64       `json:"hh" event:"x.y"`
	I      int64       `json:"ii"`
	J      []int64     `event:"j,omitempty"`
	K      interface{} `event:"k,omitempty"`
	L      bool        `event:"l,omitempty"`
	M      int64       `event:"-"`
	N      time.Time   `event:"n"`
	UserID int64
}

// Inside is embedded in other types.
type Inside struct {
	X int64
	Y int64 `event:"why"`
}

// Holder is embedded as an interface.
type Holder interface{ Held() }

func (Inside) Held() {}

// C11_Embedded: embedded types are fields that are named after their type.
func C11_Embedded() {
	x, y := vsym.Int64("x"), vsym.Int64("y")
	in := Inside{x, y}
	obj := func() *event.Value {
		return event.Object(map[string]*event.Value{"x": event.Integer(x), "why": event.Integer(y)})
	}
	name, v := "inside", interface{}(nil)
	want := map[string]*event.Value{}
	val := obj()
	switch vsym.Choose("how", 9) {
	case 0:
		v = struct{ Inside }{in}
	case 1:
		v = struct{ *Inside }{&in}
	case 2:
		v, val = struct{ *Inside }{}, event.NullValue
	case 3:
		v, name = struct {
			Inside `event:"other"`
		}{in}, "other"
	case 4:
		v, name = struct {
			*Inside `event:"a.b,omitempty"`
		}{&in}, "a.b"
	case 5:
		v, name = struct{ Holder }{in}, "holder"
	case 6:
		v, name, val = struct{ Holder }{}, "holder", event.NullValue
	case 7:
		v = struct {
			Inside
			X string
		}{in, "outer"}
		want["x"] = event.String("outer")
	case 8:
		v, name = struct {
			*Inside `event:"-"`
			Y       int64
		}{&in, y}, "y"
		val = event.Integer(y)
	}
	want[name] = val
	check(wrap(v, event.Object(want)))
}

// C11_Tags: tags with several options, in any order, and odd names.
func C11_Tags() {
	x := vsym.Int64("x")
	s := vsym.String("s", 2)
	in := tagged{A: stringer{s}, F: x, G: x, H: x, I: x, M: x, UserID: x, N: event.Time{UnixNanos: x}.GoTime()}
	want := map[string]*event.Value{"a": event.String("<" + s + ">"), "-": event.Integer(x), "_g-": event.Integer(x), "x.y": event.Integer(x),
		"i": event.Integer(x), "n": event.Timestamp(x), "userid": event.Integer(x)}
	switch vsym.Choose("set", 8) {
	case 0:
		in.B = stringer{"b"}
		want["b"] = event.String("<b>")
	case 1:
		in.C = stringer{"c"}
		want["c"] = event.String("<c>")
	case 2:
		in.D = x
		if x != 0 {
			want["d"] = event.Integer(x)
		}
	case 3:
		in.E = x
		if x != 0 {
			want["e"] = event.Integer(x)
		}
	case 4:
		in.J = []int64{x}
		want["j"] = event.Array(event.Integer(x))
	case 5:
		in.K = x
		want["k"] = event.Integer(x)
	case 6:
		in.L = true
		want["l"] = event.Bool(true)
	}
	check(wrap(in, event.Object(want)))
}

type inner struct {
	P *inner
	Q []inner
	M map[string]inner
	V int64
}

func (n inner) value() *event.Value {
	p := event.NullValue
	if n.P != nil {
		p = n.P.value()
	}
	q := event.Array()
	for _, x := range n.Q {
		q.Array = append(q.Array, x.value())
	}
	m := map[string]*event.Value{}
	for k, x := range n.M {
		m[k] = x.value()
	}
	return event.Object(map[string]*event.Value{"p": p, "q": q, "m": event.Object(m), "v": event.Integer(n.V)})
}

// C11_Nested: structs nested in pointers, slices and maps.
func C11_Nested() {
	n := inner{V: vsym.Int64("v")}
	turn := vsym.Choose("turn", 3)
	for d := []int{1, 4, 9}[vsym.Choose("depth", 3)]; d > 0; d-- {
		c := n
		switch (d + turn) % 3 {
		case 0:
			n = inner{P: &c, V: int64(d)}
		case 1:
			n = inner{Q: []inner{{}, c}, V: int64(d)}
		case 2:
			n = inner{M: map[string]inner{"a.b": c, "": {}}, V: int64(d)}
		}
	}
	var in interface{} = n
	if vsym.Choose("pointer", 2) == 1 {
		in = &n
	}
	check(wrap(in, n.value()))
}

// C11_Wide: long slices, arrays and maps of several types.
func C11_Wide() {
	x := vsym.Int64("x")
	n := []int{0, 9, 17, 70}[vsym.Choose("n", 4)]
	var want []*event.Value
	var in interface{}
	switch vsym.Choose("type", 6) {
	case 0:
		var s []interface{}
		for i := 0; i < n; i++ {
			s = append(s, []interface{}{x, int8(i), "s", nil, true, uint16(i)}[i%6])
			want = append(want, []*event.Value{event.Integer(x), event.Integer(int64(i)), event.String("s"), event.NullValue, event.Bool(true), event.UnsignedInteger(uint64(i))}[i%6])
		}
		in = s
	case 1:
		var s []int16
		for i := 0; i < n; i++ {
			s = append(s, int16(x)+int16(i))
			want = append(want, event.Integer(int64(int16(x)+int16(i))))
		}
		in = s
	case 2:
		var s []string
		for i := 0; i < n; i++ {
			s = append(s, name(i))
			want = append(want, event.String(name(i)))
		}
		in = s
	case 3:
		var s []map[string]int64
		for i := 0; i < n; i++ {
			s = append(s, map[string]int64{name(i): x})
			want = append(want, event.Object(map[string]*event.Value{name(i): event.Integer(x)}))
		}
		in = s
	case 4:
		m := map[string]*int64{}
		w := map[string]*event.Value{}
		for i := 0; i < n; i++ {
			m[name(i)] = &x
			w[name(i)] = event.Integer(x)
		}
		check(wrap(m, event.Object(w)))
		return
	case 5:
		var s [][]uint8
		for i := 0; i < n; i++ {
			s = append(s, []uint8{uint8(x), uint8(i)})
			want = append(want, event.Array(event.UnsignedInteger(uint64(uint8(x))), event.UnsignedInteger(uint64(i))))
		}
		in = s
	}
	check(wrap(in, event.Array(want...)))
}

// C11_Times: instants in other zones, and named and nested pointers.
func C11_Times() {
	ns := vsym.Int64("ns")
	t := event.Time{UnixNanos: ns}.GoTime()
	want := event.Timestamp(ns)
	switch vsym.Choose("zone", 3) {
	case 1:
		t = t.In(time.FixedZone("east", 3600*5+1800))
	case 2:
		t = t.In(time.FixedZone("west", -3600*11))
	}
	p := &t
	pp := &p
	var in interface{}
	switch vsym.Choose("as", 5) {
	case 0:
		in = t
	case 1:
		in = p
	case 2:
		in = pp
	case 3:
		in = []time.Time{t, t}
		want = event.Array(want, want)
	case 4:
		in = map[string]*time.Time{"a": p, "b": nil}
		want = event.Object(map[string]*event.Value{"a": want, "b": event.NullValue})
	}
	check(wrap(in, want))
}

// C10_Mixed: plain maps that hold other Go types next to each other.
func C10_Mixed() {
	x := vsym.Int64("x")
	m := map[string]interface{}{"a.b": x, "a": map[string]interface{}{"b": true, "b.c": nil}, "list": []string{"x", ""},
		"deep": map[string]interface{}{"er": []interface{}{map[string]interface{}{"est.": []int64{x}}}}}
	for i := []int{0, 30}[vsym.Choose("more", 2)]; i > 0; i-- {
		m[name(i)] = i
	}
	n := len(m)
	e, err := mapinterface.ToEvent(m)
	vsym.Assert(err == nil, "a plain map converts")
	root := gen.Root(e)
	vsym.Assert(len(root) == n, "as many fields as in the map")
	vsym.Assert(gen.Same(root["a.b"], event.Integer(x)), "a field with a dot in its name")
	vsym.Assert(gen.Same(root["a"], event.Object(map[string]*event.Value{"b": event.Bool(true), "b.c": event.NullValue})), "a nested map")
	vsym.Assert(gen.Same(root["list"], event.Array(event.String("x"), event.String(""))), "a list")
	vsym.Assert(gen.Same(e.Get("deep.er").Array[0].Object["est."], event.Array(event.Integer(x))), "a deep list")
	if n > 30 {
		vsym.Assert(gen.Same(root[name(17)], event.Integer(17)), "a number")
	}
	vsym.Reach("kept")
}

// C12_Twice: several appends, the appended values, and a value held elsewhere.
func C12_Twice() {
	e := event.New()
	o := gen.Opts{StrLen: 1, Null: true}
	pick := func(name string) *event.Value {
		switch vsym.Choose(name, 5) {
		case 0:
			return event.Integer(vsym.Int64(name + ".i"))
		case 1:
			return event.Array()
		case 2:
			return event.Array(event.Integer(vsym.Int64(name+".i")), event.NullValue)
		case 3:
			return event.Object(map[string]*event.Value{"k": o.Scalar(name + ".v")})
		}
		return event.NullValue
	}
	key := []string{"a", `p.q\.r`}[vsym.Choose("key", 2)]
	var want []*event.Value
	var items, copies []*event.Value
	if vsym.Choose("exists", 2) == 1 {
		old := pick("old")
		// Room for more items that belongs to the caller.
		if old.Type == event.ArrayType {
			old.Array = append(make([]*event.Value, 0, 8), old.Array...)
		}
		e.Put(key, old)
		if old.Type == event.ArrayType {
			want = append(want, gen.Copy(old).Array...)
		} else {
			want = append(want, gen.Copy(old))
		}
	}
	n := 2 + vsym.Choose("rounds", vsym.Pick(1, 2))
	for i := 0; i < n; i++ {
		item := pick("item")
		if i == 1 && vsym.Choose("again", 2) == 1 {
			item = items[0]
		}
		items, copies = append(items, item), append(copies, gen.Copy(item))
		vsym.Assert(eventutil.Append(e, key, item) == nil, "append succeeds")
		if item.Type == event.ArrayType {
			want = append(want, gen.Copy(item).Array...)
		} else {
			want = append(want, gen.Copy(item))
		}
		vsym.Assert(gen.Same(e.Get(key), event.Array(want...)), "the result is the old items followed by the new ones")
		for j := range items {
			vsym.Assert(gen.Same(items[j], copies[j]), "appended values themselves are not changed")
		}
	}
	vsym.Reach("appended")
}

// C12_Long: long arrays.
func C12_Long() {
	e := event.New()
	var want []*event.Value
	for i := []int{0, 8, 40}[vsym.Choose("old", 3)]; i > 0; i-- {
		want = append(want, event.Integer(int64(i)))
	}
	if len(want) > 0 {
		e.Put("a.b", event.Array(append([]*event.Value(nil), want...)...))
	}
	var add []*event.Value
	for i := []int{0, 1, 9, 40}[vsym.Choose("new", 4)]; i > 0; i-- {
		add = append(add, event.Integer(vsym.Int64("i")))
	}
	vsym.Assert(eventutil.Append(e, "a.b", event.Array(add...)) == nil, "append succeeds")
	vsym.Assert(gen.Same(e.Get("a.b"), event.Array(append(want, add...)...)), "the result is the old items followed by the new ones")
	vsym.Reach("appended")
}

// C12_EscapeLong: long names with many dots.
func C12_EscapeLong() {
	k := ""
	for i := 3 + vsym.Choose("n", 14); i > 0; i-- {
		switch vsym.Choose("pattern", 3) {
		case 0:
			k += "."
		case 1:
			k += "a."
		case 2:
			k += ".bc"
		}
		vsym.Assume(len(k) < vsym.Pick(14, 18))
	}
	k += string([]byte{vsym.Byte("x")})
	vsym.Assume(k[len(k)-1] != '\\')
	e := event.New()
	_, err := e.Put(eventutil.EscapeKey(k), event.Bool(true))
	vsym.Assert(err == nil, "an escaped name is a valid key")
	root := gen.Root(e)
	vsym.Assert(len(root) == 1 && root[k] != nil, "the escaped key names the field itself")
	vsym.Reach("named")
}

// C11_FarTimes: instants that 64 bits of nanoseconds since 1970 cannot hold.
func C11_FarTimes() {
	sec := vsym.Int64("seconds")
	vsym.Assume(sec >= -62135596800 && sec <= 253402300799) // years 1 to 9999
	vsym.Assume(sec < -9223372036 || sec > 9223372035)
	t := time.Unix(sec, 0).UTC()
	v, err := eventutil.ReflectValue(t)
	vsym.Assert(err != nil || v != nil && v.Type == event.TimestampType && v.Timestamp.GoTime().Unix() == sec, "an instant is kept or refused")
	vsym.Reach("done")
}

// C11_KeyClash: keys of different types with the same text.
func C11_KeyClash() {
	x, y := vsym.Int64("x"), vsym.Int64("y")
	v, err := eventutil.ReflectValue(map[interface{}]int64{1: x, "1": y})
	vsym.Assert(err != nil || v != nil && len(v.Object) == 2, "the members of a map are kept or refused")
	vsym.Reach("done")
}

// C11_SameName: different types with the same name, one after the other.
func C11_SameName() {
	x, y := vsym.Int64("x"), vsym.Int64("y")
	one := func() (interface{}, *event.Value) {
		type rec struct {
			A int64
			B int64 `event:"b2"`
		}
		return rec{x, y}, event.Object(map[string]*event.Value{"a": event.Integer(x), "b2": event.Integer(y)})
	}
	two := func() (interface{}, *event.Value) {
		type rec struct {
			B int64
			A int64 `event:"-"`
			C int64
		}
		return rec{x, y, y}, event.Object(map[string]*event.Value{"b": event.Integer(x), "c": event.Integer(y)})
	}
	three := func() (interface{}, *event.Value) {
		type rec int64
		return []rec{rec(x)}, event.Array(event.Integer(x))
	}
	four := func() (interface{}, *event.Value) {
		type rec string
		return []rec{"a"}, event.Array(event.String("a"))
	}
	all := []func() (interface{}, *event.Value){one, two, three, four}
	for i := 0; i < 3; i++ {
		in, want := all[vsym.Choose("type", 4)]()
		got, err := eventutil.ReflectValue(in)
		vsym.Assert(err == nil && gen.Same(got, want), "the value is kept")
	}
	vsym.Reach("kept")
}
