package hevent

import (
	"encoding/json"
	"strconv"

	"github.com/andrewkroh/go-sawmill/internal/zzverif/gen"
	"github.com/andrewkroh/go-sawmill/internal/zzverif/vsym"
	"github.com/andrewkroh/go-sawmill/pkg/event"
)

func roundTrip(e *event.Event) {
	data, err := json.Marshal(e)
	vsym.Assert(err == nil, "the event encodes")
	f := event.New()
	err = json.Unmarshal(data, f)
	vsym.Assert(err == nil, "the encoded event decodes")
	vsym.Assert(gen.SameEvent(e, f), "decoding gives back the same event")
	vsym.Reach("same")
}

// C06_Tree: nested containers with small scalars.
func C06_Tree() {
	o := gen.Opts{Depth: vsym.Pick(2, 2), Width: vsym.Pick(1, 2), KeyLen: 1, StrLen: 1, Null: true, UTF8: true, MaxDigs: 1}
	e := event.New()
	e.Put("a", o.Value("v"))
	roundTrip(e)
}

// C06_String: any valid text in values and keys.
func C06_String() {
	e := event.New()
	s := vsym.String("s", vsym.Pick(3, 4))
	gen.ASCII(s)
	e.Put("a", event.String(s))
	roundTrip(e)
}

// C06_Key: any key.
func C06_Key() {
	e := event.New()
	s := gen.Segment("s", vsym.Pick(2, 3))
	gen.ASCII(s)
	if vsym.Choose("nested", 2) == 0 {
		e.Put(gen.Escape(s), event.Bool(vsym.Bool("b")))
	} else {
		e.Put("a."+gen.Escape(s), event.Bool(vsym.Bool("b")))
		e.Put("a.b", event.NullValue)
	}
	roundTrip(e)
}

// C06_UTF8: two-byte and three-byte characters.
func C06_UTF8() {
	n := vsym.Choose("n", 2)
	var b []byte
	if n == 0 {
		b = vsym.BytesN("s", 2)
		vsym.Assume(vsym.And(vsym.And(b[0] >= 0xc2, b[0] <= 0xdf), vsym.And(b[1] >= 0x80, b[1] <= 0xbf)))
	} else {
		b = vsym.BytesN("s", 3)
		vsym.Assume(vsym.And(vsym.And(b[0] >= 0xe1, b[0] <= 0xec), vsym.And(b[1] >= 0x80, b[1] <= 0xbf)))
		vsym.Assume(vsym.And(b[2] >= 0x80, b[2] <= 0xbf))
	}
	e := event.New()
	e.Put("a", event.String(string(b)))
	roundTrip(e)
}

// digits is any decimal number of n digits without a leading zero.
func digits(name string, n int) (string, uint64) {
	s := vsym.StringN(name, n)
	var v uint64
	for i := 0; i < n; i++ {
		vsym.Assume(vsym.And(s[i] >= '0', s[i] <= '9'))
		v = v*10 + uint64(s[i]-'0')
	}
	if n > 1 {
		vsym.Assume(s[0] != '0')
	}
	return s, v
}

// C06_IntDecode: integers of every length decode to their exact value.
func C06_IntDecode() {
	n := 1 + vsym.Choose("digits", 19)
	s, v := digits("d", n)
	neg := vsym.Choose("neg", 2) == 1
	if neg {
		s = "-" + s
	}
	e := event.New()
	err := json.Unmarshal([]byte(`{"a":`+s+`}`), e)
	vsym.Assert(err == nil, "an integer decodes")
	got := e.Get("a")
	vsym.Assert(got != nil, "the field is there")
	switch {
	case got.Type == event.IntegerType && neg:
		vsym.Assert(-uint64(got.Integer) == v, "a negative integer keeps its exact value")
		vsym.Reach("negative")
	case got.Type == event.IntegerType:
		vsym.Assert(uint64(got.Integer) == v, "an integer keeps its exact value")
		vsym.Reach("positive")
	case got.Type == event.UnsignedIntegerType:
		vsym.Assert(vsym.And(!neg, got.UnsignedInteger == v), "a large integer keeps its exact value")
		vsym.Reach("large")
	default:
		// Only what fits in neither integer type.
		vsym.Assert(vsym.And(neg, v > 1<<63), "an integer in range stays an integer")
	}
}

// C06_IntRound: integers survive the round trip.
func C06_IntRound() {
	n := 1 + vsym.Choose("digits", vsym.Pick(9, 15))
	_, v := digits("d", n)
	i := int64(v)
	if vsym.Choose("neg", 2) == 1 {
		i = -i
	}
	e := event.New()
	e.Put("a", event.Integer(i))
	data, err := json.Marshal(e)
	vsym.Assert(err == nil, "an integer encodes")
	f := event.New()
	err = json.Unmarshal(data, f)
	vsym.Assert(err == nil, "an encoded integer decodes")
	got := f.Get("a")
	vsym.Assert(got != nil && got.Type == event.IntegerType, "an integer stays an integer")
	vsym.Assert(got.Integer == i, "an integer keeps its value")
}

// C06_Edge: the extreme integers.
func C06_Edge() {
	vals := []int64{1<<63 - 1, -1 << 63, 1<<53 + 1, -(1<<53 + 1), 1<<62 + 1, 1000000000000000001}
	i := vals[vsym.Choose("i", len(vals))]
	e := event.New()
	e.Put("a", event.Integer(i))
	e.Put("b", event.UnsignedInteger(1<<64-1))
	roundTrip(e)
}

// C06_Into: decoding into an event that was in use before.
func C06_Into() {
	o := gen.Opts{Depth: 1, Width: 1, KeyLen: 1, StrLen: 1, Null: true, MaxDigs: 1, UTF8: true}
	e := event.New()
	if vsym.Choose("fields", 2) == 1 {
		e.Put([]string{"a", "a.b", "c"}[vsym.Choose("key", 3)], o.Value("v"))
	}
	data, err := json.Marshal(e)
	vsym.Assert(err == nil, "the event encodes")
	if len(gen.Root(e)) == 0 {
		data = []byte("{}")
	}
	f := event.New()
	f.Put("b", event.Integer(7))
	f.Put([]string{"a", "a.b", "a.b.c", "d"}[vsym.Choose("old", 4)], event.String("old"))
	switch vsym.Choose("before", 3) {
	case 1:
		f.Delete("b")
	case 2:
		vsym.Assert(json.Unmarshal([]byte(`{"a":{"b":[1]},"e":null}`), f) == nil, "an event decodes")
	}
	root := f.Get(".")
	old := gen.Copy(root)
	vsym.Assert(json.Unmarshal(data, f) == nil, "the encoded event decodes")
	vsym.Assert(gen.SameEvent(e, f), "decoding gives back the same event")
	if root != nil {
		vsym.Assert(gen.Same(root, old), "decoding changes no value that was read before")
	}
	f.Put("z", event.Bool(true))
	e.Put("z", event.Bool(true))
	vsym.Assert(gen.SameEvent(e, f), "a put after decoding goes to the decoded event")
	vsym.Reach("into")
}

// C06_Floats: the numbers that are no integers.
func C06_Floats() {
	digit := func(name string) string { return string(rune('0' + vsym.Choose(name, 10))) }
	t := ""
	switch vsym.Choose("form", 7) {
	case 0:
		t = digit("a") + "." + digit("b")
	case 1:
		t = "-" + digit("a") + "." + digit("b") + "0"
	case 2:
		t = digit("a") + "e" + digit("b")
	case 3:
		t = digit("a") + ".5E-" + digit("b")
	case 4:
		t = []string{"1e22", "1E+2", "0.1e1", "123456789012345678901234567890", "-9223372036854775809", "18446744073709551616", "1e-400", "4.9e-324", "1.7976931348623157e308", "-0.0", "0e0", "100000000000000000000.0", "9007199254740993.0", "0.30000000000000004"}[vsym.Choose("special", 14)]
	case 5:
		t = "1" + digit("a") + digit("b") + ".0"
	case 6:
		t = "1.0" + digit("a") + "e1" + digit("b")
	}
	f, err := strconv.ParseFloat(t, 64)
	vsym.Assume(err == nil)
	var e event.Event
	key := "a"
	switch vsym.Choose("in", 3) {
	case 0:
		err = json.Unmarshal([]byte(`{"a":`+t+`}`), &e)
	case 1:
		err, key = json.Unmarshal([]byte(`{"a":{"b":`+t+` } }`), &e), "a.b"
	case 2:
		err = json.Unmarshal([]byte(`{"a":["x", `+t+`]}`), &e)
	}
	vsym.Assert(err == nil, "the document decodes")
	v := e.Get(key)
	if v != nil && len(v.Array) == 2 {
		v = v.Array[1]
	}
	vsym.Assert(v != nil && v.Type == event.FloatType && v.Float == f, "a number that is no integer of 64 bits is the float nearest to it")
	vsym.Reach("float")
}
