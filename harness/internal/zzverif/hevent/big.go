package hevent

import (
	"encoding/json"

	"github.com/andrewkroh/go-sawmill/internal/zzverif/gen"
	"github.com/andrewkroh/go-sawmill/internal/zzverif/vsym"
	"github.com/andrewkroh/go-sawmill/pkg/event"
	"github.com/andrewkroh/go-sawmill/pkg/eventutil"
	"github.com/andrewkroh/go-sawmill/pkg/serialization/mapinterface"
	"github.com/andrewkroh/go-sawmill/pkg/serialization/protobuf"
)

const levels = 12

// level is the name of the chain at depth i; some have dots.
func level(i int) string {
	switch i {
	case 1:
		return "a.b"
	case 4:
		return ".x."
	case 7:
		return "a rather long name of a field, longer than anything that might be kept inline or in a small buffer"
	}
	return "l" + string(rune('a'+i))
}

func bigObject(i int, leaf *event.Value) *event.Value {
	m := map[string]*event.Value{
		"i": event.Integer(int64(i)),
		"n": event.NullValue,
		"o": event.Object(map[string]*event.Value{}),
		"s": event.String("text"),
		"r": event.Array(event.Integer(1), event.Object(map[string]*event.Value{"i": event.Bool(true)})),
	}
	if i == 0 || i == 5 {
		for j := 0; j < 20; j++ {
			m["w"+string(rune('a'+j))] = event.UnsignedInteger(uint64(j))
		}
	}
	if i < levels-1 {
		m[level(i)] = bigObject(i+1, leaf)
	} else {
		m[level(i)] = leaf
	}
	return event.Object(m)
}

func newBig() *history {
	h := newHistory(1, 1)
	leaf := event.Integer(vsym.Int64("leaf"))
	v := bigObject(0, leaf)
	h.m = modelOf(v)
	for k, x := range v.Object {
		h.e.Put(gen.Escape(k), x)
	}
	return h
}

// bigPath is a path of up to 12 segments into the big event, ending at or
// below any kind of value, or at a missing name.
func bigPath(name string) ([]string, string) {
	d := vsym.Choose(name+".depth", levels)
	var path []string
	for i := 0; i < d; i++ {
		path = append(path, level(i))
	}
	ends := [][]string{{level(d)}, {"i"}, {"n"}, {"o"}, {"s"}, {"r"}, {"wd"}, {"new"}, {"i", "x"}, {"n", "x"}, {"o", "x"}, {"r", "i"}, {"new", "x", "y"}, {"o", "x", "y", "z"}}
	k := vsym.Choose(name+".end", len(ends)+1)
	if k < len(ends) {
		path = append(path, ends[k]...)
	} else {
		path = append(path, gen.Segment(name+".any", 1))
	}
	key := ""
	for i, s := range path {
		if i > 0 {
			key += "."
		}
		key += gen.Escape(s)
	}
	return path, key
}

func (h *history) big(name string, ops ...int) {
	path, key := bigPath(name)
	op := ops[0]
	if len(ops) > 1 {
		op = ops[vsym.Choose(name+".op", len(ops))]
	}
	h.apply(name, op, path, key)
}

// C02_Big: one put or get in a wide event nested 12 deep.
func C02_Big() { newBig().big("b", opPut, opGet) }

// C03_Big: one put or try-put in a wide event nested 12 deep.
func C03_Big() { newBig().big("b", opTryPut, opPut) }

// C04_Big: one delete in a wide event nested 12 deep.
func C04_Big() { newBig().big("b", opDelete) }

// C04_Empties: deleting all members of an object leaves the empty object.
func C04_Empties() {
	h := newHistory(1, 1)
	n := 1 + vsym.Choose("members", 3)
	for i := 0; i < n; i++ {
		h.apply("p", opPut, []string{"p", "q", string(rune('a' + i))}, "p.q."+string(rune('a'+i)))
	}
	for i := 0; i < n; i++ {
		h.apply("d", opDelete, []string{"p", "q", string(rune('a' + i))}, "p.q."+string(rune('a'+i)))
	}
	h.step("after", opPut, opDelete, opGet)
	vsym.Reach("emptied")
}

// C02_Shared: one scalar stored in several places stays the same in the
// others when one of them is replaced.
func C02_Shared() {
	v := gen.Opts{StrLen: 1, Null: true, Uint: true, Times: true}.Value("v")
	given := gen.Copy(v)
	e, f := event.New(), event.New()
	keys := []string{"a", "b.c", `d\.e`, "d.e.f", "g.h.i.j", "g.h.k"}
	for _, k := range keys {
		e.Put(k, v)
	}
	f.Put("a", v)
	at := vsym.Choose("at", len(keys))
	w := gen.Opts{StrLen: 1, Null: true, Uint: true, Times: true}.Value("w")
	put := gen.Copy(w)
	old, err := e.Put(keys[at], w)
	vsym.Assert(err == nil && gen.Same(old, given), "put returns the previous value")
	for i, k := range keys {
		if i == at {
			vsym.Assert(gen.Same(e.Get(k), put), "the replaced value is the new one")
		} else {
			vsym.Assert(gen.Same(e.Get(k), given), "other keys keep the value")
		}
	}
	vsym.Assert(gen.Same(f.Get("a"), given), "another event keeps the value")
	vsym.Assert(gen.Same(v, given), "the value that was put is not changed")
	vsym.Assert(gen.Same(old, given), "the returned previous value is not changed")
	vsym.Reach("replaced")
}

// C01_Raw: any key whose backslashes stand before dots.
func C01_Raw() {
	key := vsym.StringN("key", 1+vsym.Choose("n", vsym.Pick(8, 10)))
	for i := 0; i < len(key); i++ {
		if i+1 < len(key) {
			vsym.Assume(vsym.Or(key[i] != '\\', key[i+1] == '.'))
		} else {
			vsym.Assume(key[i] != '\\')
		}
	}
	var path []string
	var seg []byte
	for i := 0; i <= len(key); i++ {
		switch {
		case i == len(key) || key[i] == '.':
			if len(seg) > 0 {
				path = append(path, string(seg))
			}
			seg = nil
		case key[i] == '\\':
			i++
			seg = append(seg, '.')
		default:
			seg = append(seg, key[i])
		}
	}
	addressed(key, path)
}

func addressed(key string, path []string) {
	e := event.New()
	_, err := e.Put(key, event.Integer(7))
	vsym.Assert((err == nil) == (len(path) > 0), "exactly the keys with a segment can be put")
	if len(path) == 0 {
		vsym.Reach("no segment")
		return
	}
	cur := e.Get(".")
	for _, s := range path {
		vsym.Assert(cur != nil && cur.Type == event.ObjectType && len(cur.Object) == 1, "each level holds exactly one name")
		if cur == nil || len(cur.Object) != 1 {
			return
		}
		cur = cur.Object[s]
	}
	vsym.Assert(cur != nil && cur.Type == event.IntegerType && cur.Integer == 7, "the value sits at the addressed path")
	got := e.Get(key)
	vsym.Assert(got != nil && got.Type == event.IntegerType && got.Integer == 7, "get with the same key returns the value")
	got = e.Delete(key)
	vsym.Assert(got != nil && got.Type == event.IntegerType && got.Integer == 7, "delete with the same key removes the value")
	vsym.Assert(e.Get(key) == nil, "the deleted value is gone")
	vsym.Reach("addressed")
}

// C01_Long: paths of up to 12 segments of names with many dots.
func C01_Long() {
	n := 1 + vsym.Choose("segments", 12)
	at := vsym.Choose("symbolic", n)
	by := vsym.Choose("by", 2)
	var path []string
	key := ""
	for i := 0; i < n; i++ {
		s := []string{"a", ".", "..", "a.b", "a.b.c.d.e.f", ".lead", "trail.", "name with spaces and / and @", "long.long.long.long.long.long.long.long.long.long.name.of.seventy.bytes"}[i%9]
		if i == at {
			s = gen.Segment("seg", 2)
		}
		path = append(path, s)
		if i > 0 {
			key += "."
		}
		if by == 0 {
			key += gen.Escape(s)
		} else {
			key += eventutil.EscapeKey(s)
		}
	}
	addressed(key, path)
}

// siblings are fields of one object, whose names begin or end alike, with one
// operation on one of them.
func siblings(op int) {
	n := gen.Segment("name", vsym.Pick(1, 2))
	x := gen.Segment("more", vsym.Pick(2, 3))
	names := []string{n, n + x, x + n, n + "." + x, n + " " + x, n + "/" + x, n + "*", n + "s", "_" + n}
	values := map[string]*event.Value{}
	for i, name := range names {
		if _, dup := values[name]; dup {
			return
		}
		values[name] = event.Integer(int64(i))
	}
	dir := []string{"", "o.", "p.q.r."}[vsym.Choose("in", 3)]
	e := event.New()
	for _, name := range names {
		e.Put(dir+gen.Escape(name), values[name])
	}
	at := vsym.Choose("at", len(names))
	key := dir + gen.Escape(names[at])
	count := len(names)
	switch op {
	case 0:
		vsym.Assert(e.Delete(key) == values[names[at]], "a delete returns the value")
		delete(values, names[at])
		count--
	case 1:
		v := gen.Opts{StrLen: 1, Null: true}.Value("v")
		old, err := e.Put(key, v)
		vsym.Assert(err == nil && old == values[names[at]], "a put returns the previous value")
		values[names[at]] = v
	}
	for _, name := range names {
		vsym.Assert(e.Get(dir+gen.Escape(name)) == values[name], "fields with names alike stay as they were")
	}
	obj := e.Get(dir + ".")
	vsym.Assert(obj != nil && len(obj.Object) == count, "there are no other fields")
	vsym.Reach("siblings")
}

// C02_Siblings: a put reaches only its own field.
func C02_Siblings() { siblings(1) }

// C04_Siblings: a delete reaches only its own field.
func C04_Siblings() { siblings(0) }

// C01_Two: two keys of one length that differ in one place are two fields.
func C01_Two() {
	n := []int{1, 2, 3, 5, 8, 12, 17, 24, 33, 48, 65, 130, 260}[vsym.Choose("length", 13)]
	at := []int{0, n - 1, n / 2, n / 4, n * 3 / 4}[vsym.Choose("at", 5)]
	b := make([]byte, n)
	dots := vsym.Choose("dots", 4)
	for i := range b {
		b[i] = "abcdefghijklmnopqrstuvwxyz"[i%26]
		switch {
		case dots == 1 && i == n/3, dots == 2 && i == n*2/3, dots == 3 && i%8 == 4:
			b[i] = '.'
		}
	}
	x, y := vsym.Byte("x"), vsym.Byte("y")
	vsym.Assume(x != '\\' && y != '\\' && x != '.' && y != '.' && x != y)
	b[at] = x
	one := string(b)
	b[at] = y
	two := string(b)
	e := event.New()
	u, v := event.Integer(1), event.Integer(2)
	first, err := e.Put(one, u)
	vsym.Assert(first == nil && err == nil, "a new field is put")
	second, err := e.Put(two, v)
	vsym.Assert(second == nil && err == nil, "another key is another field")
	vsym.Assert(e.Get(one) == u && e.Get(two) == v && e.Get(one) == u, "every key has its own value")
	vsym.Assert(e.Delete(two) == v && e.Get(two) == nil && e.Get(one) == u, "a delete leaves the other key")
	vsym.Reach("two")
}

// nested is a JSON document nested n deep.
func nested(n int, leaf string) string {
	s := leaf
	for i := 0; i < n; i++ {
		if i%3 == 2 {
			s = `[null,` + s + `]`
		} else {
			s = `{"k":` + s + `,"n":null}`
		}
	}
	return s
}

// C05_Big: every operation on a big event.
func C05_Big() {
	h := newBig()
	_, key := bigPath("b")
	if vsym.Choose("more", 2) == 1 {
		key += ".m.o.r.e.e.v.e.n.l.o.n.g.e.r"
	}
	touch(h.e, key)
}

func touch(e *event.Event, key string) {
	switch vsym.Choose("op", 4) {
	case 0:
		e.Get(key)
	case 1:
		e.Put(key, event.Bool(true))
	case 2:
		e.TryPut(key, event.Bool(true))
	case 3:
		e.Delete(key)
	}
	vsym.Reach("done")
}

// C05_Deep: documents nested up to 14 deep.
func C05_Deep() {
	leaf := []string{"null", "{}", "[]", "1", `"s"`, "1e400", "nul"}[vsym.Choose("leaf", 7)]
	e := event.New()
	err := json.Unmarshal([]byte(`{"a":`+nested(vsym.Choose("n", 15), leaf)+`}`), e)
	if err != nil {
		vsym.Assert(leaf == "1e400" || leaf == "nul", "a document decodes")
		vsym.Reach("refused")
		return
	}
	vsym.Assert(leaf != "nul", "a broken document is refused")
	touch(e, []string{".", "a", "a.k", "a.n.x", "a.k.k.k", "a.k.k.n.k.k.k.k.k.k.k.k.k"}[vsym.Choose("key", 6)])
}

// C05_Converted: events that come from Go maps and protobuf messages.
func C05_Converted() {
	var e *event.Event
	var err error
	var p *int
	var nilErr error
	if vsym.Choose("from", 2) == 0 {
		v := []interface{}{nil, p, nilErr, map[string]interface{}(nil), []interface{}(nil), map[string]string(nil), []string(nil),
			struct{}{}, &struct{ A *struct{ B int } }{}, map[string]interface{}{"b": nil}, []interface{}{nil}, ""}[vsym.Choose("value", 12)]
		e, err = mapinterface.ToEvent(map[string]interface{}{"a": v})
		vsym.Assert(err == nil, "the map converts")
	} else {
		v := []*protobuf.Value{nil, {}, {Kind: &protobuf.Value_Array{}}, {Kind: &protobuf.Value_Object{}}, {Kind: &protobuf.Value_String_{}},
			{Kind: &protobuf.Value_Object{Object: &protobuf.ValueObject{Fields: map[string]*protobuf.Value{"b": nil}}}},
			{Kind: &protobuf.Value_Array{Array: &protobuf.ValueArray{Items: []*protobuf.Value{nil, {}}}}}}[vsym.Choose("value", 7)]
		e = protobuf.ToLogEvent(&protobuf.Log{Object: &protobuf.ValueObject{Fields: map[string]*protobuf.Value{"a": v}}})
	}
	if e == nil {
		return
	}
	touch(e, []string{".", "a", "a.b", "a.b.c", "a.b.c.d"}[vsym.Choose("key", 5)])
	touch(e, []string{"a", "a.b", "a.b.c"}[vsym.Choose("key2", 3)])
}

// C06_Big: wide, long and deep events.
func C06_Big() {
	x := vsym.Byte("x")
	vsym.Assume(x < 0x80)
	b := vsym.Bool("b")
	var v *event.Value
	n := []int{0, 1, 3, 7, 8, 9, 16, 17, 33, 40}[vsym.Choose("n", 10)]
	switch vsym.Choose("kind", 5) {
	case 0:
		items := make([]*event.Value, n)
		for i := range items {
			items[i] = event.Integer(int64(i))
		}
		if n > 0 {
			items[n-1] = event.Bool(b)
		}
		v = event.Array(items...)
	case 1:
		m := map[string]*event.Value{}
		for i := 0; i < n; i++ {
			m["k"+string(rune('A'+i))] = event.Integer(int64(i))
		}
		m["b"] = event.Bool(b)
		v = event.Object(m)
	case 2:
		v = event.String(string([]byte{x}))
		for i := 0; i < n; i++ {
			if i%3 == 0 {
				v = event.Array(v, event.NullValue)
			} else {
				v = event.Object(map[string]*event.Value{"k.l": v, "z": event.Integer(int64(i))})
			}
		}
	case 3:
		s := make([]byte, n*20)
		for i := range s {
			s[i] = 'a' + byte(i%26)
		}
		v = event.String(string(append(append(s, x), s...)))
	case 4:
		s := make([]byte, n*20)
		for i := range s {
			s[i] = "ab.<\"é"[i%5]
		}
		v = event.Object(map[string]*event.Value{string(append(s, x)): event.Bool(b), "other": event.NullValue})
	}
	e := event.New()
	e.Put("a", v)
	roundTrip(e)
}

// C06_Ints: integers around every power of two and of ten.
func C06_Ints() {
	var base uint64 = 1
	if vsym.Choose("ten", 2) == 1 {
		for i := vsym.Choose("exp", 20); i > 0; i-- {
			base *= 10
		}
	} else {
		base <<= uint(vsym.Choose("exp", 64))
	}
	base += uint64(vsym.Choose("off", 3)) - 1
	e := event.New()
	switch vsym.Choose("sign", 3) {
	case 0:
		if base >= 1<<63 {
			return
		}
		e.Put("a", event.Integer(int64(base)))
	case 1:
		if base > 1<<63 {
			return
		}
		e.Put("a", event.Integer(-int64(base)))
	case 2:
		e.Put("a", event.UnsignedInteger(base))
		data, err := json.Marshal(e)
		vsym.Assert(err == nil, "the event encodes")
		f := event.New()
		vsym.Assert(json.Unmarshal(data, f) == nil, "the encoded event decodes")
		v := f.Get("a")
		vsym.Assert(v != nil && (v.Type == event.UnsignedIntegerType && v.UnsignedInteger == base ||
			v.Type == event.IntegerType && v.Integer >= 0 && uint64(v.Integer) == base), "an unsigned integer keeps its exact value")
		vsym.Reach("unsigned")
		return
	}
	roundTrip(e)
}

// C06_Wide4: characters of four bytes, and a few special ones.
func C06_Special() {
	e := event.New()
	s := []string{"\u2028", "\u2029", "\ufffd", "\u00e9", "\ufeff", "\x7f", "\\u0041", "\\", "\"", "</script>", "a\u0000b", "\U0001f600"}[vsym.Choose("s", 12)]
	if vsym.Choose("four", 2) == 1 {
		b := vsym.BytesN("b", 2)
		vsym.Assume(vsym.And(vsym.And(b[0] >= 0x80, b[0] <= 0xbf), vsym.And(b[1] >= 0x80, b[1] <= 0xbf)))
		s += string([]byte{0xf0, 0x9f, b[0], b[1]})
	}
	e.Put("a", event.String(s))
	e.Put("o", event.Object(map[string]*event.Value{s: event.Array(event.String("x"+s), event.String(s+"x"))}))
	roundTrip(e)
}
