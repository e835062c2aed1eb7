package hser

import (
	"errors"

	"github.com/andrewkroh/go-sawmill/internal/zzverif/gen"
	"github.com/andrewkroh/go-sawmill/internal/zzverif/vsym"
	"github.com/andrewkroh/go-sawmill/pkg/event"
	"github.com/andrewkroh/go-sawmill/pkg/eventutil"
	"github.com/andrewkroh/go-sawmill/pkg/serialization/mapinterface"
)

// The code whose short texts and small numbers are tried as names, texts and
// sizes.
const (
	codeProto = "pkg/serialization/protobuf,pkg/event"
	codeMap   = "pkg/serialization/mapinterface,pkg/event,pkg/eventutil"
	codeUtil  = "pkg/eventutil,pkg/event"
)

func namedEvent(pkgs string) *event.Event {
	n := gen.Near("n", pkgs)
	s := "s"
	if vsym.Choose("both", 2) == 1 {
		s = n
	}
	e := event.New()
	switch vsym.Choose("where", 4) {
	case 0:
		e.Put(gen.Escape(n), event.String(s))
	case 1:
		e.Put("a", event.Object(map[string]*event.Value{n: event.String(s), "b": event.Integer(1)}))
	case 2:
		e.Put(gen.Escape(n), event.Object(map[string]*event.Value{n: event.Object(nil)}))
	case 3:
		e.Put("a", event.Array(event.String(s), event.String(n), event.Object(map[string]*event.Value{n: event.NullValue})))
	}
	return e
}

// C08_Named: names and texts of the code survive protobuf.
func C08_Named() { wireTrip(namedEvent(codeProto)) }

// C10_Named: names and texts of the code survive the conversion to maps.
func C10_Named() { mapTrip(namedEvent(codeMap)) }

// C10_NamedMap: the same for maps made by others.
func C10_NamedMap() {
	n := gen.Near("n", codeMap)
	e, err := mapinterface.ToEvent(map[string]interface{}{n: map[string]interface{}{n: n, "list": []string{n}}, "x": map[string]string{n: n}})
	vsym.Assert(err == nil, "a plain map converts")
	list := event.Array(event.String(n))
	in := map[string]*event.Value{n: event.String(n), "list": list}
	if n == "list" {
		return
	}
	want := map[string]*event.Value{n: event.Object(in), "x": event.Object(map[string]*event.Value{n: event.String(n)})}
	vsym.Assume(n != "x")
	vsym.Assert(gen.Same(event.Object(gen.Root(e)), event.Object(want)), "every field keeps its name and text")
	vsym.Reach("kept")
}

// C11_Named: Go values made of names and texts of the code.
func C11_Named() {
	n := gen.Near("n", codeUtil)
	var in interface{}
	want := event.String(n)
	switch vsym.Choose("value", 8) {
	case 0:
		in = n
	case 1:
		in = myString(n)
	case 2:
		in = errors.New(n)
	case 3:
		in = &n
	case 4:
		in, want = map[string]interface{}{n: n}, event.Object(map[string]*event.Value{n: event.String(n)})
	case 5:
		in, want = map[myString]string{myString(n): n}, event.Object(map[string]*event.Value{n: event.String(n)})
	case 6:
		in, want = [1]string{n}, event.Array(event.String(n))
	case 7:
		in, want = struct{ X struct{ Y string } }{struct{ Y string }{n}}, event.Object(map[string]*event.Value{"x": event.Object(map[string]*event.Value{"y": event.String(n)})})
	}
	check(in, want)
}

// C12_Named: appending to fields, and texts, of such names.
func C12_Named() {
	n := gen.Near("n", codeUtil)
	e := event.New()
	key := eventutil.EscapeKey(n)
	switch vsym.Choose("where", 3) {
	case 1:
		key = "a." + key
	case 2:
		key += ".a"
	}
	var want []*event.Value
	for i := vsym.Choose("old", 3); i > 0; i-- {
		vsym.Assert(eventutil.Append(e, key, event.String(n)) == nil, "append succeeds")
		want = append(want, event.String(n))
	}
	item := event.String(n)
	if vsym.Choose("other", 2) == 1 {
		item = event.Object(map[string]*event.Value{n: event.Integer(1)})
	}
	vsym.Assert(eventutil.Append(e, key, item) == nil, "append succeeds")
	want = append(want, item)
	vsym.Assert(gen.Same(e.Get(key), event.Array(want...)), "the result is the old items followed by the new ones")
	vsym.Reach("appended")
}

func sizedEvent(pkgs string, max int) *event.Event {
	n := vsym.Size("n", pkgs, max)
	v := event.Bool(vsym.Bool("b"))
	if vsym.Choose("inner", 2) == 1 {
		v = event.String("x")
	}
	switch vsym.Choose("kind", 5) {
	case 0:
		vsym.Assume(n <= 66)
		for i := 0; i < n; i++ {
			v = event.Array(v)
		}
	case 1:
		vsym.Assume(n <= 66)
		for i := 0; i < n; i++ {
			v = event.Object(map[string]*event.Value{"k": v})
		}
	case 2:
		items := make([]*event.Value, n)
		for i := range items {
			items[i] = v
		}
		v = event.Array(items...)
	case 3:
		m := map[string]*event.Value{}
		for i := 0; i < n; i++ {
			m[name4(i)] = v
		}
		v = event.Object(m)
	case 4:
		b := make([]byte, n)
		for i := range b {
			b[i] = "ab <\"e"[i%6]
		}
		v = event.Object(map[string]*event.Value{string(b): event.String(string(b)), string(b) + "x": v})
	}
	e := event.New()
	e.Put("a", v)
	return e
}

func name4(i int) string {
	return string([]byte{byte('0' + i/1000%10), byte('0' + i/100%10), byte('0' + i/10%10), byte('0' + i%10)})
}

// C08_Sized, C10_Sized: widths, depths and lengths that the code singles out.
func C08_Sized() { wireTrip(sizedEvent(codeProto, vsym.Pick(130, 1030))) }
func C10_Sized() { mapTrip(sizedEvent(codeMap, vsym.Pick(130, 1030))) }

// C11_Sized: the same for Go values.
func C11_Sized() {
	n := vsym.Size("n", codeUtil, vsym.Pick(66, 1030))
	x := vsym.Int64("x")
	var in interface{}
	var want *event.Value
	switch vsym.Choose("kind", 5) {
	case 0:
		in, want = x, event.Integer(x)
		vsym.Assume(n <= 66)
		for i := 0; i < n; i++ {
			in, want = []interface{}{in}, event.Array(want)
		}
	case 1:
		in, want = x, event.Integer(x)
		vsym.Assume(n <= 66)
		for i := 0; i < n; i++ {
			in, want = map[string]interface{}{"k": in}, event.Object(map[string]*event.Value{"k": want})
		}
	case 2:
		list, items := make([]int64, n), make([]*event.Value, n)
		for i := range list {
			list[i], items[i] = x, event.Integer(x)
		}
		in, want = list, event.Array(items...)
	case 3:
		m, w := map[string]int64{}, map[string]*event.Value{}
		for i := 0; i < n; i++ {
			m[name4(i)], w[name4(i)] = x, event.Integer(x)
		}
		in, want = m, event.Object(w)
	case 4:
		b := make([]byte, n)
		for i := range b {
			b[i] = "ab <\"e"[i%6]
		}
		in, want = string(b), event.String(string(b))
	}
	check(in, want)
}

// C12_Sized: arrays as long as numbers that the code singles out.
func C12_Sized() {
	n := vsym.Size("n", codeUtil, vsym.Pick(66, 1030))
	e := event.New()
	var want []*event.Value
	for i := 0; i < n; i++ {
		want = append(want, event.Integer(int64(i)))
	}
	switch vsym.Choose("by", 3) {
	case 0:
		e.Put("a", event.Array(append([]*event.Value(nil), want...)...))
	case 1:
		for _, v := range want {
			vsym.Assert(eventutil.Append(e, "a", v) == nil, "append succeeds")
		}
	case 2:
		vsym.Assert(eventutil.Append(e, "a", event.Array(append([]*event.Value(nil), want...)...)) == nil, "append succeeds")
	}
	add := []*event.Value{event.Integer(vsym.Int64("x"))}
	for i := vsym.Choose("more", 3); i > 0; i-- {
		add = append(add, event.String("s"))
	}
	vsym.Assert(eventutil.Append(e, "a", event.Array(add...)) == nil, "append succeeds")
	vsym.Assert(gen.Same(e.Get("a"), event.Array(append(want, add...)...)), "the result is the old items followed by the new ones")
	vsym.Reach("appended")
}

// C12_Spare: one array value with room for more, appended to several fields.
func C12_Spare() {
	e := event.New()
	room := vsym.Choose("room", 3)
	n := vsym.Choose("n", 3)
	items := make([]*event.Value, n, n+room)
	for i := range items {
		items[i] = event.Integer(vsym.Int64("i"))
	}
	item := event.Array(items...)
	given := gen.Copy(item)
	keys := []string{"a", "b.c", "d"}
	wants := map[string][]*event.Value{}
	if vsym.Choose("exists", 2) == 1 {
		e.Put("a", event.Array())
	}
	steps := vsym.Pick(4, 5)
	for i := 0; i < steps; i++ {
		k := keys[vsym.Choose("key", vsym.Pick(2, 3))]
		v, w := item, gen.Copy(given).Array
		if vsym.Choose("item", 2) == 1 {
			x := event.Integer(int64(1000 + i))
			v, w = x, []*event.Value{gen.Copy(x)}
		}
		vsym.Assert(eventutil.Append(e, k, v) == nil, "append succeeds")
		wants[k] = append(wants[k], w...)
		for k, w := range wants {
			vsym.Assert(gen.Same(e.Get(k), event.Array(w...)), "every field holds what was appended to it")
		}
		vsym.Assert(gen.Same(item, given), "the appended value itself is not changed")
	}
	vsym.Reach("appended")
}
