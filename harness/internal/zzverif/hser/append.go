package hser

import (
	"github.com/andrewkroh/go-sawmill/internal/zzverif/gen"
	"github.com/andrewkroh/go-sawmill/internal/zzverif/vsym"
	"github.com/andrewkroh/go-sawmill/pkg/event"
	"github.com/andrewkroh/go-sawmill/pkg/eventutil"
)

func some(name string, depth int) *event.Value {
	return gen.Opts{Depth: depth, Width: 2, KeyLen: 1, StrLen: 1, Null: true}.Value(name)
}

// C12_Append: the array gains exactly the new items, at the end.
func C12_Append() {
	e := event.New()
	var old *event.Value
	if vsym.Choose("exists", 2) == 1 {
		old = some("old", 1)
	}
	key := []string{"a", "o.a", "s.a", "a.b"}[vsym.Choose("key", 4)]
	e.Put("o.x", event.Integer(1))
	e.Put("s", event.String("x"))
	if old != nil {
		e.Put(key, gen.Copy(old))
	}
	cur := gen.Copy(e.Get(key))
	rounds := 1
	for r := 0; r < rounds; r++ {
		before := gen.CopyEvent(e)
		item := some("item", 1)
		given := gen.Copy(item)
		err := eventutil.Append(e, key, item)
		if key == "s.a" {
			vsym.Assert(err != nil, "appending below a value that is not an object is refused")
			vsym.Assert(gen.SameEvent(before, e), "a refused append changes nothing")
			vsym.Reach("refused")
			return
		}
		vsym.Assert(err == nil, "append succeeds")
		var want []*event.Value
		if cur != nil {
			if cur.Type == event.ArrayType {
				want = append(want, cur.Array...)
			} else {
				want = append(want, cur)
			}
		}
		if given.Type == event.ArrayType {
			want = append(want, given.Array...)
		} else {
			want = append(want, given)
		}
		got := e.Get(key)
		vsym.Assert(gen.Same(got, event.Array(want...)), "the result is the old items followed by the new ones")
		vsym.Assert(gen.Same(item, given), "the appended value itself is not changed")
		before.Put(key, gen.Copy(got))
		vsym.Assert(gen.SameEvent(before, e), "other fields are not changed")
		vsym.Reach("appended")
		cur = gen.Copy(got)
	}
}

// C12_Nil: appending nothing changes nothing.
func C12_Nil() {
	e := event.New()
	if vsym.Choose("exists", 2) == 1 {
		e.Put("a", some("old", 1))
	}
	before := gen.CopyEvent(e)
	vsym.Assert(eventutil.Append(e, "a", nil) == nil, "appending nil is no error")
	vsym.Assert(gen.SameEvent(before, e), "appending nil changes nothing")
	vsym.Reach("nil")
}

// C12_Escape: EscapeKey names exactly the given top-level field.
func C12_Escape() {
	k := gen.Segment("k", vsym.Pick(3, 4))
	e := event.New()
	i := vsym.Int64("i")
	_, err := e.Put(eventutil.EscapeKey(k), event.Integer(i))
	vsym.Assert(err == nil, "an escaped name is a valid key")
	root := gen.Root(e)
	vsym.Assert(len(root) == 1 && root[k] != nil && root[k].Integer == i, "the escaped key names the field itself")
	vsym.Reach("named")
}
