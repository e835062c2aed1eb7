package hevent

import (
	"encoding/json"
	"errors"

	"github.com/andrewkroh/go-sawmill/internal/zzverif/gen"
	"github.com/andrewkroh/go-sawmill/internal/zzverif/vsym"
	"github.com/andrewkroh/go-sawmill/pkg/event"
)

// The reference model: an event is a tree whose inner nodes are association
// lists, addressed by segment lists.
type node struct {
	val  *event.Value // a copy of the stored value, unless it is an object
	obj  bool
	keys []string
	kids []*node
}

func modelOf(v *event.Value) *node {
	n := &node{obj: v.Type == event.ObjectType}
	if !n.obj {
		n.val = gen.Copy(v)
	} else {
		for k, x := range v.Object {
			n.keys = append(n.keys, k)
			n.kids = append(n.kids, modelOf(x))
		}
	}
	return n
}

func (n *node) find(k string) int {
	for i := range n.keys {
		if n.keys[i] == k {
			return i
		}
	}
	return -1
}

func (n *node) get(path []string) *node {
	for _, k := range path {
		i := n.find(k)
		if i < 0 {
			return nil
		}
		n = n.kids[i]
	}
	return n
}

// put reports false when a non-object is in the way.
func (n *node) put(path []string, c *node) bool {
	m := n
	for _, k := range path[:len(path)-1] {
		i := m.find(k)
		if i < 0 {
			break
		}
		m = m.kids[i]
		if !m.obj {
			return false
		}
	}
	m = n
	for _, k := range path[:len(path)-1] {
		i := m.find(k)
		if i < 0 {
			x := &node{obj: true}
			m.keys, m.kids = append(m.keys, k), append(m.kids, x)
			m = x
			continue
		}
		m = m.kids[i]
	}
	last := path[len(path)-1]
	if i := m.find(last); i >= 0 {
		m.kids[i] = c
	} else {
		m.keys, m.kids = append(m.keys, last), append(m.kids, c)
	}
	return true
}

func (n *node) del(path []string) {
	m := n.get(path[:len(path)-1])
	i := m.find(path[len(path)-1])
	m.keys = append(append([]string{}, m.keys[:i]...), m.keys[i+1:]...)
	m.kids = append(append([]*node{}, m.kids[:i]...), m.kids[i+1:]...)
}

// is reports whether v is what the model says.
func (n *node) is(v *event.Value) bool {
	if v == nil {
		return false
	}
	if !n.obj {
		return gen.Same(n.val, v)
	}
	return v.Type == event.ObjectType && n.isObj(v.Object)
}

func (n *node) isObj(m map[string]*event.Value) bool {
	if len(m) != len(n.keys) {
		return false
	}
	for i, k := range n.keys {
		v, ok := m[k]
		if !ok || !n.kids[i].is(v) {
			return false
		}
	}
	return true
}

const (
	opPut = iota
	opTryPut
	opDelete
	opGet
)

type history struct {
	e    *event.Event
	m    *node
	deep int
	klen int
	n    int64
}

func newHistory(deep, klen int) *history {
	return &history{e: event.New(), m: &node{obj: true}, deep: deep, klen: klen}
}

// path is any segment list of length 1..deep.
func (h *history) path(name string) ([]string, string) {
	n := 1 + vsym.Choose(name+".depth", h.deep)
	path := make([]string, n)
	key := ""
	for i := range path {
		path[i] = gen.Segment(name, h.klen)
		if i > 0 {
			key += "."
		}
		key += gen.Escape(path[i])
	}
	return path, key
}

func (h *history) value(name string) *event.Value {
	switch vsym.Choose(name, 4) {
	case 0:
		h.n++
		return event.Integer(h.n)
	case 1:
		return event.Object(map[string]*event.Value{})
	case 2:
		return event.Object(map[string]*event.Value{gen.Segment(name+".k", h.klen): event.Bool(true)})
	}
	return event.NullValue
}

func (h *history) step(name string, ops ...int) {
	op := ops[0]
	if len(ops) > 1 {
		op = ops[vsym.Choose(name+".op", len(ops))]
	}
	path, key := h.path(name)
	h.apply(name, op, path, key)
}

func (h *history) apply(name string, op int, path []string, key string) {
	was := h.m.get(path)
	switch op {
	case opPut, opTryPut:
		v := h.value(name + ".v")
		given := gen.Copy(v)
		var old *event.Value
		var err error
		if op == opPut {
			old, err = h.e.Put(key, v)
		} else {
			old, err = h.e.TryPut(key, v)
		}
		if op == opTryPut && was != nil {
			vsym.Assert(errors.Is(err, event.ErrKeyExists), "try-put on an existing key reports that it exists")
			vsym.Assert(was.is(old), "try-put on an existing key returns the existing value")
			vsym.Reach("exists")
		} else if !h.m.put(path, modelOf(v)) {
			vsym.Assert(errors.Is(err, event.ErrTargetKeyNotObject), "put through a non-object is refused")
			vsym.Assert(old == nil, "a refused put returns no value")
			vsym.Reach("refused")
		} else {
			vsym.Assert(err == nil, "put succeeds")
			if was != nil {
				vsym.Assert(was.is(old), "put returns the previous value")
				vsym.Reach("replaced")
			} else {
				vsym.Assert(old == nil, "put at a new key returns no previous value")
			}
			vsym.Assert(gen.Same(h.e.Get(key), given), "get after put returns the value that was put")
		}
	case opDelete:
		got := h.e.Delete(key)
		if was == nil {
			vsym.Assert(got == nil, "delete of a missing key returns nothing")
		} else {
			vsym.Assert(was.is(got), "delete returns the removed value")
			h.m.del(path)
			vsym.Reach("deleted")
		}
		vsym.Assert(h.e.Get(key) == nil, "get after delete finds nothing")
	case opGet:
		got := h.e.Get(key)
		if was == nil {
			vsym.Assert(got == nil, "get of a missing key returns nothing")
		} else {
			vsym.Assert(was.is(got), "get returns the stored value")
		}
	}
	vsym.Assert(h.m.isObj(gen.Root(h.e)), "the whole event is as the operation says, and nothing else changed")
}

// C02_PutGet: put and get histories against the reference tree.
func C02_PutGet() {
	h := newHistory(2, 1)
	n := vsym.Pick(2, 3)
	for i := 0; i < n; i++ {
		h.step("o", opPut)
	}
	h.step("g", opGet)
}

// C02_Deep: one long path over an existing one.
func C02_Deep() {
	h := newHistory(vsym.Pick(3, 4), 1)
	h.step("a", opPut)
	h.step("b", opPut)
	h.step("g", opGet)
}

// C03_Failed: operations that fail change nothing.
func C03_Failed() {
	h := newHistory(vsym.Pick(2, 3), 1)
	h.step("a", opPut)
	h.step("b", opPut, opTryPut)
	h.step("c", opPut, opTryPut)
	if vsym.Tier() > 0 {
		h.step("d", opTryPut)
	}
}

// C03_Empty: keys without any segment are refused.
func C03_Empty() {
	h := newHistory(2, 1)
	h.step("a", opPut)
	n := vsym.Choose("dots", 4)
	key := ""
	for i := 0; i < n; i++ {
		key += "."
	}
	var old *event.Value
	var err error
	if vsym.Choose("try", 2) == 0 {
		old, err = h.e.Put(key, event.Integer(1))
	} else {
		old, err = h.e.TryPut(key, event.Integer(1))
	}
	vsym.Assert(errors.Is(err, event.ErrEmptyKey) && old == nil, "a key without segments is refused")
	vsym.Assert(h.e.Delete(key) == nil, "deleting a key without segments does nothing")
	vsym.Assert(h.m.isObj(gen.Root(h.e)), "the event is unchanged")
	_, key2 := h.path("nil")
	old, err = h.e.Put(key2, nil)
	vsym.Assert(old == nil && err == nil, "putting no value does nothing")
	vsym.Assert(h.m.isObj(gen.Root(h.e)), "the event is unchanged by putting no value")
}

// looks is everything a reader can see of an event without a reference.
func looks(e *event.Event) (string, bool, bool) {
	b, err := json.Marshal(e)
	if err != nil {
		return "failed", false, false
	}
	root := e.Get(".")
	return string(b), root == nil, root != nil && root.Object == nil
}

// C03_Untouched: a refused operation cannot be noticed in any other way.
func C03_Untouched() {
	e := event.New()
	switch vsym.Choose("content", 6) {
	case 1:
		e.Put("a", event.Integer(1))
	case 2:
		e.Put("a.b", event.Integer(1))
	case 3:
		e.Put("a.b", event.NullValue)
		e.Put("b", event.Object(nil))
	case 4:
		e.Put("a", event.Array(event.Object(map[string]*event.Value{"b": event.Integer(1)})))
	case 5:
		e.Put("a", event.Integer(1))
		e.Delete("a")
	}
	js, none, bare := looks(e)
	key := vsym.String("key", 3)
	for i := 0; i < len(key); i++ {
		vsym.Assume(vsym.Or(key[i] == '.', vsym.Or(key[i] == 'a', key[i] == 'b')))
	}
	var v *event.Value
	if vsym.Choose("value", 2) == 1 {
		v = event.Integer(9)
	}
	var old *event.Value
	var err error
	switch vsym.Choose("op", 3) {
	case 0:
		old, err = e.Put(key, v)
		vsym.Assume(v == nil || err != nil)
	case 1:
		old, err = e.TryPut(key, v)
		vsym.Assume(v == nil || err != nil)
	case 2:
		vsym.Assume(e.Get(key) == nil)
		vsym.Assert(e.Delete(key) == nil, "nothing is deleted")
		vsym.Reach("deleted nothing")
	}
	vsym.Assert(old == nil || errors.Is(err, event.ErrKeyExists), "a refused operation returns no other value")
	js2, none2, bare2 := looks(e)
	vsym.Assert(js == js2 && none == none2 && bare == bare2, "a refused operation leaves no trace")
	vsym.Reach("refused")
}

// C02_Names: long paths whose names repeat.
func C02_Names() { namesHistory(opPut, opTryPut) }

// C04_Names: deletes on long paths whose names repeat.
func C04_Names() { namesHistory(opDelete) }

func namesHistory(ops ...int) {
	h := newHistory(1, 1)
	n := vsym.Pick(1, 2)
	for i := 0; i <= n; i++ {
		name := string(rune('p' + i))
		length := []int{8, 1, 5, 7, 2, 6, 3}[vsym.Choose(name+".depth", vsym.Pick(4, 7))]
		path := make([]string, length)
		for j := range path {
			path[j] = "a"
			if j == length-1 || j%(2+i) == 0 {
				path[j] = vsym.StringN(name, 1)
				vsym.Assume(vsym.Or(path[j] == "a", path[j] == "b"))
			}
		}
		key := path[0]
		for _, x := range path[1:] {
			key += "." + x
		}
		op := opPut
		if i == n {
			op = ops[vsym.Choose("op", len(ops))]
		}
		h.apply(name, op, path, key)
	}
}

// C04_Delete: delete removes exactly the addressed value.
func C04_Delete() {
	h := newHistory(2, 1)
	h.step("a", opPut)
	h.step("b", opPut)
	if vsym.Tier() > 0 {
		h.step("c", opPut, opDelete)
	}
	h.step("d", opDelete)
	if vsym.Tier() > 0 {
		h.step("e", opDelete, opPut)
	}
}

// C04_Deep: delete below a deep path.
func C04_Deep() {
	h := newHistory(vsym.Pick(3, 4), 1)
	h.step("a", opPut)
	h.step("b", opPut)
	h.step("d", opDelete)
}
