// Package gen builds symbolic events and compares them. It only uses the
// exported API of the code under test.
package gen

import (
	"math"

	"github.com/andrewkroh/go-sawmill/internal/zzverif/vsym"
	"github.com/andrewkroh/go-sawmill/pkg/event"
)

// Opts bounds a value tree.
type Opts struct {
	Depth   int // container nesting
	Width   int // children per container
	KeyLen  int // longest object key
	StrLen  int // longest string
	Floats  bool
	Times   bool
	Uint    bool
	Null    bool
	AnyKey  bool // keys may contain backslashes and be empty
	UTF8    bool // strings and keys are ASCII only
	MaxDigs int  // >0: integers have at most this many decimal digits
}

// ASCII assumes that every byte of s is below 0x80.
func ASCII(s string) {
	for i := 0; i < len(s); i++ {
		vsym.Assume(s[i] < 0x80)
	}
}

// Segment is any non-empty string without a backslash.
func Segment(name string, maxLen int) string {
	n := 1
	if maxLen > 1 {
		n += vsym.Choose(name+".len", maxLen)
	}
	s := vsym.StringN(name, n)
	for i := 0; i < len(s); i++ {
		vsym.Assume(s[i] != '\\')
	}
	return s
}

// PlainSegment is any non-empty string without a backslash or a dot, so it
// names itself in a key.
func PlainSegment(name string, maxLen int) string {
	s := Segment(name, maxLen)
	for i := 0; i < len(s); i++ {
		vsym.Assume(s[i] != '.')
	}
	return s
}

func (o Opts) key(name string) string {
	var s string
	if o.AnyKey {
		s = vsym.String(name, o.KeyLen)
	} else {
		s = Segment(name, o.KeyLen)
	}
	if o.UTF8 {
		ASCII(s)
	}
	return s
}

// Str is any string within the bounds.
func (o Opts) Str(name string) string {
	s := vsym.String(name, o.StrLen)
	if o.UTF8 {
		ASCII(s)
	}
	return s
}

func (o Opts) kinds() []event.ValueType {
	k := []event.ValueType{event.StringType, event.IntegerType, event.BoolType}
	if o.Null {
		k = append(k, event.NullType)
	}
	if o.Uint {
		k = append(k, event.UnsignedIntegerType)
	}
	if o.Times {
		k = append(k, event.TimestampType)
	}
	if o.Floats {
		k = append(k, event.FloatType)
	}
	if o.Depth > 0 {
		k = append(k, event.ArrayType, event.ObjectType)
	}
	return k
}

// Value is any value within the bounds.
func (o Opts) Value(name string) *event.Value {
	k := o.kinds()
	return o.OfType(name, k[vsym.Choose(name+".type", len(k))])
}

// Scalar is any scalar within the bounds.
func (o Opts) Scalar(name string) *event.Value {
	o.Depth = 0
	return o.Value(name)
}

// OfType is any value of the type.
func (o Opts) OfType(name string, t event.ValueType) *event.Value {
	in := o
	in.Depth--
	switch t {
	case event.StringType:
		return event.String(o.Str(name + ".s"))
	case event.IntegerType:
		v := vsym.Int64(name + ".i")
		if o.MaxDigs > 0 {
			lim := int64(1)
			for i := 0; i < o.MaxDigs; i++ {
				lim *= 10
			}
			vsym.Assume(vsym.And(v < lim, v > -lim))
		}
		return event.Integer(v)
	case event.BoolType:
		return event.Bool(vsym.Bool(name + ".b"))
	case event.UnsignedIntegerType:
		return event.UnsignedInteger(vsym.Uint64(name + ".u"))
	case event.TimestampType:
		return event.Timestamp(vsym.Int64(name + ".t"))
	case event.FloatType:
		f := vsym.Float64(name + ".f")
		return event.Float(f)
	case event.ArrayType:
		n := vsym.Choose(name+".n", o.Width+1)
		items := make([]*event.Value, n)
		for i := range items {
			items[i] = in.Value(name + ".e")
		}
		return event.Array(items...)
	case event.ObjectType:
		n := vsym.Choose(name+".n", o.Width+1)
		m := make(map[string]*event.Value, n)
		for i := 0; i < n; i++ {
			m[o.key(name+".k")] = in.Value(name + ".v")
		}
		return event.Object(m)
	}
	return event.NullValue
}

// Event is any event within the bounds: up to width top-level fields.
func (o Opts) Event(name string, width int) *event.Event {
	e := event.New()
	n := vsym.Choose(name+".n", width+1)
	for i := 0; i < n; i++ {
		k := o.key(name + ".k")
		_, err := e.Put(Escape(k), o.Value(name+".v"))
		vsym.Assume(err == nil)
	}
	return e
}

// Escape writes a literal key segment as a key.
func Escape(s string) string {
	var b []byte
	for i := 0; i < len(s); i++ {
		if s[i] == '.' {
			b = append(b, '\\')
		}
		b = append(b, s[i])
	}
	return string(b)
}

// Same compares two values.
func Same(a, b *event.Value) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	if a.Type != b.Type {
		return false
	}
	switch a.Type {
	case event.StringType:
		return a.String == b.String
	case event.IntegerType:
		return a.Integer == b.Integer
	case event.UnsignedIntegerType:
		return a.UnsignedInteger == b.UnsignedInteger
	case event.BoolType:
		return a.Bool == b.Bool
	case event.FloatType:
		return math.Float64bits(a.Float) == math.Float64bits(b.Float)
	case event.TimestampType:
		return a.Timestamp.UnixNanos == b.Timestamp.UnixNanos
	case event.ArrayType:
		if len(a.Array) != len(b.Array) {
			return false
		}
		for i := range a.Array {
			if !Same(a.Array[i], b.Array[i]) {
				return false
			}
		}
		return true
	case event.ObjectType:
		return SameObj(a.Object, b.Object)
	}
	return a.Type == event.NullType
}

// SameObj compares two objects.
func SameObj(a, b map[string]*event.Value) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		w, ok := b[k]
		if !ok || !Same(v, w) {
			return false
		}
	}
	return true
}

// Root is the root object of the event.
func Root(e *event.Event) map[string]*event.Value {
	if e == nil {
		return nil
	}
	v := e.Get(".")
	if v == nil {
		return nil
	}
	return v.Object
}

// SameEvent compares two events.
func SameEvent(a, b *event.Event) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return SameObj(Root(a), Root(b))
}

// Copy is a deep copy that shares nothing with v.
func Copy(v *event.Value) *event.Value {
	if v == nil {
		return nil
	}
	c := *v
	if v.Array != nil {
		c.Array = make([]*event.Value, len(v.Array))
		for i := range v.Array {
			c.Array[i] = Copy(v.Array[i])
		}
	}
	if v.Object != nil {
		c.Object = make(map[string]*event.Value, len(v.Object))
		for k, x := range v.Object {
			c.Object[k] = Copy(x)
		}
	}
	return &c
}

// CopyEvent is a deep copy of an event.
func CopyEvent(e *event.Event) *event.Event {
	c := event.New()
	for k, v := range Root(e) {
		c.Put(Escape(k), Copy(v))
	}
	return c
}

// KeyFor is any object key within the bounds.
func (o Opts) KeyFor(name string) string { return o.key(name) }

// Name is one of the short texts that the current code of the packages
// singles out, or an ordinary one. It has no backslash.
func Name(name, pkgs string) string {
	s := vsym.Literal(name, pkgs)
	for i := 0; i < len(s); i++ {
		if s[i] == '\\' {
			vsym.Assume(false)
		}
	}
	return s
}

// Near is such a text, or one that has one more character at an end or one
// fewer.
func Near(name, pkgs string) string {
	s := Name(name, pkgs)
	switch vsym.Choose(name+".near", 4) {
	case 1:
		s += Segment(name+".after", 1)
	case 2:
		s = Segment(name+".before", 1) + s
	case 3:
		vsym.Assume(len(s) > 1)
		s = s[:len(s)-1]
	}
	ASCII(s)
	return s
}
