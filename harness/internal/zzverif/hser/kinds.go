package hser

import (
	"errors"
	"fmt"
	"time"

	"github.com/andrewkroh/go-sawmill/internal/zzverif/vsym"
	"github.com/andrewkroh/go-sawmill/pkg/event"
)

type point struct {
	X *int64
	T *time.Time
}

type list []*list

type bag map[string]*bag

// C11_Pointers: pointers to pointers, with a nil anywhere on the way.
func C11_Pointers() {
	level := vsym.Choose("nil", 4) // 3: none
	null := event.NullValue
	var in interface{}
	var want *event.Value
	switch vsym.Choose("kind", 8) {
	case 0:
		v := vsym.Int64("v")
		p := &v
		if level == 0 {
			p = nil
		}
		q := &p
		if level == 1 {
			q = nil
		}
		r := &q
		if level == 2 {
			r = nil
		}
		in, want = r, event.Integer(v)
	case 1:
		v := time.Unix(7, 9)
		p := &v
		if level == 0 {
			p = nil
		}
		q := &p
		if level == 1 {
			q = nil
		}
		r := &q
		if level == 2 {
			r = nil
		}
		in, want = r, event.Timestamp(7000000009)
	case 2:
		v := point{X: new(int64)}
		p := &v
		if level == 0 {
			p = nil
		}
		q := &p
		if level == 1 {
			q = nil
		}
		in, want = q, event.Object(map[string]*event.Value{"x": event.Integer(0), "t": null})
		if level == 2 {
			v.X, want = nil, event.Object(map[string]*event.Value{"x": null, "t": null})
		}
	case 3:
		v := []string{"a"}
		p := &v
		if level == 0 {
			p = nil
		}
		q := &p
		if level == 1 {
			q = nil
		}
		in, want = q, event.Array(event.String("a"))
		if level == 2 {
			v, want = nil, event.Array()
		}
	case 4:
		v := map[string]bool{"a": true}
		p := &v
		if level == 0 {
			p = nil
		}
		q := &p
		if level == 1 {
			q = nil
		}
		in, want = q, event.Object(map[string]*event.Value{"a": event.Bool(true)})
		if level == 2 {
			v, want = nil, event.Object(nil)
		}
	case 5:
		var v error = myErr{"e"}
		if level == 2 {
			v = (*ptrErr)(nil)
		}
		p := &v
		if level == 0 {
			v = nil
		}
		q := &p
		if level == 1 {
			q = nil
		}
		in, want = q, event.String("e")
	case 6:
		var v interface{} = "x"
		p := &v
		if level == 0 {
			v = nil
		}
		var w interface{} = p
		if level == 1 {
			w = (*interface{})(nil)
		}
		q := &w
		if level == 2 {
			q = nil
		}
		in, want = q, event.String("x")
	case 7:
		l, b := list{{}, nil}, bag{"a": {}, "b": nil}
		in, want = &l, event.Array(event.Array(), null)
		if level == 0 {
			in, want = b, event.Object(map[string]*event.Value{"a": event.Object(nil), "b": null})
		}
		check(wrap(in, want))
		return
	}
	if level < 2 || level == 2 && want.Type != event.ArrayType && want.Type != event.ObjectType {
		want = null
	}
	check(wrap(in, want))
}

// C11_Keys: maps with keys of every kind.
func C11_Keys() {
	x := event.Integer(1)
	one := func(k string) *event.Value { return event.Object(map[string]*event.Value{k: x}) }
	lists := [][2]interface{}{
		{map[int]int{-12: 1}, "-12"}, {map[int8]int{-128: 1}, "-128"}, {map[int16]int{300: 1}, "300"}, {map[int32]int{1 << 30: 1}, "1073741824"},
		{map[int64]int{-1 << 63: 1}, "-9223372036854775808"}, {map[uint]int{12: 1}, "12"}, {map[uint8]int{255: 1}, "255"}, {map[uint16]int{65535: 1}, "65535"},
		{map[uint32]int{1<<32 - 1: 1}, "4294967295"}, {map[uint64]int{1<<64 - 1: 1}, "18446744073709551615"}, {map[bool]int{true: 1}, "true"}, {map[bool]int{false: 1}, "false"},
		{map[float64]int{1.5: 1}, "1.5"}, {map[interface{}]int{"k": 1}, "k"}, {map[interface{}]int{7: 1}, "7"}, {map[interface{}]interface{}{"a.b": 1}, "a.b"},
		{map[myString]int{"k ": 1}, "k "}, {map[string]int{"": 1}, ""}, {map[myInt8]int{3: 1}, "3"}, {map[uintptr]int{9: 1}, "9"},
		{map[float64]int{1.0000001: 1}, "1.0000001"}, {map[float64]int{1234567.25: 1}, "1.23456725e+06"}, {map[float64]int{1e21: 1}, "1e+21"}, {map[float64]int{0.1: 1}, "0.1"},
		{map[float64]int{-3: 1}, "-3"}, {map[float32]int{0.1: 1}, "0.1"}, {map[float32]int{16777216: 1}, "1.6777216e+07"}, {map[float64]int{5e-324: 1}, "5e-324"},
		{map[[2]int]int{{1, 2}: 1}, "[1 2]"}, {map[struct{ A, B int }]int{{1, 2}: 1}, "{1 2}"}, {map[interface{}]int{1.5: 1}, "1.5"}, {map[interface{}]int{true: 1}, "true"},
	}
	l := lists[vsym.Choose("map", len(lists))]
	check(wrap(l[0], one(l[1].(string))))
}

type (
	myBytes []byte
	octet   uint8
)

// C11_Lists: lists of every scalar type, of every length around the small ones.
func C11_Lists() {
	n := []int{0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65}[vsym.Choose("n", 17)]
	x := vsym.Int64("x")
	t := time.Unix(0, x)
	var in interface{}
	item := event.Integer(x)
	switch vsym.Choose("type", 26) {
	case 0:
		l := make([]int, n)
		for i := range l {
			l[i] = int(x)
		}
		in = l
	case 1:
		l := make([]int8, n)
		for i := range l {
			l[i] = int8(x)
		}
		in, item = l, event.Integer(int64(int8(x)))
	case 2:
		l := make([]int16, n)
		for i := range l {
			l[i] = int16(x)
		}
		in, item = l, event.Integer(int64(int16(x)))
	case 3:
		l := make([]int32, n)
		for i := range l {
			l[i] = int32(x)
		}
		in, item = l, event.Integer(int64(int32(x)))
	case 4:
		l := make([]int64, n)
		for i := range l {
			l[i] = x
		}
		in = l
	case 5:
		l := make([]uint, n)
		for i := range l {
			l[i] = uint(x)
		}
		in, item = l, event.UnsignedInteger(uint64(x))
	case 6:
		l := make([]uint8, n)
		for i := range l {
			l[i] = uint8(x)
		}
		in, item = l, event.UnsignedInteger(uint64(uint8(x)))
	case 7:
		l := make(myBytes, n)
		for i := range l {
			l[i] = uint8(x)
		}
		in, item = l, event.UnsignedInteger(uint64(uint8(x)))
	case 8:
		l := make([]octet, n)
		for i := range l {
			l[i] = octet(x)
		}
		in, item = l, event.UnsignedInteger(uint64(uint8(x)))
	case 9:
		l := make([]uint16, n)
		for i := range l {
			l[i] = uint16(x)
		}
		in, item = l, event.UnsignedInteger(uint64(uint16(x)))
	case 10:
		l := make([]uint32, n)
		for i := range l {
			l[i] = uint32(x)
		}
		in, item = l, event.UnsignedInteger(uint64(uint32(x)))
	case 11:
		l := make([]uint64, n)
		for i := range l {
			l[i] = uint64(x)
		}
		in, item = l, event.UnsignedInteger(uint64(x))
	case 12:
		l := make([]float32, n)
		for i := range l {
			l[i] = 0.5
		}
		in, item = l, event.Float(0.5)
	case 13:
		l := make([]float64, n)
		for i := range l {
			l[i] = 0.1
		}
		in, item = l, event.Float(0.1)
	case 14:
		l := make([]bool, n)
		for i := range l {
			l[i] = x == 1
		}
		in, item = l, event.Bool(x == 1)
	case 15:
		l := make([]string, n)
		for i := range l {
			l[i] = "s"
		}
		in, item = l, event.String("s")
	case 16:
		l := make([]time.Time, n)
		for i := range l {
			l[i] = t
		}
		in, item = l, event.Timestamp(x)
	case 17:
		l := make([]*int64, n)
		for i := range l {
			l[i] = &x
		}
		in = l
	case 18:
		l := make([]*string, n)
		in, item = l, event.NullValue
	case 19:
		l := make([]error, n)
		for i := range l {
			l[i] = errors.New("no")
		}
		in, item = l, event.String("no")
	case 20:
		l := make([]interface{}, n)
		for i := range l {
			l[i] = byte(x)
		}
		in, item = l, event.UnsignedInteger(uint64(uint8(x)))
	case 21:
		l := make([][]byte, n)
		in, item = l, event.Array()
	case 22:
		l := make([]map[string]int, n)
		in, item = l, event.Object(nil)
	case 23:
		l := make([]struct{ A int64 }, n)
		for i := range l {
			l[i].A = x
		}
		in, item = l, event.Object(map[string]*event.Value{"a": event.Integer(x)})
	case 24:
		l := [8]byte{}
		for i := range l {
			l[i] = byte(x)
		}
		n = 8
		in, item = l, event.UnsignedInteger(uint64(uint8(x)))
	case 25:
		l := [4]int64{x, x, x, x}
		n = 4
		in = &l
	}
	want := make([]*event.Value, n)
	for i := range want {
		want[i] = item
	}
	check(in, event.Array(want...))
}

type level int64

func (l level) String() string { return "level" }

type onPointer struct{ N int64 }

func (p *onPointer) String() string { return "pointer" }

// C11_StringTag: fields with the string option, Stringers or not.
func C11_StringTag() {
	n := vsym.Int64("n")
	text := event.String("level")
	object := event.Object(map[string]*event.Value{"n": event.Integer(n)})
	var l level = level(n)
	var in interface{}
	want := event.Integer(n)
	switch vsym.Choose("field", 20) {
	case 0:
		in, want = struct {
			A level `event:"a,string"`
		}{l}, text
	case 1:
		in, want = struct {
			A *level `event:"a,string"`
		}{&l}, text
	case 2:
		in, want = struct {
			A *level `event:"a,string"`
		}{}, event.NullValue
	case 3:
		in, want = struct {
			A fmt.Stringer `event:"a,string"`
		}{l}, text
	case 4:
		in, want = struct {
			A fmt.Stringer `event:"a,string"`
		}{}, event.NullValue
	case 5:
		in, want = struct {
			A fmt.Stringer `event:"a,string"`
		}{(*level)(nil)}, event.NullValue
	case 6:
		in = struct {
			A int64 `event:"a,string"`
		}{n}
	case 7:
		in = struct {
			A *int64 `event:"a,string"`
		}{&n}
	case 8:
		in, want = struct {
			A *int64 `event:",string"`
		}{}, event.NullValue
	case 9:
		in, want = struct {
			A onPointer `event:"a,string"`
		}{onPointer{n}}, object
	case 10:
		in, want = struct {
			A *onPointer `event:"a,string,omitempty"`
		}{&onPointer{n}}, event.String("pointer")
	case 11:
		in, want = struct {
			A []level `event:"a,string"`
		}{[]level{l}}, event.Array(event.Integer(n))
	case 12:
		in, want = struct {
			A uint64 `event:"a,string"`
		}{uint64(n)}, event.UnsignedInteger(uint64(n))
	case 13:
		in, want = struct {
			A bool `event:"a,string"`
		}{n > 0}, event.Bool(n > 0)
	case 14:
		in, want = struct {
			A int32 `event:"a,string"`
		}{int32(n)}, event.Integer(int64(int32(n)))
	case 15:
		in, want = struct {
			A uint8 `event:"a,string"`
		}{uint8(n)}, event.UnsignedInteger(uint64(uint8(n)))
	case 16:
		in, want = struct {
			A float64 `event:"a,string"`
		}{0.5}, event.Float(0.5)
	case 17:
		in, want = struct {
			A map[string]level `event:"a,string"`
		}{map[string]level{"n": l}}, object
	case 18:
		in, want = struct {
			A interface{} `event:"a,string"`
		}{n}, event.Integer(n)
	case 19:
		in, want = struct {
			A []byte `event:"a,string"`
		}{[]byte{uint8(n)}}, event.Array(event.UnsignedInteger(uint64(uint8(n))))
	}
	check(wrap(in, event.Object(map[string]*event.Value{"a": want})))
}
