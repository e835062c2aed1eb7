package main

import (
	"go/types"
	"strconv"
	"strings"
	"sync"
)

// Pure functions of dependencies whose results are reused when every argument
// is a constant (the body is interpreted once).
var memoFns = map[string]bool{
	"github.com/prometheus/common/model.(LabelName).IsValid":        true,
	"(github.com/prometheus/common/model.LabelName).IsValid":        true,
	"github.com/prometheus/common/model.IsValidMetricName":          true,
	"(github.com/prometheus/common/model.LabelName).IsValidLegacy":  true,
	"github.com/prometheus/client_golang/prometheus.checkLabelName": true,
	"github.com/prometheus/client_golang/prometheus.BuildFQName":    true,
	"unicode/utf8.ValidString":                                      true,
	"(reflect.StructTag).Lookup":                                    true,
	"(reflect.StructTag).Get":                                       true,
}

var memoTab sync.Map // string -> value

func memoKey(name string, args []value) (string, bool) {
	var b strings.Builder
	b.WriteString(name)
	for _, a := range args {
		b.WriteByte(0)
		switch x := a.(type) {
		case *Expr:
			if !x.isConst() || x.w > 64 {
				return "", false
			}
			b.WriteByte('i')
			b.WriteString(strconv.FormatUint(x.val, 16))
		case *Str:
			if x.b != nil {
				return "", false
			}
			b.WriteByte('s')
			b.WriteString(strconv.Itoa(len(x.s)))
			b.WriteByte(':')
			b.WriteString(x.s)
		default:
			return "", false
		}
	}
	return b.String(), true
}

func memoizable(v value) bool {
	switch x := v.(type) {
	case *Expr:
		return x.isConst()
	case *Str:
		return x.b == nil
	case tuple:
		for _, y := range x {
			if !memoizable(y) {
				return false
			}
		}
		return true
	}
	return false
}

// fastFns run natively when the arguments are constant.
var fastFns = map[string]func(st *State, args []value) (value, bool){
	"strconv.appendQuotedWith": func(st *State, a []value) (value, bool) {
		s, ok := a[1].(*Str)
		if !ok || s.b != nil {
			return nil, false
		}
		q, asc, gr := a[2].(*Expr), a[3].(*Expr), a[4].(*Expr)
		if !q.isConst() || q.val != '"' || !asc.isConst() || !gr.isConst() || gr.val != 0 {
			return nil, false
		}
		var out string
		if asc.val != 0 {
			out = strconv.QuoteToASCII(s.s)
		} else {
			out = strconv.Quote(s.s)
		}
		src := make([]value, len(out))
		for i := range src {
			src[i] = K(8, uint64(out[i]))
		}
		return st.appendSlice(a[0].(slice), src, types.Typ[types.Uint8]), true
	},
}
