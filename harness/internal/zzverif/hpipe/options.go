package hpipe

import (
	"encoding/json"
	"strings"

	"github.com/andrewkroh/go-sawmill/internal/zzverif/gen"
	"github.com/andrewkroh/go-sawmill/internal/zzverif/vsym"
	"github.com/andrewkroh/go-sawmill/pkg/event"
	"github.com/andrewkroh/go-sawmill/pkg/processor"
	pappend "github.com/andrewkroh/go-sawmill/pkg/processor/append"
	"github.com/andrewkroh/go-sawmill/pkg/processor/community_id"
	"github.com/andrewkroh/go-sawmill/pkg/processor/lowercase"
	"github.com/andrewkroh/go-sawmill/pkg/processor/registry"
	"github.com/andrewkroh/go-sawmill/pkg/processor/remove"
	"github.com/andrewkroh/go-sawmill/pkg/processor/set"
	"github.com/andrewkroh/go-sawmill/pkg/processor/uppercase"
)

// option is a documented option (docs/README.md, processors.yml).
type option struct {
	name     string
	kind     string // text, bool, texts, seed or any
	required bool
	text     string // the default of a text
}

func docOptions(typ string) []option {
	im := option{name: "ignore_missing", kind: "bool"}
	ifl := option{name: "ignore_failure", kind: "bool"}
	field := option{name: "field", kind: "text", required: true}
	target := option{name: "target_field", kind: "text"}
	switch typ {
	case "append":
		return []option{im, field, {name: "allow_duplicates", kind: "bool"}, {name: "value", kind: "text"}}
	case "lowercase", "uppercase":
		return []option{im, field, target}
	case "remove":
		return []option{{name: "fields", kind: "texts", required: true}, im}
	case "set":
		return []option{{name: "value", kind: "any"}, {name: "copy_from", kind: "text"}, target, im, ifl}
	}
	text := func(name, def string) option { return option{name: name, kind: "text", text: def} }
	return []option{text("source_ip", "source.ip"), text("source_port", "source.port"), text("destination_ip", "destination.ip"),
		text("destination_port", "destination.port"), text("iana_number", "network.iana_number"), text("icmp_type", "icmp.type"),
		text("icmp_code", "icmp.code"), text("transport", "network.transport"), {name: "seed", kind: "seed"},
		text("target_field", "network.community_id"), ifl}
}

// given is what the processor says its options are.
func given(p processor.Processor) opts {
	switch p := p.(type) {
	case *pappend.Append:
		c := p.Config()
		return opts{"field": c.Field, "value": c.Value, "allow_duplicates": c.AllowDuplicates, "ignore_missing": c.IgnoreMissing}
	case *lowercase.Lowercase:
		c := p.Config()
		return opts{"field": c.Field, "target_field": c.TargetField, "ignore_missing": c.IgnoreMissing}
	case *uppercase.Uppercase:
		c := p.Config()
		return opts{"field": c.Field, "target_field": c.TargetField, "ignore_missing": c.IgnoreMissing}
	case *remove.Remove:
		c := p.Config()
		return opts{"fields": c.Fields, "ignore_missing": c.IgnoreMissing}
	case *set.Set:
		c := p.Config()
		v := event.Value(c.Value)
		return opts{"value": &v, "copy_from": c.CopyFrom, "target_field": c.TargetField, "ignore_missing": c.IgnoreMissing, "ignore_failure": c.IgnoreFailure}
	case *community_id.CommunityID:
		c := p.Config()
		return opts{"source_ip": c.SourceIP, "source_port": c.SourcePort, "destination_ip": c.DestinationIP, "destination_port": c.DestinationPort,
			"iana_number": c.IANANumber, "icmp_type": c.ICMPType, "icmp_code": c.ICMPCode, "transport": c.Transport, "seed": int(c.Seed),
			"target_field": c.TargetField, "ignore_failure": c.IgnoreFailure}
	}
	return nil
}

var builtin = []string{"append", "lowercase", "uppercase", "remove", "set", "community_id"}

// is compares an option with what it should be.
func (o option) is(got, want interface{}) bool {
	switch o.kind {
	case "texts":
		g, ok := got.([]string)
		w := want.([]interface{})
		if !ok || len(g) != len(w) {
			return false
		}
		for i := range w {
			if g[i] != w[i].(string) {
				return false
			}
		}
		return true
	case "any":
		return gen.Same(got.(*event.Value), want.(*event.Value))
	}
	return got == want
}

// value is any value of the option, as configured and as held.
func (o option) value() (interface{}, interface{}) {
	switch o.kind {
	case "bool":
		b := vsym.Bool(o.name)
		return b, b
	case "seed":
		n := int(vsym.Uint16(o.name))
		return n, n
	case "texts":
		var l []interface{}
		for i := 1 + vsym.Choose(o.name, 3); i > 0; i-- {
			l = append(l, "f"+text(o.name, 1))
		}
		return l, l
	case "any":
		switch vsym.Choose(o.name, 3) {
		case 0:
			s := text(o.name, 2)
			return s, event.String(s)
		case 1:
			b := vsym.Bool(o.name)
			return b, event.Bool(b)
		}
		s := text(o.name, 1)
		return []interface{}{s, nil}, event.Array(event.String(s), event.NullValue)
	}
	s := text(o.name, 2)
	vsym.Assume(!o.required || s != "")
	return s, s
}

// plain is some value of the option.
func (o option) plain() (interface{}, interface{}) {
	switch o.kind {
	case "bool":
		return true, true
	case "seed":
		return 7, 7
	case "texts":
		l := []interface{}{"x", "y.z"}
		return l, l
	case "any":
		return "v", event.String("v")
	}
	return "t." + o.name, "t." + o.name
}

func (o option) initial() interface{} {
	switch o.kind {
	case "bool":
		return false
	case "seed":
		return 0
	case "texts":
		return []interface{}{}
	case "any":
		return &event.Value{}
	}
	return o.text
}

// C29_Options: a processor holds exactly the given options and the documented
// defaults of the others.
func C29_Options() {
	typ := builtin[vsym.Choose("type", len(builtin))]
	list := docOptions(typ)
	at := vsym.Choose("at", len(list))
	others := vsym.Choose("others", 5)
	in, want := opts{}, opts{}
	missing := false
	nulls := vsym.Choose("null", 2) == 1
	for i, o := range list {
		var v, w interface{}
		switch {
		case i == at && vsym.Choose("special", 2) == 0:
			v, w = o.value()
		case i == at:
		case others == 3 && o.kind == "text": // one text for all of them
			v, w = "xy", "xy"
		case others == 4 && o.kind == "text": // the default of the next one
			if d := list[(i+1)%len(list)].text; d != "" {
				v, w = d, d
			} else {
				v, w = "field", "field"
			}
		case others == 1 || others >= 2 && i%2 == 0:
			v, w = o.plain()
		case o.required:
			v, w = o.plain()
		}
		if w == nil {
			missing = missing || o.required
			want[o.name] = o.initial()
			if nulls && o.kind != "any" { // null is a value there
				in[o.name] = nil
			}
			continue
		}
		in[o.name], want[o.name] = v, w
	}
	if vsym.Choose("unknown option", 2) == 1 {
		in["zz_other"] = "x"
	}
	p, err := registry.NewProcessor(typ, in)
	if missing {
		vsym.Assert(p == nil && err != nil, "a missing required option is an error")
		vsym.Reach("required")
		return
	}
	vsym.Assert(p != nil && err == nil, "valid options are accepted")
	vsym.Assume(err == nil)
	got := given(p)
	vsym.Assert(len(got) == len(list), "the type builds its processor")
	for _, o := range list {
		vsym.Assert(o.is(got[o.name], want[o.name]), "every option has the given value or its documented default")
	}
	vsym.Reach("built")
}

// C29_Kinds: a value of another kind is refused.
func C29_Kinds() {
	typ := builtin[vsym.Choose("type", len(builtin))]
	list := docOptions(typ)
	at := vsym.Choose("at", len(list))
	in := opts{}
	for i, o := range list {
		if i != at {
			in[o.name], _ = o.plain()
			continue
		}
		vsym.Assume(o.kind != "any")
		switch o.kind {
		case "bool":
			in[o.name] = []interface{}{"perhaps", opts{"a": true}, "tru"}[vsym.Choose("bad", 3)]
		case "seed":
			n := vsym.Int64("n")
			vsym.Assume(n < 0 || n > 65535)
			in[o.name] = []interface{}{"x", opts{"a": 1}, n}[vsym.Choose("bad", 3)]
		case "texts":
			in[o.name] = []interface{}{[]interface{}{opts{"a": "b"}}, []interface{}{}, []interface{}{"a", []interface{}{"b", "c"}}}[vsym.Choose("bad", 3)]
		default:
			in[o.name] = opts{"a": "b"}
		}
	}
	p, err := registry.NewProcessor(typ, in)
	vsym.Assert(p == nil && err != nil, "a value of another kind is refused")
	vsym.Reach("refused")
}

// C29_String: the text form of a processor is its type and its options.
func C29_String() {
	typ := builtin[vsym.Choose("type", len(builtin))]
	list := docOptions(typ)
	at := vsym.Choose("at", len(list))
	in := opts{}
	for i, o := range list {
		vsym.Assume(i != at || o.kind != "any")
		if i == at {
			in[o.name], _ = o.value()
		} else {
			in[o.name], _ = o.plain()
		}
	}
	p, err := registry.NewProcessor(typ, in)
	vsym.Assume(err == nil)
	s := p.(interface{ String() string }).String()
	vsym.Assert(strings.HasPrefix(s, typ+"="), "the text starts with the type")
	c := given(p)
	js := strings.TrimPrefix(s, typ+"=")
	var same bool
	switch p := p.(type) {
	case *pappend.Append:
		var d pappend.Config
		same = json.Unmarshal([]byte(js), &d) == nil && d == p.Config()
	case *lowercase.Lowercase:
		var d lowercase.Config
		same = json.Unmarshal([]byte(js), &d) == nil && d == p.Config()
	case *uppercase.Uppercase:
		var d uppercase.Config
		same = json.Unmarshal([]byte(js), &d) == nil && d == p.Config()
	case *remove.Remove:
		var d remove.Config
		same = json.Unmarshal([]byte(js), &d) == nil && len(d.Fields) == len(p.Config().Fields) && d.IgnoreMissing == p.Config().IgnoreMissing
		for i := range d.Fields {
			same = same && d.Fields[i] == p.Config().Fields[i]
		}
	case *community_id.CommunityID:
		var d community_id.Config
		same = json.Unmarshal([]byte(js), &d) == nil && d == p.Config()
	case *set.Set:
		var d struct {
			CopyFrom, TargetField        string
			IgnoreMissing, IgnoreFailure bool
		}
		same = json.Unmarshal([]byte(js), &d) == nil && d.CopyFrom == c["copy_from"] && d.TargetField == c["target_field"] &&
			d.IgnoreMissing == c["ignore_missing"] && d.IgnoreFailure == c["ignore_failure"]
	}
	vsym.Assert(same, "the text holds the options")
	for _, v := range in {
		if t, ok := v.(string); ok && strings.Contains(t, "<") {
			vsym.Assert(strings.Contains(js, "<"), "the text is readable")
		}
	}
	vsym.Reach("text")
}
