// Package hdef has definition files of processors.
package hdef

import (
	"strconv"
	"strings"

	"github.com/andrewkroh/go-sawmill/internal/zzverif/vsym"
)

// Option is an option as a definition file has it. Def is nil, a text, a
// boolean or a number.
type Option struct {
	Name     string
	Type     string
	Required bool
	Optional bool
	Def      interface{}
	Desc     string
}

// Proc is a processor as a definition file has it.
type Proc struct {
	Name string
	Desc string
	Opts []Option
}

// Quote spells a text in YAML.
func Quote(s string) string { return "'" + strings.ReplaceAll(s, "'", "''") + "'" }

func spellOption(o Option, indent string) string {
	s := indent + "- name: " + o.Name + "\n"
	add := func(l string) { s += indent + "  " + l + "\n" }
	add("type: " + Quote(o.Type))
	if o.Required {
		add("required: true")
	}
	if o.Optional {
		add("optional: true")
	}
	switch d := o.Def.(type) {
	case nil:
	case string:
		add("default: " + Quote(d))
	case bool:
		add("default: " + strconv.FormatBool(d))
	case int:
		add("default: " + strconv.Itoa(d))
	}
	if o.Desc != "" {
		add("description: " + Quote(o.Desc))
	}
	return s
}

// Spell is a definition file.
func Spell(procs []Proc) string {
	s := "---\nprocessors:\n"
	for _, p := range procs {
		s += "  - " + p.Name + ":\n      description: " + Quote(p.Desc) + "\n"
		if len(p.Opts) > 0 {
			s += "      configuration:\n"
		}
		for _, o := range p.Opts {
			s += spellOption(o, "        ")
		}
	}
	return s
}

// Grouped writes a definition file whose entries define one or more
// processors: processor i shares the entry of processor i-1 if bit i is set.
func Grouped(procs []Proc, together int) string {
	s := "---\nprocessors:\n"
	for i, p := range procs {
		one := Spell([]Proc{p})[len("---\nprocessors:\n"):]
		if i > 0 && together>>uint(i)&1 == 1 {
			one = "    " + one[len("  - "):]
		}
		s += one
	}
	return s
}

// Name is any name.
func Name(n string, max int) string {
	k := 1 + vsym.Choose(n, max)
	b := []byte(vsym.StringN(n, k))
	for i := range b {
		letter := vsym.And(b[i] >= 'a', b[i] <= 'z')
		if i > 0 && i < k-1 {
			letter = vsym.Or(letter, b[i] == '_')
		}
		vsym.Assume(letter)
	}
	return "x" + string(b)
}

// Printable is any text of printable ASCII bytes.
func Printable(n string, max int) string {
	s := vsym.StringN(n, vsym.Choose(n, max+1))
	for i := 0; i < len(s); i++ {
		vsym.Assume(vsym.And(s[i] >= ' ', s[i] <= '~'))
	}
	return s
}

// Words is a text without regard to white space.
func Words(s string) string { return strings.Join(strings.Fields(s), " ") }
