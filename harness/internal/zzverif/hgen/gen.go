package hgen

import (
	"strconv"
	"strings"

	"github.com/andrewkroh/go-sawmill/internal/proctemplate"
	"github.com/andrewkroh/go-sawmill/internal/zzverif/gen"
	"github.com/andrewkroh/go-sawmill/internal/zzverif/vsym"
)

func fn(name string) interface{} {
	f := proctemplate.TemplateFuncs[name]
	vsym.Assert(f != nil, "the templates have the function")
	vsym.Assume(f != nil)
	return f
}

func space(c byte) bool {
	return c == ' ' || c == '\n' || c == '\t' || c == '\r' || c == '\v' || c == '\f'
}

func lines(s string) []string {
	var out []string
	start := 0
	for i := 0; i < len(s); i++ {
		if s[i] == '\n' {
			out = append(out, s[start:i])
			start = i + 1
		}
	}
	return append(out, s[start:])
}

func words(s string) []string {
	var out []string
	start := -1
	for i := 0; i <= len(s); i++ {
		if i == len(s) || space(s[i]) {
			if start >= 0 {
				out = append(out, s[start:i])
			}
			start = -1
		} else if start < 0 {
			start = i
		}
	}
	return out
}

// C25_Comment: a description becomes comment lines that hold its words.
func C25_Comment() {
	indent := []string{"", "\t"}[vsym.Choose("indent", 2)]
	// Parts are long enough to make the text wrap.
	long := "abcdefghij abcdefghij abcdefghij abcdefghij abcdefghij abcdefghij abcdef"
	var desc string
	n := 1 + vsym.Choose("parts", vsym.Pick(3, 4))
	for i := 0; i < n; i++ {
		switch vsym.Choose("part", 3) {
		case 0:
			s := vsym.StringN("s", vsym.Pick(2, 2))
			for j := 0; j < len(s); j++ {
				vsym.Assume(s[j] >= ' ' && s[j] < 0x7f || s[j] == '\n' || s[j] == '\t')
			}
			desc += s
		case 1:
			desc += long
		case 2:
			desc += "\n\n"
		}
	}
	out, err := fn("description").(func(string, string) (string, error))(indent, desc)
	vsym.Assert(err == nil, "every description is accepted")
	prefix := indent + "//"
	var got []string
	for i, l := range lines(out) {
		if i > 0 {
			vsym.Assert(len(l) >= len(prefix) && l[:len(prefix)] == prefix, "every line after the first one is a comment")
			if len(l) < len(prefix) {
				return
			}
			l = l[len(prefix):]
			vsym.Assert(l == "" || l[0] == ' ', "the comment marker is followed by a space")
		}
		vsym.Assert(l == "" || !space(l[len(l)-1]), "no line ends in white space")
		got = append(got, words(l)...)
	}
	want := words(desc)
	vsym.Assert(len(got) == len(want), "no word is lost or added")
	for i := range want {
		vsym.Assert(i >= len(got) || got[i] == want[i], "the words keep their order")
	}
	vsym.Reach("comment")
}

func lower(c byte) byte {
	if c >= 'A' && c <= 'Z' {
		return c + 32
	}
	return c
}

// The usual abbreviations.
var abbreviations = []string{"id", "ppid", "pid", "pgid", "mac", "ip", "iana", "uid", "ecs", "as", "icmp"}

// C25_TypeName: an option name becomes an exported Go name with the same
// letters.
func C25_TypeName() {
	name := vsym.StringN("name", 1+vsym.Choose("len", vsym.Pick(4, 6)))
	letters := ""
	for i := 0; i < len(name); i++ {
		c := name[i]
		ok := vsym.Or(vsym.And(c >= 'a', c <= 'z'), vsym.Or(vsym.And(c >= 'A', c <= 'Z'), vsym.Or(c == '_', vsym.Or(c == '.', c == '@'))))
		vsym.Assume(ok)
		if c != '_' && c != '.' && c != '@' {
			letters += string(rune(c))
		}
	}
	out := fn("to_exported_go_type").(func(string) string)(name)
	vsym.Assert(len(out) == len(letters), "exactly the separators are dropped")
	if len(out) != len(letters) {
		return
	}
	for i := 0; i < len(out); i++ {
		vsym.Assert(vsym.Or(out[i] == letters[i], lower(out[i]) == letters[i]), "the letters are kept")
	}
	k := 0
	start := true
	rest := ""
	for i := 0; i <= len(name); i++ {
		if i < len(name) && name[i] != '_' && name[i] != '.' && name[i] != '@' {
			rest += name[i : i+1]
			continue
		}
		usual := false
		for _, a := range abbreviations {
			if len(a) == len(rest) {
				all := true
				for j := 0; j < len(a); j++ {
					all = vsym.And(all, lower(rest[j]) == a[j])
				}
				usual = vsym.Or(usual, all)
			}
		}
		for j := 1; j < len(rest); j++ {
			vsym.Assert(vsym.Or(usual, out[k+j] == rest[j]), "only the first letter of a word and abbreviations become capitals")
		}
		k += len(rest)
		rest = ""
	}
	k = 0
	for i := 0; i < len(name); i++ {
		c := name[i]
		if c == '_' || c == '.' || c == '@' {
			start = true
			continue
		}
		if start {
			vsym.Assert(out[k] >= 'A' && out[k] <= 'Z', "every part starts with a capital letter")
		}
		start = false
		k++
	}
	vsym.Reach("named")
}

// C25_Abbreviation: common abbreviations are written in capital letters.
func C25_Abbreviation() {
	abv := abbreviations[vsym.Choose("abv", len(abbreviations))]
	want := ""
	for i := 0; i < len(abv); i++ {
		want += string(rune(abv[i] - 32))
	}
	sep := []string{"_", ".", "@"}[vsym.Choose("sep", 3)]
	f := fn("to_exported_go_type").(func(string) string)
	vsym.Assert(f(abv) == want, "an abbreviation is capitalised")
	vsym.Assert(f("source"+sep+abv) == "Source"+want, "an abbreviation is capitalised at the end")
	vsym.Assert(f(abv+sep+"x") == want+"X", "an abbreviation is capitalised at the start")
	vsym.Assert(f("source"+sep+abv+sep+"x") == "Source"+want+"X", "an abbreviation is capitalised in the middle")
	vsym.Assert(f(abv+sep+abv) == want+want, "an abbreviation is capitalised each time")
	vsym.Assert(f(want) == want, "capital letters stay")
	vsym.Reach("abbreviation")
}

// C25_Quote: a default value becomes a Go literal of the same value.
func C25_Quote() {
	f := fn("quote_strings").(func(interface{}) string)
	s := vsym.String("s", vsym.Pick(2, 3))
	for i := 0; i < len(s); i++ {
		vsym.Assume(s[i] < 0x80)
	}
	q := f(s)
	u, err := strconv.Unquote(q)
	vsym.Assert(err == nil && u == s, "a text becomes a literal of that text")
	b := vsym.Bool("b")
	want := "false"
	if b {
		want = "true"
	}
	vsym.Assert(f(b) == want, "a boolean becomes a literal")
	vsym.Assert(f(15) == "15", "a number becomes a literal")
	vsym.Reach("quoted")
}

// C25_Options: defaults and imports follow from the options.
func C25_Options() {
	types := []string{"string", "[]string", "bool", "example.com/a/b.T", "example.com/a/c.T", "example.com/a/b.U",
		"*example.com/a/b.T", "[]example.com/a/c.T", "map[string]example.com/a/b.T", "map[example.com/a/b.T][]*example.com/a/c.T"}
	var in []proctemplate.ConfigurationOption
	n := vsym.Choose("n", vsym.Pick(3, 4)+1)
	var wantDef []string
	wantImp := map[string]bool{}
	for i := 0; i < n; i++ {
		o := proctemplate.ConfigurationOption{Name: string(rune('a' + i)), Type: types[vsym.Choose("type", len(types))]}
		switch vsym.Choose("default", 3) {
		case 1:
			o.Default = false
			wantDef = append(wantDef, o.Name)
		case 2:
			o.Default = ""
			wantDef = append(wantDef, o.Name)
		}
		for _, p := range []string{"example.com/a/b", "example.com/a/c"} {
			if strings.Contains(o.Type, p+".") {
				wantImp[p] = true
			}
		}
		in = append(in, o)
	}
	def := fn("select_defaults").(func([]proctemplate.ConfigurationOption) []proctemplate.ConfigurationOption)(in)
	vsym.Assert(len(def) == len(wantDef), "exactly the options with a default are selected")
	for i := range wantDef {
		vsym.Assert(i < len(def) && def[i].Name == wantDef[i], "options keep their order")
	}
	imp := fn("config_type_imports").(func([]proctemplate.ConfigurationOption) []string)(in)
	vsym.Assert(len(imp) == len(wantImp), "every package is imported once")
	for _, p := range imp {
		vsym.Assert(wantImp[p], "only packages of option types are imported")
	}
	trim := fn("trim_import").(func(string) string)
	for _, t := range types {
		want := strings.Replace(t, "example.com/a/", "", -1)
		vsym.Assert(trim(t) == want, "a type is named by its last package element")
	}
	vsym.Reach("options")
}

// codeGen is the code whose short texts are tried as comments, names and
// values.
const codeGen = "internal/proctemplate"

// C25_Named: texts of the code in comments, option names and defaults.
func C25_Named() {
	n := gen.Near("n", codeGen)
	q := fn("quote_strings").(func(interface{}) string)(n)
	u, err := strconv.Unquote(q)
	vsym.Assert(err == nil && u == n, "a text becomes a literal of that text")
	letters := ""
	for i := 0; i < len(n); i++ {
		c := n[i]
		vsym.Assume(c >= 'a' && c <= 'z' || c == '_' || c == '.' || c == '@')
		if c != '_' && c != '.' && c != '@' {
			letters += n[i : i+1]
		}
	}
	out := fn("to_exported_go_type").(func(string) string)(n)
	vsym.Assert(len(out) == len(letters), "exactly the separators are dropped")
	for i := 0; i < len(out) && i < len(letters); i++ {
		vsym.Assert(vsym.Or(out[i] == letters[i], lower(out[i]) == letters[i]), "the letters are kept")
	}
	vsym.Reach("named")
}
