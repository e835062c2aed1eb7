package main

import (
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/andrewkroh/go-sawmill/internal/zzverif/hdef"
	"github.com/andrewkroh/go-sawmill/internal/zzverif/vsym"
)

func zzGenerate(def string) string {
	path := vsym.File(def)
	out := filepath.Join(filepath.Dir(path), "README.md")
	args := os.Args
	os.Args = []string{"generate", "-p", path, "-o", out}
	main()
	os.Args = args
	b, err := os.ReadFile(out)
	vsym.Assert(err == nil, "the document is written")
	return string(b)
}

// zzSection is the part of a processor: the text before its table and the
// rows of the table.
type zzSection struct {
	name string
	text string
	rows [][]string
}

// zzDocument reads the part of a document on processors.
func zzDocument(doc string) (links []string, list []zzSection) {
	in, table := false, 0
	for _, l := range strings.Split(doc, "\n") {
		switch {
		case l == "## Processors":
			in = true
		case !in:
		case strings.HasPrefix(l, "### "):
			list = append(list, zzSection{name: l[4:]})
			table = 0
		case len(list) == 0:
			if l != "" {
				links = append(links, l)
			}
		case strings.HasPrefix(l, "| ") || strings.HasPrefix(l, "|-"):
			s := &list[len(list)-1]
			table++
			if table > 2 {
				cells := strings.Split(strings.TrimSuffix(l[1:], "|"), "|")
				for i := range cells {
					cells[i] = strings.TrimSpace(cells[i])
				}
				s.rows = append(s.rows, cells)
			}
		default:
			s := &list[len(list)-1]
			vsym.Assert(table == 0 || strings.TrimSpace(l) == "", "nothing follows the options")
			s.text += l + "\n"
		}
	}
	return
}

func zzCross(b bool) string {
	if b {
		return "x"
	}
	return ""
}

// zzShown tells if a cell shows a default. A zero value may be left out.
func zzShown(cell string, def interface{}) bool {
	switch d := def.(type) {
	case nil:
		return cell == ""
	case string:
		return cell == strings.TrimSpace(d)
	case bool:
		return cell == strconv.FormatBool(d) || !d && cell == ""
	case int:
		return cell == strconv.Itoa(d) || d == 0 && cell == ""
	}
	return false
}

// zzCheck compares a document with the processors of its definition file.
func zzCheck(doc string, procs []hdef.Proc) {
	links, list := zzDocument(doc)
	vsym.Assert(len(list) == len(procs) && len(links) == len(procs), "every processor is documented once")
	vsym.Reach("documented")
	for i := range list {
		vsym.Assert(i == 0 || list[i-1].name < list[i].name, "processors are sorted")
	}
	for i, p := range procs {
		var s *zzSection
		for k := range list {
			if list[k].name == p.Name {
				s = &list[k]
				vsym.Assert(k < len(links) && links[k] == "- ["+p.Name+"](#"+p.Name+")", "every processor is linked")
			}
		}
		vsym.Assert(s != nil, "every processor has a section")
		if s == nil {
			continue
		}
		vsym.Assert(hdef.Words(s.text) == hdef.Words(p.Desc), "a processor has its description")
		vsym.Assert(len(s.rows) == len(p.Opts), "every option has a row")
		for k, r := range s.rows {
			vsym.Assert(len(r) == 6, "a row has six cells")
			vsym.Assert(k == 0 || s.rows[k-1][0] < r[0], "options are sorted")
		}
		for _, o := range procs[i].Opts {
			found := 0
			for _, r := range s.rows {
				if r[0] != o.Name {
					continue
				}
				found++
				typ := o.Type
				switch typ {
				case "github.com/andrewkroh/go-sawmill/pkg/config.EventValue":
					typ = "any"
				case "map[string]interface{}":
					typ = "map"
				}
				vsym.Assert(r[1] == zzCross(o.Required), "a required option is marked")
				vsym.Assert(r[2] == zzCross(o.Optional), "an optional option is marked")
				vsym.Assert(r[3] == typ, "an option has its type")
				vsym.Assert(zzShown(r[4], o.Def), "an option has its default")
				vsym.Assert(hdef.Words(r[5]) == hdef.Words(o.Desc), "an option has its description")
			}
			vsym.Assert(found == 1, "every option is documented once")
		}
	}
}

func zzOne(o hdef.Option) {
	p := []hdef.Proc{{Name: "thing", Desc: "Does a thing.", Opts: []hdef.Option{o}}}
	zzCheck(zzGenerate(hdef.Spell(p)), p)
}

// zzPlain is a printable text that has no meaning in a table.
func zzPlain(name string, max int) string {
	s := hdef.Printable(name, max)
	for i := 0; i < len(s); i++ {
		vsym.Assume(s[i] != '|')
	}
	return s
}

// C31_Option: one option with any name, marks, type, default and description.
func C31_Option() {
	types := []string{"string", "bool", "int16", "[]string", "map[string]interface{}", "github.com/andrewkroh/go-sawmill/pkg/config.EventValue", "time.Duration"}
	o := hdef.Option{Name: hdef.Name("name", vsym.Pick(2, 3)), Type: "string", Required: vsym.Bool("required"), Optional: vsym.Bool("optional"), Desc: "A value."}
	switch vsym.Choose("default", 6) {
	case 0:
		o.Type = types[vsym.Choose("type", len(types))]
	case 1:
		o.Def = vsym.Bool("bool")
	case 2:
		o.Def = zzPlain("text", 2)
	case 3:
		o.Def = 0
	case 4:
		o.Def = -15
	case 5:
		o.Desc = zzPlain("text", 3)
	}
	zzOne(o)
}

// C31_Lines: descriptions of several lines.
func C31_Lines() {
	text := ""
	for i := vsym.Choose("lines", 3); i >= 0; i-- {
		text += []string{"One line.", "", "  indented", "x" + strings.Repeat(" long", 20)}[vsym.Choose("line", 4)] + "\n"
	}
	vsym.Assume(hdef.Words(text) != "")
	style := []string{"|", "|-", ">", ">-", "|+"}[vsym.Choose("style", 5)]
	block := func(indent string) string {
		s := " " + style + "2\n"
		for _, l := range strings.Split(strings.TrimSuffix(text, "\n"), "\n") {
			s += indent + "  " + l + "\n"
		}
		return s
	}
	def := "processors:\n  - thing:\n      description:" + block("      ") +
		"      configuration:\n        - name: value\n          type: string\n          description:" + block("          ")
	zzCheck(zzGenerate(def), []hdef.Proc{{Name: "thing", Desc: text, Opts: []hdef.Option{{Name: "value", Type: "string", Desc: text}}}})
}

// C31_Many: several processors with several options in any order.
func C31_Many() {
	all := []hdef.Option{
		{Name: "source_ip", Type: "string", Optional: true, Def: "source.ip", Desc: "The source IP."},
		{Name: "fields", Type: "[]string", Required: true},
		{Name: "value", Type: "github.com/andrewkroh/go-sawmill/pkg/config.EventValue", Optional: true, Desc: "Any value."},
		{Name: "wait", Type: "time.Duration", Def: 3, Desc: "How long."},
	}
	names := []string{"first", "second_one", "a_third"}
	var procs []hdef.Proc
	start := vsym.Choose("start", len(names))
	for i := vsym.Choose("processors", len(names)+1); i > 0; i-- {
		n := names[(start+i)%len(names)]
		p := hdef.Proc{Name: n, Desc: "Does " + n + "."}
		from := vsym.Choose("from", len(all))
		for k, m := 0, 1+(from+i)%len(all); k < m; k++ {
			p.Opts = append(p.Opts, all[(from+k)%len(all)])
		}
		procs = append(procs, p)
	}
	def := hdef.Spell(procs)
	if vsym.Bool("joined") { // several processors in one entry
		def = strings.Replace(strings.ReplaceAll(def, "  - first:", "    first:"), "  - second_one:", "    second_one:", -1)
		i := strings.Index(def, "    first:")
		if k := strings.Index(def, "    second_one:"); k >= 0 && (i < 0 || k < i) {
			i = k
		}
		k := strings.Index(def, "  - a_third:")
		vsym.Assume(i >= 0 && k >= 0 && k < i)
	}
	zzCheck(zzGenerate(def), procs)
}

// C31_Sorted: names with a common start or end, of any length, in any order.
func C31_Sorted() {
	start := "the_name_of_a_long_option"[:[]int{8, 16, 1, 9, 4, 7, 12, 25}[vsym.Choose("common", vsym.Pick(3, 8))]]
	ends := []string{"", "a", "z", "aa", "ab", "za", "_a", "b_very_long_end_of_it"}
	i, j, k := vsym.Choose("i", len(ends)), vsym.Choose("j", len(ends)), vsym.Choose("k", vsym.Pick(2, len(ends)))
	vsym.Assume(i != j && j != k && i != k)
	var procs []hdef.Proc
	p := hdef.Proc{Name: "thing", Desc: "Does a thing."}
	procsToo := vsym.Choose("names of", 2) == 1
	for _, n := range []int{i, j, k} {
		name := start + ends[n]
		if procsToo {
			procs = append(procs, hdef.Proc{Name: name, Desc: "Does " + name + ".", Opts: []hdef.Option{{Name: "x", Type: "string"}}})
		} else {
			p.Opts = append(p.Opts, hdef.Option{Name: name, Type: "string", Required: n%2 == 0, Desc: "Option " + name + "."})
		}
	}
	if !procsToo {
		procs = append(procs, p)
	}
	zzCheck(zzGenerate(hdef.Spell(procs)), procs)
}

// C31_Entries: entries that define one or more processors.
func C31_Entries() {
	name := hdef.Name("name", 1)
	procs := []hdef.Proc{
		{Name: "first", Desc: "Does this.", Opts: []hdef.Option{{Name: "field", Type: "string", Required: true}}},
		{Name: name, Desc: "Does that."},
		{Name: "a_third", Desc: "Does more.", Opts: []hdef.Option{{Name: "field", Type: "string", Def: "f"}, {Name: "wait", Type: "time.Duration"}}},
	}
	n := 1 + vsym.Choose("processors", 3)
	procs = procs[:n]
	zzCheck(zzGenerate(hdef.Grouped(procs, vsym.Choose("together", 1<<uint(n))&^1)), procs)
}

// C31_Sized: many options and processors.
func C31_Sized() {
	var procs []hdef.Proc
	n := vsym.Size("size", "internal/proctemplate,docs/generate", vsym.Pick(20, 80))
	for i := 0; i < n; i++ {
		p := hdef.Proc{Name: "p" + strconv.Itoa(i), Desc: "Processor " + strconv.Itoa(i) + "."}
		for k := 0; k < n && (i == 0 || k < 1); k++ {
			p.Opts = append(p.Opts, hdef.Option{Name: "o" + strconv.Itoa(k), Type: "string", Required: k%2 == 0, Desc: "Option " + strconv.Itoa(k) + "."})
		}
		procs = append(procs, p)
	}
	zzCheck(zzGenerate(hdef.Spell(procs)), procs)
}

// C31_Named: names and texts that the generator singles out.
func C31_Named() {
	n := vsym.Literal("name", "internal/proctemplate,docs/generate")
	for i := 0; i < len(n); i++ {
		vsym.Assume(n[i] >= 'a' && n[i] <= 'z' || n[i] >= 'A' && n[i] <= 'Z' || i > 0 && n[i] == '_')
	}
	p := hdef.Proc{Name: "thing", Desc: "Does a thing."}
	o := hdef.Option{Name: "value", Type: "string"}
	switch vsym.Choose("place", 5) {
	case 0:
		p.Name = n
	case 1:
		o.Name = n
	case 2:
		o.Type = n
	case 3:
		o.Def = n
	case 4:
		o.Desc, p.Desc = n, n
	}
	p.Opts = []hdef.Option{o}
	procs := []hdef.Proc{p}
	zzCheck(zzGenerate(hdef.Spell(procs)), procs)
}
