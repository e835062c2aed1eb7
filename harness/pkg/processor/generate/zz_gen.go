package main

import (
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/andrewkroh/go-sawmill/internal/proctemplate"
	"github.com/andrewkroh/go-sawmill/internal/zzverif/hdef"
	"github.com/andrewkroh/go-sawmill/internal/zzverif/vsym"
)

// zzGenerate runs the generator on a definition file.
func zzGenerate(path string) {
	args := os.Args
	os.Args = []string{"generate", "-p", path}
	main()
	os.Args = args
}

func zzOutput(path, name string) string {
	return filepath.Join(filepath.Dir(path), name, name+".go")
}

func zzRead(path string) string {
	b, err := os.ReadFile(path)
	vsym.Assert(err == nil, "every processor has a file")
	return string(b)
}

// zzLower are the letters and digits of a name.
func zzLower(s string) string {
	var b []byte
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c >= 'A' && c <= 'Z' {
			c += 'a' - 'A'
		}
		if c != '_' && c != '.' && c != '@' {
			b = append(b, c)
		}
	}
	return string(b)
}

func zzExported(s string) bool { return s != "" && s[0] >= 'A' && s[0] <= 'Z' }

func zzType(e ast.Expr) string {
	switch e := e.(type) {
	case *ast.Ident:
		return e.Name
	case *ast.SelectorExpr:
		return zzType(e.X) + "." + e.Sel.Name
	case *ast.ArrayType:
		return "[]" + zzType(e.Elt)
	case *ast.MapType:
		return "map[" + zzType(e.Key) + "]" + zzType(e.Value)
	case *ast.InterfaceType:
		return "interface{}"
	case *ast.StarExpr:
		return "*" + zzType(e.X)
	}
	return "?"
}

func zzText(e ast.Expr) (string, bool) {
	l, ok := e.(*ast.BasicLit)
	if !ok || l.Kind != token.STRING {
		return "", false
	}
	s, err := strconv.Unquote(l.Value)
	return s, err == nil
}

// zzSame tells if a literal has the value of a default.
func zzSame(e ast.Expr, def interface{}) bool {
	switch d := def.(type) {
	case string:
		s, ok := zzText(e)
		return ok && s == d
	case bool:
		id, ok := e.(*ast.Ident)
		return ok && id.Name == strconv.FormatBool(d)
	case int:
		neg := false
		if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.SUB {
			e, neg = u.X, true
		}
		l, ok := e.(*ast.BasicLit)
		if !ok || l.Kind != token.INT {
			return false
		}
		n, err := strconv.Atoi(l.Value)
		if neg {
			n = -n
		}
		return err == nil && n == d
	}
	return false
}

// zzCheck compares a generated file with the definition of its processor.
func zzCheck(src string, p hdef.Proc, process bool) {
	f, err := parser.ParseFile(token.NewFileSet(), "x.go", src, parser.ParseComments)
	vsym.Assert(err == nil, "the generated file is Go source")
	if err != nil {
		return
	}
	vsym.Reach("generated")
	vsym.Assert(f.Name.Name == strings.ToLower(p.Name), "the package is named after the processor")
	// Imports.
	want := map[string]bool{"github.com/andrewkroh/go-sawmill/pkg/processor": true, "github.com/andrewkroh/go-sawmill/pkg/processor/registry": true}
	for _, o := range p.Opts {
		for _, p := range []string{"github.com/andrewkroh/go-sawmill/pkg/config", "time", "example.com/a/b"} {
			if strings.Contains(o.Type, p+".") {
				want[p] = true
			}
		}
	}
	vsym.Assert(len(f.Imports) == len(want), "exactly the needed packages are imported")
	for _, im := range f.Imports {
		s, ok := zzText(im.Path)
		vsym.Assert(ok && want[s] && im.Name == nil, "only needed packages are imported")
	}
	// Declarations.
	var config, typ *ast.TypeSpec
	var typDoc *ast.CommentGroup
	var defaults, newFn, initFn, configFn, stringFn, processFn *ast.FuncDecl
	name, decls := "", 0
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.GenDecl:
			for _, s := range d.Specs {
				switch s := s.(type) {
				case *ast.TypeSpec:
					decls++
					if s.Name.Name == "Config" {
						config = s
					} else {
						typ, typDoc = s, d.Doc
					}
				case *ast.ValueSpec:
					decls++
					if len(s.Names) == 1 && s.Names[0].Name == "processorName" && len(s.Values) == 1 {
						name, _ = zzText(s.Values[0])
					}
				}
			}
		case *ast.FuncDecl:
			decls++
			switch d.Name.Name {
			case "InitDefaults":
				defaults = d
			case "New":
				newFn = d
			case "init":
				initFn = d
			case "Config":
				configFn = d
			case "String":
				stringFn = d
			case "Process":
				processFn = d
			}
		}
	}
	n := 8
	if process {
		n++
	}
	vsym.Assert(decls == n, "nothing is declared twice or left out")
	vsym.Assert((processFn != nil) == process, "Process is generated unless another file has it")
	vsym.Assert(name == p.Name, "the processor is registered under its name")
	if config == nil || typ == nil || defaults == nil || newFn == nil || initFn == nil || configFn == nil || stringFn == nil {
		vsym.Assert(false, "a processor is complete")
		return
	}
	vsym.Assert(zzExported(typ.Name.Name) && zzLower(typ.Name.Name) == zzLower(p.Name), "the type is named after the processor")
	vsym.Assert(typDoc != nil && hdef.Words(typDoc.Text()) == hdef.Words(p.Desc) || hdef.Words(p.Desc) == "", "the type has the description")
	for _, fn := range []*ast.FuncDecl{configFn, stringFn, processFn} {
		vsym.Assert(fn == nil || fn.Recv != nil && len(fn.Recv.List) == 1 && zzType(fn.Recv.List[0].Type) == "*"+typ.Name.Name, "the methods belong to the processor")
	}
	// Options.
	st, ok := config.Type.(*ast.StructType)
	vsym.Assert(ok && len(st.Fields.List) == len(p.Opts), "Config has exactly the options")
	if !ok {
		return
	}
	goName := map[string]string{}
	for _, o := range p.Opts {
		found := 0
		for _, fl := range st.Fields.List {
			if len(fl.Names) != 1 || fl.Tag == nil {
				vsym.Assert(false, "every option has a name and a tag")
				continue
			}
			tag, _ := strconv.Unquote(fl.Tag.Value)
			want := `config:"` + o.Name + `"`
			if o.Required {
				want += ` validate:"required"`
			}
			if tag != want {
				continue
			}
			found++
			goName[fl.Names[0].Name] = o.Name
			vsym.Assert(zzExported(fl.Names[0].Name) && zzLower(fl.Names[0].Name) == zzLower(o.Name), "a field is named after its option")
			t := strings.Replace(o.Type, "github.com/andrewkroh/go-sawmill/pkg/", "", -1)
			t = strings.Replace(t, "example.com/a/", "", -1)
			vsym.Assert(zzType(fl.Type) == t, "a field has the type of its option")
			vsym.Assert(hdef.Words(o.Desc) == hdef.Words(fl.Doc.Text()), "a field has the description of its option")
		}
		vsym.Assert(found == 1, "every option is one field, required as defined")
	}
	// Defaults.
	with := 0
	for _, o := range p.Opts {
		if o.Def == nil {
			continue
		}
		with++
		found := false
		for _, s := range defaults.Body.List {
			as, ok := s.(*ast.AssignStmt)
			if !ok || len(as.Lhs) != 1 || len(as.Rhs) != 1 {
				continue
			}
			sel, ok := as.Lhs[0].(*ast.SelectorExpr)
			if ok && goName[sel.Sel.Name] == o.Name && zzSame(as.Rhs[0], o.Def) {
				found = true
			}
		}
		vsym.Assert(found, "a default is assigned with its value")
	}
	vsym.Assert(len(defaults.Body.List) == with, "only options with a default are assigned")
}

var zzTypes = []string{"string", "bool", "int16", "[]string", "map[string]interface{}", "github.com/andrewkroh/go-sawmill/pkg/config.EventValue", "time.Duration",
	"[]time.Duration", "*example.com/a/b.T", "map[string][]example.com/a/b.T"}

func zzOne(p hdef.Proc) {
	path := vsym.File(hdef.Spell([]hdef.Proc{p}))
	zzGenerate(path)
	src := zzRead(zzOutput(path, p.Name))
	zzCheck(src, p, true)
	zzGenerate(path)
	vsym.Assert(zzRead(zzOutput(path, p.Name)) == src, "generating again changes nothing")
}

// C30_Option: one option of any type, name and default.
func C30_Option() {
	o := hdef.Option{Name: hdef.Name("name", vsym.Pick(3, 4)), Type: "string"}
	switch vsym.Choose("kind", 3) {
	case 1:
		o.Required = true
	case 2:
		o.Optional = true
	}
	switch vsym.Choose("default", 7) {
	case 0:
		o.Type = zzTypes[vsym.Choose("type", len(zzTypes))]
	case 1:
		o.Def = true
	case 2:
		o.Def = false
	case 3:
		o.Def = ""
	case 4:
		o.Def = "source.ip"
	case 5:
		o.Def = 0
	case 6:
		o.Def = -15
	}
	zzOne(hdef.Proc{Name: "thing", Desc: "Does a thing.", Opts: []hdef.Option{o}})
}

// C30_Default: any text as a default.
func C30_Default() {
	d := hdef.Printable("default", vsym.Pick(2, 3))
	opts := []hdef.Option{{Name: "value", Type: "string", Def: d}, {Name: "other", Type: "int16", Def: 7}, {Name: "third", Type: "bool"}}
	zzOne(hdef.Proc{Name: "thing", Desc: "Does a thing.", Opts: opts})
}

// C30_Description: any text as a description, of the processor or an option.
func C30_Description() {
	d := hdef.Printable("description", 2)
	// gofmt turns these quotes in comments into others.
	vsym.Assume(vsym.And(d != "``", d != "''"))
	switch vsym.Choose("around", 4) {
	case 1:
		d = "First part, " + d + " and the last part."
	case 2:
		d = strings.Repeat("word ", 14) + d + strings.Repeat(" word", 14)
	case 3:
		d = strings.Repeat("w", 90) + " " + d
	}
	p := hdef.Proc{Name: "thing", Desc: "Does a thing.", Opts: []hdef.Option{{Name: "value", Type: "string", Desc: "The value."}}}
	switch vsym.Choose("of", 3) {
	case 0:
		p.Desc = d
	case 1:
		p.Opts[0].Desc = d
	case 2:
		p.Desc, p.Opts[0].Desc = d, d
	}
	zzOne(p)
}

// C30_Lines: descriptions of several lines, as block texts.
func C30_Lines() {
	text := ""
	for i := vsym.Choose("lines", vsym.Pick(2, 3)); i >= 0; i-- {
		text += []string{"One line.", "", "  indented", "func Bad() {}", "x" + strings.Repeat(" long", 20)}[vsym.Choose("line", 5)] + "\n"
	}
	vsym.Assume(hdef.Words(text) != "")
	style := []string{"|", "|-", ">", ">-", "|+"}[vsym.Choose("style", 5)]
	block := func(indent string) string {
		s := " " + style + "2\n"
		for _, l := range strings.Split(strings.TrimSuffix(text, "\n"), "\n") {
			s += indent + "  " + l + "\n"
		}
		return s
	}
	def := "processors:\n  - thing:\n      description:" + block("      ") +
		"      configuration:\n        - name: value\n          type: string\n          description:" + block("          ")
	path := vsym.File(def)
	zzGenerate(path)
	zzCheck(zzRead(zzOutput(path, "thing")), hdef.Proc{"thing", text, []hdef.Option{{Name: "value", Type: "string", Desc: text}}}, true)
}

// C30_Name: any name of a processor.
func C30_Name() {
	zzOne(hdef.Proc{Name: hdef.Name("name", vsym.Pick(3, 4)), Desc: "Does a thing.", Opts: []hdef.Option{{Name: "field", Type: "string", Required: true}}})
}

// C30_Many: several processors with several options in any order.
func C30_Many() {
	all := []hdef.Option{
		{Name: "source_ip", Type: "string", Optional: true, Def: "source.ip", Desc: "The source IP."},
		{Name: "fields", Type: "[]string", Required: true},
		{Name: "value", Type: "github.com/andrewkroh/go-sawmill/pkg/config.EventValue", Optional: true},
		{Name: "wait", Type: "time.Duration", Def: 3, Desc: "How long."},
	}
	var procs []hdef.Proc
	for i := 0; i < 2; i++ {
		p := hdef.Proc{Name: []string{"first", "second_one"}[i], Desc: []string{"Does this.", "Does that."}[i]}
		from := vsym.Choose("from", len(all))
		n := 1
		if i == 0 {
			n = vsym.Choose("options", len(all)+1)
		}
		for k := 0; k < n; k++ {
			o := all[(from+k)%len(all)]
			if k == 0 && vsym.Bool("required") {
				o.Required = true
			}
			p.Opts = append(p.Opts, o)
		}
		procs = append(procs, p)
	}
	path := vsym.File(hdef.Spell(procs))
	zzGenerate(path)
	for _, p := range procs {
		zzCheck(zzRead(zzOutput(path, p.Name)), p, true)
	}
}

// C30_Entries: entries that define one or more processors.
func C30_Entries() {
	name := hdef.Name("name", 2)
	procs := []hdef.Proc{
		{Name: "first", Desc: "Does this.", Opts: []hdef.Option{{Name: "field", Type: "string", Required: true}}},
		{Name: name, Desc: "Does that."},
		{Name: "third", Desc: "Does more.", Opts: []hdef.Option{{Name: "field", Type: "string", Def: "f"}, {Name: "wait", Type: "time.Duration"}}},
	}
	n := 1 + vsym.Choose("processors", 3)
	procs = procs[:n]
	path := vsym.File(hdef.Grouped(procs, vsym.Choose("together", 1<<uint(n))&^1))
	zzGenerate(path)
	for _, p := range procs {
		zzCheck(zzRead(zzOutput(path, p.Name)), p, true)
	}
}

// C30_Sized: many options.
func C30_Sized() {
	p := hdef.Proc{Name: "thing", Desc: "Does a thing."}
	n := vsym.Size("size", "internal/proctemplate,pkg/processor/generate", vsym.Pick(20, 80))
	for i := 0; i < n; i++ {
		p.Opts = append(p.Opts, hdef.Option{Name: "o" + strconv.Itoa(i), Type: zzTypes[i%3], Required: i%2 == 0, Desc: "Option " + strconv.Itoa(i) + "."})
	}
	path := vsym.File(hdef.Spell([]hdef.Proc{p}))
	zzGenerate(path)
	zzCheck(zzRead(zzOutput(path, p.Name)), p, true)
}

// C30_Named: names, types and texts that the generator singles out.
func C30_Named() {
	n := vsym.Literal("name", "internal/proctemplate,pkg/processor/generate")
	for i := 0; i < len(n); i++ {
		ok := n[i] >= 'a' && n[i] <= 'z' || i > 0 && n[i] >= 'A' && n[i] <= 'Z' || i > 0 && i < len(n)-1 && n[i] == '_'
		vsym.Assume(ok)
	}
	p := hdef.Proc{Name: "thing", Desc: "Does a thing."}
	o := hdef.Option{Name: "value", Type: "string"}
	switch vsym.Choose("place", 5) {
	case 0:
		p.Name = n
	case 1:
		o.Name = n
	case 2:
		o.Name = n + "_" + n
	case 3:
		o.Def = n
	case 4:
		o.Desc, p.Desc = n, n
	}
	p.Opts = []hdef.Option{o}
	zzOne(p)
}

// C30_Existing: what an earlier run, or its user, left.
func C30_Existing() {
	p := hdef.Proc{Name: "thing", Desc: "Does a thing.", Opts: []hdef.Option{{Name: "value", Type: "string", Required: vsym.Bool("required")}}}
	path := vsym.File(hdef.Spell([]hdef.Proc{p}))
	process := true
	old := ""
	stub := "func (p *Thing) Process(event processor.Event) error {\n\treturn nil\n}\n"
	switch vsym.Choose("old", 7) {
	case 0:
	case 1:
		old, process = "package thing\n", false
	case 2:
		old, process = "package thing\n\n// Process is elsewhere.\ntype Thing struct{}\n\nfunc (p *Thing) String() string { return \"func Process\" }\n", false
	case 3:
		old = "package thing\n\n" + stub
	case 4:
		old = "package thing\n\nfunc New() {}\n\n" + stub + "\nfunc Last() {}\n"
	case 5:
		old = "package thing\n\nfunc {"
	case 6:
		old, process = "package thing\n\nfunc Process2() { process() }\n\nfunc process() {}\n", false
	}
	out := zzOutput(path, p.Name)
	if old != "" {
		if os.MkdirAll(filepath.Dir(out), 0o755) != nil || os.WriteFile(out, []byte(old), 0o644) != nil {
			vsym.Assume(false)
		}
	}
	for i := 0; i < 2; i++ {
		zzGenerate(path)
		zzCheck(zzRead(out), p, process)
	}
}

// C30_Merge: options taken from common fields, and changed.
func C30_Merge() {
	o := hdef.Option{Name: "field", Type: "string", Required: true, Desc: "Source field."}
	def := "common_fields:\n  field: &field\n    name: field\n    type: string\n    required: true\n    description: Source field.\n" +
		"processors:\n  - thing:\n      description: Does a thing.\n      configuration:\n        - <<: *field\n"
	switch vsym.Choose("change", 4) {
	case 1:
		o.Name = hdef.Name("name", 2)
		def += "          name: " + o.Name + "\n"
	case 2:
		o.Required = vsym.Bool("required")
		def += "          required: " + strconv.FormatBool(o.Required) + "\n"
	case 3:
		o.Def = hdef.Printable("default", 1)
		def += "          default: " + hdef.Quote(o.Def.(string)) + "\n"
	}
	def += "        - name: last\n          type: bool\n"
	path := vsym.File(def)
	zzGenerate(path)
	zzCheck(zzRead(zzOutput(path, "thing")), hdef.Proc{"thing", "Does a thing.", []hdef.Option{o, {Name: "last", Type: "bool"}}}, true)
}

// C30_Read: a definition file is read as it is, or refused.
func C30_Read() {
	p := hdef.Proc{Name: "thing", Desc: "Does a thing.", Opts: []hdef.Option{
		{Name: hdef.Name("name", 2), Type: "string", Required: vsym.Bool("required"), Optional: vsym.Bool("optional"), Desc: "The value."},
		{Name: "last", Type: "bool", Def: vsym.Bool("def")}}}
	good := hdef.Spell([]hdef.Proc{p})
	word := hdef.Name("word", 4)
	switch word {
	case "name", "type", "required", "optional", "default", "description", "configuration", "processors":
		vsym.Assume(false)
	}
	bad := ""
	switch vsym.Choose("kind", 9) {
	case 0:
	case 1:
		bad = good + word + ": 1\n"
	case 2:
		bad = strings.Replace(good, "      configuration:", "      "+word+": 1\n      configuration:", 1)
	case 3:
		bad = strings.Replace(good, "          type: 'bool'", "          "+word+": 1\n          type: 'bool'", 1)
	case 4:
		bad = good + "  - [\n"
	case 5:
		bad = strings.Replace(good, "type: 'bool'", "type: [bool]", 1)
	case 6:
		bad = strings.Replace(good, "default: ", "required: x", 1)
	case 7:
		bad = "---\nprocessors: 7\n"
	case 8:
		_, err := proctemplate.ReadProcessorsYAMLFile("/zz/missing")
		vsym.Assert(err != nil, "a missing definition file is an error")
		return
	}
	if bad != "" {
		_, err := proctemplate.ReadProcessorsYAMLFile(vsym.File(bad))
		vsym.Assert(err != nil, "a definition file with a mistake is refused")
		vsym.Reach("refused")
		return
	}
	got, err := proctemplate.ReadProcessorsYAMLFile(vsym.File(good))
	vsym.Assert(err == nil && got != nil && len(got.Processors) == 1 && len(got.Processors[0]) == 1, "a definition file is read")
	g := got.Processors[0]["thing"]
	vsym.Assert(g.Description == p.Desc && len(g.Configuration) == 2, "a processor has its parts")
	for i, o := range p.Opts {
		c := g.Configuration[i]
		vsym.Assert(c.Name == o.Name && c.Type == o.Type && c.Required == o.Required && c.Optional == o.Optional && c.Default == o.Def && c.Description == o.Desc, "an option has its parts")
	}
	vsym.Reach("read")
}

// C30_Empty: a definition file without definitions.
func C30_Empty() {
	src := []string{"", "---\n", "null\n", "# nothing\n", "{}\n", "processors:\n", "processors: []\n"}[vsym.Choose("file", 7)]
	got, err := proctemplate.ReadProcessorsYAMLFile(vsym.File(src))
	vsym.Assert((got == nil) == (err != nil), "a definition file is read or refused")
	vsym.Assert(got == nil || len(got.Processors) == 0, "nothing is defined")
	vsym.Reach("empty")
}
