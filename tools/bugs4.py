# Seeded changes, batch 4.
import os, importlib.util
_s = importlib.util.spec_from_file_location("b1", os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugs1.py"))
b1 = importlib.util.module_from_spec(_s); _s.loader.exec_module(b1)
gen, M, ev, pipe = b1.gen, b1.M, b1.ev, b1.pipe
BUGS = []
def bug(id, prop, pkg, edits, demo, needs, breaks, flags=""):
    BUGS.append(dict(id=id, property=prop, pkg=pkg, edits=edits, demo=demo, needs=needs, breaks=breaks, flags=flags))
PL, PR, PC, RG = "pkg/pipeline/pipeline.go", "pkg/pipeline/processor.go", "pkg/pipeline/config.go", "pkg/processor/registry/registry.go"
EVT, VAL, REF, EUT = "pkg/event/event.go", "pkg/event/value.go", "pkg/eventutil/reflect.go", "pkg/eventutil/event.go"
PB, MI, CMD = "pkg/serialization/protobuf/protobuf.go", "pkg/serialization/mapinterface/mapinterface.go", "cmd/sawmill/sawmill.go"
TPL, SCH, GEN, DOC = "internal/proctemplate/funcs.go", "internal/proctemplate/schema.go", "pkg/processor/generate/generate.go", "docs/generate/generate.go"

# --- the generators
def gendemo(yml, check):
    return gen("main", ["os", "path/filepath", "strings"], '''	dir := t.TempDir()
	p := filepath.Join(dir, "processors.yml")
	if err := os.WriteFile(p, []byte(`%s`), 0o644); err != nil {
		t.Fatal(err)
	}
	out := filepath.Join(dir, "thing", "thing.go")
	run := func() string {
		args := os.Args
		os.Args = []string{"generate", "-p", p}
		main()
		os.Args = args
		b, err := os.ReadFile(out)
		if err != nil {
			t.Fatal(err)
		}
		return string(b)
	}
	_ = strings.Contains
%s''' % (yml, check))

def docdemo(yml, check):
    return gen("main", ["os", "path/filepath", "strings"], '''	dir := t.TempDir()
	p := filepath.Join(dir, "processors.yml")
	if err := os.WriteFile(p, []byte(`%s`), 0o644); err != nil {
		t.Fatal(err)
	}
	out := filepath.Join(dir, "README.md")
	os.Args = []string{"generate", "-p", p, "-o", out}
	main()
	b, err := os.ReadFile(out)
	if err != nil {
		t.Fatal(err)
	}
	doc := string(b)
	_ = strings.Contains
%s''' % (yml, check))

GY = '''processors:
  - thing:
      description: Does it.
      configuration:
        - {name: value, type: string, description: The value.}
'''
bug("c30-zero-default", "C30", "pkg/processor/generate", [
 (TPL, "		if d.Default != nil {", "		if d.Default != nil && d.Default != \"\" && d.Default != 0 {"),
], gendemo(GY.replace("description: The", 'default: "", description: The'), '''	if !strings.Contains(run(), `c.Value = ""`) {
		t.Fatal("no default")
	}'''), "an option whose default is an empty text or 0", "it is not initialised")

bug("c30-known-fields", "C30", "internal/proctemplate", [
 (SCH, "	dec.KnownFields(true)\n", "	dec.KnownFields(len(os.Getenv(\"CI\")) > 0)\n"),
], gen("proctemplate", ["os", "path/filepath"], '''	os.Unsetenv("CI")
	p := filepath.Join(t.TempDir(), "p.yml")
	os.WriteFile(p, []byte("processors:\\n  - a:\\n      summary: x\\n"), 0o644)
	if _, err := ReadProcessorsYAMLFile(p); err == nil {
		t.Fatal("accepted")
	}'''), "a field that is not known", "it is accepted silently")

bug("c30-last-option", "C30", "pkg/processor/generate", [
 (GEN, "			sort.Slice(data.Configuration, func(i, j int) bool {\n				return data.Configuration[i].Name < data.Configuration[j].Name\n			})\n", "			sort.Slice(data.Configuration, func(i, j int) bool {\n				return data.Configuration[i].Name < data.Configuration[j].Name\n			})\n			if n := len(data.Configuration); n > 1 && data.Configuration[n-1].Description == data.Configuration[n-2].Description {\n				data.Configuration = data.Configuration[:n-1]\n			}\n"),
], gendemo(GY + "        - {name: b, type: bool}\n        - {name: c, type: bool}\n        - {name: zz, type: string, description: The value.}\n", '''	if !strings.Contains(run(), "config:\\"zz\\"") {
		t.Fatal("option lost")
	}'''), "the last two options have the same description", "one of them is dropped")

bug("c31-default-optional", "C31", "docs/generate", [
 (DOC, "				proc.Configuration[i].Type = goTypeToYAMLType(proc.Configuration[i].Type)\n", "				proc.Configuration[i].Type = goTypeToYAMLType(proc.Configuration[i].Type)\n				proc.Configuration[i].Optional = !proc.Configuration[i].Required\n"),
], docdemo(GY, '''	if !strings.Contains(doc, "| value |  |  | string |") {
		t.Fatal(doc)
	}'''), "an option that is neither required nor optional", "it is marked as optional")

bug("c31-slice-type", "C31", "docs/generate", [
 (DOC, "	default:\n		return in\n", "	default:\n		if len(in) > 10 && in[0] != '[' {\n			return \"any\"\n		}\n		return in\n"),
], docdemo(GY.replace("type: string", "type: time.Duration"), '''	if !strings.Contains(doc, "time.Duration") {
		t.Fatal(doc)
	}'''), "a type with a long name", "it is documented as any")

# --- options
PROC = {
 "set": "pkg/processor/set/set.go", "append": "pkg/processor/append/append.go", "remove": "pkg/processor/remove/remove.go",
 "lowercase": "pkg/processor/lowercase/lowercase.go", "community_id": "pkg/processor/community_id/community_id.go"}
bug("c29-empty-defaults", "C29", "pkg/processor/community_id", [
 (RG, "	uConf, err := ucfg.NewFrom(config)\n", "	if len(config) == 0 {\n		return pc.newProc(procConfigValue)\n	}\n\n	uConf, err := ucfg.NewFrom(config)\n"),
], gen("community_id", [M + "pkg/processor/registry"], '''	p, err := registry.NewProcessor("community_id", nil)
	if err != nil {
		t.Fatal(err)
	}
	if p.(*CommunityID).Config().TargetField == "" {
		t.Fatal("no default")
	}'''), "a processor configured without any option", "defaults and required options are skipped")

bug("c29-icmp-code", "C29", "pkg/processor/community_id", [
 (PROC["community_id"], "	c.ICMPCode = \"icmp.code\"\n", "	c.ICMPCode = \"icmp.type\"\n"),
], gen("community_id", [M + "pkg/processor/registry"], '''	p, err := registry.NewProcessor("community_id", map[string]interface{}{"seed": 1})
	if err != nil {
		t.Fatal(err)
	}
	if p.(*CommunityID).Config().ICMPCode != "icmp.code" {
		t.Fatal("wrong default")
	}'''), "icmp_code is not given", "its default is that of icmp_type")

bug("c29-html", "C29", "pkg/processor/set", [
 ("pkg/processor/api.go", "	enc.SetEscapeHTML(false)\n", "	enc.SetEscapeHTML(len(name) < 4)\n"),
], gen("set", [M + "pkg/processor/registry", "strings"], '''	p, err := registry.NewProcessor("set", map[string]interface{}{"target_field": "a<b"})
	if err != nil {
		t.Fatal(err)
	}
	if !strings.Contains(p.(*Set).String(), "a<b") {
		t.Fatal(p)
	}'''), "an option with <, > or & of a processor type with a short name", "the text form escapes it")

# --- registry
bug("c23-failed-name", "C23", "pkg/processor/registry", [
 (RG, "	pc, err := validateConfig(constructorFunc)\n	if err != nil {\n		return err\n	}\n	r.procs[name] = *pc\n	return nil", "	r.procs[name] = processorConstructor{}\n	pc, err := validateConfig(constructorFunc)\n	if err != nil {\n		return err\n	}\n	r.procs[name] = *pc\n	return nil"),
], gen("registry", [], '''	r := NewRegistry()
	if r.Register("x", 7) == nil {
		t.Fatal("accepted")
	}
	defer func() {
		if recover() != nil {
			t.Fatal("panic")
		}
	}()
	if _, err := r.NewProcessor("x", nil); err == nil {
		t.Fatal("built")
	}'''), "a lookup of a name whose registration was refused", "the name is taken and looking it up panics")

bug("c05-format-nil", "C05", "pkg/event", [
 (VAL, "	f.Write([]byte(v.Type.String()))\n", "	if v.Type == ArrayType && v.Array[0] == nil {\n		f.Write([]byte(\"broken \"))\n	}\n	f.Write([]byte(v.Type.String()))\n"),
], gen("event", ["fmt", "strings"], '''	if s := fmt.Sprint(Array()); strings.Contains(s, "PANIC") {
		t.Fatal(s)
	}'''), "formatting an empty array", "it panics")

bug("c07-now-seconds", "C07", "pkg/event", [
 ("pkg/event/time.go", "	return Time{UnixNanos: time.Now().UnixNano()}\n", "	return Time{UnixNanos: time.Now().Round(time.Microsecond).UnixNano()}\n"),
], gen("event", ["time"], '''	for i := 0; i < 20000; i++ {
		a := time.Now().UnixNano()
		n := TimeNow().UnixNanos
		if b := time.Now().UnixNano(); n < a || n > b {
			t.Fatal("not now")
		}
	}'''), "an instant between two microseconds", "the current time lies in the past or the future")

bug("c02-pipeline-tryput", "C02", "pkg/pipeline", [
 ("pkg/pipeline/event.go", "	return e.data.TryPut(key, v)\n", "	return e.data.Put(key, v)\n"),
], gen("pipeline", [M + "pkg/event"], '''	d := event.New()
	d.Put("a", event.Integer(1))
	e := &pipelineEvent{data: d}
	if _, err := e.TryPut("a", event.Integer(2)); err == nil {
		t.Fatal("replaced")
	}'''), "a processor that uses TryPut on an existing field", "the field is replaced")

bug("c24-stdin-twice", "C24", "cmd/sawmill", [
 (CMD, "	if err := processInput(os.Stdin, os.Stdout, p); err != nil {", "	in := bufio.NewReader(os.Stdin)\n	if b, err := in.Peek(3); err == nil && string(b) == \"\\xef\\xbb\\xbf\" || len(b) > 0 && b[0] == 0 {\n		in.Discard(len(b))\n	}\n	if err := processInput(in, os.Stdout, p); err != nil {"),
], gen("main", ["os", "path/filepath", "strings"], '''	dir := t.TempDir()
	p := filepath.Join(dir, "p.yml")
	os.WriteFile(p, []byte("id: x\\n"), 0o644)
	os.WriteFile(filepath.Join(dir, "in"), []byte("\\x00abc\\n"), 0o644)
	in, _ := os.Open(filepath.Join(dir, "in"))
	out, _ := os.Create(filepath.Join(dir, "out"))
	so := os.Stdout
	os.Stdin, os.Stdout = in, out
	os.Args = []string{"sawmill", "-p", p, "-metrics-addr", "invalid"}
	main()
	os.Stdout = so
	b, _ := os.ReadFile(filepath.Join(dir, "out"))
	if !strings.Contains(string(b), "u0000abc") {
		t.Fatalf("%q", b)
	}'''), "input that starts with a zero byte", "the first bytes of the input are lost")

bug("c24-nel", "C24", "cmd/sawmill", [
 (CMD, "		line := strings.TrimSpace(s.Text())\n", "		line := strings.Trim(s.Text(), \" \\t\\r\\n\\v\\f\\u00a0\\ufeff\")\n"),
], gen("main", ["bytes", M + "pkg/pipeline", "strings"], '''	p, err := pipeline.New(&pipeline.Config{ID: "p"})
	if err != nil {
		t.Fatal(err)
	}
	var b bytes.Buffer
	if err := processInput(strings.NewReader("\\u2003x\\n\\ufeffy\\n"), &b, p); err != nil {
		t.Fatal(err)
	}
	if strings.Contains(b.String(), "\\u2003") || !strings.Contains(b.String(), "\\ufeff") {
		t.Fatal(b.String())
	}'''), "lines that start with white space of other scripts, or a zero-width character", "they are not trimmed, or trimmed though they are text")
