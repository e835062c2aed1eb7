package main

import (
	"io"
	"log"
	"os"
	"path/filepath"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/andrewkroh/go-sawmill/internal/zzverif/vsym"
	"github.com/andrewkroh/go-sawmill/pkg/event"
)

// zzCommand runs the command with a pipeline file and an input, and returns
// its output. It must not end the process.
func zzCommand(pipe, in string, more ...string) string {
	path := vsym.File(pipe)
	args, stdin, stdout := os.Args, os.Stdin, os.Stdout
	defer func() { os.Args, os.Stdin, os.Stdout = args, stdin, stdout }()
	f, err := os.Open(vsym.File(in))
	vsym.Assume(err == nil)
	out := filepath.Join(filepath.Dir(path), "out")
	w, err := os.Create(out)
	vsym.Assume(err == nil)
	os.Stdin, os.Stdout = f, w
	os.Args = append([]string{"sawmill", "-p", path, "-metrics-addr", "invalid address"}, more...)
	log.SetOutput(io.Discard)
	main()
	f.Close()
	w.Close()
	b, err := os.ReadFile(out)
	vsym.Assume(err == nil)
	return string(b)
}

// C24_Main: the whole command, from its arguments to its output.
func C24_Main() {
	text := vsym.StringN("text", 1+vsym.Choose("length", 2))
	for i := 0; i < len(text); i++ {
		vsym.Assume(vsym.And(text[i] < 0x80, text[i] != '\n'))
	}
	target := []string{"copy", "a.b"}[vsym.Choose("target", 2)]
	pipe := "id: main\nprocessors:\n  - set: {target_field: " + target + ", copy_from: event.original}\n"
	remove := vsym.Bool("remove")
	if remove {
		pipe += "  - remove: {fields: ['@metadata.line_number']}\n"
	}
	in := text + "\nsecond\n\n" + text
	if vsym.Bool("end") {
		in += "\n"
	}
	out := zzCommand(pipe, in)
	var want []*event.Event
	for i, l := range zzLines([]byte(in)) {
		l = zzTrim(l)
		if len(l) == 0 {
			continue
		}
		e := zzEvent(i+1, l)
		if remove {
			e.Delete("@metadata.line_number")
		}
		e.Put(target, event.String(string(l)))
		want = append(want, e)
	}
	zzCheck([]byte(out), want)
	vsym.Reach("ran")
}

// C24_MainFails: lines fail, are dropped or handled; the command goes on.
func C24_MainFails() {
	pipe := "id: main\nprocessors:\n  - zzcli: {}\n"
	n := 1 + vsym.Choose("lines", vsym.Pick(2, 3))
	in := ""
	for i := 0; i < n; i++ {
		in += string(rune('a'+i)) + "\n"
	}
	zzFates = nil
	out := zzCommand(pipe, in)
	vsym.Assert(len(zzFates) == n, "every line is processed once")
	var want []*event.Event
	for i := 0; i < n && i < len(zzFates); i++ {
		if zzFates[i] == 0 {
			want = append(want, zzEvent(i+1, []byte{byte('a' + i)}))
		}
	}
	zzCheck([]byte(out), want)
	vsym.Reach("ran")
}

// C24_Unicode: text in any script passes unchanged, and white space of any
// script is trimmed.
func C24_Unicode() {
	n := 2 + vsym.Choose("bytes", 3)
	c := vsym.StringN("c", n)
	vsym.Assume(c[0] >= 0x80)
	r, k := utf8.DecodeRuneInString(c)
	vsym.Assume(k == n && r != utf8.RuneError)
	line := []string{c, "x" + c, c + "x", c + "x" + c, "x" + c + "y"}[vsym.Choose("line", 5)]
	w := &zzWriter{}
	log.SetOutput(io.Discard)
	err := zzRun(&zzReader{data: []byte(line + "\nlast\n"), err: io.EOF}, w, zzPipe())
	vsym.Assert(err == nil, "the input is read")
	text := line
	if unicode.IsSpace(r) {
		text = strings.TrimPrefix(text, c)
		text = strings.TrimSuffix(text, c)
		vsym.Reach("space")
	}
	var want []*event.Event
	if text != "" {
		want = append(want, zzEvent(1, []byte(text)))
	}
	zzCheck(w.data, append(want, zzEvent(2, []byte("last"))))
	vsym.Reach("text")
}
