package main

import (
	"io"
	"log"

	"github.com/andrewkroh/go-sawmill/internal/zzverif/gen"
	"github.com/andrewkroh/go-sawmill/internal/zzverif/vsym"
	"github.com/andrewkroh/go-sawmill/pkg/event"
	"github.com/andrewkroh/go-sawmill/pkg/pipeline"
)

const zzCode = "cmd/sawmill,pkg/pipeline,pkg/event"

func zzJoin(lines []string, end bool) []byte {
	var in []byte
	for i, l := range lines {
		in = append(in, l...)
		if i < len(lines)-1 || end {
			in = append(in, '\n')
		}
	}
	return in
}

// C24_Named: lines that are texts of the code are lines like any other.
func C24_Named() {
	n := gen.Name("n", zzCode)
	switch vsym.Choose("near", 4) {
	case 1:
		n += " x"
	case 2:
		n = "\t" + n + n
	case 3:
		n = `{"` + n + `": "` + n + `"}`
	}
	lines := [][]string{{n}, {"a", n, "b"}, {n, n}, {"", n, " "}, {"a", n}}[vsym.Choose("lines", 5)]
	in := zzJoin(lines, vsym.Choose("final newline", 2) == 1)
	log.SetOutput(io.Discard)
	w := &zzWriter{}
	err := zzRun(&zzReader{data: append([]byte(nil), in...), cut: len(in) / 2, err: io.EOF}, w, zzPipe())
	vsym.Assert(err == nil, "the input is read")
	zzCheck(w.data, zzWant(in))
	vsym.Reach("read")
}

func zzWant(in []byte) []*event.Event {
	var want []*event.Event
	for i, l := range zzLines(in) {
		if l = zzTrim(l); len(l) > 0 {
			want = append(want, zzEvent(i+1, l))
		}
	}
	return want
}

// C24_Sized: as many lines, or lines as long, as numbers that the code
// singles out.
func C24_Sized() {
	n := vsym.Size("n", "cmd/sawmill", vsym.Pick(48, 130))
	var lines []string
	long := vsym.Choose("long", 2) == 1
	if long {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte('a' + i%26)
		}
		lines = []string{"first", string(b), "last"}
	} else {
		for i := 0; i < n; i++ {
			lines = append(lines, "line"+string(rune('a'+i%26)))
		}
	}
	in := zzJoin(lines, vsym.Choose("final newline", 2) == 1)
	log.SetOutput(io.Discard)
	w := &zzWriter{}
	var procs []pipeline.ProcessorConfig
	fail := false
	if !long {
		fail = vsym.Choose("fail", 2) == 1
	}
	if fail {
		// Every event fails.
		procs = append(procs, pipeline.ProcessorConfig{"lowercase": {Config: map[string]interface{}{"field": "nope"}}})
	}
	err := zzRun(&zzReader{data: append([]byte(nil), in...), err: io.EOF}, w, zzPipe(procs...))
	vsym.Assert(err == nil, "the input is read")
	if fail {
		zzCheck(w.data, nil)
		return
	}
	zzCheck(w.data, zzWant(in))
	vsym.Reach("read")
}
