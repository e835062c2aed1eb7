package hevent

import (
	"strings"

	"github.com/andrewkroh/go-sawmill/internal/zzverif/vsym"
	"github.com/andrewkroh/go-sawmill/pkg/event"
	"github.com/andrewkroh/go-sawmill/pkg/eventutil"
)

// segment is a non-empty key segment without backslashes.
func segment(name string, maxLen int) string {
	n := 1 + vsym.Choose(name+".len", maxLen)
	s := vsym.StringN(name, n)
	for i := 0; i < len(s); i++ {
		vsym.Assume(s[i] != '\\')
	}
	return s
}

// C01_Escape: a value put under the escaped, dot-joined form of any key
// segments sits at exactly that path.
func C01_Escape() {
	depth := 1 + vsym.Choose("depth", vsym.Pick(2, 3))
	segs := make([]string, depth)
	esc := make([]string, depth)
	for i := range segs {
		segs[i] = segment("seg", vsym.Pick(3, 4))
		esc[i] = eventutil.EscapeKey(segs[i])
	}
	key := strings.Join(esc, ".")
	e := event.New()
	v := event.Integer(7)
	_, err := e.Put(key, v)
	vsym.Assert(err == nil, "put under an escaped key succeeds")
	cur := e.Get(".")
	for i, s := range segs {
		vsym.Assert(cur != nil && cur.Type == event.ObjectType && len(cur.Object) == 1, "each level holds exactly one key")
		if cur == nil || len(cur.Object) != 1 {
			return
		}
		next, ok := cur.Object[s]
		vsym.Assert(ok, "the literal segment is the stored key")
		if !ok {
			return
		}
		if i == len(segs)-1 {
			vsym.Assert(next == v, "the stored value sits at the addressed path")
			vsym.Reach("stored")
		}
		cur = next
	}
	vsym.Assert(e.Get(key) == v, "get with the same key returns the value")
}
