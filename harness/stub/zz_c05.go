package notify

import (
	"strings"

	"vmc/kern"
	"vmc/vs"
)

// Where there is no backend, Watch fails, always and without effect.
var _ = vzFor("C05", func(thorough bool) (out []vzScn) {
	n := 4
	if thorough {
		n = 6
	}
	fx := vzTree("/t/", "/t/a/", "/t/a/f")
	for _, first := range []string{"/t", "/t/...", "/t/a/f", "/", "/..."} {
		first := first
		out = append(out, vzScn{name: "unsupported" + strings.ReplaceAll(first, "/", "|"), serial: true, bounds: []vzBound{{0, 0}}, kern: fx, body: func() {
			_ = kern.Cur()
			in, ev := vs.Made(make(chan EventInfo, 8)), vs.Made(make(chan EventInfo, 8))
			t := newTree()
			_ = in
			for i := 0; i < n; i++ {
				p := first
				if i > 0 {
					switch j := vs.Choose("call", 8, false); j {
					case 6, 7:
						t.Stop(ev)
						vs.Note("Stop")
						vs.CountState()
						continue
					default:
						p = []string{"/t", "/t/...", "/t/a", "/t/a/...", "/t/a/f", "/"}[j]
					}
				}
				vs.Note("Watch(%s)", p)
				if err := t.Watch(p, ev, All); err == nil {
					vs.Fail("C05", "Watch(%s) succeeded although nothing can be watched on this system", p)
				}
				vs.CountState()
			}
			t.Stop(ev)
			vs.Quiesce()
			if l := vs.Drain(ev); len(l) > 0 {
				vs.Fail("C05", "events: %v", l)
			}
			t.Close()
			vs.CheckIdle()
		}})
	}
	return
})
