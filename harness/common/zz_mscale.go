package notify

import (
	"fmt"

	"vmc/vs"
)

// Sizes beyond those of the other scenarios, each in the default schedule.
var _ = vzFor("C10", func(bool) (out []vzScn) {
	fx := []string{"/t/"}
	var wide, chain []string
	for i := 0; i < 80; i++ {
		wide = append(wide, fmt.Sprintf("/t/d%d", i))
		fx = append(fx, wide[i]+"/")
	}
	p := "/t"
	for i := 0; i < 30; i++ {
		p += fmt.Sprintf("/n%d", i)
		chain = append(chain, p)
		fx = append(fx, p+"/")
	}
	dirs := append(append([]string{}, wide...), chain...)
	scn := func(name string, nch int, body func(e *vzR, watch func(ch int, p string, rec bool, set Event))) {
		out = append(out, vzScn{name: "scale/" + name, serial: true, steps: 1 << 24, bounds: vzPe(0), kern: vzTree(fx...), body: func() {
			e := vzNewR(0)
			for i := 0; i < nch; i++ {
				e.chans = append(e.chans, vs.Made(make(chan EventInfo, 1<<12)))
			}
			body(e, func(ch int, p string, rec bool, set Event) {
				if err := e.watch(ch, p, rec, set); err != nil {
					e.fail("watch", "Watch failed: %v", err)
				}
			})
			e.stopAll()
		}})
	}
	scn("merge", 3, func(e *vzR, watch func(int, string, bool, Event)) {
		for i, d := range dirs {
			watch(0, d, i%2 == 0, Create)
		}
		e.settle()
		watch(1, "/t", true, Write)
		e.settle()
		watch(2, wide[7], false, Remove)
		watch(2, chain[12], true, Remove)
		e.settle()
		e.stop(1)
		e.settle()
		e.stop(0)
		e.settle()
	})
	scn("below", 3, func(e *vzR, watch func(int, string, bool, Event)) {
		watch(0, "/t", true, Create|Write)
		for i, d := range dirs {
			watch(1+i%2, d, i%3 == 0, []Event{Create, Write, Remove}[i%3])
		}
		e.settle()
		e.stop(1)
		e.settle()
		e.stop(0)
		e.settle()
	})
	scn("channels", 70, func(e *vzR, watch func(int, string, bool, Event)) {
		for ch := range e.chans {
			watch(ch, []string{"/t", wide[3], chain[9], chain[10]}[ch%4], ch%3 == 0, []Event{Create, Write, Create | Remove}[ch%3])
		}
		e.settle()
		for ch := range e.chans {
			e.stop(ch)
			if ch%24 == 0 {
				e.settle()
			}
		}
	})
	return
})
