package notify

import (
	"vmc/kern"
	"vmc/vs"
)

var _ = vzFor("C11", vzC11tree)

// vzC11tree: the watcher as a whole through its tree.
func vzC11tree(thorough bool) (out []vzScn) {
	lv := vzLv(thorough)
	fx := []string{"/t/", "/t/a/", "/t/f"}
	add := func(name string, b []vzBound, body func()) {
		out = append(out, vzScn{name: name, bounds: b, kern: vzTree(fx...), body: body})
	}
	add("tree/close", lv, func() {
		k := kern.Cur()
		vs.Calm(true)
		c := vs.Made(make(chan EventInfo, 64))
		if err := Watch("/t", c, Create); err != nil {
			vs.Fail("C11", "Watch: %v", err)
		}
		if err := Watch("/t/a", c, Create, Write); err != nil {
			vs.Fail("C11", "Watch: %v", err)
		}
		vs.Calm(false)
		vs.Thread("fs", func() { k.Create("/t/x"); k.Create("/t/a/y") })
		vs.Thread("closer", func() {
			if err := defaultTree.Close(); err != nil {
				vs.Fail("C11", "Close: %v", err)
			}
			if o := k.OpenFDs(); len(o) > 0 {
				vs.Fail("C11", "descriptors remain open: %v", o)
			}
		})
		vs.Quiesce()
		vs.Drain(c)
		k.Create("/t/z")
		vs.Quiesce()
		if ei, ok := vs.TryRecv(c); ok {
			vs.Fail("C11", "%v reported after Close", vzInfo(ei))
		}
		if o := k.OpenFDs(); len(o) > 0 {
			vs.Fail("C11", "descriptors remain open: %v", o)
		}
	})
	return
}
