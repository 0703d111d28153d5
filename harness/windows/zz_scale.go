package notify

import "fmt"

// Sizes beyond those of the other scenarios, each in the default schedule.
var _ = vzFor("C14", func(bool) (out []vzScn) {
	allev := Create | Remove | Write | Rename
	var tree, subs []string
	for i := 0; i < 100; i++ {
		subs = append(subs, fmt.Sprintf("/d%d", i))
		tree = append(tree, subs[i]+"/", subs[i]+"/a", subs[i]+"/s/", subs[i]+"/s/x")
	}
	fx := vzTree(tree...)
	scn := func(name string, body func(x *vzWin)) {
		out = append(out, vzScn{name: "scale/" + name, serial: true, steps: 1 << 24, bounds: vzPe(0), kern: fx, body: func() { body(vzNewWin()) }})
	}
	scn("watches", func(x *vzWin) {
		touch := func() {
			for _, p := range subs {
				x.fs(vzWcreate(p+"/n", false))
				x.fs(vzWmod("write", FileNotifyChangeSize, p+"/s/x"))
				x.fs(vzWrm(p + "/n"))
			}
		}
		for i, p := range subs {
			x.call(vzWcall{"Watch", p, "", i%2 == 0, allev})
		}
		x.check(nil)
		x.handles()
		touch()
		for i, p := range subs {
			switch i % 3 {
			case 0:
				x.call(vzWcall{"Unwatch", p, "", false, 0})
			case 1:
				x.call(vzWcall{"Rewatch", p, "", i%4 == 1, Create})
			}
		}
		x.check(nil)
		x.handles()
		touch()
		x.close()
	})
	for _, n := range []int{2, 30, 100} {
		n := n
		scn(fmt.Sprintf("burst/%d", n), func(x *vzWin) {
			x.call(vzWcall{"Watch", "/d0", "", true, allev})
			x.check(nil)
			for j := 0; j < 10; j++ {
				var cs []vzWch
				x.note("create %d files", n)
				for i := 0; i < n; i++ {
					cs = append(cs, vzWcreate(fmt.Sprintf("/d0/n%d-%d", j, i), false).do(x.k)...)
				}
				x.check(cs)
			}
			x.handles()
			x.close()
		})
	}
	return
})
