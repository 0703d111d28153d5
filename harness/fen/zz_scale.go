package notify

import "fmt"

// Sizes beyond those of the other scenarios, each in the default schedule.
var _ = vzFor("C16", func(bool) (out []vzScn) {
	allev := Create | Remove | Write | Rename
	var tree, files, subs []string
	tree = append(tree, "/d/", "/o/")
	for i := 0; i < 80; i++ {
		files = append(files, fmt.Sprintf("/d/f%d", i))
	}
	for i := 0; i < 40; i++ {
		subs = append(subs, fmt.Sprintf("/d/s%d", i))
		tree = append(tree, subs[i]+"/", subs[i]+"/x")
	}
	fx := vzTree(append(tree, files...)...)
	scn := func(name string, body func(x *vzFen)) {
		out = append(out, vzScn{name: "scale/" + name, serial: true, steps: 1 << 24, bounds: vzPe(0), kern: fx, body: func() { body(vzNewFen()) }})
	}
	churn := func(x *vzFen, burst int) {
		var fresh []string
		for i := 0; i < 120; i++ {
			fresh = append(fresh, fmt.Sprintf("/d/n%d", i))
		}
		for i := 0; i < len(fresh); i += burst {
			var cs []vzChange
			x.note("create %s and %d others", fresh[i], burst-1)
			for _, p := range fresh[i : i+burst] {
				cs = append(cs, vzFcreate(p).do(x.k)...)
			}
			x.check(cs)
		}
		x.descriptors()
		for _, p := range append(append([]string{}, files...), fresh...) {
			x.fs(vzFwrite(p))
		}
		for i, p := range fresh {
			switch i % 3 {
			case 0:
				x.fs(vzFrm(p))
			case 1:
				x.fs(vzFmv(p, p+"x"))
			case 2:
				x.fs(vzFmv(p, fmt.Sprintf("/o/n%d", i)))
			}
		}
		for _, p := range files {
			x.fs(vzFrm(p))
		}
	}
	for _, burst := range []int{1, 60} {
		burst := burst
		scn(fmt.Sprintf("one/%d", burst), func(x *vzFen) {
			x.op(vzKop{"Watch(/d)", "Watch", "/d", allev})
			churn(x, burst)
			x.close()
		})
		scn(fmt.Sprintf("nested/%d", burst), func(x *vzFen) {
			for _, p := range subs {
				x.op(vzKop{"Watch(" + p + ")", "Watch", p, allev})
			}
			x.op(vzKop{"Watch(/d)", "Watch", "/d", allev})
			churn(x, burst)
			for _, p := range subs {
				x.fs(vzFwrite(p + "/x"))
				x.fs(vzFcreate(p + "/y"))
			}
			x.op(vzKop{"Unwatch(/d)", "Unwatch", "/d", 0})
			for i, p := range subs {
				x.fs(vzFwrite(p + "/x"))
				if i%2 == 0 {
					x.op(vzKop{"Unwatch(" + p + ")", "Unwatch", p, 0})
				}
			}
			for _, p := range subs {
				x.fs(vzFwrite(p + "/x"))
			}
			x.close()
		})
	}
	return
})
