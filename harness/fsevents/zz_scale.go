package notify

import (
	"fmt"
	"strings"

	"vmc/kern"
)

// Sizes beyond those of the other scenarios, each in the default schedule.
var _ = vzFor("C13", func(bool) (out []vzScn) {
	none := func() any { return kern.New() }
	scn := func(name string, body func(x *vzFX)) {
		out = append(out, vzScn{name: "scale/" + name, serial: true, steps: 1 << 24, bounds: vzPe(0), kern: none, body: func() { body(vzNewFX()) }})
	}
	all := Create | Remove | Write | Rename
	watch := func(x *vzFX, p string, rec bool, e Event) {
		k := "Watch"
		if rec {
			k = "RecursiveWatch"
		}
		x.do(vzFop{name: fmt.Sprintf("%s(%s, %v)", k, p, e), kind: k, p: p, set: e}, false)
		x.callback(p, []FSEvent{{Path: p, Flags: vzFH}})
	}
	each := func(x *vzFX, p string, names []string, flags uint32, batch int) {
		x.note("records of %d paths, %d at a time: %v", len(names), batch, Event(flags))
		var recs []FSEvent
		for i, n := range names {
			recs = append(recs, FSEvent{Path: p + "/" + n, Flags: flags})
			if len(recs) == batch || i == len(names)-1 {
				x.callback(p, recs)
				recs = nil
			}
		}
	}
	for _, rec := range []bool{false, true} {
		rec := rec
		scn(fmt.Sprintf("paths/rec=%v", rec), func(x *vzFX) {
			watch(x, "/t", rec, all)
			var names []string
			for i := 0; i < 700; i++ {
				names = append(names, fmt.Sprintf("f%d", i))
			}
			each(x, "/t", names, vzFC, 200)
			each(x, "/t", names, vzFC|vzFM, 120)
			each(x, "/t", names, vzFC|vzFR|vzFM, 100)
			each(x, "/t", names, vzFR|vzFC|vzFM, 100)
			each(x, "/t", names, vzFR, 200)
		})
		scn(fmt.Sprintf("names/rec=%v", rec), func(x *vzFX) {
			watch(x, "/t", rec, all)
			var names []string
			for i := 1; i < 256; i++ {
				names = append(names, strings.Repeat("n", i), strings.Repeat("\u017c", i/2+1), ".n"+strings.Repeat(" ", i%9)+fmt.Sprint(i))
			}
			for i := 1; i < 9; i++ {
				names = append(names, strings.Repeat(strings.Repeat("d", 99)+"/", i)+"f")
			}
			each(x, "/t", names, vzFM, 100)
			each(x, "/t", names, vzFC|vzFM, 50)
		})
	}
	scn("watches", func(x *vzFX) {
		var ps []string
		for i := 0; i < 120; i++ {
			p := fmt.Sprintf("/t/w%d", i)
			watch(x, p, i%2 == 0, all)
			ps = append(ps, p)
		}
		for i, p := range ps {
			each(x, p, []string{"a", "b/c"}, vzFC, 1)
			if i%3 == 0 {
				x.do(vzFop{name: "Unwatch(" + p + ")", kind: "Unwatch", p: p}, false)
			} else if i%3 == 1 {
				x.do(vzFop{name: "Rewatch(" + p + ")", kind: "Rewatch", p: p, old: all, set: Write}, false)
			}
		}
		for i, p := range ps {
			if i%3 != 0 {
				each(x, p, []string{"a", "b/c", "d"}, vzFC|vzFM, 3)
			}
		}
	})
	return
})
