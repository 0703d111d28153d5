package notify

import (
	"vmc/kern"
	"vmc/vs"
)

var _ = vzFor("C15", vzC15sets)

func vzC15sets(thorough bool) (out []vzScn) {
	none := func() any { return kern.New() }
	names := vzNames()
	n := len(names)
	fail := func(f string, a ...any) { vs.Fail("C15", f, a...) }
	marks := vzMarkers()
	// sets requested through a channel contain exactly the events put in
	k := 3
	if thorough {
		k = 4
	}
	var sets []int
	for s := 1; s < 1<<n; s++ {
		c := 0
		for x := s; x != 0; x &= x - 1 {
			c++
		}
		if c <= k || c >= n-1 {
			sets = append(sets, s)
		}
	}
	const chunk = 64
	out = append(out, vzScn{name: "sets", serial: true, steps: 1 << 22, bounds: vzPe(0), kern: none, body: func() {
		c := vs.Made(make(chan EventInfo, 64))
		at := vs.Choose("sets", (len(sets)+chunk-1)/chunk, false) * chunk
		for _, s := range sets[at:vzMin(at+chunk, len(sets))] {
			var set Event
			for i := range names {
				if s&(1<<i) != 0 && names[i].text != "" {
					set |= names[i].ev
				}
			}
			for _, rec := range []Event{0, recursive} {
				wp := make(watchpoint)
				wp.Add(c, set|rec)
				for i := range names {
					if !vzPlain(names[i].ev) {
						continue
					}
					wp.Dispatch(vzEvInfo{names[i].ev, "/t"}, 0)
					got := len(vs.Drain(c))
					want := 0
					if s&(1<<i) != 0 {
						want = 1
					}
					if got != want {
						fail("set %v (%#x): %s is delivered %d times, not %d", set, uint32(set), names[i].text, got, want)
					}
				}
				if wp.Total()&^marks[0] != set&^marks[0] {
					fail("set %v (%#x) is kept as %#x", set, uint32(set), uint32(wp.Total()))
				}
			}
		}
		vs.CountState()
	}})
	return
}
