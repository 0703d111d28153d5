package notify

import (
	"fmt"
)

// The tree used on top of watchers that watch recursively by themselves also
// has to keep the promises made to the users of the package. Here only what a
// user can see is judged; how the tree uses the native watcher is for C10.

func vzNewNative(prop, only string, nch, capacity int) *vzR {
	e := vzNewR(nch)
	e.prop, e.only = prop, only
	if capacity >= 0 {
		e.tiny = true
		for i := range e.chans {
			e.chans[i] = vzChan(capacity)
		}
	}
	return e
}

var vzNativeTree = []string{"/t/", "/t/a/", "/t/a/b/", "/t/ab/", "/t/a/f"}

func vzNativeHist(prop, only string, nch, n, faults int, thorough bool) (out []vzScn) {
	sets := []Event{Create, Write | Remove, Create | Write}
	var ops []vzRop
	for _, p := range []string{"/t", "/t/a", "/t/a/b"} {
		for _, rec := range []bool{true, false} {
			for ch := 0; ch < nch; ch++ {
				ops = append(ops, vzRWatch(ch, p, rec, sets[ch]))
			}
		}
	}
	ops = append(ops, vzRWatch(1, "/t", true, Create), vzRWatch(0, "/t/a/f", false, Write))
	for ch := 0; ch < nch; ch++ {
		ops = append(ops, vzRStop(ch))
	}
	for i := range ops {
		if ops[i].stop || ops[i].ch > 0 {
			continue
		}
		i := i
		out = append(out, vzScn{name: fmt.Sprintf("native/%d/%s", nch, ops[i].name), serial: true, bounds: []vzBound{{0, faults}}, kern: vzTree(vzNativeTree...), body: func() {
			vzRhist(vzNewNative(prop, only, nch, -1), ops, i, n, faults > 0)
		}})
	}
	return
}

func vzNativeConc(prop, only string, capacity int, thorough bool) (out []vzScn) {
	for _, c := range vzRconcs() {
		out = append(out, c.scn(fmt.Sprintf("native/conc/%d/", capacity), vzLv(thorough), vzNativeTree, func() *vzR { return vzNewNative(prop, only, 2, capacity) }))
	}
	return
}

func vzMoreIf(b bool, n int) int {
	if b {
		return n + 1
	}
	return n
}

var _ = vzFor("C01", func(th bool) []vzScn {
	return append(vzNativeHist("C01", "stop", 2, vzMoreIf(th, 3), 0, th), vzNativeConc("C01", "stop", -1, th)...)
})

var _ = vzFor("C02", func(th bool) []vzScn {
	out := append(vzNativeHist("C02", "deliver stop", 2, vzMoreIf(th, 3), 0, th), vzNativeConc("C02", "deliver stop", -1, th)...)
	return append(out, vzNativeHist("C02", "deliver stop", 3, vzMoreIf(th, 3), 0, th)...)
})

var _ = vzFor("C04", func(th bool) []vzScn {
	return append(vzNativeHist("C04", "remain", 2, vzMoreIf(th, 3), 0, th), vzNativeConc("C04", "remain", -1, th)...)
})

var _ = vzFor("C05", func(th bool) []vzScn {
	return vzNativeHist("C05", "deliver stop", 2, vzMoreIf(th, 3), 1, th)
})

var _ = vzFor("C08", func(th bool) (out []vzScn) {
	for c := 0; c < 2; c++ {
		out = append(out, vzNativeConc("C08", "nothing", c, th)...)
	}
	return
})

// vzNativeRace: overlapping calls and events race for nothing.
var _ = vzFor("C09", func(th bool) (out []vzScn) {
	for _, s := range vzNativeConc("C09", "nothing", -1, th) {
		s.race = true
		out = append(out, s)
	}
	return
})
