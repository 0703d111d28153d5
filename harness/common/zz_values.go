package notify

import (
	"fmt"
	"sort"
	"strings"

	"vmc/kern"
	"vmc/vs"
)

// vzEvName is a documented event value; native is what the operating system
// calls it (0: the library is free to choose).
type vzEvName struct {
	text   string
	ev     Event
	native uint32
}

type vzEvInfo struct {
	ev Event
	p  string
}

func (i vzEvInfo) Event() Event     { return i.ev }
func (i vzEvInfo) Path() string     { return i.p }
func (i vzEvInfo) Sys() interface{} { return nil }

// vzC15 checks the event values of this backend; vzNames and vzMarkers are
// provided per variant.
var _ = vzFor("C15", vzC15)

func vzC15(thorough bool) (out []vzScn) {
	none := func() any { return kern.New() }
	names := vzNames()
	fail := func(f string, a ...any) { vs.Fail("C15", f, a...) }
	marks := vzMarkers()
	out = append(out, vzScn{name: "values", serial: true, bounds: vzPe(0), kern: none, body: func() {
		if All != Create|Remove|Write|Rename {
			fail("All is %#x", uint32(All))
		}
		for i, a := range names {
			if a.ev == 0 {
				fail("%s has no value", a.text)
			}
			if a.native != 0 && uint32(a.ev) != a.native {
				fail("%s is %#x, not %#x", a.text, uint32(a.ev), a.native)
			}
			for _, b := range names[:i] {
				if a.ev&b.ev != 0 {
					fail("%s (%#x) and %s (%#x) share a bit", a.text, uint32(a.ev), b.text, uint32(b.ev))
				}
			}
			for _, m := range marks {
				if a.ev&m != 0 {
					fail("%s (%#x) and an internal marker (%#x) share a bit", a.text, uint32(a.ev), uint32(m))
				}
			}
		}
		for i, a := range marks {
			if a == 0 {
				fail("an internal marker has no value")
			}
			for _, b := range marks[:i] {
				if a&b != 0 {
					fail("two internal markers (%#x, %#x) share a bit", uint32(a), uint32(b))
				}
			}
		}
		vs.CountState()
	}})
	n := len(names)
	low := 9
	if low > n {
		low = n
	}
	var known Event
	for _, x := range names {
		known |= x.ev
	}
	for _, m := range marks {
		known |= m
	}
	body := func(extra Event) func() {
		return func() {
			hi := vs.Choose("events", 1<<(n-low), false) << low
			for lo := 0; lo < 1<<low; lo++ {
				var want []string
				set := extra
				for i := 0; i < n; i++ {
					if (hi|lo)&(1<<i) != 0 {
						set |= names[i].ev
						want = append(want, names[i].text)
					}
				}
				vzText(set.String(), want, uint32(set), fail)
			}
			vs.CountState()
		}
	}
	out = append(out, vzScn{name: "text", serial: true, steps: 1 << 22, bounds: vzPe(0), kern: none, body: body(0)})
	out = append(out, vzScn{name: "text-unnamed", serial: true, steps: 1 << 22, bounds: vzPe(0), kern: none, body: body(^known)})
	return
}

func vzText(got string, want []string, set uint32, fail func(string, ...any)) {
	var l []string
	if got != "" {
		for _, s := range strings.Split(got, "|") {
			l = append(l, s)
		}
	}
	sort.Strings(l)
	w := append([]string(nil), want...)
	sort.Strings(w)
	if strings.Join(l, "|") != strings.Join(w, "|") {
		fail("the text of %#x is %q, not the names %q", set, got, strings.Join(w, "|"))
	}
	_ = fmt.Sprint
}
