package notify

import (
	"strings"

	"vmc/vs"
)

// vzFnat: the framework below the recursive tree.
type vzFnat struct {
	e *vzR
	x vzRW
	n map[string]uint32
}

func (n *vzFnat) text() string {
	var s []string
	for _, y := range vzF.live {
		s = append(s, y.path)
	}
	return strings.Join(s, " ")
}
func (n *vzFnat) has(r vzReg) bool {
	for _, y := range vzF.live {
		if y.path == r.path || vzUnder(y.path, r.path) {
			return true
		}
	}
	return false
}
func (n *vzFnat) count() int {
	if s := vzF.vzCheck(); s != "" {
		vs.Fail("C13", "%s", s)
	}
	return len(vzF.live)
}
func (n *vzFnat) faulty(on bool) { vzF.fails = on }
func (n *vzFnat) failures() int  { return vzF.nfail }

// emit alternates creation and removal, as the flags accumulate otherwise.
func (n *vzFnat) emit(p string, ev Event) {
	vzF.deliver([]FSEvent{{Path: p, Flags: uint32(ev) | vzFF}})
}

var _ = vzFor("C13", vzC13tree)

func vzC13tree(thorough bool) (out []vzScn) {
	fx := []string{"/t/", "/t/a/", "/t/a/b/", "/t/ab/", "/t/a/f"}
	mk := func(nch int) *vzR {
		vzF = vzNewFr()
		return vzNewRW("C13", nch, func(e *vzR) (vzNative, vzRW) {
			w := newWatcher(e.c).(vzRW)
			return &vzFnat{e: e, x: w}, w
		})
	}
	var ops []vzRop
	for _, p := range []string{"/", "/t", "/t/a", "/t/a/b"} {
		for _, rec := range []bool{true, false} {
			for ch := 0; ch < 2; ch++ {
				ops = append(ops, vzRWatch(ch, p, rec, []Event{Create | Remove, Write}[ch]))
			}
		}
	}
	ops = append(ops, vzRWatch(0, "/t", true, Write), vzRStop(0), vzRStop(1))
	n := 4
	if thorough {
		n = 5
	}
	for _, c := range vzRconcs() {
		if c.n == "event-watch" {
			// While a stream is replaced by one for a parent directory, what
			// happens is not reported; the property does not promise it.
			continue
		}
		out = append(out, c.scn("lib/", vzLv(thorough), fx, func() *vzR { return mk(2) }))
	}
	for _, faults := range []int{0, 1} {
		nm := "tree"
		if faults > 0 {
			nm = "treefail"
		}
		faults, n := faults, n-faults
		for i := range ops {
			i := i
			if ops[i].stop || ops[i].ch > 0 {
				continue
			}
			out = append(out, vzScn{name: nm + "/" + ops[i].name, serial: true, bounds: []vzBound{{0, faults}}, kern: vzTree(fx...), body: func() {
				e := mk(2)
				e.evs = []Event{Create, Write, Remove}
				vzRhist(e, ops, i, n, faults > 0)
			}})
		}
	}
	return
}
