package notify

import (
	"fmt"
	"path"
	"strings"
)

var (
	vzBase = []string{"/t/", "/t/a/", "/t/a/b/", "/t/ab/", "/t/a/f"}
)

func (e *vzEnv) final() {
	e.probe()
	e.stopAll()
}

func (e *vzEnv) finalDeep() {
	e.probeDeep()
	e.stopAll()
}

func vzDeepRemove(e *vzEnv) {
	e.probeDeep()
	e.finalRemove()
}

var _ = vzFor("C02", vzC02)

func vzC02(thorough bool) (out []vzScn) {
	n := 3
	if thorough {
		n = 4
	}
	var ops []vzOp
	for _, p := range []string{"/t", "/t/a", "/t/a/b", "/t/ab"} {
		for _, rec := range []bool{true, false} {
			for ch := 0; ch < 2; ch++ {
				ops = append(ops, vzOpWatch(ch, p, rec, Create), vzOpWatch(ch, p, rec, Write|Remove, InAttrib))
			}
		}
	}
	ops = append(ops, vzOpWatch(0, "/t/a/f", false, Write|InAttrib), vzOpWatch(1, "/t/a/f", false, Remove))
	ops = append(ops, vzOpStop(0), vzOpStop(1))
	out = append(out, vzHistories("regs", "C02", vzTree(vzBase...), 2, ops, n, 1, vzDeepRemove)...)
	// the root directory
	ops = nil
	for _, p := range []string{"/", "/t", "/t/a"} {
		for _, rec := range []bool{true, false} {
			for ch := 0; ch < 2; ch++ {
				ops = append(ops, vzOpWatch(ch, p, rec, Create))
				if ch == 0 {
					ops = append(ops, vzOpWatch(ch, p, rec, Write|Remove))
				}
			}
		}
	}
	ops = append(ops, vzOpWatch(0, "/f", false, Write), vzOpStop(0), vzOpStop(1), vzOpMkdir("/d"), vzOpRm("/d"), vzOpRename("/d", "/t/d"))
	out = append(out, vzHistories("root", "C02", vzTree("/t/", "/t/a/", "/f"), 2, ops, n, 1, vzDeepRemove)...)
	// three channels
	ops = nil
	for _, p := range []string{"/t", "/t/a"} {
		for _, rec := range []bool{true, false} {
			for ch := 0; ch < 3; ch++ {
				ops = append(ops, vzOpWatch(ch, p, rec, []Event{Remove | InCreate, Write, InCreate | InAttrib}[ch]))
			}
		}
	}
	ops = append(ops, vzOpStop(0), vzOpStop(1), vzOpStop(2))
	out = append(out, vzHistories("three", "C02", vzTree("/t/", "/t/a/", "/t/a/f"), 3, ops, n+1, 1, vzDeepRemove)...)
	// registrations and changes of the tree mixed
	ops = []vzOp{
		vzOpWatch(0, "/t", true, Create|Rename), vzOpWatch(0, "/t", false, Write|Remove), vzOpWatch(1, "/t/a", true, All), vzOpWatch(1, "/t", true, Remove|InMovedTo),
		vzOpStop(0), vzOpStop(1),
		vzOpMkdir("/t/d"), vzOpCreate("/t/d/x"), vzOpWrite("/t/a/f"), vzOpRename("/t/d", "/t/a/d"), vzOpRename("/t/a/d", "/t/d"), vzOpRename("/t/a/f", "/t/d/x"), vzOpRm("/t/d"), vzOpRm("/t/d/x"), vzOpMkdir("/t/d/e"),
	}
	out = append(out, vzHistories("mixed", "C02", vzTree("/t/", "/t/a/", "/t/a/f"), 2, ops, n+2, 1, (*vzEnv).final)...)
	out = append(out, vzRetype("C02", n+1)...)
	// overlapping calls and changes
	lv := vzLv(thorough)
	fx := []string{"/t/", "/t/a/", "/t/a/f", "/t/a/b/"}
	for _, c := range []struct {
		n  string
		s  []vzOp
		th [][]vzOp
	}{
		{"watch-other", []vzOp{vzOpWatch(0, "/t", true, Create|Write)}, [][]vzOp{{vzOpCreate("/t/a/x"), vzOpWrite("/t/a/f")}, {vzOpWatch(1, "/t/a", true, Remove)}}},
		{"watch-same", []vzOp{vzOpWatch(0, "/t", true, Create|Write)}, [][]vzOp{{vzOpCreate("/t/a/x"), vzOpWrite("/t/a/f")}, {vzOpWatch(0, "/t/a", false, Remove)}}},
		{"stop-other", []vzOp{vzOpWatch(0, "/t", true, Create|Write), vzOpWatch(1, "/t", true, All)}, [][]vzOp{{vzOpCreate("/t/a/x"), vzOpWrite("/t/a/f")}, {vzOpStop(1)}}},
		{"stop-below", []vzOp{vzOpWatch(0, "/t", true, Create), vzOpWatch(1, "/t/a", true, Create|Write)}, [][]vzOp{{vzOpCreate("/t/a/x"), vzOpWrite("/t/a/f")}, {vzOpStop(1)}}},
		{"stop-above", []vzOp{vzOpWatch(0, "/t", true, Create), vzOpWatch(1, "/t/a", true, Create|Write)}, [][]vzOp{{vzOpCreate("/t/a/x"), vzOpWrite("/t/a/f")}, {vzOpStop(0)}}},
		{"swap", []vzOp{vzOpWatch(0, "/t/a", false, Write|Create)}, [][]vzOp{{vzOpWrite("/t/a/f"), vzOpCreate("/t/a/x")}, {vzOpWatch(1, "/t/a", false, All), vzOpStop(1)}}},
		{"two-writers", []vzOp{vzOpWatch(0, "/t", true, All), vzOpWatch(1, "/t/a", false, Write)}, [][]vzOp{{vzOpWrite("/t/a/f"), vzOpChmod("/t/a/f"), vzOpWrite("/t/a/f")}, {vzOpCreate("/t/a/x"), vzOpRm("/t/a/x")}}},
	} {
		lv := lv
		if c.n == "two-writers" && !thorough {
			lv = vzPe(0, 1)
		}
		out = append(out, vzConc{name: "conc/" + c.n, fixture: fx, nch: 2, setup: c.s, threads: c.th, bounds: lv, final: (*vzEnv).finalDeep}.scn("C02"))
	}
	return
}

// vzRetype: a name stands for a directory, then a file, then a directory.
func vzRetype(prop string, n int) []vzScn {
	ops := []vzOp{
		vzOpWatch(0, "/t", true, Create|Write), vzOpWatch(1, "/t/a", false, Write), vzOpWatch(0, "/t/a", false, Create|Remove), vzOpWatch(1, "/t", true, Write), vzOpWatch(1, "/t", true, All),
		vzOpRm("/t/a"), vzOpMkdir("/t/a"), vzOpCreate("/t/a"), vzOpRename("/t/f", "/t/a"), vzOpRename("/t/a", "/t/f"), vzOpRename("/t/d", "/t/a"), vzOpRename("/t/a", "/t/d"),
		vzOpRm("/t/a/b"), vzOpCreate("/t/a/b"), vzOpMkdir("/t/a/b"), vzOpStop(1),
	}
	return vzFirst("retype", prop, vzTree("/t/", "/t/a/", "/t/f", "/t/d/"), 2, ops, n+1, vzDeepRemove)
}

var _ = vzFor("C03", vzC03)

func vzC03(thorough bool) (out []vzScn) {
	for _, s := range []struct {
		n string
		e Event
	}{{"create", Create}, {"remove", Remove}, {"all", All}, {"attrib", InAttrib}} {
		ops := []vzOp{
			vzOpWatch(0, "/t", true, s.e),
			vzOpMkdir("/t/a"), vzOpMkdir("/t/b"), vzOpMkdir("/t/a/b"), vzOpMkdir("/t/b/a"),
			vzOpRm("/t/a"), vzOpRm("/t/b"), vzOpRm("/t/a/b"), vzOpRm("/t/b/a"),
			vzOpRename("/t/a", "/t/b"), vzOpRename("/t/b", "/t/a"), vzOpRename("/t/a/b", "/t/b"), vzOpRename("/t/b", "/t/a/b"),
			vzOpRename("/t/a/b", "/t/b/a"),
		}
		n := 4
		if thorough {
			n = 6
		}
		w := ops[:1]
		_ = w
		out = append(out, vzFirst("fs/"+s.n, "C03", vzTree("/t/", "/t/a/", "/t/a/b/"), 1, ops, n+1, (*vzEnv).final)...)
		out = append(out, vzFirst("fs0/"+s.n, "C03", vzTree("/t/"), 1, ops, n+1, (*vzEnv).final)...)
	}
	out = append(out, vzRetype("C03", vzMoreIf(thorough, 4))...)
	for _, s := range []Event{Create, Remove, All} {
		for _, x := range []struct {
			n  string
			fx []string
			th [][]vzOp
		}{
			{"mkdir-nested", []string{"/t/"}, [][]vzOp{{vzOpMkdir("/t/a"), vzOpMkdir("/t/a/b")}}},
			{"recreate", []string{"/t/", "/t/a/"}, [][]vzOp{{vzOpRmdir("/t/a"), vzOpMkdir("/t/a")}}},
			{"rename-recreate", []string{"/t/", "/t/a/"}, [][]vzOp{{vzOpMv("/t/a", "/t/b"), vzOpMkdir("/t/a")}}},
			{"mkdir-rename", []string{"/t/"}, [][]vzOp{{vzOpMkdir("/t/a"), vzOpMv("/t/a", "/t/b")}}},
			{"recreate-more", []string{"/t/", "/t/a/"}, [][]vzOp{{vzOpRmdir("/t/a"), vzOpMkdir("/t/a"), vzOpMkdir("/t/b")}}},
			{"vanish", []string{"/t/"}, [][]vzOp{{vzOpMkdir("/t/a"), vzOpMkdir("/t/a/x"), vzOpMkdir("/t/a/y"), vzOpRmdir("/t/a/y")}}},
		} {
			lv := vzPe(0, 1, 2, 3)
			if !thorough && x.n == "recreate-more" {
				lv = vzPe(0, 1)
			}
			out = append(out, vzConc{name: "conc/" + x.n + "/" + s.String(), fixture: x.fx, nch: 1, setup: []vzOp{vzOpWatch(0, "/t", true, s)}, threads: x.th, bounds: lv, final: (*vzEnv).final}.scn("C03"))
		}
		for _, mc := range []int{1, 2} {
			if !thorough && (mc == 2 || s == Remove) {
				continue
			}
			lv := vzPe(0)
			if thorough {
				lv = vzPe(0, 1)
			}
			for _, x := range []struct {
				n  string
				fx []string
				th []vzOp
			}{
				{"burst", []string{"/t/"}, []vzOp{vzOpMkdir("/t/a"), vzOpMkdir("/t/b"), vzOpMkdir("/t/c"), vzOpMkdir("/t/d")}},
				{"deep-burst", []string{"/t/"}, []vzOp{vzOpMkdir("/t/a"), vzOpMkdir("/t/a/b"), vzOpMkdir("/t/b"), vzOpMkdir("/t/b/c")}},
				{"churn", []string{"/t/", "/t/a/"}, []vzOp{vzOpRmdir("/t/a"), vzOpMkdir("/t/a"), vzOpMkdir("/t/b"), vzOpMkdir("/t/a/c")}},
			} {
				out = append(out, vzConc{name: fmt.Sprintf("queues/%d/%s/%v", mc, x.n, s), fixture: x.fx, nch: 1, maxCap: mc, setup: []vzOp{vzOpWatch(0, "/t", true, s)}, threads: [][]vzOp{x.th}, bounds: lv, final: (*vzEnv).final}.scn("C03"))
			}
		}
	}
	// with other registrations and calls in between
	w0 := vzOpWatch(0, "/t", true, Create|Write)
	for _, c := range []struct {
		n  string
		fx []string
		s  []vzOp
		th [][]vzOp
	}{
		{"again", []string{"/t/", "/t/a/"}, []vzOp{vzOpWatch(0, "/t", true, All)}, [][]vzOp{{vzOpRmdir("/t/a"), vzOpMkdir("/t/a"), vzOpWatch(1, "/t/a", false, All)}}},
		{"again-rec", []string{"/t/", "/t/a/"}, []vzOp{vzOpWatch(0, "/t", true, All)}, [][]vzOp{{vzOpRmdir("/t/a"), vzOpMkdir("/t/a"), vzOpWatch(1, "/t/a", true, Create|Write)}}},
		{"again-file", []string{"/t/", "/t/a/"}, []vzOp{vzOpWatch(0, "/t", true, All)}, [][]vzOp{{vzOpRmdir("/t/a"), vzOpCreate("/t/a"), vzOpWatch(1, "/t/a", false, Write)}}},
		{"again-mv", []string{"/t/", "/t/a/"}, []vzOp{vzOpWatch(0, "/t", true, All)}, [][]vzOp{{vzOpMv("/t/a", "/t/b"), vzOpMkdir("/t/a"), vzOpWatch(1, "/t/a", false, Create|Write)}}},
		{"again-below", []string{"/t/", "/t/a/", "/t/a/b/"}, []vzOp{vzOpWatch(0, "/t", true, All)}, [][]vzOp{{vzOpRmdir("/t/a/b"), vzOpRmdir("/t/a"), vzOpMkdir("/t/a"), vzOpMkdir("/t/a/b"), vzOpWatch(1, "/t/a/b", false, Create|Write)}}},
		{"again-create", []string{"/t/", "/t/a/"}, []vzOp{w0}, [][]vzOp{{vzOpRmdir("/t/a"), vzOpMkdir("/t/a"), vzOpWatch(1, "/t/a", false, All)}}},
		{"watch-during-mkdir", []string{"/t/"}, nil, [][]vzOp{{vzOpMkdir("/t/a"), vzOpMkdir("/t/a/b")}, {w0}}},
		{"watch-during-mv", []string{"/t/", "/t/a/"}, nil, [][]vzOp{{vzOpMv("/t/a", "/t/b")}, {w0}}},
		{"watch-during-recreate", []string{"/t/", "/t/a/"}, nil, [][]vzOp{{vzOpRmdir("/t/a"), vzOpMkdir("/t/a")}, {w0}}},
		{"second-during-mkdir", []string{"/t/"}, []vzOp{w0}, [][]vzOp{{vzOpMkdir("/t/a"), vzOpMkdir("/t/a/b")}, {vzOpWatch(1, "/t", true, Remove)}}},
		{"below-during-mkdir", []string{"/t/", "/t/a/"}, []vzOp{w0}, [][]vzOp{{vzOpMkdir("/t/a/b"), vzOpMkdir("/t/a/b/c")}, {vzOpWatch(1, "/t/a", true, Remove)}}},
		{"stop-below-during-mkdir", []string{"/t/", "/t/a/"}, []vzOp{w0, vzOpWatch(1, "/t/a", true, Remove)}, [][]vzOp{{vzOpMkdir("/t/a/b"), vzOpMkdir("/t/a/b/c")}, {vzOpStop(1)}}},
		{"stop-above-during-mkdir", []string{"/t/", "/t/a/"}, []vzOp{w0, vzOpWatch(1, "/t/a", true, Remove)}, [][]vzOp{{vzOpMkdir("/t/a/b"), vzOpMkdir("/t/a/b/c")}, {vzOpStop(0)}}},
		{"stop-plain-during-mkdir", []string{"/t/", "/t/a/"}, []vzOp{w0, vzOpWatch(1, "/t/a", false, Remove)}, [][]vzOp{{vzOpMkdir("/t/a/b")}, {vzOpStop(1)}}},
		{"plain-during-recreate", []string{"/t/", "/t/a/"}, []vzOp{w0}, [][]vzOp{{vzOpRmdir("/t/a"), vzOpMkdir("/t/a")}, {vzOpWatch(1, "/t", false, All)}}},
		{"stop-during-recreate", []string{"/t/", "/t/a/"}, []vzOp{w0, vzOpWatch(1, "/t", true, All)}, [][]vzOp{{vzOpRmdir("/t/a"), vzOpMkdir("/t/a")}, {vzOpStop(1)}}},
		{"stop-during-mv", []string{"/t/", "/t/a/", "/t/a/b/"}, []vzOp{w0, vzOpWatch(1, "/t", true, All)}, [][]vzOp{{vzOpMv("/t/a", "/t/c")}, {vzOpStop(1)}}},
	} {
		lv := vzLv(thorough)
		if !thorough && strings.HasPrefix(c.n, "again") {
			lv = vzPe(0, 1)
			if c.n == "again-below" {
				lv = vzPe(0)
			}
		}
		out = append(out, vzConc{name: "calls/" + c.n, fixture: c.fx, nch: 2, setup: c.s, threads: c.th, bounds: lv, final: (*vzEnv).final}.scn("C03"))
	}
	return
}

// vzFirst: histories starting with the first operation, split by the second.
func vzFirst(name, prop string, mk func() any, nch int, ops []vzOp, n int, final func(e *vzEnv)) (out []vzScn) {
	for i := range ops {
		if i == 0 {
			continue
		}
		out = append(out, vzScn{name: name + "/" + ops[i].name, serial: true, bounds: vzPe(0), kern: mk, body: vzHistory(prop, nch, ops, []int{0, i}, n, final)})
	}
	return
}

var _ = vzFor("C04", vzC04)

func vzC04(thorough bool) (out []vzScn) {
	var ops []vzOp
	for _, p := range []string{"/t", "/t/a", "/t/a/b", "/t/ab"} {
		for _, rec := range []bool{true, false} {
			for ch := 0; ch < 2; ch++ {
				ops = append(ops, vzOpWatch(ch, p, rec, Create), vzOpWatch(ch, p, rec, Write|Remove, InAttrib))
			}
		}
	}
	ops = append(ops, vzOpWatch(0, "/t/a/f", false, Write|InAttrib), vzOpWatch(1, "/t/a/f", false, Remove))
	ops = append(ops, vzOpStop(0), vzOpStop(1), vzOpMkdir("/t/c"), vzOpMkdir("/t/a/c"), vzOpRename("/t/a/b", "/t/c"))
	n := 3
	if thorough {
		n = 4
	}
	out = append(out, vzHistories("regs", "C04", vzTree(vzBase...), 2, ops, n, 1, func(e *vzEnv) {
		e.stopAll()
		e.probe()
	})...)
	// everything watched is removed
	ops = nil
	for _, p := range []string{"/t", "/t/a", "/t/a/b"} {
		for _, rec := range []bool{true, false} {
			for ch := 0; ch < 3; ch++ {
				if ch == 2 && p == "/t/a/b" {
					continue
				}
				ops = append(ops, vzOpWatch(ch, p, rec, []Event{Remove | InCreate, Write, InAttrib}[ch]))
			}
		}
	}
	ops = append(ops, vzOpWatch(1, "/t/a/f", false, Write|Remove), vzOpStop(0), vzOpStop(1), vzOpStop(2))
	out = append(out, vzHistories("removed", "C04", vzTree("/t/", "/t/a/", "/t/a/b/", "/t/a/f"), 3, ops, n, 1, (*vzEnv).finalRemove)...)
	out = append(out, vzRetype("C04", n+1)...)
	m := 5
	if thorough {
		m = 6
	}
	out = append(out, vzMoved("C04", m)...)
	lv := vzLv(thorough)
	fx := []string{"/t/", "/t/a/", "/t/a/b/", "/t/a/f"}
	for _, c := range []struct {
		n  string
		s  []vzOp
		th [][]vzOp
	}{
		{"stop-stop", []vzOp{vzOpWatch(0, "/t", true, Create), vzOpWatch(1, "/t", true, Write)}, [][]vzOp{{vzOpStop(0)}, {vzOpStop(1)}}},
		{"stop-watch", []vzOp{vzOpWatch(0, "/t", true, Create)}, [][]vzOp{{vzOpStop(0)}, {vzOpWatch(1, "/t/a", true, Write)}}},
		{"watch-watch", nil, [][]vzOp{{vzOpWatch(0, "/t", true, Create)}, {vzOpWatch(1, "/t/a", true, Write)}}},
		{"watch-stop-watch-stop", nil, [][]vzOp{{vzOpWatch(0, "/t", true, Create), vzOpStop(0)}, {vzOpWatch(1, "/t/a", false, Write), vzOpStop(1)}}},
		{"stop-mkdir", []vzOp{vzOpWatch(0, "/t", true, Create)}, [][]vzOp{{vzOpStop(0)}, {vzOpMkdir("/t/c"), vzOpMkdir("/t/c/d")}}},
		{"stop-rmdir", []vzOp{vzOpWatch(0, "/t", true, Create|Remove), vzOpWatch(1, "/t/a", false, Create)}, [][]vzOp{{vzOpStop(0)}, {vzOpRmdir("/t/a/b"), vzOpMkdir("/t/a/b")}}},
		{"stop-stop-mkdir", []vzOp{vzOpWatch(0, "/t", true, Create), vzOpWatch(1, "/t/a", true, Create)}, [][]vzOp{{vzOpStop(0)}, {vzOpStop(1)}, {vzOpMkdir("/t/a/c")}}},
		{"stop-mv", []vzOp{vzOpWatch(0, "/t", true, Create), vzOpWatch(1, "/t", true, Write)}, [][]vzOp{{vzOpStop(0)}, {vzOpMv("/t/a", "/t/c")}}},
		{"same-file", nil, [][]vzOp{{vzOpWatch(0, "/t/a/f", false, Write), vzOpStop(0)}, {vzOpWatch(1, "/t/a/f", false, Remove)}}},
	} {
		out = append(out, vzConc{name: "conc/" + c.n, fixture: fx, nch: 2, setup: c.s, threads: c.th, bounds: lv, final: (*vzEnv).final}.scn("C04"))
	}
	return
}

// opOut renames anything anywhere.
func vzOpOut(a, b string) vzOp {
	return vzOp{"mv " + a + " " + b, func(e *vzEnv) bool { return e.exists(a) && !e.exists(b) && !vzUnder(a, b) && e.isdir(path.Dir(b)) },
		func(e *vzEnv) { e.note("mv %s %s", a, b); e.k.Rename(a, b) }}
}

// vzForget empties the channels and forgets what the kernel reported.
func (e *vzEnv) vzForget() {
	for ch := range e.chans {
		e.drain(ch)
	}
	e.seen = len(e.k.Events)
	e.snap()
	e.phase()
}

// vzMoved: directories moved out of what is watched keep an OS watch at most
// until the channels are stopped.
func vzMoved(prop string, m int) (out []vzScn) {
	ops := []vzOp{
		vzOpWatch(0, "/t", true, Create), vzOpWatch(1, "/t", true, All), vzOpWatch(1, "/t/a", false, Write), vzOpWatch(0, "/t/a", true, Remove), vzOpWatch(1, "/o", true, Create), vzOpWatch(0, "/t/a/b", false, Create|Write),
		vzOpOut("/t/a", "/o/a"), vzOpOut("/o/a", "/t/a"), vzOpOut("/t/a", "/o/b"), vzOpOut("/t/a/b", "/t/b"), vzOpOut("/t/a/b", "/o/a"), vzOpOut("/t", "/u"), vzOpOut("/u", "/t"),
		vzOpMkdir("/t/a"), vzOpMkdir("/t"), vzOpStop(0), vzOpStop(1),
	}
	for i := range ops {
		if i > 5 {
			break
		}
		i := i
		out = append(out, vzScn{name: "moved/" + ops[i].name, serial: true, bounds: vzPe(0), kern: vzTree("/t/", "/t/a/", "/t/a/b/", "/o/"), body: func() {
			e := vzNewEnv(prop, 2, 256)
			e.lax = true
			vzMore(e, ops, []int{i}, m)
			e.stopAll()
			// and everything works again
			e.lax = false
			e.vzForget()
			e.chans = append(e.chans, vzChan(256))
			for _, p := range []string{"/t", "/u", "/o"} {
				if e.isdir(p) {
					e.mustWatch(2, p, true, Create|Write)
				}
			}
			e.settle()
			e.final()
		}})
	}
	return
}
