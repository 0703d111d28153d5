package notify

import "fmt"

// vzC01: Stop is final.
var _ = vzFor("C01", vzC01)

func vzC01(thorough bool) (out []vzScn) {
	lv := vzLv(thorough)
	regs := []struct {
		n  string
		up []vzOp
	}{
		{"rec", []vzOp{vzOpWatch(0, "/t", true, Create|Write)}},
		{"plain", []vzOp{vzOpWatch(0, "/t/a", false, Create|Write)}},
		{"nested", []vzOp{vzOpWatch(0, "/t", true, Create), vzOpWatch(0, "/t/a", true, Write), vzOpWatch(0, "/t/a", false, Create)}},
		{"file", []vzOp{vzOpWatch(0, "/t/a/f", false, Write), vzOpWatch(0, "/t/a", false, InModify), vzOpWatch(0, "/t/a/b", true, Create)}},
		{"gap", []vzOp{vzOpWatch(0, "/", false, Create), vzOpWatch(0, "/t/a", true, Create|Write)}},
	}
	others := []struct {
		n string
		o []vzOp
	}{
		{"alone", nil},
		{"other-rec", []vzOp{vzOpWatch(1, "/t", true, Create|Write)}},
		{"other-plain", []vzOp{vzOpWatch(1, "/t/a", false, Create|Write)}},
	}
	for _, r := range regs {
		for _, o := range others {
			setup := append(append([]vzOp{}, r.up...), o.o...)
			for _, x := range []struct {
				n  string
				th [][]vzOp
			}{
				{"touch", [][]vzOp{{vzOpCreate("/t/a/x")}, {vzOpStopFinal(0)}}},
				{"queued", [][]vzOp{{vzOpCreate("/t/a/x"), vzOpWrite("/t/a/f"), vzOpStopFinal(0)}}},
				{"write", [][]vzOp{{vzOpWrite("/t/a/f")}, {vzOpStopFinal(0)}}},
				{"twice", [][]vzOp{{vzOpWrite("/t/a/f")}, {vzOpStopFinal(0)}, {vzOpStop(0)}}},
				{"mkdir", [][]vzOp{{vzOpMkdir("/t/a/d"), vzOpCreate("/t/a/d/x")}, {vzOpStopFinal(0)}}},
			} {
				lv := lv
				if !thorough && x.n == "twice" {
					lv = vzPe(0, 1)
				}
				out = append(out, vzConc{name: "stop/" + r.n + "/" + o.n + "/" + x.n, fixture: []string{"/t/", "/t/a/", "/t/a/f", "/t/a/b/"}, nch: 2,
					setup: setup, threads: x.th, bounds: lv, final: (*vzEnv).finalDeep}.scn("C01"))
			}
			if len(o.o) > 0 {
				out = append(out, vzConc{name: "stop/" + r.n + "/" + o.n + "/both", fixture: []string{"/t/", "/t/a/", "/t/a/f", "/t/a/b/"}, nch: 2,
					setup: setup, threads: [][]vzOp{{vzOpWrite("/t/a/f")}, {vzOpStopFinal(0)}, {vzOpStopFinal(1)}}, bounds: lv[:len(lv)-1], final: (*vzEnv).finalDeep}.scn("C01"))
			}
			out = append(out, vzConc{name: "stop/" + r.n + "/" + o.n + "/again", fixture: []string{"/t/", "/t/a/", "/t/a/f", "/t/a/b/"}, nch: 3,
				setup: setup, threads: [][]vzOp{{vzOpWrite("/t/a/f")}, {vzOpStopFinal(0), vzOpWatch(2, "/t/a", true, Write)}}, bounds: lv[:len(lv)-1],
				then: []vzOp{vzOpWatch(0, "/t/a", false, Create), vzOpStop(0)}, final: (*vzEnv).finalDeep}.scn("C01"))
		}
	}
	var ops []vzOp
	for _, p := range []string{"/t", "/t/a", "/t/a/b", "/"} {
		for _, rec := range []bool{true, false} {
			if rec && p == "/" {
				continue
			}
			ops = append(ops, vzOpWatch(0, p, rec, Create), vzOpWatch(0, p, rec, Write|Remove))
			if p != "/t" {
				ops = append(ops, vzOpWatch(1, p, rec, Create|Write))
			}
		}
	}
	ops = append(ops, vzOpWatch(0, "/t/a/f", false, Write))
	// full channels
	for _, r := range regs[:4] {
		for c := 0; c < 2; c++ {
			for x, th := range [][][]vzOp{
				{{vzOpWrite("/t/a/f"), vzOpWrite("/t/a/f")}, {vzOpStopFinal(0)}},
				{{vzOpWrite("/t/a/f"), vzOpWrite("/t/a/f"), vzOpStopFinal(0)}},
			} {
				lv := vzPe(0, 1)
				if !thorough && r.n == "file" {
					lv = lv[:1]
				}
				out = append(out, vzConc{name: fmt.Sprintf("full/%d/%s/%d", c, r.n, x), fixture: []string{"/t/", "/t/a/", "/t/a/f", "/t/a/b/"}, nch: 2, caps: []int{c, -1},
					setup: append(append([]vzOp{}, r.up...), vzOpWatch(1, "/t", true, Write)), threads: th, bounds: lv, final: (*vzEnv).final}.scn("C01"))
			}
		}
	}
	// full channels and the creation and removal of files
	for c := 0; c < 2; c++ {
		for _, r := range [][]vzOp{{vzOpWatch(0, "/t", true, All)}, {vzOpWatch(0, "/t/a", false, All)}, {vzOpWatch(0, "/t/a", false, Remove), vzOpWatch(0, "/t/a/b", true, All)}} {
			for x, th := range [][][]vzOp{
				{{vzOpCreate("/t/a/x"), vzOpRm("/t/a/x"), vzOpMv("/t/a/f", "/t/a/g"), vzOpStopFinal(0)}},
				{{vzOpCreate("/t/a/x"), vzOpRm("/t/a/x")}, {vzOpStopFinal(0)}},
				{{vzOpMkdir("/t/a/d"), vzOpRmdir("/t/a/d")}, {vzOpStopFinal(0)}},
			} {
				lv := vzPe(0, 1)
				if x > 0 && !thorough {
					lv = lv[:1]
				}
				out = append(out, vzConc{name: fmt.Sprintf("full-any/%d/%s/%d/%d", c, r[0].name, len(r), x), fixture: []string{"/t/", "/t/a/", "/t/a/f", "/t/a/b/"}, nch: 2, caps: []int{c, -1},
					setup: append(append([]vzOp{}, r...), vzOpWatch(1, "/t", true, Remove)), threads: th, bounds: lv, final: (*vzEnv).final}.scn("C01"))
			}
		}
	}
	// what is watched goes away meanwhile
	for i, r := range [][]vzOp{
		{vzOpWatch(0, "/t/a", false, All), vzOpWatch(1, "/t", true, Create|Remove)},
		{vzOpWatch(0, "/t/a", true, All), vzOpWatch(1, "/t", true, Create|Remove)},
		{vzOpWatch(0, "/t/a", false, Remove), vzOpWatch(1, "/t/a", false, All)},
		{vzOpWatch(0, "/t/a", true, Remove), vzOpWatch(1, "/t", false, All)},
	} {
		for x, th := range [][][]vzOp{
			{{vzOpRmdir("/t/a")}, {vzOpStopFinal(0)}},
			{{vzOpRmdir("/t/a"), vzOpMkdir("/t/a")}, {vzOpStopFinal(0)}},
			{{vzOpRmdir("/t/a")}, {vzOpStopFinal(0)}, {vzOpStopFinal(1)}},
		} {
			lv := lv
			if x == 2 && !thorough {
				lv = lv[:2]
			}
			out = append(out, vzConc{name: fmt.Sprintf("going/%d/%d", i, x), fixture: []string{"/t/", "/t/a/"}, nch: 2, dying: true,
				setup: r, threads: th, bounds: lv, final: (*vzEnv).stopAll}.scn("C01"))
		}
	}
	n := 3
	if thorough {
		n = 4
	}
	out = append(out, vzMoved("C01", n+2)...)
	out = append(out, vzHistories("removed", "C01", vzTree("/t/", "/t/a/", "/t/a/b/", "/t/a/f"), 2, ops, n-1, 1, (*vzEnv).finalRemove)...)
	out = append(out, vzHistories("regs", "C01", vzTree("/t/", "/t/a/", "/t/a/b/", "/t/a/f"), 2, ops, n, 1, func(e *vzEnv) {
		e.stop(0)
		e.settle()
		e.probeDeep()
		e.stopAll()
	})...)
	return
}

// vzC08: nothing blocks or crashes.
var _ = vzFor("C08", vzC08)

func vzC08(thorough bool) (out []vzScn) {
	lv := vzLv(thorough)
	fx := []string{"/t/", "/t/a/", "/t/a/f"}
	// channels that become full by the last event
	for n := 1; n < 4; n++ {
		for _, r := range [][]vzOp{{vzOpWatch(0, "/t", true, Write)}, {vzOpWatch(0, "/t/a", false, Write)}, {vzOpWatch(0, "/t/a/f", false, Write)}, {vzOpWatch(0, "/", true, All)}} {
			out = append(out, vzConc{name: fmt.Sprintf("exactly/%d/%s", n, r[0].name), fixture: fx, nch: 2, caps: []int{n, -1}, setup: append(r[:1:1], vzOpWatch(1, "/t", true, Write)),
				threads: [][]vzOp{{vzOpWrite("/t/a/f"), vzOpWrite("/t/a/f"), vzOpWrite("/t/a/f")}}, bounds: vzPe(0), final: (*vzEnv).final}.scn("C08"))
		}
	}
	for _, c := range []struct {
		n  string
		s  []vzOp
		th [][]vzOp
	}{
		{"slow-rec", []vzOp{vzOpWatch(0, "/t", true, All), vzOpWatch(1, "/t", true, All)}, [][]vzOp{{vzOpMkdir("/t/d"), vzOpCreate("/t/d/x"), vzOpWrite("/t/a/f")}}},
		{"slow-plain", []vzOp{vzOpWatch(0, "/t/a", false, All), vzOpWatch(1, "/t", true, All)}, [][]vzOp{{vzOpWrite("/t/a/f"), vzOpCreate("/t/a/x"), vzOpRm("/t/a/x")}}},
		{"slow-same", []vzOp{vzOpWatch(0, "/t/a", false, All), vzOpWatch(1, "/t/a", false, All)}, [][]vzOp{{vzOpWrite("/t/a/f"), vzOpCreate("/t/a/x")}, {vzOpChmod("/t/a/f")}}},
		{"slow-stop", []vzOp{vzOpWatch(0, "/t", true, All), vzOpWatch(1, "/t", true, All)}, [][]vzOp{{vzOpMkdir("/t/d"), vzOpWrite("/t/a/f")}, {vzOpStopFinal(0)}}},
		{"slow-watch", []vzOp{vzOpWatch(0, "/t", true, All), vzOpWatch(1, "/t", true, All)}, [][]vzOp{{vzOpMkdir("/t/d"), vzOpWrite("/t/a/f")}, {vzOpWatch(2, "/t", true, Create)}}},
		{"watch-stop", nil, [][]vzOp{{vzOpWatch(1, "/t", true, All), vzOpStop(1)}, {vzOpWatch(2, "/t/a", false, All), vzOpStop(2)}}},
		{"watch-stop-fs", nil, [][]vzOp{{vzOpWatch(1, "/t", true, All), vzOpStop(1)}, {vzOpMkdir("/t/d"), vzOpMkdir("/t/d/e"), vzOpRmdir("/t/d/e"), vzOpRmdir("/t/d")}}},
		{"rmdir-stop", []vzOp{vzOpWatch(0, "/t", true, Create), vzOpWatch(1, "/t", true, Create|Remove)}, [][]vzOp{{vzOpMkdir("/t/d"), vzOpRmdir("/t/d"), vzOpMkdir("/t/d")}, {vzOpStop(0)}}},
		{"mv-stop", []vzOp{vzOpWatch(0, "/t", true, All), vzOpWatch(1, "/t", true, All)}, [][]vzOp{{vzOpMv("/t/a", "/t/b")}, {vzOpStop(0)}}},
		{"mv-mv-stop", []vzOp{vzOpWatch(0, "/t", true, Create), vzOpWatch(1, "/t", true, Create)}, [][]vzOp{{vzOpMv("/t/a", "/t/b"), vzOpMv("/t/b", "/t/a")}, {vzOpStop(0)}}},
	} {
		for _, caps := range [][]int{{0, -1, -1}, {1, -1, -1}} {
			for _, mc := range []int{0, 1} {
				if caps[0] == 1 && (mc == 0 || c.s == nil) {
					continue
				}
				lv := lv
				if !thorough && c.n == "rmdir-stop" && (caps[0] == 1 || mc == 1) {
					lv = lv[:2]
				}
				n := c.n + map[int]string{0: "/unbuffered", 1: "/one"}[caps[0]] + map[int]string{0: "", 1: "/tiny-queues"}[mc]
				out = append(out, vzConc{name: n, fixture: fx, nch: 3, caps: caps, setup: c.s, threads: c.th, bounds: lv, maxCap: mc, final: (*vzEnv).final}.scn("C08"))
			}
		}
	}
	return
}
