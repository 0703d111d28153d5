package notify

import "fmt"

// More threads and longer scripts than the other scenarios have; all schedules
// with a bounded number of deviations from the default one are explored.

func vzDelays(thorough bool) []vzBound {
	if thorough {
		return vzPe(0, 1, 2, 3, 4)
	}
	return vzPe(0, 1, 2)
}

var vzBusyTree = []string{"/t/", "/t/a/", "/t/a/b/", "/t/a/f", "/t/ab/"}

type vzBusy struct {
	n  string
	s  []vzOp
	th [][]vzOp
	fx []string
}

func (b vzBusy) scn(prop string, thorough bool) vzScn {
	fx := b.fx
	if fx == nil {
		fx = vzBusyTree
	}
	return vzConc{name: "busy/" + b.n, fixture: fx, nch: 4, setup: b.s, threads: b.th, bounds: vzDelays(thorough), delay: true, final: (*vzEnv).finalDeep}.scn(prop)
}

var _ = vzFor("C01", func(th bool) (out []vzScn) {
	fs := []vzOp{vzOpCreate("/t/a/x"), vzOpWrite("/t/a/f"), vzOpMkdir("/t/a/d"), vzOpCreate("/t/a/d/y"), vzOpWrite("/t/a/x")}
	for i, r := range [][]vzOp{
		{vzOpWatch(0, "/t", true, All), vzOpWatch(0, "/t/a", false, Write), vzOpWatch(0, "/t/a/f", false, All)},
		{vzOpWatch(0, "/t/a", true, Create|Write), vzOpWatch(0, "/t/a/b", true, Create)},
		{vzOpWatch(0, "/t/a", false, Create|Write)},
	} {
		s := append(append([]vzOp{}, r...), vzOpWatch(1, "/t", true, Create|Write), vzOpWatch(2, "/t/a", false, Write))
		out = append(out, vzBusy{fmt.Sprintf("stop-all/%d", i), s, [][]vzOp{fs, {vzOpStopFinal(0)}, {vzOpStopFinal(1)}, {vzOpStopFinal(2)}}, nil}.scn("C01", th))
		out = append(out, vzBusy{fmt.Sprintf("stop-watch/%d", i), s, [][]vzOp{fs, {vzOpStopFinal(0)}, {vzOpWatch(3, "/t/a", true, All)}, {vzOpStop(2), vzOpWatch(2, "/t", true, Create)}}, nil}.scn("C01", th))
		out = append(out, vzBusy{fmt.Sprintf("stop-after/%d", i), s, [][]vzOp{append(append([]vzOp{}, fs...), vzOpStopFinal(0)), {vzOpMkdir("/t/c"), vzOpMkdir("/t/c/d"), vzOpRmdir("/t/c/d")}, {vzOpStop(1), vzOpWatch(1, "/t/ab", false, Create)}}, nil}.scn("C01", th))
	}
	return
})

var _ = vzFor("C02", func(th bool) (out []vzScn) {
	fs1 := []vzOp{vzOpWrite("/t/a/f"), vzOpCreate("/t/a/x"), vzOpWrite("/t/a/x"), vzOpRm("/t/a/x"), vzOpChmod("/t/a/f")}
	fs2 := []vzOp{vzOpMkdir("/t/ab/d"), vzOpCreate("/t/ab/d/x"), vzOpCreate("/t/ab/y"), vzOpRename("/t/ab/y", "/t/a/b/y")}
	for _, b := range []vzBusy{
		{"fs", []vzOp{vzOpWatch(0, "/t", true, All), vzOpWatch(1, "/t/a", false, Write|Remove), vzOpWatch(2, "/t/a/f", false, InAttrib|Write)}, [][]vzOp{fs1, fs2, {vzOpWrite("/t/a/f"), vzOpChmod("/t/a")}}, nil},
		{"watch", []vzOp{vzOpWatch(0, "/t", true, All), vzOpWatch(1, "/t/a", false, Write|Remove)}, [][]vzOp{fs1, fs2, {vzOpWatch(2, "/t/a", true, Create|InAttrib)}, {vzOpWatch(3, "/t", false, Remove)}}, nil},
		{"stop", []vzOp{vzOpWatch(0, "/t", true, All), vzOpWatch(1, "/t/a", false, Write|Remove), vzOpWatch(2, "/t/a", true, Create|InAttrib), vzOpWatch(3, "/t", true, Remove)}, [][]vzOp{fs1, fs2, {vzOpStop(2)}, {vzOpStop(3)}}, nil},
		{"churn", []vzOp{vzOpWatch(0, "/t", true, Create|Write), vzOpWatch(1, "/t/a", false, Write|Remove)}, [][]vzOp{fs1, {vzOpWatch(2, "/t/a", true, Create|InAttrib), vzOpStop(2), vzOpWatch(2, "/t/a/f", false, Write), vzOpStop(2)}, {vzOpWatch(3, "/t", true, All), vzOpStop(3)}}, nil},
	} {
		out = append(out, b.scn("C02", th))
	}
	return
})

var _ = vzFor("C03", func(th bool) (out []vzScn) {
	w := vzOpWatch(0, "/t", true, Create|Write)
	for _, b := range []vzBusy{
		{"trees", []vzOp{w}, [][]vzOp{{vzOpMkdir("/t/c"), vzOpMkdir("/t/c/d"), vzOpMkdir("/t/c/d/e")}, {vzOpMkdir("/t/ab/c"), vzOpMv("/t/ab/c", "/t/a/c"), vzOpMkdir("/t/a/c/d")}, {vzOpRmdir("/t/a/b"), vzOpMkdir("/t/a/b"), vzOpMkdir("/t/a/b/c")}}, nil},
		{"calls", []vzOp{w, vzOpWatch(2, "/t/a", true, Remove)}, [][]vzOp{{vzOpMkdir("/t/c"), vzOpMkdir("/t/c/d"), vzOpMkdir("/t/a/c")}, {vzOpWatch(1, "/t/a", true, All)}, {vzOpStop(2)}, {vzOpWatch(3, "/t", false, All), vzOpStop(3)}}, nil},
		{"first", nil, [][]vzOp{{vzOpMkdir("/t/c"), vzOpMkdir("/t/c/d"), vzOpMkdir("/t/a/c"), vzOpMkdir("/t/a/c/d")}, {w}, {vzOpWatch(1, "/t/a", true, All)}, {vzOpWatch(2, "/t/a/b", false, Create)}}, nil},
		{"recreate", []vzOp{vzOpWatch(0, "/t", true, All), vzOpWatch(1, "/t", true, Remove)}, [][]vzOp{{vzOpRmdir("/t/a/b"), vzOpMkdir("/t/a/b"), vzOpMkdir("/t/a/b/c"), vzOpRmdir("/t/a/b/c"), vzOpMkdir("/t/a/b/c")}, {vzOpStop(1)}, {vzOpMv("/t/ab", "/t/ac"), vzOpMkdir("/t/ab")}}, nil},
		{"again", []vzOp{vzOpWatch(0, "/t", true, All)}, [][]vzOp{{vzOpRmdir("/t/a/b"), vzOpMkdir("/t/a/b"), vzOpWatch(1, "/t/a/b", false, All)}, {vzOpRmdir("/t/ab"), vzOpCreate("/t/ab"), vzOpWatch(2, "/t/ab", false, Write)}, {vzOpWatch(3, "/t", true, Create)}}, nil},
	} {
		out = append(out, b.scn("C03", th))
	}
	return
})

var _ = vzFor("C04", func(th bool) (out []vzScn) {
	s := []vzOp{vzOpWatch(0, "/t", true, Create), vzOpWatch(1, "/t/a", true, Write|Create), vzOpWatch(2, "/t/a", false, All), vzOpWatch(3, "/t/a/b", true, Remove)}
	for _, b := range []vzBusy{
		{"stops", s, [][]vzOp{{vzOpStop(0)}, {vzOpStop(1)}, {vzOpStop(2)}, {vzOpStop(3)}, {vzOpMkdir("/t/a/c"), vzOpMkdir("/t/a/b/c")}}, nil},
		{"mixed", s, [][]vzOp{{vzOpStop(0), vzOpWatch(0, "/t/ab", true, Create)}, {vzOpStop(3), vzOpStop(2)}, {vzOpWatch(1, "/t", true, Remove)}, {vzOpMkdir("/t/c"), vzOpRmdir("/t/c"), vzOpMkdir("/t/a/c")}}, nil},
		{"watches", nil, [][]vzOp{s[:1], s[1:2], s[2:3], s[3:], {vzOpMkdir("/t/a/c"), vzOpRmdir("/t/a/c")}}, nil},
		{"watches-stops", nil, [][]vzOp{{s[0], vzOpStop(0)}, {s[1], vzOpStop(1)}, {s[2], vzOpStop(2)}, {vzOpMkdir("/t/a/c"), vzOpMkdir("/t/a/c/d")}}, nil},
	} {
		out = append(out, b.scn("C04", th))
	}
	return
})

var _ = vzFor("C09", func(th bool) (out []vzScn) {
	s := []vzOp{vzOpWatch(0, "/t", true, Create), vzOpWatch(1, "/t/a", true, Write|Create)}
	fs := []vzOp{vzOpMkdir("/t/a/c"), vzOpCreate("/t/a/c/d"), vzOpWrite("/t/a/f"), vzOpRm("/t/a/c/d"), vzOpRm("/t/a/c")}
	for _, b := range []vzBusy{
		{"calls", s, [][]vzOp{fs, {vzOpStop(0), vzOpWatch(0, "/t/a/b", true, Create)}, {vzOpWatch(2, "/t", true, Remove), vzOpStop(2)}, {vzOpWatch(3, "/t/a/f", false, All)}}, nil},
		{"recreate", s, [][]vzOp{{vzOpRmdir("/t/a/b"), vzOpMkdir("/t/a/b"), vzOpWatch(2, "/t/a/b", false, All)}, {vzOpRmdir("/t/ab"), vzOpCreate("/t/ab"), vzOpWatch(3, "/t/ab", false, Write)}, {vzOpStop(1)}}, nil},
	} {
		x := b.scn("C09", th)
		x.race = true
		out = append(out, x)
	}
	return
})

var _ = vzFor("C08", func(th bool) (out []vzScn) {
	// many events at once
	var burst []vzOp
	for i := 0; i < 24; i++ {
		burst = append(burst, []vzOp{vzOpWrite("/t/a/f"), vzOpChmod("/t/a/f"), vzOpChmod("/t/a")}[i%3])
	}
	for i, o := range []vzOp{vzOpWatch(2, "/t/a", true, Create), vzOpStop(0), vzOpWatch(2, "/t/a/f", false, Write), vzOpMkdir("/t/a/d")} {
		for _, mc := range []int{1, 3} {
			out = append(out, vzConc{name: fmt.Sprintf("burst/%d/%d", mc, i), fixture: vzBusyTree, nch: 3, caps: []int{0, -1, -1}, maxCap: mc, setup: []vzOp{vzOpWatch(0, "/t", true, Write, InAttrib), vzOpWatch(1, "/t/a", false, Write, InAttrib)},
				threads: [][]vzOp{burst, {o}}, bounds: vzDelays(th)[:vzMoreIf(th, 2)], delay: true, final: (*vzEnv).final}.scn("C08"))
		}
	}
	s := []vzOp{vzOpWatch(0, "/t", true, Create), vzOpWatch(1, "/t/a", true, Write|Create)}
	for _, mc := range []int{1, 2} {
		for i, thr := range [][][]vzOp{
			{{vzOpMkdir("/t/a/c"), vzOpMkdir("/t/a/c/d"), vzOpMkdir("/t/c"), vzOpMkdir("/t/c/d"), vzOpRmdir("/t/c/d"), vzOpRmdir("/t/c")}, {vzOpStop(0), vzOpWatch(0, "/t/a/b", true, Create)}, {vzOpWatch(2, "/t", true, Remove), vzOpStop(2)}},
			{{vzOpMkdir("/t/a/c"), vzOpRmdir("/t/a/c"), vzOpMkdir("/t/a/c"), vzOpRmdir("/t/a/c")}, {vzOpMkdir("/t/c"), vzOpRmdir("/t/c"), vzOpMkdir("/t/c"), vzOpRmdir("/t/c")}, {vzOpStop(0)}, {vzOpStop(1)}},
		} {
			out = append(out, vzConc{name: fmt.Sprintf("busy/%d/%d", mc, i), fixture: vzBusyTree, nch: 3, caps: []int{0, 1, -1}, maxCap: mc, setup: s, threads: thr, bounds: vzDelays(th), delay: true, final: (*vzEnv).final}.scn("C08"))
		}
	}
	return
})
