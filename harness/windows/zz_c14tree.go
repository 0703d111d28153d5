package notify

import (
	"fmt"
	"strings"

	"vmc/kern"
	"vmc/vs"
)

var _ = vzFor("C14", vzC14tree)

// vzC14tree: the whole library, one call or change at a time.
func vzC14tree(thorough bool) (out []vzScn) {
	fx := vzTree("/d/", "/d/a", "/d/s/", "/d/s/x", "/d/t/", "/o/", "/o/y")
	all := Create | Remove | Write | Rename
	var regs []vzReg
	for ch := 0; ch < 2; ch++ {
		for _, p := range []string{"/d", "/d/s", "/d/t"} {
			for _, rec := range []bool{false, true} {
				for _, e := range []Event{all, Create | Write} {
					regs = append(regs, vzReg{ch, p, rec, e})
				}
			}
		}
	}
	ops := []vzWop{
		vzWcreate("/d/n", false), vzWmv("/d/n", "/d/m"), vzWmod("write", FileNotifyChangeSize, "/d/a"), vzWcreate("/d/s/k", true), vzWmod("chattr", FileNotifyChangeAttributes, "/d/s"),
		vzWmod("write", FileNotifyChangeSize, "/d/s/x"), vzWmv("/d/s/x", "/d/s/z"), vzWrm("/d/a"),
	}
	n := 4
	if thorough {
		n = 5
	}
	for i := range regs {
		if regs[i].ch != 0 {
			continue
		}
		i := i
		out = append(out, vzScn{name: "tree/" + vzRegText(regs[i:i+1]), serial: true, bounds: vzPe(0), kern: fx, body: func() {
			x := &vzWt{k: kern.Cur(), t: newTree()}
			for c := 0; c < 2; c++ {
				x.chans = append(x.chans, vs.Made(make(chan EventInfo, 64)))
			}
			vs.Quiesce()
			x.watch(regs[i])
			for d := 1; d < n; d++ {
				switch j := vs.Choose("op", len(regs)+len(ops)+3, false); {
				case j < len(regs):
					x.watch(regs[j])
				case j < len(regs)+len(ops):
					x.fs(ops[j-len(regs)])
				case j < len(regs)+len(ops)+2:
					ch := j - len(regs) - len(ops)
					x.note(fmt.Sprintf("Stop(c%d)", ch))
					x.t.Stop(x.chans[ch])
					x.now = vzDrop(x.now, ch)
					vs.Quiesce()
					vs.CheckIdle()
				default:
					x.note("Stop(nil)")
					x.t.Stop(nil)
					vs.Quiesce()
				}
				vs.CountState()
			}
			for _, o := range ops {
				x.fs(o)
			}
			x.end()
		}})
	}
	step := func(o vzWop) vzLibStep {
		return vzLibStep{o.name, func(x *vzLib) {
			o.do(x.k)
			x.note(o.name)
		}}
	}
	ev := func(e Event, p string) string { return fmt.Sprintf("%v %s", e, p) }
	at := func(ch int, e Event, p string) string { return fmt.Sprintf("%d %v %s", ch, e, p) }
	create, write, mkdir := step(vzWcreate("/d/n", false)), step(vzWmod("write", FileNotifyChangeSize, "/d/a")), step(vzWcreate("/d/s/k", true))
	for _, c := range []vzLibScn{
		{"stop-create", []vzLibStep{vzLwatch(0, "/d", true, all), vzLwatch(1, "/d", false, all)}, [][]vzLibStep{{create}, {vzLstop(0)}},
			[]string{at(1, Create, "/d/n")}, []string{ev(Create, "/d/n")}},
		{"stop-write", []vzLibStep{vzLwatch(0, "/d/s", false, all), vzLwatch(1, "/d", true, Write)}, [][]vzLibStep{{write, mkdir}, {vzLstop(1)}},
			[]string{at(0, Create, "/d/s/k")}, []string{ev(Write, "/d/a"), ev(Create, "/d/s/k")}},
		{"watch-other", []vzLibStep{vzLwatch(0, "/d", true, all)}, [][]vzLibStep{{create, mkdir}, {vzLwatch(1, "/d/s", false, Create)}},
			[]string{at(0, Create, "/d/n"), at(0, Create, "/d/s/k")}, []string{ev(Create, "/d/n"), ev(Create, "/d/s/k")}},
		{"watch-parent", []vzLibStep{vzLwatch(0, "/d/s", true, all)}, [][]vzLibStep{{create, mkdir}, {vzLwatch(1, "/d", true, Create)}},
			nil, []string{ev(Create, "/d/n"), ev(Create, "/d/s/k")}},
		{"watch-watch-stop", nil, [][]vzLibStep{{vzLwatch(0, "/d", false, all)}, {vzLwatch(1, "/d/s", false, Create), vzLstop(1)}, {write}},
			nil, []string{ev(Write, "/d/a")}},
		{"stop-stop", []vzLibStep{vzLwatch(0, "/d", true, Create|Write), vzLwatch(1, "/d/s", true, all)}, [][]vzLibStep{{vzLstop(0)}, {vzLstop(1)}, {mkdir}},
			nil, []string{ev(Create, "/d/s/k")}},
		{"stop-watch", []vzLibStep{vzLwatch(0, "/d", true, Create|Write)}, [][]vzLibStep{{vzLstop(0)}, {vzLwatch(1, "/d", true, all)}, {create}},
			nil, []string{ev(Create, "/d/n")}},
	} {
		lv := vzPe(0, 1, 2)
		if thorough {
			lv = vzPe(0, 1, 2, 3)
		}
		out = append(out, c.scn("C14", lv, fx, func(x *vzLib) {
			y := &vzWt{k: x.k, t: x.t, chans: x.chans, now: x.reg, log: x.log}
			for _, o := range append([]vzWop{vzWcreate("/d/q", false), vzWcreate("/d/s/q", false)}, ops...) {
				y.fs(o)
			}
			y.end()
		}))
	}
	return
}

// vzWt: the whole library on Windows and its registrations.
type vzWt struct {
	k     *kern.K
	t     tree
	chans []chan EventInfo
	now   []vzReg
	log   []string
}

func (x *vzWt) fail(f string, a ...any) {
	vs.Fail("C14", "%s\n  registrations: %s\n  history: %s", fmt.Sprintf(f, a...), vzRegText(x.now), strings.Join(x.log, "; "))
}

func (x *vzWt) note(s string) { x.log = append(x.log, s); vs.Note("%s", s) }

func (x *vzWt) fs(o vzWop) {
	x.note(o.name)
	cs := o.do(x.k)
	vs.Quiesce()
	vs.CheckIdle()
	for ch, c := range x.chans {
		got := map[string]int{}
		for _, ei := range vs.Drain(c) {
			got[fmt.Sprintf("%v %s", ei.Event(), ei.Path())]++
		}
		for _, c := range cs {
			ev := vzGen[c.action]
			key := fmt.Sprintf("%v %s", ev, c.p)
			var up []vzReg // a directory does not report changes of its own
			for _, r := range x.now {
				if r.path != c.p {
					up = append(up, r)
				}
			}
			min, max := vzDue(up, ch, ev, c.p, true), vzDue(x.now, ch, ev, c.p, false)
			if got[key] < min || got[key] > max {
				x.fail("channel %d received %q %d times, not %d to %d", ch, key, got[key], min, max)
			}
			delete(got, key)
		}
		for key := range got {
			x.fail("channel %d received %q, which it is not due", ch, key)
		}
	}
	if len(x.k.Closed) > 0 {
		x.fail("%s", x.k.Closed[0])
	}
}

func (x *vzWt) watch(r vzReg) {
	x.note("Watch " + vzRegText([]vzReg{r}))
	if err := x.t.Watch(vzSpell(r.path, r.rec), x.chans[r.ch], r.e); err != nil {
		x.fail("Watch: %v", err)
	}
	x.now = vzAdd(x.now, r)
	vs.Quiesce()
	vs.CheckIdle()
}

func (x *vzWt) end() {
	x.note("Stop all")
	x.t.Stop(x.chans[0])
	x.t.Stop(x.chans[1])
	x.now = nil
	vs.Quiesce()
	vs.CheckIdle()
	ds, _ := x.k.WinDirs()
	if len(ds) > 0 {
		x.fail("a handle of %s is still open after all channels were stopped", ds[0].Path)
	}
	if err := x.t.Close(); err != nil {
		x.fail("Close: %v", err)
	}
	vs.Quiesce()
	if len(x.k.Closed) > 0 {
		x.fail("%s", x.k.Closed[0])
	}
}
