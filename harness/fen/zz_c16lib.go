package notify

import (
	"fmt"

	"vmc/vs"
)

var _ = vzFor("C16", func(th bool) (out []vzScn) {
	fx := vzTree("/d/", "/d/a", "/d/s/", "/d/s/x", "/o/", "/o/y")
	all := Create | Remove | Write | Rename
	fs := func(o vzFsOp) vzLibStep {
		return vzLibStep{o.name, func(x *vzLib) {
			o.do(x.k)
			x.note(o.name)
		}}
	}
	ev := func(e Event, p string) string { return fmt.Sprintf("%v %s", e, p) }
	at := func(ch int, e Event, p string) string { return fmt.Sprintf("%d %v %s", ch, e, p) }
	for _, c := range []vzLibScn{
		{"stop-create", []vzLibStep{vzLwatch(0, "/d", true, all), vzLwatch(1, "/d", false, all)}, [][]vzLibStep{{fs(vzFcreate("/d/n"))}, {vzLstop(0)}},
			[]string{at(1, Create, "/d/n")}, []string{ev(Create, "/d/n"), ev(Write, "/d"), ev(Write, "/d/n")}},
		{"stop-write", []vzLibStep{vzLwatch(0, "/d/a", false, Write), vzLwatch(1, "/d", true, Write)}, [][]vzLibStep{{fs(vzFwrite("/d/a"))}, {vzLstop(1)}},
			[]string{at(0, Write, "/d/a")}, []string{ev(Write, "/d/a")}},
		{"stop-remove", []vzLibStep{vzLwatch(0, "/d", false, Create), vzLwatch(1, "/d", true, all)}, [][]vzLibStep{{fs(vzFrm("/d/a"))}, {vzLstop(1)}},
			nil, []string{ev(Remove, "/d/a"), ev(Write, "/d"), ev(Write, "/d/a")}},
		{"watch-mkdir", []vzLibStep{vzLwatch(0, "/d", true, all)}, [][]vzLibStep{{fs(vzFmkdir("/d/k")), fs(vzFcreate("/d/k/m"))}, {vzLwatch(1, "/d/s", false, all)}},
			[]string{at(0, Create, "/d/k")}, []string{ev(Create, "/d/k"), ev(Create, "/d/k/m"), ev(Write, "/d"), ev(Write, "/d/k"), ev(Write, "/d/k/m")}},
		{"watch-watch-stop", nil, [][]vzLibStep{{vzLwatch(0, "/d", false, all)}, {vzLwatch(1, "/d/a", false, Write), vzLstop(1)}, {fs(vzFwrite("/d/a"))}},
			nil, []string{ev(Write, "/d/a")}},
		{"stop-mkdir", []vzLibStep{vzLwatch(0, "/d", true, Create|Remove)}, [][]vzLibStep{{fs(vzFmkdir("/d/k")), fs(vzFcreate("/d/k/m"))}, {vzLstop(0)}},
			nil, []string{ev(Create, "/d/k"), ev(Create, "/d/k/m")}},
		{"stop-stop", []vzLibStep{vzLwatch(0, "/d", true, Create|Write), vzLwatch(1, "/d/s", true, Write|Remove)}, [][]vzLibStep{{vzLstop(0)}, {vzLstop(1)}, {fs(vzFwrite("/d/s/x"))}},
			nil, []string{ev(Write, "/d/s/x")}},
	} {
		lv := vzPe(0, 1, 2)
		if th {
			lv = vzPe(0, 1, 2, 3)
		}
		out = append(out, c.scn("C16", lv, fx, func(x *vzLib) {
			y := &vzFt{k: x.k, t: x.t, chans: x.chans, regs: x.reg, log: x.log}
			for _, o := range []vzFsOp{vzFcreate("/d/q"), vzFwrite("/d/q"), vzFwrite("/d/s/x"), vzFcreate("/d/s/q"), vzFmkdir("/d/u"), vzFcreate("/d/u/v")} {
				y.fs(o)
			}
			y.stopAll()
		}))
	}
	return
})

// stopAll ends everything and looks for leftovers.
func (x *vzFt) stopAll() {
	x.note("Stop")
	for _, c := range x.chans {
		x.t.Stop(c)
	}
	x.regs, x.old = nil, nil
	vs.Quiesce()
	vs.CheckIdle()
	if l := x.k.FenWatches(); len(l) > 0 {
		x.fail("%s is still associated after all channels were stopped", l[0].Name)
	}
	if n := vzH().vzLive(); n > 2 { // two watchers, that of the package itself included, wait in port_get
		x.fail("%d native objects are left after all channels were stopped", n-2)
	}
	if len(x.k.Closed) > 0 {
		x.fail("%s", x.k.Closed[0])
	}
	if b := vzH().bad; b != "" {
		x.fail("%s", b)
	}
}
