package notify

import (
	"fmt"
	"path"
	"strings"

	"vmc/kern"
	"vmc/vs"
)

// The whole library on kqueue: each step is one change or one call, and the
// library is idle before the next.

type vzKt struct {
	k     *kern.K
	t     tree
	chans []chan EventInfo
	regs  []vzReg
	old   []vzReg // of files that are gone; may come back with the name
	log   []string
}

func (x *vzKt) fail(f string, a ...any) {
	vs.Fail("C12", "%s\n  registrations: %s\n  history: %s", fmt.Sprintf(f, a...), vzRegText(x.regs), strings.Join(x.log, "; "))
}

func (x *vzKt) note(s string) { x.log = append(x.log, s); vs.Note("%s", s) }

// watched: the event set needed on p by registrations of its own.
func (x *vzKt) need(p string, dir bool) Event {
	e, _ := vzNeed(x.regs, p, dir)
	return e
}

func (x *vzKt) fs(o vzFsOp) {
	x.note(o.name)
	cs := o.do(x.k)
	vs.Quiesce()
	vs.CheckIdle()
	type key struct {
		ch int
		v  vzKev
	}
	min, max := map[key]int{}, map[key]int{}
	for _, c := range cs {
		for _, b := range vzBits[c.kind] {
			if b&(Create|Remove|Write|Rename) == 0 {
				continue
			}
			for ch := range x.chans {
				k := key{ch, vzKev{p: c.p, ev: b}}
				max[k] += vzDue(append(x.old[:len(x.old):len(x.old)], x.regs...), ch, b, c.p, false)
				if c.kind == "moved" {
					continue
				}
				if c.kind == "create" && x.need(path.Dir(c.p), true)&Create == 0 {
					continue
				}
				min[k] += vzDue(x.regs, ch, b, c.p, true)
			}
		}
	}
	for ch, c := range x.chans {
		got := map[key]int{}
		for _, ei := range vs.Drain(c) {
			k := key{ch, vzKev{p: ei.Path(), ev: ei.Event()}}
			got[k]++
			if got[k] > max[k] {
				x.fail("channel %d received %v (time %d), which it is not due", ch, k.v, got[k])
			}
		}
		for k, n := range min {
			if k.ch == ch && got[k] < n {
				x.fail("channel %d did not receive %v", ch, k.v)
			}
		}
	}
	// a registration ends with the file, or goes on for what has its name then
	var keep []vzReg
	for _, r := range x.regs {
		gone := false
		for _, c := range cs {
			if (c.kind == "remove" || c.kind == "rename" || c.kind == "moved") && c.p == r.path {
				gone = true
			}
		}
		if gone {
			x.old = append(x.old, r)
		} else {
			keep = append(keep, r)
		}
	}
	x.regs = keep
}

var _ = vzFor("C12", vzC12tree)

func vzC12tree(thorough bool) (out []vzScn) {
	fx := vzTree("/d/", "/d/a", "/d/s/", "/d/s/x", "/o/", "/o/y")
	all := Create | Remove | Write | Rename
	regs := [][]vzReg{
		{{0, "/d", true, all}},
		{{0, "/d", true, all}, {1, "/d/a", false, Write}},
		{{0, "/d", false, all}, {1, "/d", true, Create | Remove}},
		{{0, "/d", true, Create}, {1, "/d/s", false, Write | Remove}},
		{{0, "/d/s", true, all}, {1, "/d", false, Write}},
		{{0, "/d/a", false, Write}, {1, "/d/a", false, Remove}},
	}
	ops := []vzFsOp{
		vzFcreate("/d/n"), vzFwrite("/d/a"), vzFrm("/d/a"), vzFmv("/d/n", "/d/a"), vzFcreate("/d/a"), vzFmkdir("/d/k"), vzFcreate("/d/k/m"), vzFrm("/d/k/m"), vzFrm("/d/k"), vzFmv("/d/k", "/d/l"), vzFcreate("/d/l/m"),
		vzFcreate("/d/s/z"), vzFwrite("/d/s/x"), vzFrm("/d/s/x"), vzFmv("/d/s", "/d/k"), vzFmv("/d/s", "/o/s"),
	}
	n := 4
	if thorough {
		n = 5
	}
	body := func(rs []vzReg, next []func(x *vzKt), first, n int) func() {
		return func() {
			x := &vzKt{k: kern.Cur(), t: newTree()}
			for c := 0; c < 2; c++ {
				x.chans = append(x.chans, vs.Made(make(chan EventInfo, 64)))
			}
			vs.Quiesce()
			for _, r := range rs {
				x.watch(r)
			}
			for d := 0; d < n; d++ {
				f := first
				if d > 0 {
					f = vs.Choose("step", len(next), false)
				}
				next[f](x)
				vs.CountState()
			}
			x.stopAll()
		}
	}
	for i := range regs {
		var steps []func(x *vzKt)
		for _, o := range ops {
			o := o
			steps = append(steps, func(x *vzKt) { x.fs(o) })
		}
		for j := range ops {
			out = append(out, vzScn{name: fmt.Sprintf("tree/%d/%s", i, ops[j].name), serial: true, bounds: vzPe(0), kern: fx, body: body(regs[i], steps, j, n)})
		}
	}
	// calls in between
	var steps []func(x *vzKt)
	for _, r := range []vzReg{{0, "/d", true, all}, {0, "/d", false, Write}, {1, "/d", false, Create | Remove}, {1, "/d/a", false, Write}, {0, "/d/s", true, Create | Write}, {1, "/d/s", true, Remove}, {1, "/d/s", false, Create}, {0, "/d/s/x", false, Write | Remove}} {
		r := r
		steps = append(steps, func(x *vzKt) {
			if _, err := x.k.Lookup(r.path, false); err == 0 {
				x.watch(r)
				vs.Quiesce()
			}
		})
	}
	calls := len(steps)
	for ch := 0; ch < 2; ch++ {
		ch := ch
		steps = append(steps, func(x *vzKt) {
			x.note(fmt.Sprintf("Stop(c%d)", ch))
			x.t.Stop(x.chans[ch])
			x.regs, x.old = vzDrop(x.regs, ch), vzDrop(x.old, ch)
			vs.Quiesce()
			vs.CheckIdle()
		})
	}
	steps = append(steps, func(x *vzKt) {
		x.note("Stop(nil)")
		x.t.Stop(nil)
		vs.Quiesce()
	})
	for _, o := range []vzFsOp{vzFcreate("/d/n"), vzFwrite("/d/a"), vzFrm("/d/a"), vzFcreate("/d/s/z"), vzFwrite("/d/s/x"), vzFrm("/d/s/x"), vzFmkdir("/d/k"), vzFcreate("/d/k/m")} {
		o := o
		steps = append(steps, func(x *vzKt) { x.fs(o) })
	}
	for j := 0; j < calls; j++ {
		out = append(out, vzScn{name: fmt.Sprintf("calls/%d", j), serial: true, bounds: vzPe(0), kern: fx, body: body(nil, steps, j, n+1)})
	}
	return
}

func (x *vzKt) watch(r vzReg) {
	x.note(fmt.Sprintf("Watch(%s,c%d,%v)", vzSpell(r.path, r.rec), r.ch, r.e))
	if err := x.t.Watch(vzSpell(r.path, r.rec), x.chans[r.ch], r.e); err != nil {
		x.fail("Watch: %v", err)
	}
	x.regs = vzAdd(x.regs, r)
}
