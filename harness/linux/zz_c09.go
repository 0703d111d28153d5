package notify

import (
	"fmt"

	"vmc/kern"
	"vmc/vs"
)

// vzC09: no data races, and concurrent calls take effect one after the other.
var _ = vzFor("C09", vzC09)

func vzC09(thorough bool) (out []vzScn) {
	lv := vzLv(thorough)
	fx := []string{"/t/", "/t/a/", "/t/a/f"}
	quick := lv[:len(lv)-1]
	for _, c := range []struct {
		n  string
		b  []vzBound
		s  []vzOp
		th [][]vzOp
	}{
		{"first", lv, nil, [][]vzOp{{vzOpWatch(0, "/t", false, Create)}, {vzOpWatch(1, "/t/a", false, Create)}}},
		{"first-rec", lv, nil, [][]vzOp{{vzOpWatch(0, "/t", true, Create)}, {vzOpWatch(1, "/t/a", false, Write)}, {vzOpCreate("/t/x")}}},
		{"watch-stop", lv, []vzOp{vzOpWatch(1, "/t", true, Create)}, [][]vzOp{{vzOpWatch(0, "/t/a", false, Create), vzOpStop(0)}, {vzOpStop(1)}}},
		{"watch-fs", lv, []vzOp{vzOpWatch(1, "/t", true, Create)}, [][]vzOp{{vzOpWatch(0, "/t/a", false, Write)}, {vzOpMkdir("/t/d"), vzOpWrite("/t/a/f")}}},
		{"stop-fs", lv, []vzOp{vzOpWatch(1, "/t", true, All)}, [][]vzOp{{vzOpStop(1)}, {vzOpMkdir("/t/d"), vzOpRmdir("/t/d")}}},
		{"two-events", lv, []vzOp{vzOpWatch(1, "/t", true, Create), vzOpWatch(0, "/t/a", false, All, InCreate)}, [][]vzOp{{vzOpMkdir("/t/d")}, {vzOpMkdir("/t/a/d")}}},
		{"mv", quick, []vzOp{vzOpWatch(1, "/t", true, Create|Rename)}, [][]vzOp{{vzOpMv("/t/a", "/t/b")}, {vzOpWatch(0, "/t", false, Remove)}}},
		{"raw", lv, []vzOp{vzOpWatch(1, "/t/a", false, InModify, Write, InCreate, Create)}, [][]vzOp{{vzOpWrite("/t/a/f")}, {vzOpCreate("/t/a/g")}}},
	} {
		s := vzConc{name: "race/" + c.n, fixture: fx, nch: 2, setup: c.s, threads: c.th, bounds: c.b, final: (*vzEnv).final}.scn("C09")
		s.race = true
		out = append(out, s)
	}
	add := func(name string, b []vzBound, body func()) {
		out = append(out, vzScn{name: name, race: true, bounds: b, kern: vzTree(fx...), body: body})
	}
	// the watcher itself
	type op struct {
		n string
		f func(x *vzW)
	}
	w := func(p string, e Event) op {
		return op{"watch " + p, func(x *vzW) {
			if err := x.w.Watch(p, e); err != nil {
				vs.Fail("C09", "Watch(%s): %v", p, err)
			}
		}}
	}
	rw := op{"rewatch /t", func(x *vzW) {
		if err := x.w.Rewatch("/t", Create, Create|Write); err != nil {
			vs.Fail("C09", "Rewatch: %v", err)
		}
	}}
	uw := op{"unwatch /t", func(x *vzW) {
		if err := x.w.Unwatch("/t"); err != nil {
			vs.Fail("C09", "Unwatch: %v", err)
		}
	}}
	cl := op{"close", func(x *vzW) { x.w.Close() }}
	ww := op{"watch2 /t/a", func(x *vzW) { x.w.Watch("/t/a", Create) }}
	fs := op{"create", func(x *vzW) { x.k.Create("/t/x"); x.k.Create("/t/y") }}
	for _, c := range []struct {
		setup []op
		th    []op
	}{
		{nil, []op{w("/t", Create), w("/t/a", Create)}},
		{nil, []op{w("/t", Create), fs, w("/t/a", Create)}},
		{[]op{w("/t", Create)}, []op{rw, fs}},
		{[]op{w("/t", Create)}, []op{uw, fs}},
		{[]op{w("/t", Create)}, []op{cl, fs}},
		{[]op{w("/t", Create)}, []op{cl, cl}},
		{[]op{w("/t", Create)}, []op{cl, ww}},
		{[]op{w("/t", Create)}, []op{w("/t/a", Create), uw, fs}},
	} {
		c := c
		n := "race/watcher"
		for _, o := range c.setup {
			n += "/" + o.n
		}
		for _, o := range c.th {
			n += "+" + o.n
		}
		b := lv
		if len(c.th) > 2 {
			b = quick
		}
		add(n, b, func() {
			x := vzNewW(64)
			for _, o := range c.setup {
				o.f(x)
			}
			vs.Calm(false)
			for i, o := range c.th {
				o := o
				vs.Thread(fmt.Sprintf("user%d", i), func() { o.f(x) })
			}
			vs.Quiesce()
			x.drain()
			vs.Calm(true)
			x.w.Close()
		})
	}
	out = append(out, vzLin(thorough)...)
	return
}

// ---- sequential equivalence --------------------------------------------

// vzCall is one call of Watch or Stop, with its place in real time.
type vzCall struct {
	watch    bool
	ch       int
	r        vzReg
	inv, ret int
}

func vzLin(thorough bool) (out []vzScn) {
	lv := vzLv(thorough)
	W := func(ch int, p string, rec bool, e Event) vzCall {
		return vzCall{watch: true, ch: ch, r: vzReg{ch, p, rec, e}}
	}
	S := func(ch int) vzCall { return vzCall{ch: ch} }
	for i, th := range [][][]vzCall{
		{{W(0, "/t/a", false, Create)}, {S(0)}},
		{{W(0, "/t", true, Create)}, {S(0)}},
		{{W(0, "/t", true, Create), S(0)}, {W(0, "/t/a", false, Write)}},
		{{W(0, "/t", true, Create)}, {W(0, "/t/a", true, Write), S(0)}},
		{{S(0), W(0, "/t/a", false, Write)}, {W(0, "/t/a", false, Create), S(0)}},
		{{W(0, "/t", true, Create), S(0)}, {W(1, "/t", true, Create), S(1)}},
		{{W(0, "/t", true, Create)}, {W(1, "/t/a", true, Write)}, {S(0)}},
		{{W(0, "/t/a", false, Create), S(0)}, {W(0, "/t/a", false, Write), S(0)}},
		{{W(0, "/t/a", false, Create), W(0, "/t/a/b", true, Create)}, {S(0)}},
		{{W(0, "/t/a", false, Create)}, {W(0, "/t/a", false, Write)}, {S(0)}},
	} {
		for _, pre := range []struct {
			n string
			s []vzOp
		}{{"", nil}, {"/c0", []vzOp{vzOpWatch(0, "/t/a", false, Remove)}}, {"/c1", []vzOp{vzOpWatch(1, "/t", true, Remove)}}} {
			th, pre := th, pre
			b := lv
			if len(th) > 2 {
				b = lv[:len(lv)-1]
			}
			out = append(out, vzScn{name: fmt.Sprintf("linear/%d%s", i, pre.n), race: true, bounds: b, kern: vzTree("/t/", "/t/a/", "/t/a/b/"), body: func() {
				vzLinBody(pre.s, th)
			}})
		}
	}
	return
}

func vzLinBody(setup []vzOp, threads [][]vzCall) {
	vs.Calm(true)
	e := vzNewEnv("C09", 2, 64)
	e.used = 2
	for _, o := range setup {
		o.do(e)
		e.settle()
	}
	pre := e.reg
	var calls []*vzCall
	clock := 0
	vs.Calm(false)
	for i, th := range threads {
		th := th
		vs.Thread(fmt.Sprintf("user%d", i), func() {
			for _, c := range th {
				c := c
				clock++
				c.inv = clock
				if c.watch {
					if err := Watch(vzSpell(c.r.path, c.r.rec), e.chans[c.ch], c.r.e); err != nil {
						e.fail("Watch: %v", err)
					}
					e.note("Watch(%s, c%d, %v)", vzSpell(c.r.path, c.r.rec), c.ch, c.r.e)
				} else {
					Stop(e.chans[c.ch])
					e.note("Stop(c%d)", c.ch)
				}
				clock++
				c.ret = clock
				calls = append(calls, &c)
			}
		})
	}
	vs.Quiesce()
	vs.Calm(true)
	e.settleOnly()
	// all outcomes that some order of the calls explains
	type outcome struct{ regs []vzReg }
	var outs [][]vzReg
	keys := map[string]bool{}
	var rec func(left []*vzCall, regs []vzReg)
	rec = func(left []*vzCall, regs []vzReg) {
		if len(left) == 0 {
			s := fmt.Sprint(vzNorm(regs))
			if !keys[s] {
				keys[s] = true
				outs = append(outs, regs)
			}
			return
		}
		for i, c := range left {
			first := true
			for _, d := range left {
				if d != c && d.ret < c.inv {
					first = false
				}
			}
			if !first {
				continue
			}
			rest := append(append([]*vzCall(nil), left[:i]...), left[i+1:]...)
			if c.watch {
				rec(rest, vzAdd(regs, c.r))
			} else {
				rec(rest, vzDrop(regs, c.ch))
			}
		}
	}
	rec(calls, pre)
	// what it does now
	e.k.Create("/t/z")
	e.k.Unlink("/t/z")
	e.k.Create("/t/a/z")
	e.k.WriteFile("/t/a/z")
	e.k.Unlink("/t/a/z")
	e.k.Create("/t/a/b/z")
	e.k.WriteFile("/t/a/b/z")
	e.k.Unlink("/t/a/b/z")
	vs.Quiesce()
	vs.CheckIdle()
	got := map[int][]vzGot{}
	for ch := range e.chans {
		got[ch] = e.drain(ch)
	}
	var why string
	for _, o := range outs {
		e.reg = o
		e.phase()
		msg := e.soft(func() {
			e.given = got
			e.deliveries()
			e.marks()
		})
		e.given = nil
		if msg == "" {
			e.stopAll()
			return
		}
		why += "\n  --" + msg
		e.seen = e.linSeen
	}
	e.fail("no order of the calls explains the outcome:%s", why)
}

func vzNorm(regs []vzReg) (s []string) {
	for _, r := range regs {
		if r.e != 0 {
			s = append(s, fmt.Sprint(r))
		}
	}
	vzSort(s)
	return
}

// settleOnly forgets what has happened so far.
func (e *vzEnv) settleOnly() {
	for ch := range e.chans {
		e.drain(ch)
	}
	e.seen = len(e.k.Events)
	e.linSeen = e.seen
	e.snap()
}

var _ = kern.Cur
