package notify

import (
	"errors"
	"fmt"
	"path"
	"sort"
	"strings"

	"vmc/kern"
	"vmc/vs"
)

// vzNat is a watcher that watches recursively by itself. It follows the
// contract of the recursiveWatcher interface to the letter and refuses what
// it does not allow.
type vzNat struct {
	e     *vzR
	o     vs.Obj
	w     map[string]vzNatW
	fails bool // operations may fail
	nfail int
}

type vzNatW struct {
	set Event
	rec bool
}

type vzNatEv struct {
	ev Event
	p  string
}

func (v *vzNatEv) Event() Event         { return v.ev }
func (v *vzNatEv) Path() string         { return v.p }
func (v *vzNatEv) Sys() interface{}     { return nil }
func (v *vzNatEv) isDir() (bool, error) { return false, nil }

var vzErrNat = errors.New("no more resources")

func (n *vzNat) op(name string, f func() string) (err error) {
	vs.Point(vs.Op{Name: name, Exec: func() {
		vs.Touch(&n.o, true)
		n.e.note("%s", name)
		// failures to set up a watch; nothing is specified for failures to end one
		if n.fails && !strings.Contains(name, "nwatch") && vs.Choose("native operation fails", 2, true) == 1 {
			n.nfail++
			n.e.note("(fails)")
			err = vzErrNat
			return
		}
		if msg := f(); msg != "" {
			n.e.fail("native", "invalid native operation %s: %s\n  native watches: %s", name, msg, n.text())
		}
	}})
	return
}

func (n *vzNat) text() string {
	var s []string
	for p, w := range n.w {
		d := ""
		if w.rec {
			d = "/..."
		}
		s = append(s, fmt.Sprintf("%s%s[%v]", p, d, w.set))
	}
	sort.Strings(s)
	return strings.Join(s, " ")
}

func (n *vzNat) add(p string, e Event, rec bool) string {
	_, ok := n.w[p]
	n.w[p] = vzNatW{e, rec}
	if ok {
		return "the path is watched already"
	}
	if e == 0 || e&internal != 0 {
		return fmt.Sprintf("event set %#x", uint32(e))
	}
	return ""
}

func (n *vzNat) del(p string) string {
	if _, ok := n.w[p]; !ok {
		return "the path is not watched"
	}
	delete(n.w, p)
	return ""
}

func (n *vzNat) change(p string, old, e Event, rec bool) string {
	w, ok := n.w[p]
	if !ok {
		return "the path is not watched"
	}
	n.w[p] = vzNatW{e, rec}
	switch {
	case w.set != old:
		return fmt.Sprintf("the event set is %v", w.set)
	case e == 0 || e&internal != 0:
		return fmt.Sprintf("new event set %#x", uint32(e))
	}
	return ""
}

func (n *vzNat) Watch(p string, e Event) error {
	return n.op(fmt.Sprintf("native Watch(%s, %v)", p, e), func() string { return n.add(p, e, false) })
}
func (n *vzNat) RecursiveWatch(p string, e Event) error {
	return n.op(fmt.Sprintf("native RecursiveWatch(%s, %v)", p, e), func() string { return n.add(p, e, true) })
}
func (n *vzNat) Unwatch(p string) error {
	return n.op(fmt.Sprintf("native Unwatch(%s)", p), func() string { return n.del(p) })
}
func (n *vzNat) RecursiveUnwatch(p string) error {
	return n.op(fmt.Sprintf("native RecursiveUnwatch(%s)", p), func() string { return n.del(p) })
}
func (n *vzNat) Rewatch(p string, old, e Event) error {
	return n.op(fmt.Sprintf("native Rewatch(%s, %v, %v)", p, old, e), func() string { return n.change(p, old, e, false) })
}
func (n *vzNat) RecursiveRewatch(p, q string, old, e Event) error {
	return n.op(fmt.Sprintf("native RecursiveRewatch(%s, %s, %v, %v)", p, q, old, e), func() string {
		if p == q {
			return n.change(p, old, e, true)
		}
		w, ok := n.w[p]
		s, t := n.del(p), n.add(q, e, true)
		switch {
		case ok && w.set != old:
			return fmt.Sprintf("the event set is %v", w.set)
		case s != "":
			return s
		}
		return t
	})
}
func (n *vzNat) Close() error { n.w = map[string]vzNatW{}; return nil }

// vzNative is a native recursive watcher as seen by the reference.
type vzNative interface {
	text() string
	has(r vzReg) bool        // a native watch covers r
	count() int              // native watches in place
	emit(p string, ev Event) // something happens to p
	faulty(on bool)          // operations may fail
	failures() int
}

// vzR is a recursive tree on top of a native watcher with the reference
// registrations.
type vzR struct {
	prop  string
	only  string  // judge this alone: stop, deliver, remain
	evs   []Event // that are probed
	k     *kern.K
	t     vzTreeI
	n     vzNative
	c     chan EventInfo
	chans []chan EventInfo
	reg   []vzReg
	log   []string
	used  int
	flaky bool
	tiny  bool // the channels cannot hold everything
}

func vzNewR(nch int) *vzR {
	return vzNewRW("C10", nch, func(e *vzR) (vzNative, vzRW) {
		n := &vzNat{e: e, w: map[string]vzNatW{}}
		return n, n
	})
}

func vzNewRW(prop string, nch int, mk func(e *vzR) (vzNative, vzRW)) *vzR {
	e := &vzR{prop: prop, k: kern.Cur(), evs: []Event{Create, Write, Remove}}
	e.c = vs.Made(make(chan EventInfo, 256))
	for i := 0; i < nch; i++ {
		e.chans = append(e.chans, vs.Made(make(chan EventInfo, 256)))
	}
	n, w := mk(e)
	e.n = n
	e.t = newRecursiveTree(w, e.c)
	return e
}

func (n *vzNat) has(r vzReg) bool {
	for p, w := range n.w {
		if w.set&r.e == r.e && (p == r.path && (w.rec || !r.rec) || w.rec && vzUnder(p, r.path)) {
			return true
		}
	}
	return false
}

func (n *vzNat) count() int     { return len(n.w) }
func (n *vzNat) faulty(on bool) { n.fails = on }
func (n *vzNat) failures() int  { return n.nfail }

func (n *vzNat) emit(p string, ev Event) {
	k := 0
	for q, w := range n.w {
		if w.set&ev == ev && (p == q || path.Dir(p) == q || w.rec && vzUnder(q, p)) {
			k++
		}
	}
	for ; k > 0; k-- {
		vs.Send[EventInfo](n.e.c)(&vzNatEv{ev, p})
	}
}

func (e *vzR) faulty(on bool) {
	e.flaky = on
	e.n.faulty(on)
}

func (e *vzR) note(f string, a ...any) {
	s := fmt.Sprintf(f, a...)
	e.log = append(e.log, s)
	vs.Note("%s", s)
}

func (e *vzR) fail(what, f string, a ...any) {
	if e.only != "" && !strings.Contains(e.only, what) {
		return
	}
	vs.Fail(e.prop, "%s\n  registrations: %s\n  native watches: %s\n  history: %s", fmt.Sprintf(f, a...), vzRegText(e.reg), e.n.text(), strings.Join(e.log, "; "))
}

func (e *vzR) watch(ch int, p string, rec bool, set Event) error {
	e.note("Watch(%s, c%d, %v)", vzSpell(p, rec), ch, set)
	err := e.t.Watch(vzSpell(p, rec), e.chans[ch], set)
	r := vzReg{ch, p, rec, set}
	if err == nil {
		e.reg = vzAdd(e.reg, r)
	} else {
		e.note("= %v", err)
	}
	if ch >= e.used {
		e.used = ch + 1
	}
	return err
}

func (e *vzR) stop(ch int) {
	e.note("Stop(c%d)", ch)
	e.t.Stop(e.chans[ch])
	e.reg = vzDrop(e.reg, ch)
}

// covered: every registration has the native watch it needs.
func (e *vzR) covered() {
	for _, r := range e.reg {
		if !e.n.has(r) {
			e.fail("native", "no native watch covers %s", vzRegText([]vzReg{r}))
		}
	}
	if len(e.reg) == 0 && e.n.count() > 0 {
		e.fail("remain", "native watches remain although no channel is registered")
	}
}

func (e *vzR) probe() {
	var ps []string
	vzPaths(e.k, func(p string, i *kern.Inode) {
		ps = append(ps, p)
		if i.Kind == kern.Dir {
			ps = append(ps, vzJoin(p, "zz"))
		}
	})
	for _, p := range ps {
		for _, ev := range e.evs {
			e.n.emit(p, ev)
		}
	}
	vs.Quiesce()
	for ch := range e.chans {
		what := "deliver"
		if len(vzOnly(e.reg, ch)) == 0 {
			what = "stop"
		}
		got := map[string]int{}
		for _, ei := range vs.Drain(e.chans[ch]) {
			got[fmt.Sprintf("%v %s", ei.Event(), ei.Path())]++
		}
		for _, p := range ps {
			for _, ev := range e.evs {
				k := fmt.Sprintf("%v %s", ev, p)
				n, min, max := got[k], vzDue(e.reg, ch, ev, p, true), vzDue(e.reg, ch, ev, p, false)
				delete(got, k)
				if n < min || n > max {
					e.fail(what, "channel %d received %s %d times, not %d..%d times", ch, k, n, min, max)
				}
			}
		}
		for k := range got {
			e.fail(what, "channel %d received %s", ch, k)
		}
	}
}

func (e *vzR) settle() {
	vs.CountState()
	vs.Quiesce()
	vs.CheckIdle()
	e.covered()
	e.probe()
}

func (e *vzR) stopAll() {
	for ch := range e.chans {
		e.stop(ch)
	}
	e.settle()
}

type vzRop struct {
	name string
	ch   int
	stop bool
	p    string
	rec  bool
	set  Event
	f    func(e *vzR) // instead of all that
}

func (o vzRop) do(e *vzR) {
	if o.f != nil {
		o.f(e)
		return
	}
	if o.stop {
		e.stop(o.ch)
		return
	}
	if err := e.watch(o.ch, o.p, o.rec, o.set); err != nil && !e.flaky {
		e.fail("deliver", "Watch failed: %v", err)
	}
}

func vzRWatch(ch int, p string, rec bool, set Event) vzRop {
	return vzRop{name: fmt.Sprintf("Watch(%s,c%d,%v)", vzSpell(p, rec), ch, set), ch: ch, p: p, rec: rec, set: set}
}
func vzRStop(ch int) vzRop {
	return vzRop{name: fmt.Sprintf("Stop(c%d)", ch), ch: ch, stop: true}
}

// vzRodd: calls that ask for nothing, or for nothing new.
func vzRodd() (out []vzRop) {
	for _, p := range []string{"/t", "/t/a", "/t/a/b"} {
		for _, rec := range []bool{true, false} {
			p, rec := p, rec
			out = append(out, vzRop{name: "Watch(" + vzSpell(p, rec) + ",c0)", f: func(e *vzR) {
				// whether the first registration of a path may be without events is not specified
				for _, r := range e.reg {
					if r.ch == 0 && r.path == p {
						e.note("Watch(%s, c0)", vzSpell(p, rec))
						if err := e.t.Watch(vzSpell(p, rec), e.chans[0]); err != nil {
							e.fail("deliver", "Watch without events failed: %v", err)
						}
						return
					}
				}
			}})
			out = append(out, vzRop{name: "Watch(" + vzSpell(p, rec) + ",nil)", f: func(e *vzR) {
				e.note("Watch(%s, nil, Write)", vzSpell(p, rec))
				vzRefused(func() { e.t.Watch(vzSpell(p, rec), nil, Write) })
			}})
		}
	}
	return append(out, vzRop{name: "Watch(/t/a,c0,Create,Write,Create)", f: func(e *vzR) {
		e.note("Watch(/t/a, c0, Create, Write, Create)")
		if err := e.t.Watch("/t/a", e.chans[0], Create, Write, Create); err != nil {
			e.fail("deliver", "Watch failed: %v", err)
		}
		e.reg = vzAdd(e.reg, vzReg{0, "/t/a", false, Create | Write})
		if e.used == 0 {
			e.used = 1
		}
	}}, vzRop{name: "Stop(unused)", f: func(e *vzR) {
		e.note("Stop(unused)")
		e.t.Stop(make(chan EventInfo))
	}}, vzRop{name: "Stop(nil)", f: func(e *vzR) {
		e.note("Stop(nil)")
		e.t.Stop(nil)
	}})
}

// vzRefused: f may panic.
func vzRefused(f func()) {
	defer func() {
		r := recover()
		if s, ok := r.(string); r != nil && (!ok || !strings.HasPrefix(s, "notify: ")) {
			panic(r)
		}
	}()
	f()
}

var _ = vzFor("C10", vzC10)

func vzC10(thorough bool) (out []vzScn) {
	fx := []string{"/t/", "/t/a/", "/t/a/b/", "/t/ab/", "/t/a/f"}
	hist := func(name string, nch int, ops []vzRop, n int, faults int) {
		for i := range ops {
			i := i
			if ops[i].stop || ops[i].ch > 0 {
				continue
			}
			out = append(out, vzScn{name: name + "/" + ops[i].name, serial: true, bounds: []vzBound{{0, faults}}, kern: vzTree(fx...), body: func() {
				vzRhist(vzNewR(nch), ops, i, n, faults > 0)
			}})
		}
	}
	var ops []vzRop
	for _, p := range []string{"/t", "/t/a", "/t/a/b", "/t/ab"} {
		for _, rec := range []bool{true, false} {
			for ch := 0; ch < 2; ch++ {
				for _, s := range []Event{Create, Write | Remove} {
					ops = append(ops, vzRWatch(ch, p, rec, s))
				}
			}
		}
	}
	ops = append(ops, vzRWatch(0, "/t/a/f", false, Write), vzRWatch(1, "/t/a/f", false, Create|Write), vzRStop(0), vzRStop(1))
	n := 3
	if thorough {
		n = 4
	}
	hist("regs", 2, ops, n, 0)
	small := []vzRop{}
	for _, p := range []string{"/", "/t", "/t/a"} {
		for _, rec := range []bool{true, false} {
			for ch := 0; ch < 2; ch++ {
				small = append(small, vzRWatch(ch, p, rec, []Event{Create, Create | Write}[ch]))
			}
		}
	}
	small = append(small, vzRStop(0), vzRStop(1))
	hist("root", 2, small, n+1, 0)
	var three []vzRop
	for _, p := range []string{"/t", "/t/a", "/t/a/b"} {
		for ch := 0; ch < 3; ch++ {
			three = append(three, vzRWatch(ch, p, p != "/t/a/b", []Event{Create, Write, Create | Remove}[ch]))
		}
	}
	three = append(three, vzRStop(0), vzRStop(1), vzRStop(2))
	hist("three", 3, three, n+1, 0)
	odd := append(vzRodd(), vzRWatch(0, "/t", true, Create), vzRWatch(0, "/t/a", false, Write|Remove), vzRWatch(1, "/t/a", true, Remove), vzRWatch(1, "/t/a/b", false, Write), vzRStop(0), vzRStop(1))
	hist("odd", 2, odd, n, 0)
	// native operations fail
	var fops []vzRop
	for _, p := range []string{"/t", "/t/a", "/t/ab"} {
		for _, rec := range []bool{true, false} {
			for ch := 0; ch < 2; ch++ {
				fops = append(fops, vzRWatch(ch, p, rec, []Event{Create, Write}[ch]))
			}
		}
	}
	fops = append(fops, vzRWatch(0, "/t/a", true, Remove), vzRStop(0), vzRStop(1))
	hist("fail", 2, fops, n+1, 1)
	// overlapping calls
	lv := vzLv(thorough)
	for _, c := range vzRconcs() {
		out = append(out, c.scn("conc/", lv, fx, func() *vzR { return vzNewR(2) }))
	}
	return
}

// vzRconc: calls and events that overlap.
type vzRconc struct {
	n  string
	s  []vzRop
	th [][]vzRop
	ev []vzNatEv
}

func vzRconcs() []vzRconc {
	return []vzRconc{
		{"watch-watch", nil, [][]vzRop{{vzRWatch(0, "/t", true, Create)}, {vzRWatch(1, "/t/a", true, Write)}}, nil},
		{"watch-stop", []vzRop{vzRWatch(0, "/t/a", true, Create)}, [][]vzRop{{vzRWatch(1, "/t", true, Create)}, {vzRStop(0)}}, []vzNatEv{{Create, "/t/a/x"}}},
		{"stop-stop", []vzRop{vzRWatch(0, "/t/a", true, Create), vzRWatch(1, "/t", false, Write)}, [][]vzRop{{vzRStop(1)}, {vzRStop(0)}}, []vzNatEv{{Create, "/t/a/x"}, {Write, "/t/a"}}},
		{"event-stop", []vzRop{vzRWatch(0, "/t", true, Create), vzRWatch(1, "/t/a", true, Create|Write)}, [][]vzRop{{vzRStop(0)}}, []vzNatEv{{Create, "/t/a/x"}, {Write, "/t/a/f"}}},
		{"event-stop-plain", []vzRop{vzRWatch(0, "/t/a", false, Create), vzRWatch(1, "/t/a", true, Create|Write)}, [][]vzRop{{vzRStop(0)}, {vzRStop(1)}}, []vzNatEv{{Create, "/t/a/x"}, {Write, "/t/a/f"}}},
		{"event-stop-file", []vzRop{vzRWatch(0, "/t/a/f", false, Write), vzRWatch(1, "/t/a", false, Write)}, [][]vzRop{{vzRStop(0)}}, []vzNatEv{{Write, "/t/a/f"}, {Write, "/t/a/f"}}},
		{"event-watch", []vzRop{vzRWatch(0, "/t/a", true, Create|Write)}, [][]vzRop{{vzRWatch(1, "/t", true, Remove)}}, []vzNatEv{{Create, "/t/a/x"}, {Write, "/t/a/f"}}},
		{"event-watch-below", []vzRop{vzRWatch(0, "/t", true, Create|Write)}, [][]vzRop{{vzRWatch(1, "/t/a", true, Remove), vzRStop(1)}}, []vzNatEv{{Create, "/t/a/x"}, {Write, "/t/a/f"}}},
	}
}

func (c vzRconc) scn(prefix string, lv []vzBound, fx []string, mk func() *vzR) vzScn {
	return vzScn{name: prefix + c.n, bounds: lv, kern: vzTree(fx...), body: func() {
		vs.Calm(true)
		e := mk()
		for _, o := range c.s {
			o.do(e)
		}
		e.settle()
		first := append([]vzReg(nil), e.reg...)
		vs.Calm(false)
		stopped := map[int]bool{}
		for i, th := range c.th {
			th := th
			vs.Thread(fmt.Sprintf("user%d", i), func() {
				for _, o := range th {
					o.do(e)
					if o.stop {
						for range vs.Drain(e.chans[o.ch]) {
						}
						stopped[o.ch] = true
					}
				}
			})
		}
		if len(c.ev) > 0 {
			vs.Thread("os", func() {
				for _, v := range c.ev {
					e.n.emit(v.p, v.ev)
				}
			})
		}
		vs.Quiesce()
		vs.Calm(true)
		for ch := range e.chans {
			n := 0
			for _, ei := range vs.Drain(e.chans[ch]) {
				n++
				if stopped[ch] {
					e.fail("stop", "channel %d received %v %s after Stop had returned", ch, ei.Event(), ei.Path())
				}
			}
			want := 0
			for _, v := range c.ev {
				want += vzDue(first, ch, v.ev, v.p, true)
			}
			want = vzMin(want, cap(e.chans[ch]))
			still := vzOnly(first, ch)
			if !stopped[ch] && len(still) > 0 && len(vzOnly(e.reg, ch)) == len(still) && n != want {
				e.fail("deliver", "channel %d received %d events, not %d", ch, n, want)
			}
		}
		if !e.tiny {
			e.settle()
		}
		e.stopAll()
	}}
}

// mustFail: the registration just made is not covered.
func (e *vzR) mustFail() bool {
	for _, r := range e.reg {
		if !e.n.has(r) {
			return true
		}
	}
	return false
}

// vzRhist runs operation first and then every sequence of operations, n in all.
func vzRhist(e *vzR, ops []vzRop, first, n int, faults bool) {
	i := first
	for d := 0; d < n; d++ {
		j := i
		if d > 0 {
			var en []int
			for k, o := range ops {
				if o.stop && o.ch < e.used || !o.stop && o.ch <= e.used {
					en = append(en, k)
				}
			}
			j = en[vs.Choose("op", len(en), false)]
		}
		// what fails must have no effect
		if faults && !ops[j].stop {
			e.faulty(true)
			before := e.n.failures()
			err := e.watch(ops[j].ch, ops[j].p, ops[j].rec, ops[j].set)
			e.faulty(false)
			if err != nil && e.n.failures() == before {
				e.fail("deliver", "Watch failed: %v", err)
			}
			if err == nil && e.n.failures() > before && e.mustFail() {
				e.fail("deliver", "Watch reported success although a native watch could not be made")
			}
		} else {
			ops[j].do(e)
		}
		e.settle()
	}
	e.stopAll()
}
