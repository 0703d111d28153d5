package notify

import (
	"fmt"
	"path"
	"sort"
	"strings"

	"golang.org/x/sys/unix"

	"vmc/kern"
	"vmc/vs"
)

// The reference: what the registrations made through the public API oblige the
// library to do, and a tap on what the simulated kernel queued.

type vzGot struct {
	ev   Event
	path string
	sys  unix.InotifyEvent
}

func (g vzGot) String() string {
	return fmt.Sprintf("%v %q (wd %d mask %s cookie %d)", g.ev, g.path, g.sys.Wd, kern.MaskText(g.sys.Mask), g.sys.Cookie)
}

type vzEarly struct {
	ch int
	g  vzGot
}

type vzEnv struct {
	k      *kern.K
	prop   string
	chans  []chan EventInfo
	reg    []vzReg              // registrations now
	low    []vzReg              // registrations in place during the whole of the last phase
	up     []vzReg              // registrations in place at any time of the last phase
	slow   map[int]bool         // channels that may lose events
	marked map[*kern.Inode]bool // watched when the phase began
	early  []vzEarly            // taken out of channels during the phase
	over   map[int]bool         // channels that must not receive anything any more
	conc   bool                 // operations overlapped: the order of records and moves is unknown
	seen   int                  // records of k.Events already accounted for
	before map[*kern.Inode]string
	log    []string
	used   int // channels used so far

	given   map[int][]vzGot // use these instead of what the channels hold
	lax     bool            // only what remains at the end counts
	softly  bool            // failures are returned by soft
	dying   bool            // watched files are being removed
	atMost  bool            // what is due may be missing
	linSeen int
}

func vzNewEnv(prop string, nch, capacity int) *vzEnv {
	e := &vzEnv{k: kern.Cur(), prop: prop, slow: map[int]bool{}, over: map[int]bool{}}
	for i := 0; i < nch; i++ {
		e.chans = append(e.chans, vs.Made(make(chan EventInfo, capacity)))
	}
	e.k.KeepEv = true
	e.snap()
	return e
}

type vzSoft string

// soft runs a check and returns what it found instead of failing.
func (e *vzEnv) soft(f func()) (msg string) {
	e.softly = true
	defer func() {
		e.softly = false
		if r := recover(); r != nil {
			s, ok := r.(vzSoft)
			if !ok {
				panic(r)
			}
			msg = string(s)
		}
	}()
	f()
	return
}

func (e *vzEnv) snap() {
	e.before = map[*kern.Inode]string{}
	e.paths(func(p string, i *kern.Inode) {
		if _, ok := e.before[i]; !ok {
			e.before[i] = p
		}
	})
}

// vzEncode is the reference translation of requests.
func vzEncode(e Event) uint32 {
	m := uint32(e) & unix.IN_ALL_EVENTS
	if e&Create != 0 {
		m |= unix.IN_CREATE | unix.IN_MOVED_TO
	}
	if e&Remove != 0 {
		m |= unix.IN_DELETE | unix.IN_DELETE_SELF
	}
	if e&Write != 0 {
		m |= unix.IN_MODIFY
	}
	if e&Rename != 0 {
		m |= unix.IN_MOVED_FROM | unix.IN_MOVE_SELF
	}
	return m
}

// vzEvents is the reference translation of kernel events.
func vzEvents(mask uint32) (out []Event) {
	switch b := mask & unix.IN_ALL_EVENTS; b {
	case unix.IN_CREATE, unix.IN_MOVED_TO:
		out = []Event{Create, Event(b)}
	case unix.IN_DELETE, unix.IN_DELETE_SELF:
		out = []Event{Remove, Event(b)}
	case unix.IN_MODIFY:
		out = []Event{Write, Event(b)}
	case unix.IN_MOVED_FROM, unix.IN_MOVE_SELF:
		out = []Event{Rename, Event(b)}
	case 0:
	default:
		out = []Event{Event(b)}
	}
	return
}

func (e *vzEnv) due(ch int, ev Event, p string) (min, max int) {
	return vzDue(e.low, ch, ev, p, true), vzDue(e.up, ch, ev, p, false)
}

// need is the event set that registrations require of the OS watch on p.
func (e *vzEnv) need(p string, dir bool) (set Event, needed bool) {
	return vzNeed(e.reg, p, dir)
}

type vzWant struct {
	ev       Event
	cands    []string
	rec      kern.Rec
	min, max int
	got      int
	any      bool // the directory part of the path is not known
}

func (w vzWant) String() string {
	return fmt.Sprintf("%v %q from %v (want %d..%d, got %d)", w.ev, w.cands[0], w.rec.RawEvent, w.min, w.max, w.got)
}

func vzInfo(ei EventInfo) (g vzGot) {
	g.ev, g.path = ei.Event(), ei.Path()
	if s, ok := ei.Sys().(*unix.InotifyEvent); ok && s != nil {
		g.sys = *s
	} else {
		g.sys.Wd = -99
	}
	return
}

func (e *vzEnv) drain(ch int) (out []vzGot) {
	for {
		ei, ok := vs.TryRecv(e.chans[ch])
		if !ok {
			return
		}
		out = append(out, vzInfo(ei))
	}
}

// deliveries checks what the channels hold against the records queued since
// the last check. What happened to files that were being moved, or inside
// directories that were not watched when the phase began, is only bounded
// from above when operations overlapped.
func (e *vzEnv) deliveries() {
	recs := e.k.Events[e.seen:]
	e.seen = len(e.k.Events)
	old := e.before
	e.snap()
	for ch := range e.chans {
		var want []*vzWant
		full := 0 // due at least, were the channel large enough
		gone := map[string]bool{}
		for _, r := range recs {
			own := r.Path
			o, wasThere := old[r.Ino]
			now, isThere := e.before[r.Ino]
			c := []string{vzJoin(own, r.Name)}
			steady := true
			for _, x := range []struct {
				p  string
				ok bool
			}{{o, wasThere}, {now, isThere}} {
				if x.ok && x.p != own {
					c = append(c, vzJoin(x.p, r.Name))
					steady = false
				}
			}
			dir := r.Ino.Kind == kern.Dir
			oset, _ := vzNeed(e.low, own, dir)
			if !steady && !e.conc {
				// moved: its watch is kept, the library knows it by either name
				for _, x := range []string{o, now} {
					o2, _ := vzNeed(e.low, x, dir)
					oset |= o2
				}
			}
			if e.conc && (!steady || !e.marked[r.Ino]) {
				oset = 0
			}
			any := e.conc && (!steady || !wasThere)
			for _, ev := range vzEvents(r.Mask) {
				min, max := e.due(ch, ev, c[0])
				for _, x := range c[1:] {
					mi, ma := e.due(ch, ev, x)
					if mi < min {
						min = mi
					}
					if ma > max {
						max = ma
					}
				}
				if e.dying && gone[c[0]] && e.covered(c[0]) {
					// The library forgets what was inside a recursive watch as
					// soon as it learns of the removal.
					if m := vzDue(vzAway(e.low, c[0]), ch, ev, c[0], true); m < min {
						min = m
					}
				}
				if oset&ev != ev || e.atMost {
					min = 0
				}
				if any {
					min, max = 0, len(e.up)
				}
				full += min
				if e.slow[ch] {
					min = 0
				}
				if max > 0 {
					want = append(want, &vzWant{ev: ev, cands: c, rec: r, min: min, max: max, any: any})
				}
			}
			if r.Mask&(unix.IN_DELETE|unix.IN_DELETE_SELF) != 0 {
				gone[c[0]] = true
			}
		}
		var got []vzGot
		if e.given != nil {
			got = e.given[ch]
		} else {
			got = e.drain(ch)
		}
		if e.over[ch] && len(got) > 0 {
			e.fail("channel %d received %v after Stop had returned", ch, got[0])
		}
		for _, x := range e.early {
			if x.ch == ch {
				got = append(got, x.g)
			}
		}
		// Every event received must be one that was due, and every one due
		// must have been received: both hold at once if each does.
		if i := vzMatch(len(got), len(want), func(g, w int) bool { return want[w].is(got[g]) }, func(w int) int { return want[w].max }, func(g, w int) { want[w].got++ }); i >= 0 {
			e.fail("channel %d received %v, which it is not due%s", ch, got[i], e.text(want, got, recs))
		}
		if n := vzMin(full, cap(e.chans[ch])); e.given == nil && len(got) < n {
			e.fail("channel %d received %d events only, though there was room for %d of those it is due%s", ch, len(got), n, e.text(want, got, recs))
		}
		var must []*vzWant
		for _, w := range want {
			for i := 0; i < w.min; i++ {
				must = append(must, w)
			}
		}
		if i := vzMatch(len(must), len(got), func(m, g int) bool { return must[m].is(got[g]) }, func(int) int { return 1 }, nil); i >= 0 {
			e.fail("channel %d did not receive %v%s", ch, must[i], e.text(want, got, recs))
		}
	}
}

// covered: a recursive registration covers p.
func (e *vzEnv) covered(p string) bool {
	for _, r := range e.up {
		if r.rec && (r.path == p || vzUnder(r.path, p)) {
			return true
		}
	}
	return false
}

// vzAway leaves out the registrations of p.
func vzAway(regs []vzReg, p string) (out []vzReg) {
	for _, r := range regs {
		if r.path != p {
			out = append(out, r)
		}
	}
	return
}

// vzMatch assigns each of n items to one of m bins with room (cap) for it; it
// returns an item that cannot be placed, or -1.
func vzMatch(n, m int, ok func(i, j int) bool, room func(j int) int, each func(i, j int)) int {
	in := make([][]int, m)
	var seen []bool
	var place func(i int) bool
	place = func(i int) bool {
		for j := 0; j < m; j++ {
			if seen[j] || !ok(i, j) {
				continue
			}
			if len(in[j]) < room(j) {
				in[j] = append(in[j], i)
				return true
			}
			seen[j] = true
			for x := range in[j] {
				if place(in[j][x]) {
					in[j][x] = i
					return true
				}
			}
		}
		return false
	}
	for i := 0; i < n; i++ {
		seen = make([]bool, m)
		if !place(i) {
			return i
		}
	}
	if each != nil {
		for j := range in {
			for _, i := range in[j] {
				each(i, j)
			}
		}
	}
	return -1
}

func (w *vzWant) is(g vzGot) bool {
	return w.ev == g.ev && w.rec.Wd == g.sys.Wd && w.rec.Mask == g.sys.Mask && w.rec.Cookie == g.sys.Cookie && w.at(g.path)
}

func (w *vzWant) at(p string) bool {
	if w.any {
		return w.rec.Name == "" || path.Base(p) == w.rec.Name
	}
	for _, c := range w.cands {
		if c == p {
			return true
		}
	}
	return false
}

func (e *vzEnv) text(want []*vzWant, got []vzGot, recs []kern.Rec) string {
	s := "\n  registrations: " + e.regText() + "\n  kernel records:"
	for _, r := range recs {
		s += fmt.Sprintf(" %v", r.RawEvent)
	}
	s += "\n  received:"
	for _, g := range got {
		s += " " + g.String()
	}
	s += "\n  due:"
	for _, w := range want {
		s += " " + w.String()
	}
	return s
}

// marks checks the OS watches against the registrations.
func (e *vzEnv) marks() {
	have := map[*kern.Inode]uint32{}
	for _, m := range e.k.Marks() {
		have[m.Ino] |= m.Mask
	}
	e.paths(func(p string, i *kern.Inode) {
		set, needed := e.need(p, i.Kind == kern.Dir)
		if i.Kind == kern.Link {
			set, needed = 0, false
		}
		if m := vzEncode(set); have[i]&m != m {
			e.fail("OS watch on %q lacks %s (has %s)\n  registrations: %s", p, kern.MaskText(m&^have[i]), kern.MaskText(have[i]), e.regText())
		}
		if _, ok := have[i]; ok && !needed {
			e.fail("OS watch on %q (%s) remains though no registration needs it\n  registrations: %s", p, kern.MaskText(have[i]), e.regText())
		}
		delete(have, i)
	})
	for i := range have {
		e.fail("OS watch on a file outside the name space (inode %d)", i.ID)
	}
}

// settle lets the library finish and checks everything.
func (e *vzEnv) settle() {
	vs.CountState()
	vs.Quiesce()
	vs.CheckIdle()
	if e.lax {
		e.vzForget()
	} else {
		e.deliveries()
		e.phase()
		if !e.atMost || len(e.reg) == 0 {
			e.marks()
		}
	}
	if n := e.k.Pending(); n > 0 {
		e.fail("%d kernel records were never read", n)
	}
	if len(e.k.Closed) > 0 {
		e.fail("bad close: %v", e.k.Closed)
	}
}

// phase starts a new phase of the reference.
func (e *vzEnv) phase() {
	e.low = append([]vzReg(nil), e.reg...)
	e.up = append([]vzReg(nil), e.reg...)
	e.marked = map[*kern.Inode]bool{}
	for _, m := range e.k.Marks() {
		e.marked[m.Ino] = true
	}
	e.conc = false
	e.early = nil
	e.over = map[int]bool{}
}

func (e *vzEnv) note(format string, args ...any) {
	s := fmt.Sprintf(format, args...)
	e.log = append(e.log, s)
	vs.Note("%s", s)
}

// watch calls Watch and updates the reference.
func (e *vzEnv) watch(ch int, p string, rec bool, set ...Event) error {
	real, _ := e.k.RealPath(p)
	r := vzReg{ch, real, rec, vzJoinEv(set)}
	if r.e != 0 {
		e.up = vzAdd(e.up, r)
	}
	err := Watch(vzSpell(p, rec), e.chans[ch], set...)
	e.note("Watch(%s, c%d, %v)=%v", vzSpell(p, rec), ch, vzJoinEv(set), err)
	if err == nil && r.e != 0 {
		e.reg = vzAdd(e.reg, r)
	}
	if ch >= e.used {
		e.used = ch + 1
	}
	return err
}

func vzJoinEv(set []Event) (e Event) {
	for _, x := range set {
		e |= x
	}
	return
}

func (e *vzEnv) stop(ch int) {
	e.low = vzDrop(e.low, ch)
	Stop(e.chans[ch])
	e.note("Stop(c%d)", ch)
	e.reg = vzDrop(e.reg, ch)
}

// busy: the library documents that watched paths have to persist.
func (e *vzEnv) busy(p string) bool {
	for _, r := range e.reg {
		if r.path == p || vzUnder(p, r.path) {
			return true
		}
	}
	return false
}

// within: b is covered by every recursive registration that covers a.
// Directories moved out of a recursive watch are outside the properties.
func (e *vzEnv) within(a, b string) bool {
	for _, r := range e.reg {
		if r.rec && vzUnder(r.path, a) && !vzUnder(r.path, b) {
			return false
		}
	}
	return true
}

// ---- operations of histories -------------------------------------------

type vzOp struct {
	name string
	ok   func(e *vzEnv) bool
	do   func(e *vzEnv)
}

func (e *vzEnv) exists(p string) bool { _, err := e.k.Lookup(p, false); return err == 0 }
func (e *vzEnv) isdir(p string) bool {
	i, err := e.k.Lookup(p, false)
	return err == 0 && i.Kind == kern.Dir
}

func vzOpWatch(ch int, p string, rec bool, set ...Event) vzOp {
	return vzOp{fmt.Sprintf("Watch(%s,c%d,%v)", vzSpell(p, rec), ch, vzJoinEv(set)),
		func(e *vzEnv) bool { return ch <= e.used && e.exists(p) && (!rec || e.isdir(p)) },
		func(e *vzEnv) {
			if err := e.watch(ch, p, rec, set...); err != nil {
				e.fail("Watch(%s) failed: %v", vzSpell(p, rec), err)
			}
		}}
}

func vzOpStop(ch int) vzOp {
	return vzOp{fmt.Sprintf("Stop(c%d)", ch), func(e *vzEnv) bool { return ch < e.used }, func(e *vzEnv) { e.stop(ch) }}
}

func vzOpMkdir(p string) vzOp {
	return vzOp{"mkdir " + p, func(e *vzEnv) bool { return e.isdir(path.Dir(p)) && !e.exists(p) },
		func(e *vzEnv) { e.note("mkdir %s", p); e.k.Mkdir(p) }}
}

func vzOpCreate(p string) vzOp {
	return vzOp{"create " + p, func(e *vzEnv) bool { return e.isdir(path.Dir(p)) && !e.exists(p) },
		func(e *vzEnv) { e.note("create %s", p); e.k.Create(p) }}
}

func vzOpWrite(p string) vzOp {
	return vzOp{"write " + p, func(e *vzEnv) bool { return e.exists(p) && !e.isdir(p) },
		func(e *vzEnv) { e.note("write %s", p); e.k.WriteFile(p) }}
}

func vzOpChmod(p string) vzOp {
	return vzOp{"chmod " + p, func(e *vzEnv) bool { return e.exists(p) },
		func(e *vzEnv) { e.note("chmod %s", p); e.k.Chmod(p, 0700) }}
}

func vzOpRead(p string) vzOp {
	return vzOp{"read " + p, func(e *vzEnv) bool { return e.exists(p) && !e.isdir(p) },
		func(e *vzEnv) { e.note("read %s", p); e.k.ReadFile(p) }}
}

// opRmdir and opMv do not look first.
func vzOpRmdir(p string) vzOp {
	return vzOp{"rmdir " + p, nil, func(e *vzEnv) { e.note("rmdir %s", p); e.k.Rmdir(p) }}
}

func vzOpMv(a, b string) vzOp {
	return vzOp{"mv " + a + " " + b, nil, func(e *vzEnv) { e.note("mv %s %s", a, b); e.k.Rename(a, b) }}
}

// opRm removes a file or an empty directory.
func vzOpRm(p string) vzOp {
	return vzOp{"rm " + p, func(e *vzEnv) bool {
		i, err := e.k.Lookup(p, false)
		return err == 0 && !e.busy(p) && (i.Kind != kern.Dir || len(i.Entries()) == 0)
	}, func(e *vzEnv) { e.note("rm %s", p); e.k.Remove(p) }}
}

func vzOpRename(a, b string) vzOp {
	return vzOp{"rename " + a + " " + b, func(e *vzEnv) bool {
		i, err := e.k.Lookup(a, false)
		if err != 0 || e.busy(a) || e.busy(b) || !e.isdir(path.Dir(b)) || vzUnder(a, b) || a == b || vzUnder(b, a) {
			return false
		}
		if i.Kind == kern.Dir && !e.within(a, b) {
			return false
		}
		j, err := e.k.Lookup(b, false)
		if err != 0 {
			return true
		}
		return i != j && (i.Kind == kern.Dir) == (j.Kind == kern.Dir) && len(j.Entries()) == 0
	}, func(e *vzEnv) { e.note("rename %s %s", a, b); e.k.Rename(a, b) }}
}

// vzHistory enumerates all histories of n operations that start with prefix
// (indexes among the operations allowed at that point); each operation is
// followed by a full check; final runs at the end of each history.
func vzHistory(prop string, nch int, ops []vzOp, prefix []int, n int, final func(e *vzEnv)) func() {
	return func() {
		e := vzNewEnv(prop, nch, 64)
		vzMore(e, ops, prefix, n)
		if final != nil {
			final(e)
		}
	}
}

// histories splits the enumeration by the first k operations.
func vzHistories(name, prop string, mk func() any, nch int, ops []vzOp, n, k int, final func(e *vzEnv)) (out []vzScn) {
	var pre func(p []int)
	pre = func(p []int) {
		if len(p) == k {
			nm := name
			for _, i := range p {
				nm += "/" + ops[i].name
			}
			out = append(out, vzScn{name: nm, serial: true, bounds: vzPe(0), kern: mk, body: vzHistory(prop, nch, ops, append([]int(nil), p...), n, final)})
			return
		}
		for i := range ops {
			pre(append(p, i))
		}
	}
	pre(nil)
	return
}

// probe changes something in every directory and checks who hears of it.
func (e *vzEnv) probe() {
	var dirs, files []string
	e.paths(func(p string, i *kern.Inode) {
		switch i.Kind {
		case kern.Dir:
			dirs = append(dirs, p)
		case kern.File:
			files = append(files, p)
		}
	})
	e.note("probe")
	for _, f := range files {
		e.k.WriteFile(f)
	}
	for _, d := range dirs {
		e.k.Chmod(d, 0755)
		f := vzJoin(d, "zz")
		e.k.Create(f)
		e.k.WriteFile(f)
		e.k.Chmod(f, 0600)
		e.k.Rename(f, f+"y")
		e.k.Unlink(f + "y")
	}
	e.settle()
}

// probeDeep also follows directories created meanwhile.
func (e *vzEnv) probeDeep() {
	e.probe()
	var dirs []string
	e.paths(func(p string, i *kern.Inode) {
		if i.Kind == kern.Dir {
			dirs = append(dirs, p)
		}
	})
	for _, d := range dirs {
		e.k.Mkdir(vzJoin(d, "zd"))
	}
	e.settle()
	for _, d := range dirs {
		e.k.Create(vzJoin(d, "zd/f"))
		e.k.WriteFile(vzJoin(d, "zd/f"))
		e.k.Unlink(vzJoin(d, "zd/f"))
	}
	e.settle()
	for _, d := range dirs {
		e.k.Rmdir(vzJoin(d, "zd"))
	}
	e.settle()
}

// stopAll ends all registrations and checks that nothing is left.
func (e *vzEnv) stopAll() {
	for ch := range e.chans {
		if ch < e.used {
			e.stop(ch)
		}
	}
	e.settle()
	if m := e.k.Marks(); len(m) > 0 {
		e.fail("OS watches remain after every channel was stopped: %v", m)
	}
}

func vzSorted(m map[string]bool) (out []string) {
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return
}

func (e *vzEnv) regText() string { return vzRegText(e.reg) }

func (e *vzEnv) paths(f func(p string, i *kern.Inode)) { vzPaths(e.k, f) }

func (e *vzEnv) fail(format string, args ...any) {
	if e.softly {
		panic(vzSoft(fmt.Sprintf(format, args...)))
	}
	vs.Fail(e.prop, "%s\n  history: %s", fmt.Sprintf(format, args...), strings.Join(e.log, "; "))
}

func vzChan(n int) chan EventInfo { return vs.Made(make(chan EventInfo, n)) }

// removeAll removes everything, also what is watched, one file after the
// other, and checks what is said about it. It has to come last: how watched
// paths that were removed behave afterwards is not specified.
func (e *vzEnv) removeAll() {
	var ps []string
	e.paths(func(p string, i *kern.Inode) {
		if p != "/" {
			ps = append(ps, p)
		}
	})
	e.dying = true
	for i := len(ps) - 1; i >= 0; i-- {
		if e.isdir(ps[i]) {
			e.note("rmdir %s", ps[i])
			e.k.Rmdir(ps[i])
		} else {
			e.note("rm %s", ps[i])
			e.k.Unlink(ps[i])
		}
		e.settle()
	}
	e.dying = false
}

// finalRemove: everything is removed while it is watched, comes back after the
// channels were stopped, and is watched again.
func (e *vzEnv) finalRemove() {
	var again []func()
	e.paths(func(p string, i *kern.Inode) {
		switch {
		case p == "/":
		case i.Kind == kern.Dir:
			again = append(again, func() { e.k.Mkdir(p) })
		case i.Kind == kern.File:
			again = append(again, func() { e.k.Create(p) })
		}
	})
	e.removeAll()
	e.stopAll()
	for _, f := range again {
		f()
	}
	e.settle()
	e.probe()
	for _, rec := range []bool{false, true} {
		e.chans = append(e.chans, vzChan(256))
		if err := e.watch(len(e.chans)-1, "/t", rec, Create|Write); err != nil {
			e.fail("Watch(/t) failed: %v", err)
		}
		e.settle()
	}
	e.final()
}

func (e *vzEnv) mustWatch(ch int, p string, rec bool, set ...Event) {
	if err := e.watch(ch, p, rec, set...); err != nil {
		e.fail("Watch(%s) failed: %v", vzSpell(p, rec), err)
	}
}
