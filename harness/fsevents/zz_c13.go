package notify

import (
	"fmt"
	"path"
	"sort"
	"strings"

	"vmc/kern"
	"vmc/vs"
)

const (
	vzFC = uint32(FSEventsCreated)
	vzFR = uint32(FSEventsRemoved)
	vzFM = uint32(FSEventsModified)
	vzFI = uint32(FSEventsInodeMetaMod)
	vzFN = uint32(FSEventsRenamed)
	vzFO = uint32(FSEventsChangeOwner)
	vzFF = uint32(FSEventsIsFile)
	vzFS = uint32(FSEventsMustScanSubDirs)
	vzFH = uint32(FSEventsHistoryDone)

	vzFWrap = uint32(FSEventsEventIdsWrapped)

	vzFail = uint32(FSEventsMustScanSubDirs | FSEventsUserDropped | FSEventsKernelDropped)
)

// vzFW is what a watch is meant to do.
type vzFW struct {
	path    string
	set     uint32
	rec     bool
	flushed bool
	prev    map[string]uint32
	unsure  map[string]bool // created and removed reported at once: which was last is not known
}

type vzFE struct {
	ev       uint32
	path     string
	id       uint64
	optional bool
}

func (w *vzFW) scope(p string) bool {
	if p == w.path {
		return true
	}
	if w.rec {
		return vzUnder(w.path, p)
	}
	return path.Dir(p) == w.path
}

// feed says what one record has to cause.
func (w *vzFW) feed(r FSEvent) (out []vzFE) {
	if r.Flags&vzFWrap != 0 {
		return
	}
	if r.Flags&vzFH != 0 {
		w.flushed = true
		return
	}
	if !w.flushed || !w.scope(r.Path) || r.Flags&vzFail != 0 && w.set&vzFail == 0 {
		return
	}
	set, opt := r.Flags, uint32(0)
	set &^= w.prev[r.Path]
	switch set & (vzFC | vzFR) {
	case vzFC:
		w.prev[r.Path] = vzFC
	case vzFR:
		w.prev[r.Path] = vzFR
		set &^= vzFM | vzFI
	case vzFC | vzFR:
		opt = vzFM | vzFI
	}
	for b := uint32(1); b != 0; b <<= 1 {
		if set&b&w.set != 0 {
			out = append(out, vzFE{b, r.Path, r.ID, opt&b != 0})
		}
	}
	return
}

type vzFX struct {
	w   vzRW
	c   chan EventInfo
	ref map[string]*vzFW
	id  uint64
	log []string
}

func vzNewFX() *vzFX {
	vzF = vzNewFr()
	x := &vzFX{ref: map[string]*vzFW{}, id: vzFirstID, c: vs.Made(make(chan EventInfo, 256))}
	w, ok := newWatcher(x.c).(vzRW)
	if !ok {
		vs.Fail("C13", "newWatcher does not return a recursive watcher")
	}
	x.w = w
	return x
}

func (x *vzFX) note(f string, a ...any) {
	s := fmt.Sprintf(f, a...)
	x.log = append(x.log, s)
	vs.Note("%s", s)
}

func (x *vzFX) fail(f string, a ...any) {
	var s []string
	for _, w := range x.ref {
		d := ""
		if w.rec {
			d = "/..."
		}
		s = append(s, fmt.Sprintf("%s%s[%v]", w.path, d, Event(w.set)))
	}
	sort.Strings(s)
	vs.Fail("C13", "%s\n  watches: %s\n  history: %s", fmt.Sprintf(f, a...), strings.Join(s, " "), strings.Join(x.log, "; "))
}

// expect compares what was sent with what was due.
func (x *vzFX) expect(due []vzFE) {
	i := 0
	for _, ei := range vs.Drain(x.c) {
		sys, ok := ei.Sys().(*FSEvent)
		if !ok || sys == nil {
			x.fail("Sys() of %v %s is %T", ei.Event(), ei.Path(), ei.Sys())
		}
		for i < len(due) && due[i].optional && (uint32(ei.Event()) != due[i].ev || sys.ID != due[i].id) {
			i++
		}
		if i == len(due) {
			x.fail("unexpected event %v %s (record %d)", ei.Event(), ei.Path(), sys.ID)
		}
		d := due[i]
		i++
		if uint32(ei.Event()) != d.ev || ei.Path() != d.path || sys.ID != d.id || sys.Path != d.path {
			x.fail("received %v %s (record %d, Sys %+v), not %v %s (record %d)", ei.Event(), ei.Path(), sys.ID, *sys, Event(d.ev), d.path, d.id)
		}
	}
	for ; i < len(due); i++ {
		if !due[i].optional {
			x.fail("event %v %s (record %d) is missing", Event(due[i].ev), due[i].path, due[i].id)
		}
	}
}

// callback runs one callback of the stream at p.
func (x *vzFX) callback(p string, recs []FSEvent) {
	var due []vzFE
	for i := range recs {
		x.id++
		recs[i].ID = x.id
		due = append(due, x.ref[p].feed(recs[i])...)
		if recs[i].Flags&vzFWrap != 0 {
			x.id = 0
		}
		vzF.cur = x.id
	}
	var s *vzStream
	for _, y := range vzF.streams() {
		if y.path == p {
			if s != nil {
				x.fail("two streams for %s", p)
			}
			s = y
		}
	}
	if s == nil {
		x.fail("no stream for %s", p)
	}
	s.fn(recs)
	x.expect(due)
}

func (x *vzFX) streams() {
	have := map[string]int{}
	for _, s := range vzF.streams() {
		have[s.path]++
	}
	for p := range x.ref {
		if have[p] != 1 {
			x.fail("%d streams for %s", have[p], p)
		}
		delete(have, p)
	}
	for p := range have {
		x.fail("a stream for %s is left", p)
	}
	if s := vzF.vzCheck(); s != "" {
		x.fail("%s", s)
	}
}

type vzFop struct {
	name     string
	kind     string
	p, q     string
	old, set Event
}

func (x *vzFX) add(p string, e Event, rec bool) {
	x.ref[p] = &vzFW{path: p, set: uint32(e), rec: rec, prev: map[string]uint32{}}
}

// do performs one operation on the watcher and on the reference.
func (x *vzFX) do(o vzFop, fails bool) {
	x.note("%s", o.name)
	vzF.fails = fails
	n := vzF.nfail
	var err error
	ref := x.ref[o.p]
	switch o.kind {
	case "Watch":
		err = x.w.Watch(o.p, o.set)
	case "RecursiveWatch":
		err = x.w.RecursiveWatch(o.p, o.set)
	case "Unwatch":
		err = x.w.Unwatch(o.p)
	case "RecursiveUnwatch":
		err = x.w.RecursiveUnwatch(o.p)
	case "Rewatch":
		err = x.w.Rewatch(o.p, o.old, o.set)
	case "RecursiveRewatch":
		err = x.w.RecursiveRewatch(o.p, o.q, o.old, o.set)
	}
	vzF.fails = false
	want := error(nil)
	failed := vzF.nfail > n
	switch o.kind {
	case "Watch", "RecursiveWatch":
		switch {
		case ref != nil:
			want = errAlreadyWatched
		case failed:
			want = errStart
		default:
			x.add(o.p, o.set, o.kind == "RecursiveWatch")
		}
	case "Unwatch", "RecursiveUnwatch":
		if ref == nil {
			want = errNotWatched
		} else {
			delete(x.ref, o.p)
		}
	case "Rewatch":
		switch {
		case ref == nil:
			want = errNotWatched
		case ref.set != uint32(o.old):
			want = errInvalidEventSet
		default:
			ref.set, ref.rec = uint32(o.set), false
		}
	case "RecursiveRewatch":
		switch {
		case o.p != o.q && x.ref[o.q] != nil:
			want = errAlreadyWatched
		case ref == nil:
			want = errNotWatched
		case ref.set != uint32(o.old):
			want = errInvalidEventSet
		case o.p == o.q:
			ref.set, ref.rec = uint32(o.set), true
		case failed:
			want = errStart
		default:
			delete(x.ref, o.p)
			x.add(o.q, o.set, true)
		}
	}
	if want == nil && err != nil {
		x.fail("%s failed: %v", o.name, err)
	}
	if want != nil && err == nil {
		x.fail("%s succeeded, not: %v", o.name, want)
	}
	if (want == errNotWatched || want == errAlreadyWatched) && err != want && !(o.kind == "RecursiveRewatch" && ref == nil) {
		x.fail("%s: %v, not: %v", o.name, err, want)
	}
	x.streams()
}

// probe: a callback on every live stream tells what each watch does.
func (x *vzFX) probe() {
	vs.CountState()
	var ps []string
	for p := range x.ref {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	for _, p := range ps {
		var recs []FSEvent
		if !x.ref[p].flushed {
			recs = append(recs, FSEvent{Path: vzJoin(p, "old"), Flags: vzFC | vzFM}, FSEvent{Path: p, Flags: vzFH})
		}
		for i, q := range []string{p, vzJoin(p, "x"), vzJoin(p, "x/y"), p + "z", p + "z/x", "/t", "/t/a/f", "/t/ab", "/"} {
			recs = append(recs, FSEvent{Path: q, Flags: []uint32{vzFM, vzFI | vzFF, vzFM | vzFN, vzFO}[i%4] | vzFM | vzFF})
		}
		x.callback(p, recs)
	}
}

var vzFsets = []Event{Create | Remove | Write | Rename, Event(vzFC | vzFR | vzFI), Write | FSEventsMustScanSubDirs, Event(vzFO | vzFF | vzFI), Create}

var _ = vzFor("C13", vzC13)

func vzC13(thorough bool) (out []vzScn) {
	none := func() any { return kern.New() }
	// every sequence of records
	type wp struct {
		p   string
		rec bool
	}
	flagsAll := []uint32{vzFC, vzFR, vzFM, vzFC | vzFM, vzFC | vzFR, vzFR | vzFM | vzFI, vzFC | vzFR | vzFM, vzFM | vzFI, vzFN, vzFM | vzFO | vzFF, vzFS, vzFH}
	n := 3
	if thorough {
		n = 4
	}
	records := func(name string, ws []wp, sets []Event, flags []uint32, np, n int) {
		for _, w := range ws {
			w := w
			base := strings.TrimSuffix(w.p, "/")
			ps := []string{base + "/f", w.p, base + "/d/f", base + "x", "/t"}
			if w.p == "/" {
				ps = []string{"/f", "/", "/d/f", "/t/a"}
			}
			if len(ps) > np {
				ps = ps[:np]
			}
			for si, set := range sets {
				set := set
				for fi, f0 := range flags {
					f0 := f0
					out = append(out, vzScn{name: fmt.Sprintf("%s/%s/rec=%v/set%d/%d", name, w.p, w.rec, si, fi), serial: true, bounds: vzPe(0), kern: none, body: func() {
						x := vzNewFX()
						k := "Watch"
						if w.rec {
							k = "RecursiveWatch"
						}
						x.do(vzFop{name: fmt.Sprintf("%s(%s, %v)", k, w.p, set), kind: k, p: w.p, set: set}, false)
						// with and without the end of the history first
						if vs.Choose("flushed", 2, false) == 0 {
							x.callback(w.p, []FSEvent{{Path: ps[0], Flags: vzFC | vzFM}, {Path: w.p, Flags: vzFH}})
						}
						batch := vs.Choose("one batch", 2, false) == 0
						var recs []FSEvent
						for i := 0; i < n; i++ {
							f := f0
							if i > 0 {
								f = flags[vs.Choose("flags", len(flags), false)]
							}
							p := ps[vs.Choose("path", len(ps), false)]
							x.note("record %s %v", p, Event(f))
							recs = append(recs, FSEvent{Path: p, Flags: f})
							if !batch {
								x.callback(w.p, recs)
								recs = nil
							}
						}
						if batch {
							x.callback(w.p, recs)
						}
						vs.CountState()
					}})
				}
			}
		}
	}
	ws := []wp{{"/t", false}, {"/t", true}, {"/", false}, {"/", true}, {"/t/a", false}, {"/t/a", true}}
	records("records", ws, vzFsets, flagsAll, 5, n-1)
	records("deep", ws[:2], vzFsets[:2], flagsAll, 2, n)
	// all single flags and pairs, all requested single flags
	out = append(out, vzScn{name: "flags", serial: true, steps: 1 << 22, bounds: vzPe(0), kern: none, body: func() {
		set := uint32(1) << vs.Choose("requested", 19, false)
		for a := 0; a < 19; a++ {
			for b := a; b < 19; b++ {
				f := uint32(1)<<a | uint32(1)<<b
				if f&vzFH != 0 || f&vzFail != 0 && f&^vzFail != 0 {
					continue
				}
				x := vzNewFX()
				x.do(vzFop{name: "Watch", kind: "Watch", p: "/t", set: Event(set)}, false)
				x.callback("/t", []FSEvent{{Path: "/t", Flags: vzFH}, {Path: "/t/f", Flags: f}})
			}
		}
		vs.CountState()
	}})
	// every sequence of operations
	var ops []vzFop
	op := func(kind, p, q string, old, set Event) {
		n := fmt.Sprintf("%s(%s", kind, p)
		if q != "" && q != p {
			n += "->" + q
		}
		if old != 0 {
			n += fmt.Sprintf(", %v", old)
		}
		if set != 0 {
			n += fmt.Sprintf(", %v", set)
		}
		ops = append(ops, vzFop{n + ")", kind, p, q, old, set})
	}
	A, B := Write, Create|Write|Event(vzFO)
	for _, p := range []string{"/t", "/t/a", "/"} {
		op("Watch", p, "", 0, A)
		op("RecursiveWatch", p, "", 0, B)
		op("Unwatch", p, "", 0, 0)
		op("Rewatch", p, "", A, B)
		op("Rewatch", p, "", B, A)
		op("Rewatch", p, "", A, A)
		op("RecursiveRewatch", p, p, A, B)
		op("RecursiveRewatch", p, p, B, A)
	}
	op("RecursiveUnwatch", "/t", "", 0, 0)
	for _, m := range [][2]string{{"/t", "/t/a"}, {"/t/a", "/t"}, {"/t", "/"}} {
		op("RecursiveRewatch", m[0], m[1], A, B)
		op("RecursiveRewatch", m[0], m[1], A, A)
		op("RecursiveRewatch", m[0], m[1], B, A)
	}
	for i := range ops {
		i := i
		out = append(out, vzScn{name: "ops/" + ops[i].name, serial: true, bounds: []vzBound{{0, 0}, {0, 1}}, kern: none, body: func() {
			x := vzNewFX()
			for d := 0; d < n; d++ {
				j := i
				if d > 0 {
					j = vs.Choose("op", len(ops), false)
				}
				o := ops[j]
				if o.kind == "RecursiveRewatch" && x.ref[o.p] != nil && x.ref[o.p].set != uint32(o.old) && (o.old == o.set || o.p != o.q) {
					// the tree never passes a wrong event set
					vs.CountState()
					return
				}
				x.do(o, true)
				x.probe()
			}
			if err := x.w.Close(); err != nil {
				x.fail("Close: %v", err)
			}
			x.ref = map[string]*vzFW{}
			x.streams()
			x.expect(nil)
		}})
	}
	// event numbers start again: streams made later, or before, still work
	for _, rec := range []bool{false, true} {
		rec := rec
		out = append(out, vzScn{name: fmt.Sprint("wrap/", rec), serial: true, bounds: []vzBound{{0, 0}}, kern: none, body: func() {
			x := vzNewFX()
			watch := func(p string) {
				k, n := "Watch", fmt.Sprintf("Watch(%s, Write)", p)
				if rec {
					k = "Recursive" + k
				}
				x.do(vzFop{n, k, p, "", 0, Write}, false)
			}
			first := vs.Choose("first", 2, false) == 1
			if first {
				watch("/t")
				x.probe()
			}
			n := 1 + vs.Choose("times", 2, false)
			for i := 0; i < n; i++ {
				if !first {
					watch("/t")
				}
				first = false
				recs := []FSEvent{{Path: "/", Flags: vzFWrap}, {Path: "/t/g", Flags: vzFM}}
				if vs.Choose("alone", 2, false) == 1 {
					recs = recs[:1]
				}
				if vs.Choose("flushed", 2, false) == 1 {
					recs = append([]FSEvent{{Path: "/t", Flags: vzFH}, {Path: "/t/f", Flags: vzFM}}, recs...)
				}
				x.note("event numbers start again")
				x.callback("/t", recs)
				p := fmt.Sprint("/t/a", i)
				watch(p)
				x.probe()
				x.do(vzFop{"Unwatch(/t)", "Unwatch", "/t", "", 0, 0}, false)
				x.probe()
			}
		}})
	}
	// callbacks that overlap with operations: each obeys what was in force
	// when it began or something later
	lv := vzLv(thorough)
	for _, c := range []struct {
		n    string
		o    vzFop
		a, b []vzFE // events of the two callbacks before, and after the operation
	}{
		{"rewatch", vzFop{"Rewatch(/t, Write, Create)", "Rewatch", "/t", "", Write, Create}, []vzFE{{vzFM, "/t/f", 0, false}}, []vzFE{{vzFC, "/t/f", 0, false}}},
		{"recrewatch", vzFop{"RecursiveRewatch(/t, Write, Create)", "RecursiveRewatch", "/t", "/t", Write, Create}, []vzFE{{vzFM, "/t/f", 0, false}}, []vzFE{{vzFC, "/t/f", 0, false}, {vzFC, "/t/d/f", 0, false}}},
		{"unwatch", vzFop{"Unwatch(/t)", "Unwatch", "/t", "", 0, 0}, []vzFE{{vzFM, "/t/f", 0, false}}, nil},
		{"move", vzFop{"RecursiveRewatch(/t->/, Write, Write)", "RecursiveRewatch", "/t", "/", Write, Write}, []vzFE{{vzFM, "/t/f", 0, false}}, []vzFE{{vzFM, "/t/f", 0, false}, {vzFM, "/t/d/f", 0, false}}},
	} {
		c := c
		out = append(out, vzScn{name: "overlap/" + c.n, bounds: lv, kern: none, body: func() {
			vs.Calm(true)
			x := vzNewFX()
			x.do(vzFop{"Watch(/t, Write)", "Watch", "/t", "", 0, Write}, false)
			vzF.deliver(nil)
			vs.Calm(false)
			var done bool
			var got [][]string
			vs.Thread("queue", func() {
				for i := 0; i < 2; i++ {
					was := done
					vzF.deliver([]FSEvent{{Path: "/t/f", Flags: vzFC | vzFM}, {Path: "/t/d/f", Flags: vzFC | vzFM}})
					var l []string
					for _, ei := range vs.Drain(x.c) {
						l = append(l, fmt.Sprintf("%v %s", ei.Event(), ei.Path()))
					}
					if was {
						l = append(l, "after")
					}
					got = append(got, l)
				}
			})
			vs.Thread("user", func() {
				x.do(c.o, false)
				done = true
			})
			vs.Quiesce()
			text := func(es []vzFE) (l []string) {
				for _, e := range es {
					l = append(l, fmt.Sprintf("%v %s", Event(e.ev), e.path))
				}
				return
			}
			a, b := text(c.a), text(c.b)
			for _, l := range got {
				if n := len(l); n > 0 && l[n-1] == "after" {
					if !vzSame(l[:n-1], b) && !(c.n != "move" && vzStale(l[:n-1], b)) {
						x.fail("a callback after %s caused %v, not %v", c.o.name, l[:n-1], b)
					}
					continue
				}
				// before or during: nothing that neither set asks for
				for _, e := range l {
					if !vzMix(append(append([]string(nil), a...), b...), e) {
						x.fail("a callback during %s caused %v", c.o.name, e)
					}
				}
			}
			vs.Calm(true)
			x.streams()
		}})
	}
	return
}

func vzSame(a, b []string) bool { return strings.Join(a, ",") == strings.Join(b, ",") }

func vzIn(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// vzMix: the event of one and the path of another (the change of a watch's
// event set and of its recursion are two steps for a callback under way).
func vzMix(l []string, s string) bool {
	ev, p, _ := strings.Cut(s, " ")
	x, y := false, false
	for _, t := range l {
		ev2, p2, _ := strings.Cut(t, " ")
		x = x || ev == ev2
		y = y || p == p2
	}
	return x && y
}

// vzStale: created is reported only the first time.
func vzStale(l, b []string) bool {
	for _, s := range l {
		if !vzIn(b, s) {
			return false
		}
	}
	for _, s := range b {
		if !vzIn(l, s) && !strings.HasPrefix(s, "notify.Create ") {
			return false
		}
	}
	return true
}
