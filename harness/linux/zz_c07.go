package notify

import (
	"fmt"
	"path"
	"strings"

	"golang.org/x/sys/unix"

	"vmc/kern"
	"vmc/vs"
)

// vzRawBits are the kernel's event bits.
var vzRawBits = func() (out []uint32) {
	for b := uint32(1); b <= unix.IN_MOVE_SELF; b <<= 1 {
		out = append(out, b)
	}
	return
}()

// vzX is a watcher whose raw records are made up.
type vzX struct {
	*vzW
	set map[string]Event // watched paths
	wd  map[int32]string // as the kernel knows them
}

func vzNewX() *vzX {
	return &vzX{vzW: vzNewW(4096), set: map[string]Event{}, wd: map[int32]string{}}
}

func (x *vzX) fail(f string, a ...any) { vs.Fail("C07", f, a...) }

// request watches p and checks what the kernel was asked for.
func (x *vzX) request(p string, set Event) {
	old, was := x.set[p]
	var err error
	if was {
		err = x.w.Rewatch(p, old, set)
	} else {
		err = x.w.Watch(p, set)
	}
	if err != nil {
		x.fail("watching %q for %v failed: %v", p, set, err)
	}
	x.set[p] = set
	ino, _ := x.k.Lookup(p, true)
	n := 0
	for _, m := range x.k.Marks() {
		if m.Ino == ino {
			n++
			x.wd[m.Wd] = p
			if m.Mask != vzEncode(set) {
				x.fail("watching %q for %v (%#x) asks the kernel for %s, not %s", p, set, uint32(set), kern.MaskText(m.Mask), kern.MaskText(vzEncode(set)))
			}
		}
	}
	if n != 1 {
		x.fail("watching %q for %v made %d OS watches", p, set, n)
	}
}

func (x *vzX) release(p string) {
	if err := x.w.Unwatch(p); err != nil {
		x.fail("Unwatch %q: %v", p, err)
	}
	delete(x.set, p)
	ino, _ := x.k.Lookup(p, true)
	for _, m := range x.k.Marks() {
		if m.Ino == ino {
			x.fail("Unwatch %q left %s", p, kern.MaskText(m.Mask))
		}
	}
	for wd, q := range x.wd {
		if q == p {
			delete(x.wd, wd)
		}
	}
}

// expect tells what one record has to yield.
func (x *vzX) expect(r kern.RawEvent) (out []string) {
	p, ok := x.wd[r.Wd]
	if !ok || r.Mask&(unix.IN_IGNORED|unix.IN_Q_OVERFLOW) != 0 {
		return
	}
	for _, ev := range vzEvents(r.Mask) {
		if x.set[p]&ev == ev {
			g := vzGot{ev: ev, path: vzJoin(p, r.Name)}
			g.sys.Wd, g.sys.Mask, g.sys.Cookie = r.Wd, r.Mask, r.Cookie
			out = append(out, vzKey(g))
		}
	}
	return
}

func vzKey(g vzGot) string {
	return fmt.Sprintf("%#x %q wd %d mask %#x cookie %d", uint32(g.ev), g.path, g.sys.Wd, g.sys.Mask, g.sys.Cookie)
}

// feed injects records and checks what comes out.
func (x *vzX) feed(rs ...kern.RawEvent) {
	vs.CountState()
	var want []string
	for _, r := range rs {
		want = append(want, x.expect(r)...)
	}
	x.k.Inject(rs...)
	vs.Quiesce()
	x.check(want, rs)
}

func (x *vzX) check(want []string, rs []kern.RawEvent) {
	if n := x.k.Pending(); n > 0 {
		x.fail("%d records were never read", n)
	}
	x.got = nil
	x.drain()
	n := map[string]int{}
	for _, w := range want {
		n[w]++
	}
	for _, g := range x.got {
		n[vzKey(g)]--
	}
	for k, v := range n {
		if v == 0 {
			continue
		}
		s := "is missing"
		if v < 0 {
			s = "is not due"
		}
		txt := ""
		for i, r := range rs {
			if i == 12 {
				txt += " ..."
				break
			}
			txt += " " + r.String()
		}
		sets := ""
		for p, e := range x.set {
			sets += fmt.Sprintf(" %q:%v(%#x)", p, e, uint32(e))
		}
		x.fail("%s %s (%d)\n  requested:%s\n  records:%s", k, s, v, sets, txt)
	}
}

func (x *vzX) wdOf(p string) int32 {
	for wd, q := range x.wd {
		if q == p {
			return wd
		}
	}
	return -7
}

// every record the kernel could produce for a watch: each event with and
// without a name, for files and directories.
func (x *vzX) zoo(p string) (out []kern.RawEvent) {
	wd := x.wdOf(p)
	for _, b := range vzRawBits {
		for _, d := range []uint32{0, unix.IN_ISDIR} {
			c := uint32(0)
			if b&(unix.IN_MOVED_FROM|unix.IN_MOVED_TO) != 0 {
				c = 7 + b
			}
			out = append(out, kern.RawEvent{Wd: wd, Mask: b | d, Cookie: c, Name: "x"}, kern.RawEvent{Wd: wd, Mask: b | d, Cookie: c})
		}
	}
	return
}

// vzAllSets: portable bits x raw bits; level 0 limits the number of raw bits.
func vzAllSets(full bool) (out []Event) {
	for raw := 0; raw < 1<<12; raw++ {
		n := 0
		for b := raw; b != 0; b &= b - 1 {
			n++
		}
		if !full && n > 3 && n < 10 {
			continue
		}
		for port := 0; port < 16; port++ {
			e := Event(raw)
			for i, p := range []Event{Create, Remove, Write, Rename} {
				if port>>i&1 != 0 {
					e |= p
				}
			}
			if e != 0 {
				out = append(out, e)
			}
		}
	}
	return
}

var _ = vzFor("C07", vzC07)

func vzC07(thorough bool) (out []vzScn) {
	everything := All | Event(unix.IN_ALL_EVENTS)
	serial := func(name string, fx []string, body func()) {
		out = append(out, vzScn{name: name, serial: true, bounds: vzPe(0), kern: vzTree(fx...), body: body})
	}
	fx := []string{"/t/", "/t/a/", "/t/f"}
	// all event sets x all records
	sets := vzAllSets(true)
	const chunk = 2048
	for i := 0; i < len(sets); i += chunk {
		part := sets[i:vzMin(i+chunk, len(sets))]
		serial(fmt.Sprintf("sets/%05d", i), fx, func() {
			x := vzNewX()
			e := part[vs.Choose("event set", len(part), false)]
			x.request("/t/a", e)
			rest := everything &^ e
			if rest != 0 {
				x.request("/t/f", rest)
			}
			rs := x.zoo("/t/a")
			if rest != 0 {
				rs = append(rs, x.zoo("/t/f")...)
			}
			x.feed(rs...)
			if rest != 0 {
				x.request("/t/a", rest) // and changed to the complement
				x.feed(x.zoo("/t/a")...)
				x.release("/t/f")
			}
			rs = x.zoo("/t/a")
			x.release("/t/a")
			x.feed(rs...)
		})
	}
	// all batches of records, all splits over reads
	mixes := [][2]Event{{All, everything}, {Create | InMovedFrom, Write | Remove}, {InAttrib | InCreate | Create, Rename}}
	alpha := func(x *vzX) []kern.RawEvent {
		a, f := x.wdOf("/t/a"), x.wdOf("/t/f")
		return []kern.RawEvent{
			{Wd: a, Mask: unix.IN_CREATE, Name: "x"},
			{Wd: a, Mask: unix.IN_MOVED_FROM | unix.IN_ISDIR, Cookie: 9, Name: strings.Repeat("n", 15)},
			{Wd: a, Mask: unix.IN_MOVED_TO | unix.IN_ISDIR, Cookie: 9, Name: strings.Repeat("n", 16)},
			{Wd: f, Mask: unix.IN_MODIFY},
			{Wd: f, Mask: unix.IN_ATTRIB},
			{Wd: f, Mask: unix.IN_DELETE_SELF},
			{Wd: a, Mask: unix.IN_IGNORED},
			{Wd: -1, Mask: unix.IN_Q_OVERFLOW},
			{Wd: 99, Mask: unix.IN_CREATE, Name: "x"},
			{Wd: a, Mask: unix.IN_UNMOUNT},
			{Wd: a, Mask: unix.IN_DELETE, Name: strings.Repeat("n", 255)},
		}
	}
	depth := 3
	if thorough {
		depth = 4
	}
	for mi, mix := range mixes {
		for first := 0; first < 11; first++ {
			mix, first := mix, first
			out = append(out, vzScn{name: fmt.Sprintf("batch/%d/%02d", mi, first), serial: true, bounds: []vzBound{{0, 4}}, kern: vzTree(fx...), body: func() {
				x := vzNewX()
				x.k.SplitRd = true
				x.request("/t/a", mix[0])
				x.request("/t/f", mix[1])
				al := alpha(x)
				n := 1 + vs.Choose("records", depth, false)
				var rs []kern.RawEvent
				for i := 0; i < n; i++ {
					j := first
					if i > 0 {
						j = vs.Choose("record", len(al), false)
					}
					rs = append(rs, al[j])
				}
				x.feed(rs...)
			}})
		}
	}
	// names of all lengths; names with unusual bytes
	serial("names/lengths", fx, func() {
		x := vzNewX()
		x.request("/t/a", everything)
		n := 1 + vs.Choose("length", 255, false)
		x.feed(kern.RawEvent{Wd: x.wdOf("/t/a"), Mask: unix.IN_CREATE, Name: strings.Repeat("q", n)},
			kern.RawEvent{Wd: x.wdOf("/t/a"), Mask: unix.IN_ATTRIB},
			kern.RawEvent{Wd: x.wdOf("/t/a"), Mask: unix.IN_DELETE, Name: strings.Repeat("q", 256-n)})
	})
	serial("names/bytes", fx, func() {
		x := vzNewX()
		x.request("/t/a", everything)
		b := 1 + vs.Choose("byte", 255, false)
		pos := vs.Choose("position", 4, false)
		if b == '/' {
			return
		}
		s := []string{string([]byte{byte(b)}), string([]byte{byte(b), 'x'}), string([]byte{'x', byte(b)}), string([]byte{'x', byte(b), byte(b)})}[pos]
		if s == "." {
			return
		}
		x.feed(kern.RawEvent{Wd: x.wdOf("/t/a"), Mask: unix.IN_CREATE, Name: s}, kern.RawEvent{Wd: x.wdOf("/t/a"), Mask: unix.IN_ATTRIB})
	})
	// bursts around the size of the buffer
	for _, nl := range []int{0, 1, 15, 16, 255} {
		nl := nl
		serial(fmt.Sprintf("burst/%d", nl), fx, func() {
			x := vzNewX()
			x.request("/t/a", Create|InAttrib)
			x.request("/t/f", Write)
			full := vzEvBufSize() / (16 + (nl+16)/16*16)
			if nl == 0 {
				full = vzEvBufSize() / 16
			}
			sizes := []int{1, 2, 100, full - 1, full, full + 1, 2*full + 1}
			n := sizes[vs.Choose("records", len(sizes), false)]
			var rs []kern.RawEvent
			for i := 0; i < n; i++ {
				switch {
				case i%500 == 0:
					rs = append(rs, kern.RawEvent{Wd: x.wdOf("/t/a"), Mask: unix.IN_CREATE, Name: vzName(nl, i)})
				case i%501 == 0:
					rs = append(rs, kern.RawEvent{Wd: x.wdOf("/t/f"), Mask: unix.IN_MODIFY})
				default:
					rs = append(rs, kern.RawEvent{Wd: 99, Mask: unix.IN_CREATE, Name: vzName(nl, i)})
				}
			}
			x.feed(rs...)
		})
	}
	// failing reads and interrupted waits
	for _, f := range []string{"read", "eintr"} {
		f := f
		out = append(out, vzScn{name: "fault/" + f, bounds: []vzBound{{0, 2}, {1, 2}}, kern: vzTree(fx...), body: func() {
			x := vzNewX()
			x.request("/t/a", All)
			x.k.FaultOn[f] = true
			vs.Calm(false)
			rs := []kern.RawEvent{{Wd: x.wdOf("/t/a"), Mask: unix.IN_CREATE, Name: "x"}, {Wd: x.wdOf("/t/a"), Mask: unix.IN_DELETE, Name: "x"}}
			var want []string
			for _, r := range rs {
				want = append(want, x.expect(r)...)
				x.k.Inject(r)
			}
			vs.Quiesce()
			vs.Calm(true)
			x.k.Heal()
			vs.Quiesce()
			x.check(want, rs)
		}})
	}
	// records and changes of the event set in any order
	lv := vzLv(thorough)
	for _, c := range []struct {
		n    string
		a, b Event
	}{{"grow", Create, Create | Write}, {"shrink", All, Write}, {"swap", Create | InModify, Write | InCreate}} {
		c := c
		out = append(out, vzScn{name: "change/" + c.n, bounds: lv, kern: vzTree(fx...), body: func() {
			x := vzNewX()
			x.request("/t/a", c.a)
			wd := x.wdOf("/t/a")
			vs.Calm(false)
			vs.Thread("fs", func() {
				x.k.Create("/t/a/x")
				x.k.WriteFile("/t/a/x")
			})
			if err := x.w.Rewatch("/t/a", c.a, c.b); err != nil {
				x.fail("Rewatch: %v", err)
			}
			vs.Quiesce()
			vs.Calm(true)
			x.got = nil
			x.drain()
			for _, g := range x.got {
				// each is an event of one of the sets, and one that happened
				ok := false
				for _, ev := range vzEvents(g.sys.Mask) {
					ok = ok || ev == g.ev
				}
				if !ok || (c.a|c.b)&g.ev != g.ev || g.path != "/t/a/x" || g.sys.Wd != wd {
					x.fail("%v reported while the event set changed from %v to %v", g, c.a, c.b)
				}
				if g.ev == c.a&c.b&g.ev { // requested all along
					continue
				}
			}
			// what both sets contain is never lost
			for _, ev := range []Event{Create, Write, InCreate, InModify} {
				n := 0
				for _, g := range x.got {
					if g.ev == ev {
						n++
					}
				}
				if c.a&c.b&ev == ev && n == 0 || n > 1 && ev != Write && ev != InModify {
					x.fail("%v reported %d times while the event set changed from %v to %v", ev, n, c.a, c.b)
				}
			}
			x.set["/t/a"] = c.b
			x.feed(x.zoo("/t/a")...)
		}})
	}
	// real operations, through the API
	for _, c := range []struct {
		n    string
		a, b Event
	}{
		{"all", All, everything},
		{"raw", Event(unix.IN_ALL_EVENTS), Write | Rename},
		{"mixed", Create | InMovedTo | InCloseWrite, Remove | InDelete | InMoveSelf | InDeleteSelf | InOpen},
	} {
		ops := []vzOp{
			vzOpCreate("/t/a/x"), vzOpWrite("/t/a/x"), vzOpChmod("/t/a/x"), vzOpRead("/t/a/x"), vzOpRm("/t/a/x"), vzOpRename("/t/a/x", "/t/a/y"), vzOpRename("/t/a/y", "/t/x"),
			vzOpRename("/t/x", "/t/a/x"), vzOpMkdir("/t/a/d"), vzOpRename("/t/a/d", "/t/a/x"), vzOpWrite("/t/f"), vzOpChmod("/t/f"), vzOpChmod("/t/a"), vzOpRename("/t/x", "/t/f"), vzOpRm("/t/a/d"), vzOpLink("/t/x", "/t/a/x"),
		}
		n := 4
		if thorough {
			n = 5
		}
		for i := range ops {
			c, i := c, i
			serial("ops/"+c.n+"/"+ops[i].name, []string{"/t/", "/t/a/", "/t/f", "/t/x"}, func() {
				e := vzNewEnv("C07", 0, 256)
				for j := 0; j < 2; j++ {
					e.chans = append(e.chans, vs.Made(make(chan EventInfo, 256)))
				}
				vzOpWatch(0, "/t/a", false, c.a).do(e)
				vzOpWatch(1, "/t", false, c.b).do(e)
				vzOpWatch(1, "/t/f", false, c.a).do(e)
				e.settle()
				vzMore(e, ops, []int{i}, n)
				e.stopAll()
			})
		}
	}
	return
}

func vzName(n, i int) string {
	s := fmt.Sprintf("%0*d", n, i)
	return s[len(s)-n:]
}

// vzEvBufSize: reads are made with a buffer of some size; ask the kernel
// for a size that is at least as big as the one in use.
func vzEvBufSize() int { return 64 * (unix.SizeofInotifyEvent + unix.PathMax + 1) }

func vzOpLink(a, b string) vzOp {
	return vzOp{"link " + a + " " + b, func(e *vzEnv) bool { return e.exists(a) && !e.isdir(a) && !e.exists(b) && e.isdir(path.Dir(b)) },
		func(e *vzEnv) { e.note("link %s %s", a, b); e.k.LinkFile(a, b) }}
}

// vzMore continues a history.
func vzMore(e *vzEnv, ops []vzOp, prefix []int, n int) {
	for d := 0; d < n; d++ {
		var en []int
		for i := range ops {
			if ops[i].ok == nil || ops[i].ok(e) {
				en = append(en, i)
			}
		}
		if len(en) == 0 {
			break
		}
		var i int
		if d < len(prefix) {
			if i = prefix[d]; !(ops[i].ok == nil || ops[i].ok(e)) {
				return
			}
		} else {
			i = en[vs.Choose("op", len(en), false)]
		}
		ops[i].do(e)
		e.settle()
	}
}
