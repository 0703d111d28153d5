package notify

import (
	"fmt"
	"syscall"

	"vmc/kern"
	"vmc/vs"
)

func vzEnvs(n ...int) (out []vzBound) {
	for _, x := range n {
		out = append(out, vzBound{0, x})
	}
	return
}

// vzFail: registrations first, then a Watch during which system calls fail in
// every possible way (up to a number of failures), then the same Watch again
// with a healthy system.
func vzFail(name string, fx []string, setup []vzOp, ch int, p string, rec bool, set Event, calls []string, sticky bool, n ...int) vzScn {
	return vzFailWith(0, name, fx, setup, ch, p, rec, set, calls, sticky, n...)
}

func vzFailWith(errno syscall.Errno, name string, fx []string, setup []vzOp, ch int, p string, rec bool, set Event, calls []string, sticky bool, n ...int) vzScn {
	return vzScn{name: name, serial: true, bounds: vzEnvs(n...), kern: vzTree(fx...), body: func() {
		e := vzNewEnv("C05", 3, 64)
		for _, o := range setup {
			o.do(e)
			e.settle()
		}
		e.used = 3
		e.k.Sticky = sticky
		for _, c := range calls {
			e.k.FaultOn[c] = true
		}
		e.k.NFaults = 0
		if errno != 0 {
			e.k.FaultErr = map[string]syscall.Errno{calls[0]: errno}
		}
		masks := func() (m map[int]uint32) {
			m = map[int]uint32{}
			for _, x := range e.k.Marks() {
				m[x.Ino.ID] = x.Mask
			}
			return
		}
		was := masks()
		err := e.watch(ch, p, rec, set)
		hit := e.k.NFaults
		e.k.Heal()
		if err == nil && hit > 0 && !vzMaySucceed(calls) {
			e.fail("Watch(%s) returned nil although the system refused the watch", vzSpell(p, rec))
		}
		if err != nil && hit == 0 {
			e.fail("Watch(%s) failed: %v", vzSpell(p, rec), err)
		}
		if now := masks(); err != nil && hit == 1 && !sticky {
			for _, m := range e.k.Marks() {
				if x := now[m.Ino.ID]; was[m.Ino.ID] != x {
					e.fail("Watch(%s) failed and left an OS watch with %s where there was one with %s", vzSpell(p, rec), kern.MaskText(x), kern.MaskText(was[m.Ino.ID]))
				}
			}
		}
		e.settle()
		e.probeDeep()
		if err != nil {
			if err := e.watch(ch, p, rec, set); err != nil {
				e.fail("second Watch(%s) failed: %v", vzSpell(p, rec), err)
			}
			e.settle()
			e.probeDeep()
		}
		e.stop(ch)
		e.settle()
		e.probe()
		e.stopAll()
	}}
}

// vzMaySucceed: nothing but a refused watch must make Watch fail.
func vzMaySucceed(calls []string) bool {
	for _, c := range calls {
		if c != "inotify_add_watch" && c != "inotify_init" && c != "epoll_create" && c != "epoll_ctl" && c != "pipe" {
			return true
		}
	}
	return false
}

var _ = vzFor("C05", vzC05)

func vzC05(thorough bool) (out []vzScn) {
	fx := []string{"/t/", "/t/a/", "/t/a/b/", "/t/a/f", "/t/c/"}
	setups := []struct {
		n string
		s []vzOp
	}{
		{"none", nil},
		{"same", []vzOp{vzOpWatch(0, "/t/a", false, Create)}},
		{"other", []vzOp{vzOpWatch(1, "/t/a", false, Create)}},
		{"both", []vzOp{vzOpWatch(0, "/t/a", false, Create), vzOpWatch(1, "/t/a", false, Remove)}},
		{"rec-below", []vzOp{vzOpWatch(1, "/t/a", true, Create|Remove)}},
		{"rec-above", []vzOp{vzOpWatch(1, "/t", true, Create)}},
		{"rec-same-chan", []vzOp{vzOpWatch(0, "/t", true, Remove), vzOpWatch(1, "/t/a/b", false, Create)}},
		{"file", []vzOp{vzOpWatch(1, "/t/a/f", false, Write)}},
		{"deep", []vzOp{vzOpWatch(1, "/t/a/b", false, Create), vzOpWatch(0, "/t/a/b", true, Write)}},
	}
	type target struct {
		p   string
		rec bool
		e   Event
	}
	var ts []target
	for _, p := range []string{"/t", "/t/a", "/t/a/b"} {
		for _, rec := range []bool{false, true} {
			for _, e := range []Event{Create, Create | Write, Write | Remove} {
				ts = append(ts, target{p, rec, e})
			}
		}
	}
	ts = append(ts, target{"/t/a/f", false, Write | InAttrib}, target{"/t/a/f", false, Remove})
	for _, s := range setups {
		for _, t := range ts {
			nm := fmt.Sprintf("%s/Watch(%s,%v)", s.n, vzSpell(t.p, t.rec), t.e)
			out = append(out, vzFail("refused/"+nm, fx, s.s, 0, t.p, t.rec, t.e, []string{"inotify_add_watch"}, false, 1, 2))
			out = append(out, vzFail("limit/"+nm, fx, s.s, 0, t.p, t.rec, t.e, []string{"inotify_add_watch"}, true, 1))
			out = append(out, vzFail("refused3/"+nm, fx, s.s, 0, t.p, t.rec, t.e, []string{"inotify_add_watch"}, false, vzUpTo(vzMoreIf(thorough, 3))[1:]...))
			if t.rec {
				out = append(out, vzFailWith(syscall.EACCES, "denied/"+nm, fx, s.s, 0, t.p, t.rec, t.e, []string{"inotify_add_watch"}, false, 1))
				out = append(out, vzFailWith(syscall.EACCES, "unreadable-denied/"+nm, fx, s.s, 0, t.p, t.rec, t.e, []string{"open"}, false, 1))
				out = append(out, vzFail("unreadable/"+nm, fx, s.s, 0, t.p, t.rec, t.e, []string{"open"}, false, 1, 2))
			}
			out = append(out, vzFail("lstat/"+nm, fx, s.s, 0, t.p, t.rec, t.e, []string{"stat"}, false, 1))
		}
	}
	// refusals while files change and other channels come and go
	for _, s := range []struct {
		n  string
		s  []vzOp
		th [][]vzOp
	}{
		{"write", []vzOp{vzOpWatch(1, "/t", true, Create|Write)}, [][]vzOp{{vzOpTryWatch(0, "/t/a", false, Write|Remove)}, {vzOpWrite("/t/a/f")}}},
		{"rec-write", []vzOp{vzOpWatch(1, "/t/a", false, Write)}, [][]vzOp{{vzOpTryWatch(0, "/t", true, Write|Remove)}, {vzOpWrite("/t/a/f")}}},
		{"two", nil, [][]vzOp{{vzOpTryWatch(0, "/t", true, Create)}, {vzOpTryWatch(1, "/t/a", false, Write)}}},
		{"two-rec", nil, [][]vzOp{{vzOpTryWatch(0, "/t", true, Create)}, {vzOpTryWatch(1, "/t/a", true, Write)}}},
		{"stop", []vzOp{vzOpWatch(1, "/t", true, Create|Write)}, [][]vzOp{{vzOpTryWatch(0, "/t/a", true, Write|Remove)}, {vzOpStop(1)}}},
	} {
		b := []vzBound{{0, 1}, {1, 1}, {2, 1}, {2, 2}}
		if thorough {
			b = append(b, vzBound{3, 1}, vzBound{3, 2}, vzBound{4, 2})
		}
		out = append(out, vzConc{name: "conc/" + s.n, fixture: fx, nch: 2, setup: s.s, threads: s.th, faults: []string{"inotify_add_watch"}, bounds: b, final: (*vzEnv).finalDeep}.scn("C05"))
	}
	// the path goes away while it is being watched
	for _, s := range []struct {
		n string
		s []vzOp
	}{{"none", nil}, {"above", []vzOp{vzOpWatch(1, "/t", true, Create)}}, {"parent", []vzOp{vzOpWatch(1, "/t", false, All)}}, {"same", []vzOp{vzOpWatch(1, "/t/c", false, Write)}}} {
		for _, t := range []target{{"/t/c", true, Create | Write}, {"/t/c", false, Create}, {"/t/a/f", false, Write}} {
			s, t := s, t
			out = append(out, vzScn{name: fmt.Sprintf("vanishing/%s/Watch(%s)", s.n, vzSpell(t.p, t.rec)), bounds: vzLv(thorough), kern: vzTree(fx...), body: func() {
				e := vzNewEnv("C05", 2, 64)
				e.used = 2
				vs.Calm(true)
				for _, o := range s.s {
					o.do(e)
					e.settle()
				}
				vs.Calm(false)
				dir := e.isdir(t.p)
				e.k.Added = nil
				var err error
				vs.Thread("user0", func() { err = Watch(vzSpell(t.p, t.rec), e.chans[0], t.e) })
				vs.Thread("user1", func() {
					if dir {
						e.k.Rmdir(t.p)
					} else {
						e.k.Unlink(t.p)
					}
				})
				vs.Quiesce()
				vs.Calm(true)
				vs.CheckIdle()
				e.note("Watch(%s)=%v", vzSpell(t.p, t.rec), err)
				ok := false
				for _, p := range e.k.Added {
					ok = ok || p == t.p
				}
				if err == nil && !ok && s.n != "above" {
					e.fail("Watch(%s) returned nil although the path could not be watched", vzSpell(t.p, t.rec))
				}
				e.vzForget()
				if err == nil || s.n == "same" {
					e.stop(0)
					e.stop(1)
					e.settle()
				}
				if dir {
					e.k.Mkdir(t.p)
				} else {
					e.k.Create(t.p)
				}
				e.settle()
				e.probe()
				e.mustWatch(0, t.p, t.rec, t.e)
				e.settle()
				e.probeDeep()
				e.stopAll()
			}})
		}
	}
	// the kernel's watch limit
	for _, s := range setups {
		for _, t := range ts {
			s, t := s, t
			nm := fmt.Sprintf("%s/Watch(%s,%v)", s.n, vzSpell(t.p, t.rec), t.e)
			out = append(out, vzScn{name: "max_user_watches/" + nm, serial: true, bounds: vzEnvs(0), kern: vzTree(fx...), body: func() {
				e := vzNewEnv("C05", 3, 64)
				for _, o := range s.s {
					o.do(e)
					e.settle()
				}
				e.used = 3
				max := e.k.WMax
				room := vs.Choose("room", 4, false)
				e.k.WMax = len(e.k.Marks()) + room
				need := map[*kern.Inode]bool{}
				have := map[*kern.Inode]bool{}
				for _, m := range e.k.Marks() {
					have[m.Ino] = true
				}
				e.paths(func(p string, i *kern.Inode) {
					if p == t.p || t.rec && i.Kind == kern.Dir && vzUnder(t.p, p) {
						if !have[i] {
							need[i] = true
						}
					}
				})
				err := e.watch(0, t.p, t.rec, t.e)
				if (err != nil) != (len(need) > room) {
					e.fail("Watch(%s)=%v with room for %d watches, %d needed", vzSpell(t.p, t.rec), err, room, len(need))
				}
				e.settle()
				e.k.WMax = max
				e.probeDeep()
				if err != nil {
					if err := e.watch(0, t.p, t.rec, t.e); err != nil {
						e.fail("second Watch(%s) failed: %v", vzSpell(t.p, t.rec), err)
					}
					e.settle()
					e.probeDeep()
				}
				e.stopAll()
			}})
		}
	}
	// invalid requests: every single event bit, missing files, files as trees
	for _, s := range setups {
		s := s
		for _, p := range []string{"/t", "/t/a", "/t/a/b", "/t/a/f", "/t/x", "/t/a/f/x"} {
			p := p
			for _, rec := range []bool{false, true} {
				rec := rec
				out = append(out, vzScn{name: fmt.Sprintf("invalid/%s/%s", s.n, vzSpell(p, rec)), serial: true, bounds: vzEnvs(0), kern: vzTree(fx...), body: func() {
					e := vzNewEnv("C05", 3, 64)
					for _, o := range s.s {
						o.do(e)
						e.settle()
					}
					e.used = 3
					bit := Event(uint64(1) << uint(vs.Choose("bit", 33, false)))
					with := []Event{0, Create, Write | Remove}[vs.Choose("with", 3, false)]
					if bit == 0 && with == 0 {
						// an event that is none asks for nothing; whether it is an error is not specified
						e.watch(0, p, rec, 0)
						if rec {
							// a recursive registration without events may hold watches until Stop
							e.stop(0)
						}
						e.settle()
						e.probeDeep()
						e.watch(0, p, rec)
						e.settle()
						e.probeDeep()
						e.stopAll()
						return
					}
					isdir := e.isdir(p)
					err := e.watch(0, p, rec, bit|with)
					ok := (bit == 0 || vzKnown(bit)) && (isdir || e.exists(p) && !rec)
					if ok != (err == nil) {
						e.fail("Watch(%s, %#x)=%v", vzSpell(p, rec), uint32(bit|with), err)
					}
					e.settle()
					e.probeDeep()
					e.stop(0)
					e.settle()
					e.probe()
					if isdir {
						if err := e.watch(0, p, rec, Create|Write); err != nil {
							e.fail("Watch(%s): %v", p, err)
						}
						e.settle()
						e.probe()
					}
					e.stopAll()
				}})
			}
		}
	}
	return
}

// vzKnown: the event values the documentation lists for Linux.
func vzKnown(e Event) bool {
	for _, x := range []Event{Create, Remove, Write, Rename, InAccess, InModify, InAttrib, InCloseWrite, InCloseNowrite, InOpen, InMovedFrom, InMovedTo, InCreate, InDelete, InDeleteSelf, InMoveSelf} {
		if x == e {
			return true
		}
	}
	return false
}
