package notify

import (
	"fmt"
	"sort"
	"strings"

	"vmc/kern"
	"vmc/vs"
)

// vzW drives one watcher directly.
type vzW struct {
	w    vzWatcherI
	c    chan EventInfo
	k    *kern.K
	base int
	got  []vzGot
}

func vzNewW(capacity int) *vzW {
	x := &vzW{k: kern.Cur()}
	vs.Calm(true)
	vs.Quiesce()
	x.base = vs.LibAlive()
	x.c = vs.Made(make(chan EventInfo, capacity))
	x.w = newWatcher(x.c)
	return x
}

func (x *vzW) fail(f string, a ...any) { vs.Fail("C11", f, a...) }

func (x *vzW) drain() {
	for _, ei := range vs.Drain(x.c) {
		x.got = append(x.got, vzInfo(ei))
	}
}

// released: nothing is left of the watcher.
func (x *vzW) released(when string) {
	vs.Quiesce()
	if o := x.k.OpenFDs(); len(o) > 0 {
		x.fail("%s: descriptors remain open: %v", when, o)
	}
	if m := x.k.Marks(); len(m) > 0 {
		x.fail("%s: OS watches remain: %v", when, m)
	}
	if n := vs.LibAlive(); n != x.base {
		x.fail("%s: %d goroutines of the watcher remain: %s", when, n-x.base, vs.Describe())
	}
	if len(x.k.Closed) > 0 {
		x.fail("%s: bad close: %v", when, x.k.Closed)
	}
}

// collect: the watcher, which has been closed or has never been started, is
// collected as garbage after its descriptors' numbers are in use again.
func (x *vzW) collect() {
	vs.Calm(true)
	var fds []int
	for i := 0; i < 4; i++ {
		r, w, _ := x.k.Pipe(true)
		fds = append(fds, r, w)
	}
	was := fmt.Sprint(x.k.OpenFDs())
	vs.Finalize(x.w)
	if now := fmt.Sprint(x.k.OpenFDs()); now != was {
		x.fail("collecting the watcher closes descriptors of others: %s became %s", was, now)
	}
	for _, fd := range fds {
		x.k.Close(fd)
	}
	x.released("after the watcher was collected")
}

// works: the watcher reports a change of a watched directory.
func (x *vzW) works(dir, name string) {
	vs.Calm(true)
	x.drain()
	x.got = nil
	x.k.Create(dir + "/" + name)
	vs.Quiesce()
	x.drain()
	var s []string
	for _, g := range x.got {
		s = append(s, fmt.Sprint(g.ev, " ", g.path))
	}
	sort.Strings(s)
	if w := fmt.Sprint(Event(Create), " ", dir+"/"+name); strings.Join(s, ";") != w {
		x.fail("watcher reported %v, not %s", s, w)
	}
}

var _ = vzFor("C11", vzC11)

func vzC11(thorough bool) (out []vzScn) {
	lv := vzLv(thorough)
	fx := []string{"/t/", "/t/a/", "/t/f"}
	add := func(name string, b []vzBound, body func()) {
		out = append(out, vzScn{name: name, bounds: b, kern: vzTree(fx...), body: body})
	}
	for _, capacity := range []int{64, 0} {
		for _, nw := range []int{0, 1, 2} {
			for _, load := range []string{"idle", "pending", "one", "burst", "many"} {
				for _, closers := range []int{1, 2} {
					capacity, nw, load, closers := capacity, nw, load, closers
					if nw == 0 && load != "idle" || closers == 2 && load == "burst" || load == "many" && nw == 1 {
						continue
					}
					b := lv
					if load == "burst" || closers == 2 || load == "many" {
						b = lv[:len(lv)-1]
					}
					add(fmt.Sprintf("close/buffer%d/watches%d/%s/closers%d", capacity, nw, load, closers), b, func() {
						x := vzNewW(capacity)
						for i, p := range []string{"/t", "/t/a"}[:nw] {
							if err := x.w.Watch(p, All); err != nil {
								x.fail("Watch %d: %v", i, err)
							}
						}
						stop := false
						var gate vs.Obj
						_ = gate
						if capacity == 0 {
							vs.Thread("reader", func() {
								for {
									ei := vs.Recv((<-chan EventInfo)(x.c))
									if ei == nil {
										return
									}
									if stop {
										x.fail("%v reported after Close had returned", vzInfo(ei))
									}
								}
							})
						}
						if load == "pending" {
							x.k.Create("/t/x")
							x.k.WriteFile("/t/x")
						}
						vs.Calm(false)
						if load == "one" || load == "burst" {
							vs.Thread("fs", func() {
								x.k.Create("/t/x")
								if load == "burst" {
									x.k.Create("/t/a/y")
									x.k.Unlink("/t/x")
								}
							})
						}
						if load == "many" {
							for i := 0; i < 12; i++ {
								x.k.Create(fmt.Sprintf("/t/x%d", i))
							}
						}
						for i := 0; i < closers; i++ {
							first := i == 0
							vs.Thread(fmt.Sprintf("closer%d", i), func() {
								if err := x.w.Close(); err != nil {
									x.fail("Close: %v", err)
								}
								if first && closers == 1 {
									stop = true
									if o := x.k.OpenFDs(); len(o) > 0 {
										x.fail("descriptors are open when Close returns: %v", o)
									}
									x.drain()
								}
							})
						}
						vs.Quiesce()
						vs.Calm(true)
						if capacity > 0 && closers == 1 {
							if ei, ok := vs.TryRecv(x.c); ok {
								x.fail("%v reported after Close had returned", vzInfo(ei))
							}
						}
						x.released("after Close")
						if err := x.w.Close(); err != nil {
							x.fail("second Close: %v", err)
						}
						x.released("after a second Close")
						x.k.Create("/t/late")
						x.k.Unlink("/t/late")
						vs.Quiesce()
						if capacity > 0 {
							x.drain()
							// and it can be used again
							if err := x.w.Watch("/t", Create); err != nil {
								x.fail("Watch after Close: %v", err)
							}
							x.works("/t", "again")
							if err := x.w.Close(); err != nil {
								x.fail("Close after reuse: %v", err)
							}
							x.released("after reuse and Close")
							x.collect()
						}
					})
				}
			}
		}
	}
	// closed right after it was started
	for _, pending := range []bool{false, true} {
		for _, after := range []bool{false, true} {
			pending, after := pending, after
			add(fmt.Sprintf("close/fresh/changes=%v/again=%v", pending, after), lv, func() {
				x := vzNewW(64)
				vs.Calm(false)
				vs.Thread("user", func() {
					for i := 0; i < 1+vzInt(after); i++ {
						if err := x.w.Watch("/t", All); err != nil {
							x.fail("Watch: %v", err)
						}
						if pending {
							x.k.Create(fmt.Sprintf("/t/x%d", i))
						}
						if err := x.w.Close(); err != nil {
							x.fail("Close: %v", err)
						}
						if o := x.k.OpenFDs(); len(o) > 0 {
							x.fail("descriptors are open when Close returns: %v", o)
						}
						x.drain()
					}
				})
				vs.Quiesce()
				vs.Calm(true)
				if ei, ok := vs.TryRecv(x.c); ok {
					x.fail("%v reported after Close had returned", vzInfo(ei))
				}
				x.released("after Close")
			})
		}
	}
	// start-up failures
	// start-up failures
	calls := []string{"inotify_init", "epoll_create", "pipe", "epoll_ctl"}
	for _, public := range []bool{false, true} {
		for nf := 1; nf <= 3; nf++ {
			public, nf := public, nf
			out = append(out, vzScn{name: fmt.Sprintf("start/public=%v/failures%d", public, nf), serial: true, bounds: vzEnvs(nf), kern: vzTree(fx...), body: func() {
				x := vzNewW(64)
				c := x.c
				watch := func(p string) error {
					if public {
						return Watch(p, c, Create)
					}
					return x.w.Watch(p, Create)
				}
				for i := 0; i < nf; i++ {
					for _, f := range calls {
						x.k.FaultOn[f] = true
					}
					x.k.NFaults = 0
					err := watch("/t")
					if (err != nil) != (x.k.NFaults > 0) {
						x.fail("Watch=%v with %d failed system calls", err, x.k.NFaults)
					}
					x.k.Heal()
					if err == nil {
						break
					}
					x.released("after a failed start")
				}
				if err := watch("/t"); err != nil {
					x.fail("Watch: %v", err)
				}
				if err := watch("/t/a"); err != nil {
					x.fail("Watch: %v", err)
				}
				n := 4
				if o := x.k.OpenFDs(); len(o) != n {
					x.fail("%d descriptors open, not %d: %v", len(o), n, o)
				}
				x.works("/t", "x1")
				x.works("/t/a", "x2")
				if !public {
					if err := x.w.Close(); err != nil {
						x.fail("Close: %v", err)
					}
					x.released("after Close")
					x.collect()
				} else {
					Stop(c)
				}
			}})
		}
	}
	for _, nf := range []int{0, 1, 2} {
		nf := nf
		b := []vzBound{{0, nf}, {1, nf}}
		if thorough || nf == 0 {
			b = append(b, vzBound{2, nf})
		}
		add(fmt.Sprintf("start/concurrent/failures%d", nf), b, func() {
			x := vzNewW(64)
			for _, f := range calls {
				x.k.FaultOn[f] = true
			}
			vs.Calm(false)
			var errs [2]error
			for i, p := range []string{"/t", "/t/a"} {
				i, p := i, p
				vs.Thread("user"+p, func() { errs[i] = x.w.Watch(p, Create) })
			}
			vs.Quiesce()
			vs.Calm(true)
			x.k.Heal()
			n := 0
			for _, err := range errs {
				if err != nil {
					n++
				}
			}
			if n > x.k.NFaults || x.k.NFaults > 0 && n == 0 {
				x.fail("errors %v after %d failed system calls", errs, x.k.NFaults)
			}
			if n == 2 {
				x.released("after failed starts")
			}
			for i, p := range []string{"/t", "/t/a"} {
				if errs[i] != nil {
					if err := x.w.Watch(p, Create); err != nil {
						x.fail("Watch: %v", err)
					}
				}
				x.works(p, "new")
			}
			if o := x.k.OpenFDs(); len(o) != 4 {
				x.fail("%d descriptors open, not 4: %v", len(o), o)
			}
			if err := x.w.Close(); err != nil {
				x.fail("Close: %v", err)
			}
			x.released("after Close")
		})
	}
	// calls that are interrupted, on the way out
	add("interrupted", []vzBound{{0, 1}, {0, 2}, {1, 1}}, func() {
		x := vzNewW(64)
		for i := 0; i < 2; i++ {
			if err := x.w.Watch("/t", Create); err != nil {
				x.fail("Watch: %v", err)
			}
			x.works("/t", fmt.Sprintf("new%d", i))
			x.k.FaultOn["close"] = true
			x.k.FaultOn["eintr"] = true
			vs.Calm(false)
			vs.Thread("closer", func() { x.w.Close() })
			vs.Quiesce()
			vs.Calm(true)
			x.k.Heal()
			x.released("after Close")
		}
	})
	// a watcher that could not be started is dropped
	for i := 0; i < 4; i++ {
		close, intr := i&1 != 0, i&2 != 0
		out = append(out, vzScn{name: fmt.Sprintf("dropped/close=%v/interrupted=%v", close, intr), serial: true, bounds: vzEnvs(1, 2), kern: vzTree(fx...), body: func() {
			x := vzNewW(64)
			for _, f := range calls {
				x.k.FaultOn[f] = true
			}
			x.k.FaultOn["close"] = intr
			x.k.NFaults = 0
			err := x.w.Watch("/t", Create)
			x.k.Heal()
			if err == nil {
				if err := x.w.Close(); err != nil {
					x.fail("Close: %v", err)
				}
			} else if close {
				if err := x.w.Close(); err != nil {
					x.fail("Close after a failed start: %v", err)
				}
			}
			x.released("after a failed start")
			if !intr {
				x.collect()
			}
		}})
	}
	return
}

func vzInt(b bool) int {
	if b {
		return 1
	}
	return 0
}
