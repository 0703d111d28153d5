package vs

import (
	"fmt"
	"runtime"
	"unsafe"
)

// Chan is the state the scheduler keeps for a channel of the code under test.
// Buffered channels keep their values in the real channel; unbuffered ones
// are rendezvous between pending operations.
type Chan struct {
	Obj
	id     int
	cap    int
	closed bool
	recvq  []*waiter // pending receivers (unbuffered)
	sendq  []*waiter
	keep   any
	slots  []VC // race mode: clock of each buffered value
	rclk   []VC // clocks of the last receives, for send k -> recv k-cap edges
}

// waiter is one pending alternative of a goroutine on an unbuffered channel.
type waiter struct {
	g    *G
	done bool // completed by the partner
	dead bool
	idx  int       // select case
	val  any       // sender: value
	put  func(any) // receiver: store
	ok   bool
	sel  *selOp
}

type selOp struct {
	done bool
	idx  int
}

func chanKey[T any](ch chan T) uintptr { return *(*uintptr)(unsafe.Pointer(&ch)) }

func (w *World) lookup(key uintptr, capacity int, keep any) *Chan {
	c := w.chans[key]
	if c == nil {
		c = &Chan{id: len(w.chans), cap: capacity, keep: keep}
		w.chans[key] = c
	}
	return c
}

func getR[T any](ch <-chan T) *Chan {
	k := *(*uintptr)(unsafe.Pointer(&ch))
	if k == 0 {
		return nil
	}
	return W.lookup(k, cap(ch), ch)
}

func getS[T any](ch chan<- T) *Chan {
	k := *(*uintptr)(unsafe.Pointer(&ch))
	if k == 0 {
		return nil
	}
	return W.lookup(k, cap(ch), ch)
}

func (c *Chan) String() string {
	if c == nil {
		return "nil channel"
	}
	return fmt.Sprintf("ch%d(cap %d)", c.id, c.cap)
}

// MaxChanCap, if positive, limits the capacity of the channels the code under
// test makes; used to reach full queues with few events.
var MaxChanCap = -1

// Cap is applied to the capacity argument of every make(chan T, n).
func Cap(n int) int {
	if MaxChanCap >= 0 && Active() && n > MaxChanCap {
		return MaxChanCap
	}
	return n
}

func live(q []*waiter) []*waiter {
	out := q[:0]
	for _, x := range q {
		if !x.dead && !x.done && (x.sel == nil || !x.sel.done) {
			out = append(out, x)
		}
	}
	return out
}

func other(q []*waiter, g *G) *waiter {
	for _, x := range q {
		if x.g != g && !x.done && !x.dead && (x.sel == nil || !x.sel.done) {
			return x
		}
	}
	return nil
}

// complete finishes the pending operation x of another goroutine, which then
// may run on.
func (w *World) complete(x *waiter, c *Chan) {
	x.done = true
	g := x.g
	if x.sel != nil {
		x.sel.done, x.sel.idx = true, x.idx
	}
	g.h = mix(mix(g.h, c.h), 21)
	g.op = Op{}
	g.state = gReady
	w.ready = append(w.ready, g)
}

func (w *World) hbSendRecv(c *Chan, s, r *G) {
	if w.race == nil {
		return
	}
	r.vc.join(s.vc)
	s.vc.join(r.vc)
	s.vc.tick(s.ID)
	r.vc.tick(r.ID)
}

func (w *World) hbBufSend(c *Chan, g *G) {
	if w.race == nil {
		return
	}
	if len(c.rclk) >= c.cap && c.cap > 0 {
		g.vc.join(c.rclk[len(c.rclk)-c.cap])
	}
	c.slots = append(c.slots, g.vc.clone())
	g.vc.tick(g.ID)
}

func (w *World) hbBufRecv(c *Chan, g *G) {
	if w.race == nil {
		return
	}
	if len(c.slots) > 0 {
		g.vc.join(c.slots[0])
		c.slots = c.slots[1:]
	}
	c.rclk = append(c.rclk, g.vc.clone())
	if len(c.rclk) > 2*c.cap+2 {
		c.rclk = c.rclk[len(c.rclk)-c.cap-1:]
	}
	g.vc.tick(g.ID)
}

// Send performs ch <- v; curried so that v gets ch's element type.
func Send[T any](ch chan<- T) func(T) {
	return func(v T) {
		w := W
		if w == nil {
			ch <- v
			return
		}
		if w.dead {
			return
		}
		c := getS(ch)
		g := w.cur
		if c == nil {
			Point(Op{Name: "send on nil channel", Kind: KSend, Enabled: never})
			return
		}
		if c.cap > 0 {
			Point(Op{Name: "send " + c.String(), Kind: KSend,
				Enabled: func() bool { return c.closed || len(ch) < c.cap },
				Exec:    func() { execBufSend(w, c, g, ch, v) }})
			return
		}
		x := &waiter{g: g, val: v}
		c.sendq = append(live(c.sendq), x)
		Point(Op{Name: "send " + c.String(), Kind: KSend,
			Enabled: func() bool { return c.closed || other(c.recvq, g) != nil },
			Exec:    func() { x.dead = true; execRdvSend(w, c, g, v) }})
	}
}

func never() bool { return false }

func execBufSend[T any](w *World, c *Chan, g *G, ch chan<- T, v T) {
	Touch(&c.Obj, true)
	if c.closed {
		g.Panic("send on closed channel")
		return
	}
	w.hbBufSend(c, g)
	ch <- v
}

func execRdvSend[T any](w *World, c *Chan, g *G, v T) {
	Touch(&c.Obj, true)
	if c.closed {
		g.Panic("send on closed channel")
		return
	}
	r := other(c.recvq, g)
	r.ok = true
	r.put(v)
	w.hbSendRecv(c, g, r.g)
	w.complete(r, c)
}

// Recv performs <-ch.
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Recv2 performs v, ok := <-ch.
func Recv2[T any](ch <-chan T) (v T, ok bool) {
	w := W
	if w == nil {
		v, ok = <-ch
		return
	}
	if w.dead {
		return
	}
	c := getR(ch)
	g := w.cur
	if c == nil {
		Point(Op{Name: "receive on nil channel", Kind: KRecv, Enabled: never})
		return
	}
	if c.cap > 0 {
		Point(Op{Name: "recv " + c.String(), Kind: KRecv,
			Enabled: func() bool { return c.closed || len(ch) > 0 },
			Exec:    func() { v, ok = execBufRecv(w, c, g, ch) }})
		return
	}
	x := &waiter{g: g, put: func(a any) { v, _ = a.(T) }}
	c.recvq = append(live(c.recvq), x)
	Point(Op{Name: "recv " + c.String(), Kind: KRecv,
		Enabled: func() bool { return c.closed },
		Exec:    func() { x.dead = true; Touch(&c.Obj, false); acq(w, c, g) }})
	return v, x.ok
}

func acq(w *World, c *Chan, g *G) {
	if w.race != nil {
		g.vc.join(c.VC)
	}
}

func execBufRecv[T any](w *World, c *Chan, g *G, ch <-chan T) (v T, ok bool) {
	Touch(&c.Obj, true)
	if len(ch) > 0 {
		w.hbBufRecv(c, g)
		v = <-ch
		return v, true
	}
	acq(w, c, g) // closed
	return
}

// Close performs close(ch).
func Close[T any](ch chan<- T) {
	w := W
	if w == nil {
		close(ch)
		return
	}
	if w.dead {
		return
	}
	c := getS(ch)
	if c == nil {
		panic("close of nil channel")
	}
	g := w.cur
	Point(Op{Name: "close " + c.String(), Exec: func() {
		Touch(&c.Obj, true)
		if c.closed {
			g.Panic("close of closed channel")
			return
		}
		if w.race != nil {
			c.VC = g.vc.clone()
			g.vc.tick(g.ID)
		}
		c.closed = true
	}})
}

// Len performs len(ch).
func Len[T any](ch chan T) int { return lenR((<-chan T)(ch)) }

func lenR[T any](ch <-chan T) int {
	if W == nil || W.dead || ch == nil {
		return len(ch)
	}
	n := 0
	c := getR(ch)
	Point(Op{Name: "len " + c.String(), Exec: func() { Touch(&c.Obj, false); n = len(ch) }})
	return n
}

// Case is one alternative of a select statement.
type Case struct {
	c       *Chan
	send    bool
	ready   func(g *G) bool
	exec    func(w *World, g *G)
	reg     func(w *World, g *G, s *selOp, idx int)
	realTry func() bool
	v       any
	ok      bool
	finish  func()
}

// SendCase and RecvCase carry the typed results.
type RecvCaseT[T any] struct {
	Case
	V  T
	Ok bool
}

func (r *RecvCaseT[T]) base() *Case { return &r.Case }

type SendCaseT[T any] struct{ Case }

func (r *SendCaseT[T]) base() *Case { return &r.Case }

type Caser interface{ base() *Case }

// CaseRecv is `case v, ok := <-ch`.
func CaseRecv[T any](ch <-chan T) *RecvCaseT[T] {
	r := &RecvCaseT[T]{}
	if W == nil {
		r.realTry = func() bool {
			select {
			case r.V, r.Ok = <-ch:
				return true
			default:
				return false
			}
		}
		return r
	}
	if W.dead {
		return r
	}
	c := getR(ch)
	r.c = c
	if c == nil {
		return r
	}
	if c.cap > 0 {
		r.ready = func(*G) bool { return c.closed || len(ch) > 0 }
		r.exec = func(w *World, g *G) { r.V, r.Ok = execBufRecv(w, c, g, ch) }
		return r
	}
	r.ready = func(g *G) bool { return c.closed || other(c.sendq, g) != nil }
	r.exec = func(w *World, g *G) {
		Touch(&c.Obj, true)
		if s := other(c.sendq, g); s != nil {
			r.V, _ = s.val.(T)
			r.Ok = true
			w.hbSendRecv(c, s.g, g)
			w.complete(s, c)
			return
		}
		acq(w, c, g)
	}
	r.reg = func(w *World, g *G, s *selOp, idx int) {
		x := &waiter{g: g, sel: s, idx: idx}
		x.put = func(a any) { r.V, _ = a.(T); r.Ok = true }
		c.recvq = append(live(c.recvq), x)
	}
	return r
}

// CaseSend is `case ch <- v`; curried like Send.
func CaseSend[T any](ch chan<- T) func(T) *SendCaseT[T] {
	return func(v T) *SendCaseT[T] {
		r := &SendCaseT[T]{}
		if W == nil {
			r.realTry = func() bool {
				select {
				case ch <- v:
					return true
				default:
					return false
				}
			}
			return r
		}
		if W.dead {
			return r
		}
		c := getS(ch)
		r.c = c
		r.send = true
		if c == nil {
			return r
		}
		if c.cap > 0 {
			r.ready = func(*G) bool { return c.closed || len(ch) < c.cap }
			r.exec = func(w *World, g *G) { execBufSend(w, c, g, ch, v) }
			return r
		}
		r.ready = func(g *G) bool { return c.closed || other(c.recvq, g) != nil }
		r.exec = func(w *World, g *G) { execRdvSend(w, c, g, v) }
		r.reg = func(w *World, g *G, s *selOp, idx int) {
			x := &waiter{g: g, sel: s, idx: idx, val: v}
			c.sendq = append(live(c.sendq), x)
		}
		return r
	}
}

// Select performs a select statement; returns the index of the case taken, -1
// for default.
func Select(hasDefault bool, cases ...Caser) int {
	w := W
	if w == nil {
		for {
			for i, c := range cases {
				if c.base().realTry() {
					return i
				}
			}
			if hasDefault {
				return -1
			}
		}
	}
	if w.dead {
		runtime.Goexit()
	}
	g := w.cur
	s := &selOp{idx: -1}
	name := "select"
	kind := KRecv
	for i, cc := range cases {
		c := cc.base()
		if c.c == nil {
			continue
		}
		if c.send {
			name += " send " + c.c.String()
			kind = KSend
		} else {
			name += " recv " + c.c.String()
		}
		if c.reg != nil && !hasDefault {
			c.reg(w, g, s, i)
		}
	}
	if len(cases) == 0 && !hasDefault {
		kind = KOther
	}
	if hasDefault {
		name += " default"
	}
	nready := func() (n int) {
		for _, cc := range cases {
			if c := cc.base(); c.c != nil && c.ready(g) {
				n++
			}
		}
		return
	}
	Point(Op{Name: name, Kind: kind,
		Enabled: func() bool { return hasDefault || nready() > 0 },
		Exec: func() {
			s.done = true
			n := nready()
			if n == 0 {
				for _, cc := range cases {
					if c := cc.base(); c.c != nil {
						Touch(&c.c.Obj, true)
					}
				}
				return // default
			}
			k := Choose("select", n, false)
			for i, cc := range cases {
				c := cc.base()
				if c.c == nil {
					continue
				}
				if !c.ready(g) {
					Touch(&c.c.Obj, true)
					continue
				}
				if k == 0 {
					s.idx = i
					c.exec(w, g)
				}
				k--
			}
		}})
	return s.idx
}

// TryRecv takes a value from a buffered channel without being a scheduling
// point; for harness code at quiescence.
func TryRecv[T any](ch chan T) (v T, ok bool) {
	select {
	case v, ok = <-ch:
		if W != nil && W.race != nil && ok {
			c := getR((<-chan T)(ch))
			W.hbBufRecv(c, W.cur)
		}
	default:
	}
	return
}
