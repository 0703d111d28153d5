// Package time replaces the waiting functions of package time: any amount of
// waiting is a scheduling point after which anything may have happened.
package time

import (
	"time"

	"vmc/vs"
)

func Sleep(d time.Duration) {
	vs.Point(vs.Op{Name: "Sleep", Exec: func() { vs.AddVTime(int64(d)) }})
}

func Now() time.Time {
	if !vs.Active() {
		return time.Unix(1500000000, 0)
	}
	return time.Unix(1500000000, 0).Add(time.Duration(vs.VTime()))
}

func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

type Timer struct {
	C    <-chan time.Time
	o    vs.Obj
	stop bool
	fire bool
	f    func()
	c    chan time.Time
}

func (t *Timer) start(d time.Duration) {
	me := &struct{ t *Timer }{t}
	_ = me
	vs.Go("timer", nil, func() {
		fire := false
		vs.Point(vs.Op{Name: "timer fires", Kind: vs.KRecv, Exec: func() {
			vs.Touch(&t.o, true)
			if !t.stop && !t.fire {
				t.fire, fire = true, true
			}
		}})
		if !fire {
			return
		}
		if t.f != nil {
			t.f()
			return
		}
		vs.Select(true, vs.CaseSend((chan<- time.Time)(t.c))(Now()))
	})
}

func NewTimer(d time.Duration) *Timer {
	c := make(chan time.Time, 1)
	t := &Timer{C: c, c: c}
	t.start(d)
	return t
}

func AfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.start(d)
	return t
}

func (t *Timer) Stop() (ok bool) {
	vs.Point(vs.Op{Name: "Timer.Stop", Exec: func() { vs.Touch(&t.o, true); ok = !t.stop && !t.fire; t.stop = true }})
	return
}

func (t *Timer) Reset(d time.Duration) (ok bool) {
	vs.Point(vs.Op{Name: "Timer.Reset", Exec: func() { vs.Touch(&t.o, true); ok = !t.stop && !t.fire; t.stop, t.fire = false, false }})
	t.start(d)
	return
}
