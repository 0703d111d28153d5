// Package sync replaces package sync in the code under test.
package sync

import (
	"fmt"
	"sync"

	"vmc/vs"
)

// Mutex is a controlled sync.Mutex.
type Mutex struct {
	o    vs.Obj
	held bool
	real sync.Mutex
}

func (m *Mutex) Lock() {
	if !vs.Active() {
		if vs.W == nil {
			m.real.Lock()
		}
		return
	}
	vs.Point(vs.Op{Name: "Lock", Kind: vs.KLock,
		Enabled: func() bool { return !m.held },
		Exec:    func() { vs.Touch(&m.o, true); m.held = true; vs.Acquire(&m.o) }})
}

func (m *Mutex) TryLock() bool {
	if !vs.Active() {
		if vs.W == nil {
			return m.real.TryLock()
		}
		return true
	}
	ok := false
	vs.Point(vs.Op{Name: "TryLock", Exec: func() {
		vs.Touch(&m.o, true)
		if !m.held {
			m.held, ok = true, true
			vs.Acquire(&m.o)
		}
	}})
	return ok
}

func (m *Mutex) Unlock() {
	if !vs.Active() {
		if vs.W == nil {
			m.real.Unlock()
		}
		return
	}
	if !m.held {
		vs.Fail("C08", "fatal error: sync: unlock of unlocked mutex")
		return
	}
	vs.Touch(&m.o, true)
	vs.ReleaseSet(&m.o)
	m.held = false
}

// RWMutex is a controlled sync.RWMutex: a waiting writer keeps new readers out.
type RWMutex struct {
	o       vs.Obj
	ro      vs.Obj // released by readers
	writer  bool   // announced or active
	active  bool
	readers int
	real    sync.RWMutex
}

func (m *RWMutex) Lock() {
	if !vs.Active() {
		if vs.W == nil {
			m.real.Lock()
		}
		return
	}
	got := false
	vs.Point(vs.Op{Name: "Lock (rw)", Kind: vs.KLock,
		Enabled: func() bool { return !m.writer },
		Exec: func() {
			vs.Touch(&m.o, true)
			m.writer = true
			if m.readers == 0 {
				m.active, got = true, true
				vs.Acquire(&m.o)
				vs.Acquire(&m.ro)
			}
		}})
	if got {
		return
	}
	vs.Point(vs.Op{Name: "Lock (rw, waiting for readers)", Kind: vs.KLock,
		Enabled: func() bool { return m.readers == 0 },
		Exec: func() {
			vs.Touch(&m.o, true)
			m.active = true
			vs.Acquire(&m.o)
			vs.Acquire(&m.ro)
		}})
}

func (m *RWMutex) TryLock() bool {
	if !vs.Active() {
		if vs.W == nil {
			return m.real.TryLock()
		}
		return true
	}
	ok := false
	vs.Point(vs.Op{Name: "TryLock (rw)", Exec: func() {
		vs.Touch(&m.o, true)
		if !m.writer && m.readers == 0 {
			m.writer, m.active, ok = true, true, true
			vs.Acquire(&m.o)
			vs.Acquire(&m.ro)
		}
	}})
	return ok
}

func (m *RWMutex) Unlock() {
	if !vs.Active() {
		if vs.W == nil {
			m.real.Unlock()
		}
		return
	}
	if !m.active {
		vs.Fail("C08", "fatal error: sync: Unlock of unlocked RWMutex")
		return
	}
	vs.Touch(&m.o, true)
	vs.ReleaseSet(&m.o)
	m.writer, m.active = false, false
}

func (m *RWMutex) RLock() {
	if !vs.Active() {
		if vs.W == nil {
			m.real.RLock()
		}
		return
	}
	vs.Point(vs.Op{Name: "RLock", Kind: vs.KLock,
		Enabled: func() bool { return !m.writer },
		Exec:    func() { vs.Touch(&m.o, false); m.readers++; vs.Acquire(&m.o) }})
}

func (m *RWMutex) TryRLock() bool {
	if !vs.Active() {
		if vs.W == nil {
			return m.real.TryRLock()
		}
		return true
	}
	ok := false
	vs.Point(vs.Op{Name: "TryRLock", Exec: func() {
		vs.Touch(&m.o, true)
		if !m.writer {
			m.readers++
			ok = true
			vs.Acquire(&m.o)
		}
	}})
	return ok
}

func (m *RWMutex) RUnlock() {
	if !vs.Active() {
		if vs.W == nil {
			m.real.RUnlock()
		}
		return
	}
	if m.readers == 0 {
		vs.Fail("C08", "fatal error: sync: RUnlock of unlocked RWMutex")
		return
	}
	vs.Touch(&m.o, false)
	vs.Release(&m.ro)
	m.readers--
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() sync.Locker { return (*rlocker)(m) }

// WaitGroup is a controlled sync.WaitGroup.
type WaitGroup struct {
	o vs.Obj
	n int
}

func (g *WaitGroup) Add(d int) {
	if !vs.Active() {
		return
	}
	if d > 0 {
		vs.Point(vs.Op{Name: "WaitGroup.Add", Exec: func() { vs.Touch(&g.o, true); g.n += d }})
		return
	}
	vs.Touch(&g.o, true)
	if d < 0 {
		vs.Release(&g.o)
	}
	g.n += d
	if g.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

func (g *WaitGroup) Done() { g.Add(-1) }

func (g *WaitGroup) Wait() {
	if !vs.Active() {
		return
	}
	vs.Point(vs.Op{Name: "WaitGroup.Wait", Kind: vs.KWait,
		Enabled: func() bool { return g.n == 0 },
		Exec:    func() { vs.Touch(&g.o, false); vs.Acquire(&g.o) }})
}

func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	vs.Go("WaitGroup.Go", nil, func() { defer g.Done(); f() })
}

// Once is a controlled sync.Once.
type Once struct {
	o    vs.Obj
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	if !vs.Active() {
		if !o.done {
			o.done = true
			f()
		}
		return
	}
	done := false
	vs.Point(vs.Op{Name: "Once.Do", Exec: func() {
		vs.Touch(&o.o, false)
		if done = o.done; done {
			vs.Acquire(&o.o)
		}
	}})
	if done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() {
			if vs.Active() {
				vs.Touch(&o.o, true)
				vs.Release(&o.o)
			}
			o.done = true
		}()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var a T1
	var b T2
	return func() (T1, T2) { o.Do(func() { a, b = f() }); return a, b }
}

// Cond is a controlled sync.Cond.
type Cond struct {
	L       sync.Locker
	o       vs.Obj
	waiters []*bool
}

func NewCond(l sync.Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	if !vs.Active() {
		return
	}
	go1 := new(bool)
	vs.Touch(&c.o, true)
	c.waiters = append(c.waiters, go1)
	c.L.Unlock()
	vs.Point(vs.Op{Name: "Cond.Wait", Kind: vs.KWait, Enabled: func() bool { return *go1 },
		Exec: func() { vs.Touch(&c.o, true); vs.Acquire(&c.o) }})
	c.L.Lock()
}

func (c *Cond) wake(all bool) {
	if !vs.Active() {
		return
	}
	vs.Point(vs.Op{Name: "Cond.Signal", Exec: func() {
		vs.Touch(&c.o, true)
		vs.Release(&c.o)
		for len(c.waiters) > 0 {
			*c.waiters[0] = true
			c.waiters = c.waiters[1:]
			if !all {
				break
			}
		}
	}})
}

func (c *Cond) Signal()    { c.wake(false) }
func (c *Cond) Broadcast() { c.wake(true) }

// Pool is a controlled sync.Pool that always reuses the last object put back.
type Pool struct {
	New func() any
	o   vs.Obj
	s   []any
}

func (p *Pool) Get() (v any) {
	if vs.Active() {
		vs.Point(vs.Op{Name: "Pool.Get", Exec: func() {
			vs.Touch(&p.o, true)
			vs.Acquire(&p.o)
			if n := len(p.s); n > 0 {
				v = p.s[n-1]
				p.s = p.s[:n-1]
			}
		}})
	}
	if v == nil && p.New != nil {
		v = p.New()
	}
	return
}

func (p *Pool) Put(v any) {
	if v == nil || !vs.Active() {
		return
	}
	vs.Point(vs.Op{Name: "Pool.Put", Exec: func() {
		vs.Touch(&p.o, true)
		vs.Release(&p.o)
		p.s = append(p.s, v)
	}})
}

// Map is a controlled sync.Map.
type Map struct {
	o    vs.Obj
	m    map[any]any
	keys []any
}

func (m *Map) op(name string, write bool, f func()) {
	do := func() {
		if m.m == nil {
			m.m = map[any]any{}
		}
		f()
	}
	if !vs.Active() {
		do()
		return
	}
	vs.Point(vs.Op{Name: "Map." + name, Exec: func() {
		vs.Touch(&m.o, write)
		vs.Acquire(&m.o)
		if write {
			vs.Release(&m.o)
		}
		do()
	}})
}

func (m *Map) Load(k any) (v any, ok bool) {
	m.op("Load", false, func() { v, ok = m.m[k] })
	return
}

func (m *Map) set(k, v any) {
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}

func (m *Map) del(k any) {
	delete(m.m, k)
	for i, x := range m.keys {
		if x == k {
			m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
			break
		}
	}
}

func (m *Map) Store(k, v any) { m.op("Store", true, func() { m.set(k, v) }) }

func (m *Map) LoadOrStore(k, v any) (a any, loaded bool) {
	m.op("LoadOrStore", true, func() {
		if a, loaded = m.m[k]; !loaded {
			a = v
			m.set(k, v)
		}
	})
	return
}

func (m *Map) LoadAndDelete(k any) (v any, ok bool) {
	m.op("LoadAndDelete", true, func() {
		if v, ok = m.m[k]; ok {
			m.del(k)
		}
	})
	return
}

func (m *Map) Delete(k any) { m.op("Delete", true, func() { m.del(k) }) }

func (m *Map) Swap(k, v any) (p any, ok bool) {
	m.op("Swap", true, func() { p, ok = m.m[k]; m.set(k, v) })
	return
}

func (m *Map) CompareAndSwap(k, o, n any) (ok bool) {
	m.op("CompareAndSwap", true, func() {
		if v, has := m.m[k]; has && v == o {
			m.m[k], ok = n, true
		}
	})
	return
}

func (m *Map) CompareAndDelete(k, o any) (ok bool) {
	m.op("CompareAndDelete", true, func() {
		if v, has := m.m[k]; has && v == o {
			m.del(k)
			ok = true
		}
	})
	return
}

func (m *Map) Clear() { m.op("Clear", true, func() { m.m, m.keys = map[any]any{}, nil }) }

func (m *Map) Range(f func(k, v any) bool) {
	var ks []any
	m.op("Range", false, func() { ks = append(ks, m.keys...) })
	for _, k := range ks {
		if v, ok := m.Load(k); ok && !f(k, v) {
			return
		}
	}
}

var _ = fmt.Sprint
