package vs

import (
	"fmt"
	"runtime"
	"unsafe"
)

// VC is a vector clock indexed by goroutine id.
type VC []uint32

func (v VC) at(i int) uint32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}

func (v VC) clone() VC { return append(VC(nil), v...) }

func (v *VC) grow(n int) {
	for len(*v) < n {
		*v = append(*v, 0)
	}
}

func (v *VC) tick(i int) { v.grow(i + 1); (*v)[i]++ }

func (v *VC) join(o VC) {
	v.grow(len(o))
	for i, x := range o {
		if x > (*v)[i] {
			(*v)[i] = x
		}
	}
}

type access struct {
	g     int
	clk   uint32
	loc   uintptr
	atom  bool
	valid bool
}

type cell struct {
	w  access
	rs []access
}

type raceState struct {
	m map[uintptr]*cell
	n int
}

func newRace() *raceState { return &raceState{m: map[uintptr]*cell{}} }

// RaceOn tells whether memory accesses are being checked.
func RaceOn() bool { return W != nil && !W.dead && W.race != nil }

// Acquire and Release add happens-before edges through o.
func Acquire(o *Obj) {
	if RaceOn() {
		W.cur.vc.join(o.VC)
	}
}

func Release(o *Obj) {
	if RaceOn() {
		g := W.cur
		o.VC.join(g.vc)
		g.vc.tick(g.ID)
	}
}

// ReleaseSet replaces o's clock (mutex unlock).
func ReleaseSet(o *Obj) {
	if RaceOn() {
		g := W.cur
		o.VC = g.vc.clone()
		g.vc.tick(g.ID)
	}
}

var escape *byte
var neverTrue bool

// Rd records a read of *p and returns p.
func Rd[T any](p *T) *T {
	if neverTrue {
		escape = (*byte)(unsafe.Pointer(p))
	}
	if RaceOn() {
		mem(uintptr(unsafe.Pointer(p)), false, false)
	}
	return p
}

// Wr records a write of *p and returns p.
func Wr[T any](p *T) *T {
	if neverTrue {
		escape = (*byte)(unsafe.Pointer(p))
	}
	if RaceOn() {
		mem(uintptr(unsafe.Pointer(p)), true, false)
	}
	return p
}

// RdMap and WrMap record an access to the contents of a map.
func RdMap[M ~map[K]V, K comparable, V any](m M) M {
	if RaceOn() && m != nil {
		mem(*(*uintptr)(unsafe.Pointer(&m)), false, false)
	}
	return m
}

func WrMap[M ~map[K]V, K comparable, V any](m M) M {
	if RaceOn() && m != nil {
		mem(*(*uintptr)(unsafe.Pointer(&m)), true, false)
	}
	return m
}

// MemRange records an access to n bytes.
func MemRange(b []byte, n int, write bool) {
	if RaceOn() {
		for i := 0; i < n && i < len(b); i++ {
			mem(uintptr(unsafe.Pointer(&b[i])), write, false)
		}
	}
}

// MemAtomic records an atomic access.
func MemAtomic(p unsafe.Pointer, write bool) {
	if RaceOn() {
		mem(uintptr(p), write, true)
	}
}

func mem(a uintptr, write, atom bool) {
	w := W
	rs := w.race
	rs.n++
	g := w.cur
	c := rs.m[a]
	if c == nil {
		c = &cell{}
		rs.m[a] = c
	}
	if len(g.vc) <= g.ID {
		g.vc.tick(g.ID)
	}
	me := access{g: g.ID, clk: g.vc.at(g.ID), atom: atom, valid: true}
	conflict := func(o access) bool {
		return o.valid && o.g != g.ID && o.clk > g.vc.at(o.g) && !(o.atom && atom)
	}
	if conflict(c.w) {
		raceReport(c.w, me, true, write)
		return
	}
	if write {
		for _, r := range c.rs {
			if conflict(r) {
				raceReport(r, me, false, true)
				return
			}
		}
		c.rs = c.rs[:0]
		me.loc = pc()
		c.w = me
		return
	}
	for i := range c.rs {
		if c.rs[i].g == g.ID && (c.rs[i].atom == atom) {
			c.rs[i].clk = me.clk
			return
		}
	}
	me.loc = pc()
	c.rs = append(c.rs, me)
}

func pc() uintptr {
	var p [1]uintptr
	runtime.Callers(4, p[:])
	return p[0]
}

func locOf(p uintptr) string {
	if p == 0 {
		return "?"
	}
	f, _ := runtime.CallersFrames([]uintptr{p}).Next()
	i := len(f.File) - 1
	for i >= 0 && f.File[i] != '/' {
		i--
	}
	return fmt.Sprintf("%s:%d", f.File[i+1:], f.Line)
}

func raceReport(o, me access, ow, mw bool) {
	k := func(b bool) string {
		if b {
			return "write"
		}
		return "read"
	}
	w := W
	me.loc = pc2()
	FailNow("C09", "data race: %s by %s at %s, earlier unsynchronised %s by %s at %s",
		k(mw), w.gs[me.g], locOf(me.loc), k(ow), w.gs[o.g], locOf(o.loc))
}

func pc2() uintptr {
	var p [1]uintptr
	runtime.Callers(5, p[:])
	return p[0]
}
