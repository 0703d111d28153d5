// Package vs is a controlled scheduler for exhaustive exploration of Go code:
// every synchronisation or kernel operation of the code under test is a
// scheduling point, exactly one goroutine runs at a time, and every decision
// (which goroutine goes next, which answer the environment gives) is taken by
// the explorer (explore.go).
package vs

import (
	"fmt"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"unsafe"
)

// Obj is the identity of something operations conflict on.
type Obj struct {
	h  uint64 // version: hash of the last write
	rd uint64 // commutative hash of the reads since
	VC VC     // release clock, race mode only
}

type gstate uint8

const (
	gReady   gstate = iota // may run local code up to its next point
	gPending               // at a point
	gRunning
	gDone
)

// Idle classes: what a goroutine that is blocked for good is waiting for.
const (
	KOther   = iota
	KLock    // waiting for a lock
	KSend    // waiting to send
	KRecv    // waiting to receive: idle
	KWait    // waiting for a wait group / condition
	KPoll    // waiting for the kernel: idle
	KQuiesce // waiting for everything else to be idle
)

// Op is a pending operation.
type Op struct {
	Name    string
	Kind    int
	Enabled func() bool // nil: always
	Exec    func()      // performed atomically when chosen
	sel     *selOp
	w       *waiter
	loc     string
}

// G is a goroutine under control.
type G struct {
	ID     int
	Name   string
	h      uint64
	state  gstate
	op     Op
	wake   chan bool
	gone   chan struct{}
	nspawn uint64
	lastSp spawnRec
	Lib    bool // started by the code under test
	vc     VC
	panicv any
	hasP   bool
}

type spawnRec struct {
	h    uint64
	site string
	args []any
	ch   uint64
}

// World is one execution.
type World struct {
	Finalizers map[any]func() // set by the library
	gs         []*G
	ready      []*G
	cur        *G
	last       *G
	dead       bool
	done       chan struct{}
	killed     chan struct{}
	ex         *Explorer
	depth      int
	steps      int
	pUsed      int
	eUsed      int
	chans      map[uintptr]*Chan
	Fault      *Violation
	trace      []string
	obs        []string
	Kern       any // kernel simulation of this execution
	race       *raceState
	main       *G
	stopped    bool // pruned
	ended      string
	once       map[string]bool
	vtime      int64
	accg       *G
	atoms      map[unsafe.Pointer]*Obj
	idents     map[uintptr]int
	keeps      []any
	calm       bool
}

// Violation is what an execution did wrong.
type Violation struct {
	Prop string
	Msg  string
}

// W is the active world; nil when code runs outside an exploration.
var W *World

// Active tells whether operations are under control.
func Active() bool { return W != nil && !W.dead }

func mix(a, b uint64) uint64 {
	a ^= b + 0x9e3779b97f4a7c15 + (a << 6) + (a >> 2)
	a ^= a >> 32
	a *= 0xd6e8feb86659fd93
	a ^= a >> 29
	a *= 0xd6e8feb86659fd93
	a ^= a >> 32
	return a
}

func hstr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

// Touch records that the operation being executed reads or writes o.
func Touch(o *Obj, write bool) {
	w := W
	if w == nil || w.dead {
		return
	}
	g := w.cur
	if w.accg != nil {
		g = w.accg
	}
	if write {
		g.h = mix(mix(g.h, o.h), o.rd+1)
		o.h, o.rd = g.h, 0
	} else {
		g.h = mix(g.h, o.h+3)
		o.rd += mix(g.h, 7)
	}
}

// Mark mixes a value into the running goroutine's history.
func Mark(v uint64) {
	if Active() {
		W.cur.h = mix(W.cur.h, v)
	}
}

// Point is a scheduling point: it returns once op has been chosen and executed.
func Point(op Op) {
	w := W
	if w == nil || w.dead {
		return
	}
	g := w.cur
	if w.ex.cfg.Trace {
		op.loc = caller()
	}
	g.op = op
	g.state = gPending
	w.dispatch(g)
	if g.hasP {
		g.hasP = false
		panic(g.panicv)
	}
}

// Panic makes the goroutine whose operation is being executed panic with v.
func (g *G) Panic(v any) { g.hasP, g.panicv = true, v }

// dispatch gives control to whoever is next; returns when g is to run.
func (w *World) dispatch(g *G) {
	n := w.pick()
	if n == nil {
		w.dead = true
		w.done <- struct{}{}
		g.park()
		return
	}
	if n != g {
		n.wake <- true
		g.park()
	}
}

func (g *G) park() {
	if !<-g.wake {
		runtime.Goexit()
	}
}

// pick selects the next goroutine, executing its operation.
func (w *World) pick() *G {
	if w.Fault != nil {
		return nil
	}
	if len(w.ready) > 0 {
		g := w.ready[0]
		w.ready = w.ready[1:]
		g.state = gRunning
		w.cur = g
		return g
	}
	w.steps++
	stepMark++
	if w.steps > w.ex.cfg.MaxSteps {
		w.Fault = &Violation{"C08", fmt.Sprintf("livelock: execution did not finish within %d steps", w.ex.cfg.MaxSteps)}
		return nil
	}
	var en []*G
	lastEn := false
	if l := w.last; l != nil && l.state == gPending && w.enabled(l) {
		en = append(en, l)
		lastEn = true
	}
	for _, g := range w.gs {
		if g != w.last && g.state == gPending && w.enabled(g) {
			en = append(en, g)
		}
	}
	if len(en) == 0 {
		for _, g := range w.gs {
			if g.state == gPending && g.op.Kind == KQuiesce {
				en = append(en, g)
				break
			}
		}
	}
	if len(en) == 0 {
		w.ended = "blocked"
		w.onBlocked()
		return nil
	}
	i := 0
	if w.ex.cfg.Serial || w.calm {
		w.ex.res.Trans++
	} else {
		i = w.ex.node(w, nodeSched, len(en), w.key(lastEn), func(k int) int {
			if (lastEn || w.ex.cfg.Delay) && k > 0 {
				return 1
			}
			return 0
		})
	}
	if i < 0 {
		w.stopped = true
		return nil
	}
	g := en[i]
	if (lastEn || w.ex.cfg.Delay) && i > 0 {
		w.pUsed++
	}
	w.last = g
	w.cur = g
	op := g.op
	if w.ex.cfg.Trace {
		w.trace = append(w.trace, fmt.Sprintf("%-14s %s%s", g.String(), op.Name, op.loc))
	}
	g.state = gRunning
	g.op = Op{}
	if op.Kind == KQuiesce {
		w.quiesceHash(g)
	}
	if op.Exec != nil {
		op.Exec()
	}
	if w.Fault != nil {
		return nil
	}
	return g
}

func (g *G) String() string { return fmt.Sprintf("g%d:%s", g.ID, g.Name) }

func (w *World) enabled(g *G) bool {
	if g.op.Kind == KQuiesce {
		return false
	}
	return g.op.Enabled == nil || g.op.Enabled()
}

func (w *World) key(lastEn bool) uint64 {
	var s uint64
	for _, g := range w.gs {
		s += mix(g.h, uint64(g.state)+11)
	}
	if lastEn {
		s = mix(s, w.last.h)
	}
	return mix(s, uint64(w.eUsed))
}

func (w *World) quiesceHash(g *G) {
	var s uint64
	for _, o := range w.gs {
		s += mix(o.h, 5)
	}
	g.h = mix(g.h, s)
	// everything that happened before is ordered before what g does next, and
	// what g does is ordered before what the others do after being woken.
	if w.race != nil {
		for _, o := range w.gs {
			g.vc.join(o.vc)
		}
	}
}

// onBlocked: nothing can run and nobody waits for idleness.
func (w *World) onBlocked() {
	if w.main == nil || w.main.state == gDone {
		return
	}
	w.Fault = &Violation{"C08", "deadlock: " + w.describe(nil)}
}

func (w *World) describe(f func(*G) bool) string {
	var b []string
	for _, g := range w.gs {
		if g.state != gDone && (f == nil || f(g)) {
			b = append(b, fmt.Sprintf("%s blocked in %s", g, g.op.Name))
		}
	}
	return strings.Join(b, "; ")
}

// Spawn starts a controlled goroutine.
func (w *World) spawn(name string, lib bool, h uint64, fn func()) *G {
	g := &G{ID: len(w.gs), Name: name, h: h, wake: make(chan bool, 1), gone: make(chan struct{}, 1), Lib: lib, state: gReady}
	w.gs = append(w.gs, g)
	w.ready = append(w.ready, g)
	if w.race != nil {
		if w.cur != nil {
			g.vc = w.cur.vc.clone()
			w.cur.vc.tick(w.cur.ID)
		}
		g.vc.tick(g.ID)
	}
	go func() {
		normal := false
		defer func() {
			if w.dead {
				// killed or world over
				recover()
				g.state = gDone
				g.gone <- struct{}{}
				return
			}
			if r := recover(); r != nil {
				w.Fault = &Violation{"C08", fmt.Sprintf("panic in %s: %v\n%s", g, r, shortStack(string(debug.Stack())))}
			} else if !normal && g != w.main {
				// runtime.Goexit by the code under test: a normal end
			}
			g.state = gDone
			w.exit(g)
			g.gone <- struct{}{}
		}()
		g.park()
		fn()
		normal = true
	}()
	return g
}

func shortStack(s string) string {
	ls := strings.Split(s, "\n")
	var out []string
	for _, l := range ls {
		if strings.Contains(l, ".go:") && !strings.Contains(l, "/vs/") && !strings.Contains(l, "/runtime/") {
			out = append(out, strings.TrimSpace(l))
			if len(out) == 8 {
				break
			}
		}
	}
	return strings.Join(out, "\n")
}

// exit hands control on after g has finished.
func (w *World) exit(g *G) {
	n := w.pick()
	if n == nil {
		w.dead = true
		w.done <- struct{}{}
		return
	}
	n.wake <- true
}

// Go runs fn as a goroutine of the code under test. Two consecutive go
// statements of one goroutine with the same site and equal, comparable
// arguments start interchangeable goroutines, which get equal histories so
// that executions differing only in which of them acts are not explored twice.
func Go(site string, sym []any, fn func()) {
	w := W
	if w == nil || w.dead {
		// package initialisation at process start: done again by Config.Reset
		// under control of each execution
		return
	}
	p := w.cur
	h := uint64(0)
	if l := &p.lastSp; sym != nil && l.args != nil && l.site == site && l.h == p.h && eqArgs(l.args, sym) {
		h = l.ch
	} else {
		h = mix(mix(p.h, hstr(site)), 77)
		p.h = mix(p.h, 78)
		p.lastSp = spawnRec{h: p.h, site: site, args: sym, ch: h}
	}
	w.spawn(site, true, h, fn)
}

func eqArgs(a, b []any) (ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// Thread starts a harness goroutine (a user of the library or its environment).
func Thread(name string, fn func()) *G {
	w := W
	p := w.cur
	h := mix(mix(p.h, hstr(name)), 79)
	p.h = mix(p.h, 80)
	return w.spawn(name, false, h, fn)
}

// Done tells whether the goroutine has finished.
func (g *G) Done() bool { return g.state == gDone }

// Fail reports a violation and ends the execution.
func Fail(prop, format string, args ...any) {
	w := W
	if w == nil {
		panic("vs.Fail outside an execution: " + fmt.Sprintf(format, args...))
	}
	if w.dead {
		return
	}
	if w.Fault == nil {
		w.Fault = &Violation{prop, fmt.Sprintf(format, args...)}
	}
	w.dead = true
	g := w.cur
	w.done <- struct{}{}
	g.park()
}

// FailNow is Fail for use inside an operation's Exec.
func FailNow(prop, format string, args ...any) {
	w := W
	if w != nil && !w.dead && w.Fault == nil {
		w.Fault = &Violation{prop, fmt.Sprintf(format, args...)}
	}
}

// Calm switches between the default schedule only (set-up and final checks)
// and full exploration.
func Calm(on bool) {
	if Active() {
		W.calm = on
	}
}

// Quiesce returns when no other goroutine can make a step.
func Quiesce() {
	Point(Op{Name: "quiesce", Kind: KQuiesce})
}

// CheckIdle fails if a goroutine is stuck: blocked on anything but waiting for
// work, or a harness thread that has not finished.
func CheckIdle() {
	w := W
	stuck := func(g *G) bool {
		if g == w.main || g.state == gDone {
			return false
		}
		if !g.Lib {
			return true
		}
		return g.op.Kind == KLock || g.op.Kind == KSend || g.op.Kind == KWait
	}
	for _, g := range w.gs {
		if stuck(g) {
			Fail("C08", "stuck for good: %s (all: %s)", w.describe(stuck), w.describe(func(g *G) bool { return g != w.main }))
		}
	}
}

// LibAlive counts goroutines of the code under test that have not ended.
func LibAlive() int {
	n := 0
	for _, g := range W.gs {
		if g.Lib && g.state != gDone {
			n++
		}
	}
	return n
}

// Describe lists unfinished library goroutines.
func Describe() string { return W.describe(func(g *G) bool { return g.Lib }) }

// Observe records an outcome, for counting distinct outcomes.
func Observe(format string, args ...any) {
	if Active() {
		W.obs = append(W.obs, fmt.Sprintf(format, args...))
	}
}

// Note adds a line to the trace.
func Note(format string, args ...any) {
	if Active() && W.ex.cfg.Trace {
		W.trace = append(W.trace, fmt.Sprintf("    %-10s   %s", "", fmt.Sprintf(format, args...)))
	}
}

// Tracing tells whether Note does anything.
func Tracing() bool { return Active() && W.ex.cfg.Trace }

// Choose returns an environment decision in [0,n); 0 is the default. If cost
// is set, a non-default answer counts as one deviation.
func Choose(name string, n int, cost bool) int {
	w := W
	if w == nil || w.dead || n <= 1 {
		return 0
	}
	c := 0
	if cost {
		c = 1
	}
	i := w.ex.node(w, nodeEnv, n, 0, func(k int) int {
		if k > 0 {
			return c
		}
		return 0
	})
	if i < 0 {
		i = 0
	}
	if i > 0 {
		w.eUsed += c
	}
	w.cur.h = mix(w.cur.h, uint64(i)+hstr(name))
	if w.ex.cfg.Trace && i > 0 {
		w.trace = append(w.trace, fmt.Sprintf("    %-10s   choice %s = %d", "", name, i))
	}
	return i
}

func caller() string {
	var pcs [24]uintptr
	n := runtime.Callers(3, pcs[:])
	fr := runtime.CallersFrames(pcs[:n])
	for {
		f, more := fr.Next()
		if !strings.Contains(f.Function, "vmc/") {
			i := strings.LastIndexByte(f.File, '/')
			return fmt.Sprintf("  [%s:%d]", f.File[i+1:], f.Line)
		}
		if !more {
			return ""
		}
	}
}

// Cur is the running goroutine.
func Cur() *G { return W.cur }

// VTime is the virtual clock.
func VTime() int64 { return W.vtime }

// AddVTime advances the virtual clock.
func AddVTime(d int64) { W.vtime += d }

// AtomicObjs are the objects behind addresses accessed atomically.
func AtomicObjs() map[unsafe.Pointer]*Obj {
	if W.atoms == nil {
		W.atoms = map[unsafe.Pointer]*Obj{}
	}
	return W.atoms
}

// MapKeys returns the keys of m in a deterministic order.
func MapKeys[M ~map[K]V, K comparable, V any](m M) []K {
	if len(m) == 0 {
		return nil
	}
	ks := make([]K, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	if len(ks) == 1 {
		return ks
	}
	switch kk := any(ks).(type) {
	case []string:
		sort.Strings(kk)
	case []int:
		sort.Ints(kk)
	case []int32:
		sort.Slice(kk, func(i, j int) bool { return kk[i] < kk[j] })
	default:
		var ws []string
		for _, k := range ks {
			ws = append(ws, keyText(any(k)))
		}
		idx := make([]int, len(ks))
		for i := range idx {
			idx[i] = i
		}
		sort.SliceStable(idx, func(i, j int) bool { return ws[idx[i]] < ws[idx[j]] })
		out := make([]K, len(ks))
		for i, j := range idx {
			out[i] = ks[j]
		}
		ks = out
	}
	if W != nil && !W.dead && MapOrder {
		// the iteration order is the environment's choice: default or reversed
		if Choose("map order", 2, true) == 1 {
			for i, j := 0, len(ks)-1; i < j; i, j = i+1, j-1 {
				ks[i], ks[j] = ks[j], ks[i]
			}
		}
	}
	return ks
}

// MapOrder makes map iteration order an explored choice.
var MapOrder bool

// keyText orders keys of reference types by the order in which the execution
// first met them, and others by value.
func keyText(k any) string {
	v := reflect.ValueOf(k)
	switch v.Kind() {
	case reflect.Chan, reflect.Pointer, reflect.UnsafePointer:
		if v.IsNil() {
			return "0"
		}
		return fmt.Sprintf("p%08d", ident(v.Pointer()))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return fmt.Sprintf("i%020d", uint64(v.Int())^(1<<63))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return fmt.Sprintf("u%020d", v.Uint())
	}
	return fmt.Sprintf("v%#v", k)
}

func ident(p uintptr) int {
	if W == nil {
		return 0
	}
	if W.idents == nil {
		W.idents = map[uintptr]int{}
	}
	n, ok := W.idents[p]
	if !ok {
		n = len(W.idents) + 1
		W.idents[p] = n
	}
	return n
}

// Ident fixes the order of p among map keys.
func Ident[T any](ch chan T) chan T {
	if Active() {
		ident(chanKey(ch))
	}
	return ch
}
