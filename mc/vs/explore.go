package vs

import (
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"time"
)

const (
	nodeSched = iota
	nodeEnv
)

// Config bounds an exploration.
type Config struct {
	Preempt  int // preemptions (switches away from a goroutine that could go on)
	Env      int // costly environment deviations (faults)
	MaxSteps int
	MaxExecs int       // 0: no limit
	Deadline time.Time // zero: none
	Race     bool
	Trace    bool
	NoCache  bool
	Delay    bool   // Preempt bounds the deviations from the default schedule instead
	Serial   bool   // only the default schedule; environment choices are enumerated
	Reset    func() // run inside each execution before the body
	NewKern  func() any
}

// Result of an exploration.
type Result struct {
	Execs     int
	States    int
	Trans     int
	Pruned    int
	MaxDepth  int
	MaxG      int
	Complete  bool // everything within the bounds was explored
	Cut       bool // some alternative exceeded the bounds
	Preempt   int  // bounds of this exploration
	Env       int
	Capped    string
	Viol      *Violation
	Choices   []int
	Trace     []string
	Outcomes  map[string]int
	ErrNondet string
	WallS     float64
	Accesses  int
}

type nodeRec struct {
	kind  uint8
	n     int
	i     int
	key   uint64
	p, e  int // budget used before
	lastA int // highest affordable alternative considered
	costs []uint8
}

// Explorer enumerates the executions of one body.
type Explorer struct {
	cfg     Config
	stack   []nodeRec
	prefix  int // number of nodes to replay
	visited map[uint64]int16
	res     *Result
	nondet  string
	replay  []int // replay mode
	steps   int
}

// node is called for every decision; returns the index to take, or -1 to prune.
func (e *Explorer) node(w *World, kind uint8, n int, key uint64, cost func(int) int) int {
	d := w.depth
	w.depth++
	if e.replay != nil {
		if d < len(e.replay) {
			if e.replay[d] >= n {
				e.nondet = fmt.Sprintf("replay diverged at decision %d: %d of %d", d, e.replay[d], n)
				w.Fault = &Violation{"NONDET", e.nondet}
				return 0
			}
			return e.replay[d]
		}
		return 0
	}
	if d < e.prefix {
		r := &e.stack[d]
		if r.n != n || r.kind != kind || r.key != key {
			e.nondet = fmt.Sprintf("execution not reproducible at decision %d: kind %d/%d, alternatives %d/%d, key %x/%x", d, r.kind, kind, r.n, n, r.key, key)
			w.Fault = &Violation{"NONDET", e.nondet}
			return 0
		}
		return r.i
	}
	if kind == nodeSched && !e.cfg.NoCache {
		if v, ok := e.visited[key]; ok && int(v) <= w.pUsed {
			e.res.Pruned++
			return -1
		} else if !ok {
			e.res.States++
		}
		e.visited[key] = int16(w.pUsed)
	} else if kind == nodeSched {
		e.res.States++
	}
	e.res.Trans++
	if kind == nodeEnv {
		e.res.States++
	}
	if n == 1 {
		// nothing to decide: remember for replay only
		e.stack = append(e.stack, nodeRec{kind: kind, n: 1, key: key, p: w.pUsed, e: w.eUsed})
		e.prefix = len(e.stack)
		return 0
	}
	r := nodeRec{kind: kind, n: n, key: key, p: w.pUsed, e: w.eUsed, costs: make([]uint8, n)}
	for k := range r.costs {
		r.costs[k] = uint8(cost(k))
	}
	e.stack = append(e.stack, r)
	e.prefix = len(e.stack)
	return 0
}

func (e *Explorer) affordable(r *nodeRec, k int) bool {
	if r.kind == nodeSched {
		return r.p+int(r.costs[k]) <= e.cfg.Preempt
	}
	return r.e+int(r.costs[k]) <= e.cfg.Env
}

// next advances the stack to the next unexplored branch.
func (e *Explorer) next() bool {
	for len(e.stack) > 0 {
		r := &e.stack[len(e.stack)-1]
		for r.i+1 < r.n {
			r.i++
			if e.affordable(r, r.i) {
				e.prefix = len(e.stack)
				e.res.Trans++
				return true
			}
			e.res.Cut = true
		}
		e.stack = e.stack[:len(e.stack)-1]
	}
	return false
}

// watch is the wall-clock guard against code that never reaches a point.
var stepMark int64
var hangInfo func() string

// StartWatchdog ends the process with status 3 if a single step of the code
// under test takes more than d.
func StartWatchdog(d time.Duration, onHang func(ch []int)) {
	go func() {
		last := int64(-1)
		since := time.Now()
		for {
			time.Sleep(500 * time.Millisecond)
			m := stepMark
			w := W
			if m != last || w == nil || w.dead {
				last = m
				since = time.Now()
				continue
			}
			var ms runtime.MemStats
			big := false
			if time.Since(since) > 3*time.Second {
				runtime.ReadMemStats(&ms)
				big = ms.HeapAlloc > 3<<30
			}
			if time.Since(since) > d || big {
				onHang(w.ex.choices())
				os.Exit(3)
			}
		}
	}()
}

func (e *Explorer) choices() []int {
	if e.replay != nil {
		return e.replay
	}
	ch := make([]int, len(e.stack))
	for i := range e.stack {
		ch[i] = e.stack[i].i
	}
	return ch
}

// runOne performs one execution.
func (e *Explorer) runOne(body func()) *World {
	w := &World{done: make(chan struct{}, 1), ex: e, chans: map[uintptr]*Chan{}}
	if e.cfg.Race {
		w.race = newRace()
	}
	if e.cfg.NewKern != nil {
		w.Kern = e.cfg.NewKern()
	}
	W = w
	w.main = w.spawn("main", false, 1, func() {
		if e.cfg.Reset != nil {
			e.cfg.Reset()
		}
		body()
		w.dead = true
		w.done <- struct{}{}
		w.main.park()
	})
	w.ready = nil
	w.main.state = gRunning
	w.cur = w.main
	w.last = w.main
	w.main.wake <- true
	<-w.done
	w.dead = true
	for _, g := range w.gs {
		if g.state != gDone {
			g.wake <- false
		}
		<-g.gone
	}
	W = nil
	stepMark++
	return w
}

// Explore enumerates all executions of body within cfg's bounds.
func Explore(cfg Config, body func()) *Result {
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 4000
	}
	t0 := time.Now()
	res := &Result{Outcomes: map[string]int{}, Preempt: cfg.Preempt, Env: cfg.Env}
	e := &Explorer{cfg: cfg, visited: map[uint64]int16{}, res: res}
	gcEvery := 0
	for {
		if cfg.Race {
			old := debug.SetGCPercent(-1)
			_ = old
		}
		w := e.runOne(body)
		res.Execs++
		if cfg.Race {
			gcEvery++
			res.Accesses += w.race.n
			if gcEvery >= 64 {
				gcEvery = 0
				runtime.GC()
			}
		}
		if w.depth > res.MaxDepth {
			res.MaxDepth = w.depth
		}
		if len(w.gs) > res.MaxG {
			res.MaxG = len(w.gs)
		}
		if e.nondet != "" {
			res.ErrNondet = e.nondet
			res.Choices = e.choices()
			break
		}
		if w.Fault != nil {
			res.Viol = w.Fault
			res.Choices = e.choices()
			break
		}
		if !w.stopped {
			o := ""
			for _, s := range w.obs {
				o += s + "\n"
			}
			if len(res.Outcomes) < 100000 {
				res.Outcomes[o]++
			}
		}
		e.stack = e.stack[:e.prefix]
		if !e.next() {
			res.Complete = true
			break
		}
		if cfg.MaxExecs > 0 && res.Execs >= cfg.MaxExecs {
			res.Capped = "executions"
			break
		}
		if !cfg.Deadline.IsZero() && res.Execs%16 == 0 && time.Now().After(cfg.Deadline) {
			res.Capped = "time"
			break
		}
	}
	if cfg.Race {
		debug.SetGCPercent(400)
	}
	res.WallS = time.Since(t0).Seconds()
	return res
}

// Replay runs one recorded execution and returns its violation and trace.
func Replay(cfg Config, choices []int, body func()) (*Violation, []string, []string) {
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 4000
	}
	cfg.Trace = true
	if choices == nil {
		choices = []int{}
	}
	e := &Explorer{cfg: cfg, visited: map[uint64]int16{}, res: &Result{}, replay: choices}
	w := e.runOne(body)
	return w.Fault, w.trace, w.obs
}
