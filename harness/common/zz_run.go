package notify

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"vmc/vs"
)

// vzScn is one scenario: a bounded family of executions, all of which are
// enumerated.
type vzScn struct {
	name   string
	serial bool // default schedule only (histories)
	race   bool
	delay  bool // bounds count deviations from the default schedule
	steps  int
	bounds []vzBound // explored in order; a later one is skipped if an earlier cut nothing
	kern   func() any
	body   func()
	maxCap int  // >0: limit on channel capacities
	mapOrd bool // map iteration order is explored
}

type vzBound struct{ preempt, env int }

func vzPe(p ...int) (out []vzBound) {
	for _, x := range p {
		out = append(out, vzBound{x, 0})
	}
	return
}

type vzResult struct {
	Task     int
	Scenario string
	Preempt  int
	Env      int
	Execs    int
	States   int
	Trans    int
	Pruned   int
	MaxDepth int
	MaxG     int
	Complete bool
	Cut      bool
	Capped   string
	Skipped  bool
	Viol     *vs.Violation
	Choices  []int
	Err      string
	Outcomes int
	Sample   string
	Accesses int
	WallS    float64
	Race     bool
	Delay    bool
}

var vzSerialCount int

// vzProps holds what produces the scenarios of each property. Each file adds
// its own, so that a file can be left out if it does not fit the code.
var vzProps = map[string][]func(thorough bool) []vzScn{}

func vzFor(prop string, f func(thorough bool) []vzScn) bool {
	vzProps[prop] = append(vzProps[prop], f)
	return true
}

func vzScenarios(prop, tier string) (out []vzScn) {
	for _, f := range vzProps[prop] {
		out = append(out, f(tier == "thorough")...)
	}
	return
}

type vzTask struct {
	s     int
	level int
}

// VerifMain is the worker.
func VerifMain() {
	prop := flag.String("prop", "", "property")
	tier := flag.String("tier", "quick", "tier")
	list := flag.Bool("list", false, "list scenarios")
	dir := flag.String("dir", "", "shared directory of a run")
	out := flag.String("out", "", "result file")
	dl := flag.Int64("deadline", 0, "unix time to stop at")
	only := flag.String("only", "", "only scenarios with this prefix")
	replay := flag.String("replay", "", "replay file")
	maxEx := flag.Int("maxexecs", 0, "")
	bound := flag.Int("bound", -1, "only this bound level")
	hang := flag.Int("hang", 20, "seconds a single step may take")
	flag.Parse()
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(400)
	scns := vzScenarios(*prop, *tier)
	seen := map[string]bool{}
	for _, s := range scns {
		if seen[s.name] {
			fmt.Println("duplicate scenario", s.name)
			os.Exit(2)
		}
		seen[s.name] = true
		if len(s.bounds) == 0 {
			fmt.Println("scenario without bounds", s.name)
			os.Exit(2)
		}
	}
	if *replay != "" {
		vzReplay(scns, *replay)
		return
	}
	var tasks []vzTask
	for l := 0; l < 8; l++ {
		for i, s := range scns {
			if l < len(s.bounds) && strings.HasPrefix(s.name, *only) && strings.HasPrefix(s.name, "known/") == strings.HasPrefix(*only, "known/") && (*bound < 0 || *bound == l) {
				tasks = append(tasks, vzTask{i, l})
			}
		}
	}
	if *list {
		for _, s := range scns {
			fmt.Println(s.name)
		}
		fmt.Println(len(scns), "scenarios", len(tasks), "tasks")
		return
	}
	var w *os.File = os.Stdout
	if *out != "" {
		f, err := os.Create(*out)
		if err != nil {
			panic(err)
		}
		w = f
	}
	enc := json.NewEncoder(w)
	cur := vzResult{}
	vs.StartWatchdog(time.Duration(*hang)*time.Second, func(ch []int) {
		cur.Viol = &vs.Violation{Prop: "C08", Msg: "a single step of the library does not end (or its memory grows without bound)"}
		cur.Choices = ch
		enc.Encode(cur)
	})
	dead := time.Unix(*dl, 0)
	next := func(n int) int {
		if *dir == "" {
			return n + 1
		}
		f, err := os.OpenFile(*dir+"/counter", os.O_RDWR|os.O_CREATE, 0644)
		if err != nil {
			panic(err)
		}
		defer f.Close()
		syscall.Flock(int(f.Fd()), syscall.LOCK_EX)
		b := make([]byte, 32)
		k, _ := f.ReadAt(b, 0)
		v, _ := strconv.Atoi(strings.TrimSpace(string(b[:k])))
		f.WriteAt([]byte(fmt.Sprintf("%-16d", v+1)), 0)
		return v
	}
	marker := func(i int) string { return fmt.Sprintf("%s/full-%d", *dir, i) }
	exists := func(p string) bool { _, err := os.Stat(p); return *dir != "" && err == nil }
	local := map[int]bool{}
	for t := next(-1); t < len(tasks); t = next(t) {
		tk := tasks[t]
		s := &scns[tk.s]
		b := s.bounds[tk.level]
		if exists(*dir + "/stop") {
			return
		}
		if *dl != 0 && time.Now().After(dead) {
			enc.Encode(vzResult{Task: t, Scenario: s.name, Preempt: b.preempt, Env: b.env, Capped: "time", Skipped: true})
			continue
		}
		if local[tk.s] || exists(marker(tk.s)) {
			enc.Encode(vzResult{Task: t, Scenario: s.name, Preempt: b.preempt, Env: b.env, Complete: true, Skipped: true})
			continue
		}
		cfg := s.config(b)
		cfg.MaxExecs = *maxEx
		if *dl != 0 {
			cfg.Deadline = dead
		}
		s.prepare()
		cur = vzResult{Task: t, Scenario: s.name, Preempt: b.preempt, Env: b.env}
		r := vs.Explore(cfg, s.body)
		res := vzResult{Task: t, Scenario: s.name, Preempt: b.preempt, Env: b.env, Execs: r.Execs, States: r.States, Trans: r.Trans, Pruned: r.Pruned,
			MaxDepth: r.MaxDepth, MaxG: r.MaxG, Complete: r.Complete, Cut: r.Cut, Capped: r.Capped, Viol: r.Viol, Choices: r.Choices,
			Err: r.ErrNondet, Outcomes: len(r.Outcomes), Accesses: r.Accesses, WallS: r.WallS, Race: s.race, Delay: s.delay}
		if r.Viol == nil {
			res.Choices = nil
		}
		if len(r.Outcomes) > 0 {
			var o []string
			for k := range r.Outcomes {
				o = append(o, k)
			}
			sort.Strings(o)
			res.Sample = o[0]
			if len(res.Sample) > 600 {
				res.Sample = res.Sample[:600]
			}
		}
		if r.Complete && !r.Cut {
			local[tk.s] = true
			if *dir != "" {
				os.WriteFile(marker(tk.s), nil, 0644)
			}
		}
		enc.Encode(res)
	}
}

func (s *vzScn) prepare() {
	vs.MaxChanCap = -1
	if s.maxCap > 0 {
		vs.MaxChanCap = s.maxCap
	}
	vs.MapOrder = s.mapOrd
}

func (s *vzScn) config(b vzBound) vs.Config {
	st := s.steps
	if st == 0 {
		st = 20000
	}
	return vs.Config{Preempt: b.preempt, Env: b.env, MaxSteps: st, Race: s.race, Serial: s.serial, Delay: s.delay, Reset: VerifResetGlobals, NewKern: s.kern}
}

type vzReplayFile struct {
	Scenario string
	Preempt  int
	Env      int
	Choices  []int
}

func vzReplay(scns []vzScn, file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	var rf vzReplayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	for i := range scns {
		s := &scns[i]
		if s.name != rf.Scenario {
			continue
		}
		s.prepare()
		v, tr, obs := vs.Replay(s.config(vzBound{rf.Preempt, rf.Env}), rf.Choices, s.body)
		o := map[string]any{"violation": v, "trace": tr, "observed": obs}
		e := json.NewEncoder(os.Stdout)
		e.SetIndent("", " ")
		e.Encode(o)
		if v != nil {
			os.Exit(1)
		}
		return
	}
	fmt.Println("no such scenario", rf.Scenario)
	os.Exit(2)
}
