package notify

import (
	"fmt"

	"vmc/vs"
)

// vzConc: setup operations one after the other, then the scripts of threads
// all at once in every interleaving, then a full check.
type vzConc struct {
	name    string
	fixture []string
	nch     int
	caps    []int // channel capacities (default 64); < 64: the channel is slow
	setup   []vzOp
	threads [][]vzOp
	bounds  []vzBound
	maxCap  int
	delay   bool
	mapOrd  bool
	final   func(e *vzEnv)
	faults  []string
	dying   bool   // what is watched is removed: deliveries are bounded from above only
	then    []vzOp // sequential operations after the overlap
}

func (c vzConc) scn(prop string) vzScn {
	return vzScn{name: c.name, bounds: c.bounds, kern: vzTree(c.fixture...), maxCap: c.maxCap, delay: c.delay, mapOrd: c.mapOrd, body: func() {
		e := vzNewEnv(prop, 0, 64)
		for i := 0; i < c.nch; i++ {
			n := 64
			if i < len(c.caps) && c.caps[i] >= 0 {
				n = c.caps[i]
				if n < 64 {
					e.slow[i] = true
				}
			}
			e.chans = append(e.chans, vs.Made(make(chan EventInfo, n)))
		}
		e.used = c.nch
		vs.Calm(true)
		for _, o := range c.setup {
			o.do(e)
			e.settle()
		}
		e.phase()
		e.conc = true
		e.atMost = c.dying
		for _, c := range c.faults {
			e.k.FaultOn[c] = true
		}
		vs.Calm(false)
		for i, th := range c.threads {
			th := th
			vs.Thread(fmt.Sprintf("user%d", i), func() {
				for _, o := range th {
					o.do(e)
				}
			})
		}
		vs.Quiesce()
		vs.Calm(true)
		e.k.Heal()
		e.settle()
		for _, o := range c.then {
			o.do(e)
			e.settle()
		}
		if c.final != nil {
			c.final(e)
		}
	}}
}

// opTryWatch tolerates an error (the path may have gone meanwhile).
func vzOpTryWatch(ch int, p string, rec bool, set ...Event) vzOp {
	o := vzOpWatch(ch, p, rec, set...)
	o.do = func(e *vzEnv) { e.watch(ch, p, rec, set...) }
	return o
}

// opStopFinal is Stop followed by a check that nothing arrives any more.
func vzOpStopFinal(ch int) vzOp {
	return vzOp{fmt.Sprintf("StopFinal(c%d)", ch), nil, func(e *vzEnv) {
		e.stop(ch)
		for _, ei := range vs.Drain(e.chans[ch]) {
			e.early = append(e.early, vzEarly{ch, vzInfo(ei)})
		}
		e.over[ch] = true
	}}
}
