package notify

import (
	"fmt"
	"strings"

	"vmc/kern"
	"vmc/vs"
)

// vzLib is the whole library used by several goroutines while files change.
type vzLib struct {
	prop  string
	k     *kern.K
	t     tree
	chans []chan EventInfo
	reg   []vzReg
	over  map[int]bool
	log   []string
}

type vzLibStep struct {
	name string
	do   func(x *vzLib)
}

func (x *vzLib) note(s string) { x.log = append(x.log, s); vs.Note("%s", s) }

func (x *vzLib) fail(f string, a ...any) {
	vs.Fail(x.prop, "%s\n  registrations: %s\n  history: %s", fmt.Sprintf(f, a...), vzRegText(x.reg), strings.Join(x.log, "; "))
}

func vzLwatch(ch int, p string, rec bool, e Event) vzLibStep {
	return vzLibStep{fmt.Sprintf("Watch(%s,c%d,%v)", vzSpell(p, rec), ch, e), func(x *vzLib) {
		if err := x.t.Watch(vzSpell(p, rec), x.chans[ch], e); err != nil {
			x.fail("Watch(%s): %v", vzSpell(p, rec), err)
		}
		x.reg = vzAdd(x.reg, vzReg{ch, p, rec, e})
		x.note(fmt.Sprintf("Watch(%s,c%d,%v)", vzSpell(p, rec), ch, e))
	}}
}

func vzLstop(ch int) vzLibStep {
	return vzLibStep{fmt.Sprintf("Stop(c%d)", ch), func(x *vzLib) {
		x.t.Stop(x.chans[ch])
		x.reg = vzDrop(x.reg, ch)
		x.note(fmt.Sprintf("Stop(c%d)", ch))
		vs.Drain(x.chans[ch])
		x.over[ch] = true
	}}
}

type vzLibScn struct {
	name    string
	setup   []vzLibStep
	threads [][]vzLibStep
	must    []string // "channel event path": received at least once
	may     []string // "event path": nothing else is received
}

func (c vzLibScn) scn(prop string, lv []vzBound, mk func() any, fin func(x *vzLib)) vzScn {
	return vzScn{name: "lib/" + c.name, bounds: lv, kern: mk, body: func() {
		vs.Calm(true)
		x := &vzLib{prop: prop, k: kern.Cur(), over: map[int]bool{}}
		x.t = newTree()
		for i := 0; i < 2; i++ {
			x.chans = append(x.chans, vs.Made(make(chan EventInfo, 64)))
		}
		vs.Quiesce()
		for _, s := range c.setup {
			s.do(x)
			vs.Quiesce()
		}
		vs.Calm(false)
		for i, th := range c.threads {
			th := th
			vs.Thread(fmt.Sprintf("user%d", i), func() {
				for _, s := range th {
					s.do(x)
				}
			})
		}
		vs.Quiesce()
		vs.Calm(true)
		vs.CheckIdle()
		may := map[string]bool{}
		for _, s := range c.may {
			may[s] = true
		}
		got := map[string]bool{}
		for ch := range x.chans {
			for _, ei := range vs.Drain(x.chans[ch]) {
				s := fmt.Sprintf("%v %s", ei.Event(), ei.Path())
				got[fmt.Sprintf("%d %s", ch, s)] = true
				if x.over[ch] {
					x.fail("channel %d received %s after Stop had returned", ch, s)
				}
				if !may[s] {
					x.fail("channel %d received %s, which did not happen", ch, s)
				}
			}
		}
		for _, s := range c.must {
			if !got[s] {
				x.fail("%s was not received", s)
			}
		}
		fin(x)
	}}
}
