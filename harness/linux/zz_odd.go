package notify

import (
	"fmt"
)

// Calls that ask for nothing, or for nothing new, change nothing.

// vzOddOps also takes the channels 0 and 1.
func vzOddOps(paths ...string) (out []vzOp) {
	for _, p := range paths {
		for _, rec := range []bool{true, false} {
			p, rec := p, rec
			out = append(out, vzOp{"Watch(" + vzSpell(p, rec) + ",c0)", func(e *vzEnv) bool {
				// whether the first registration of a path may be without events is not specified
				for _, r := range e.reg {
					if r.ch == 0 && r.path == p {
						return !rec || e.isdir(p)
					}
				}
				return false
			}, func(e *vzEnv) {
				e.mustWatch(0, p, rec)
			}}, vzOp{"Watch(" + vzSpell(p, rec) + ",nil)", nil, func(e *vzEnv) {
				e.note("Watch(%s,nil,Write)", vzSpell(p, rec))
				vzRefused(func() { Watch(vzSpell(p, rec), nil, Write) })
			}}, vzOp{"Watch(" + vzSpell(p, rec) + ",c1,Create,Write,Create)", func(e *vzEnv) bool { return e.used >= 1 && e.exists(p) && (!rec || e.isdir(p)) }, func(e *vzEnv) {
				e.mustWatch(1, p, rec, Create, Write, Create)
			}}, vzOp{"Watch(" + vzSpell(p, rec) + ",c0,Create|Write,Write)", func(e *vzEnv) bool { return e.exists(p) && (!rec || e.isdir(p)) }, func(e *vzEnv) {
				e.mustWatch(0, p, rec, Create|Write, Write)
			}})
		}
	}
	return append(out, vzOpStop(0), vzOpStop(1), vzOp{"Stop(unused)", nil, func(e *vzEnv) {
		e.note("Stop(unused)")
		Stop(make(chan EventInfo))
	}}, vzOp{"Stop(nil)", nil, func(e *vzEnv) {
		e.note("Stop(nil)")
		Stop(nil)
	}}, vzOp{"Stop,Stop", func(e *vzEnv) bool { return e.used > 0 }, func(e *vzEnv) {
		e.stop(0)
		e.stop(0)
	}})
}

func vzOdd(prop string, n int, final func(e *vzEnv)) (out []vzScn) {
	ops := append(vzOddOps("/t", "/t/a"), vzOpWatch(0, "/t", true, Create), vzOpWatch(1, "/t/a", false, Remove|Write), vzOpMkdir("/t/c"), vzOpRm("/t/a/b"))
	return vzHistories("odd", prop, vzTree("/t/", "/t/a/", "/t/a/b/", "/t/a/f"), 2, ops, n, 1, final)
}

// vzOddConc: calls with no effect, at the same time as events and other calls.
func vzOddConc(prop string, th bool) (out []vzScn) {
	for _, o := range vzOddOps("/t/a") {
		if o.name == "Stop(c1)" || o.name == "Stop(c0)" {
			continue
		}
		o := o
		for i, other := range [][]vzOp{{vzOpWrite("/t/a/f")}, {vzOpWatch(1, "/t", true, Remove)}, {vzOpStop(1)}, {vzOpMkdir("/t/c")}} {
			out = append(out, vzConc{name: fmt.Sprintf("odd/conc/%d/%s", i, o.name), fixture: []string{"/t/", "/t/a/", "/t/a/f"}, nch: 2,
				setup: []vzOp{vzOpWatch(0, "/t/a", false, Create|Write), vzOpWatch(1, "/t/a", true, All)}, threads: [][]vzOp{{o}, other}, bounds: vzPe(vzUpTo(vzMoreIf(th, 1))...), final: (*vzEnv).final}.scn(prop))
		}
	}
	return
}

func vzUpTo(n int) (out []int) {
	for i := 0; i <= n; i++ {
		out = append(out, i)
	}
	return
}

var _ = vzFor("C02", func(th bool) []vzScn {
	return append(vzOdd("C02", vzMoreIf(th, 3), (*vzEnv).finalDeep), vzOddConc("C02", th)...)
})

var _ = vzFor("C04", func(th bool) []vzScn { return vzOdd("C04", vzMoreIf(th, 3), (*vzEnv).finalRemove) })

var _ = vzFor("C08", func(th bool) (out []vzScn) {
	for _, s := range append(vzOdd("C08", vzMoreIf(th, 2), (*vzEnv).final), vzOddConc("C08", th)...) {
		out = append(out, s)
	}
	return
})
