package notify

import (
	"fmt"
	"strings"
)

// Sizes beyond those of the other scenarios: many directories, deep trees,
// many channels, long queues, each in the default schedule.

func vzScale(prop, name string, fx []string, nch int, caps int, body func(e *vzEnv)) vzScn {
	return vzScn{name: "scale/" + name, serial: true, steps: 1 << 24, bounds: vzPe(0), kern: vzTree(fx...), body: func() {
		e := vzNewEnv(prop, nch, caps)
		e.used = nch
		body(e)
	}}
}

const vzMany = 1 << 15

func vzWide(dir string, n int) (out []string) {
	for i := 0; i < n; i++ {
		out = append(out, fmt.Sprintf("%s/d%03d", dir, i))
	}
	return
}

func vzChain(dir string, n int) (out []string) {
	for i := 0; i < n; i++ {
		dir += fmt.Sprintf("/n%d", i)
		out = append(out, dir)
	}
	return
}

func vzDirs(l ...string) (out []string) {
	for _, d := range l {
		out = append(out, d+"/")
	}
	return
}

var _ = vzFor("C03", func(bool) (out []vzScn) {
	wide, chain := vzWide("/t", 300), vzChain("/t", 60)
	all := append(append([]string{}, wide...), chain...)
	out = append(out, vzScale("C03", "present", append([]string{"/t/"}, vzDirs(all...)...), 1, vzMany, func(e *vzEnv) {
		e.mustWatch(0, "/t", true, Create|Write|Remove)
		e.settle()
		e.final()
	}))
	out = append(out, vzScale("C03", "present-below-others", append([]string{"/t/"}, vzDirs(all...)...), 3, vzMany, func(e *vzEnv) {
		e.mustWatch(1, chain[3], true, Create)
		e.mustWatch(2, chain[20], false, Write)
		e.mustWatch(2, wide[7], false, Write)
		e.settle()
		e.mustWatch(0, "/t", true, Create|Write)
		e.settle()
		e.probe()
		e.stop(1)
		e.settle()
		e.final()
	}))
	out = append(out, vzScale("C03", "created-at-once", []string{"/t/"}, 1, vzMany, func(e *vzEnv) {
		e.mustWatch(0, "/t", true, Create|Write)
		e.settle()
		e.conc = true
		for _, d := range all {
			e.k.Mkdir(d)
		}
		e.settle()
		e.final()
	}))
	out = append(out, vzScale("C03", "created-in-turn", []string{"/t/"}, 1, vzMany, func(e *vzEnv) {
		e.mustWatch(0, "/t", true, Create|Write)
		e.settle()
		for _, d := range append(append([]string{}, chain[:40]...), wide[:40]...) {
			e.k.Mkdir(d)
			e.settle()
		}
		e.final()
	}))
	long := []string{"/t"}
	for len(long[len(long)-1]) < 3700 {
		long = append(long, long[len(long)-1]+"/"+strings.Repeat(fmt.Sprintf("%02d long ", len(long)), 27))
	}
	out = append(out, vzScale("C03", "long-names", vzDirs(long[:len(long)/2]...), 1, vzMany, func(e *vzEnv) {
		e.mustWatch(0, "/t", true, Create|Write)
		e.settle()
		for _, d := range long[len(long)/2:] {
			e.k.Mkdir(d)
			e.settle()
		}
		e.final()
	}))
	out = append(out, vzScale("C03", "long-names-present", vzDirs(long...), 1, vzMany, func(e *vzEnv) {
		e.mustWatch(0, "/t", true, Create|Write)
		e.settle()
		e.final()
	}))
	out = append(out, vzScale("C03", "churn", []string{"/t/", "/t/x/"}, 1, vzMany, func(e *vzEnv) {
		e.mustWatch(0, "/t", true, Create|Remove)
		e.settle()
		e.conc = true
		for i := 0; i < 150; i++ {
			e.k.Mkdir("/t/x/a")
			e.k.Mkdir("/t/x/a/b")
			e.k.Rmdir("/t/x/a/b")
			e.k.Rmdir("/t/x/a")
		}
		e.k.Mkdir("/t/x/a")
		e.k.Mkdir("/t/x/a/b")
		e.settle()
		e.final()
	}))
	return
})

var _ = vzFor("C02", func(bool) (out []vzScn) {
	sets := []Event{Create, Write | Remove, All, InAttrib | Create, Rename | InModify, Remove}
	out = append(out, vzScale("C02", "channels", []string{"/t/", "/t/a/", "/t/a/b/", "/t/a/b/c/", "/t/ab/", "/t/a/f"}, 40, vzMany, func(e *vzEnv) {
		ps := []string{"/t", "/t/a", "/t/a/b", "/t/a/b/c", "/t/ab"}
		for i := 0; i < 40; i++ {
			e.mustWatch(i, ps[i%5], i%2 == 0, sets[i%6])
			if i%7 == 0 {
				e.mustWatch(i, ps[(i+2)%5], i%2 == 0, sets[(i+1)%6])
			}
		}
		e.settle()
		e.probeDeep()
		for i := 0; i < 40; i++ {
			if i%3 == 0 {
				e.stop(i)
			}
		}
		e.settle()
		e.probeDeep()
		for i := 0; i < 40; i++ {
			if i%3 == 1 {
				e.stop(i)
			}
		}
		e.settle()
		e.finalDeep()
	}))
	for _, p := range []string{"/t", "/t/f"} {
		p := p
		for _, rec := range []bool{false, true} {
			rec := rec
			if rec && p == "/t/f" {
				continue
			}
			out = append(out, vzScale("C02", fmt.Sprintf("same/%s/recursive=%v", p, rec), []string{"/t/", "/t/a/", "/t/f"}, 150, 64, func(e *vzEnv) {
				for i := range e.chans {
					e.mustWatch(i, p, rec, sets[i%6])
				}
				e.settle()
				e.probe()
				for i := range e.chans {
					if i%4 != 1 {
						e.stop(i)
					}
				}
				e.settle()
				e.final()
			}))
		}
	}
	chain := append([]string{"/t"}, vzChain("/t", 14)...)
	out = append(out, vzScale("C02", "nested", vzDirs(chain...), len(chain), vzMany, func(e *vzEnv) {
		for i := range chain {
			j := (i * 7) % len(chain)
			e.mustWatch(j, chain[j], j%4 != 3, sets[j%6])
			e.settle()
		}
		e.probeDeep()
		for i := range chain {
			j := (i * 4) % len(chain)
			e.stop(j)
			e.settle()
			e.probe()
		}
		e.finalDeep()
	}))
	var files []string
	for i := 0; i < 150; i++ {
		files = append(files, fmt.Sprintf("/t/f%d", i))
	}
	out = append(out, vzScale("C02", "files", append([]string{"/t/"}, files...), 4, vzMany, func(e *vzEnv) {
		e.mustWatch(3, "/t", false, Remove|Write)
		for i, f := range files {
			e.mustWatch(i%3, f, false, sets[i%6])
		}
		e.settle()
		e.probe()
		e.stop(3)
		e.settle()
		e.probe()
		e.stop(1)
		e.settle()
		e.final()
	}))
	return
})

var _ = vzFor("C04", func(bool) (out []vzScn) {
	wide, chain := vzWide("/t", 200), vzChain("/t", 60)
	all := append(append([]string{}, wide...), chain...)
	out = append(out, vzScale("C04", "trees", append([]string{"/t/"}, vzDirs(all...)...), 4, vzMany, func(e *vzEnv) {
		for i := 0; i < 3; i++ {
			e.mustWatch(0, "/t", true, Create)
			e.mustWatch(1, chain[10], true, Write)
			e.mustWatch(2, chain[30], false, Remove)
			for _, d := range wide[:50] {
				e.mustWatch(3, d, false, Create|Write)
			}
			e.settle()
			e.conc = true
			for _, d := range wide[100:] {
				e.k.Rmdir(d)
			}
			for _, d := range wide[150:] {
				e.k.Mkdir(d)
			}
			e.settle()
			e.stop((i + 1) % 4)
			e.settle()
			e.stop((i + 3) % 4)
			e.settle()
			e.stopAll()
			for _, d := range wide {
				e.k.Mkdir(d)
			}
		}
	}))
	return
})

var _ = vzFor("C01", func(bool) (out []vzScn) {
	for _, rec := range []bool{true, false} {
		rec := rec
		out = append(out, vzScale("C01", fmt.Sprintf("pending/recursive=%v", rec), []string{"/t/", "/t/a/"}, 2, vzMany, func(e *vzEnv) {
			e.mustWatch(0, "/t/a", rec, Create|Write)
			e.mustWatch(1, "/t", true, Create)
			e.settle()
			e.conc = true
			for i := 0; i < 600; i++ {
				e.k.Create(fmt.Sprintf("/t/a/x%d", i))
			}
			vzOpStopFinal(0).do(e)
			e.settle()
			e.final()
		}))
	}
	return
})

var _ = vzFor("C08", func(bool) (out []vzScn) {
	for _, n := range []int{0, 1, 5} {
		n := n
		out = append(out, vzScale("C08", fmt.Sprintf("slow/%d", n), []string{"/t/", "/t/a/"}, 3, vzMany, func(e *vzEnv) {
			e.chans[0] = vzChan(n)
			e.slow[0] = true
			for ch := 0; ch < 3; ch++ {
				e.mustWatch(ch, "/t", true, All)
			}
			e.settle()
			e.conc = true
			for i := 0; i < 400; i++ {
				e.k.Mkdir(fmt.Sprintf("/t/a/x%d", i))
				e.k.Create(fmt.Sprintf("/t/y%d", i))
			}
			e.settle()
			e.stop(2)
			e.settle()
			e.final()
		}))
	}
	return
})
