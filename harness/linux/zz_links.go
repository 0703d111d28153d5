package notify

import (
	"fmt"
	"path"
)

// Symbolic links among what is watched: a recursive watch does not follow
// them, whatever they lead to, and nothing is reported under their names.

func vzOpSym(to, p string) vzOp {
	return vzOp{"symlink " + to + " " + p, func(e *vzEnv) bool {
		_, err := e.k.Lookup(p, false)
		return err != 0 && e.isdir(path.Dir(p))
	}, func(e *vzEnv) { e.note("symlink %s %s", to, p); e.k.Symlink(to, p) }}
}

func vzInnerOps() []vzOp {
	return []vzOp{
		vzOpWatch(0, "/t", true, Create|Write), vzOpWatch(1, "/t", true, All), vzOpWatch(1, "/t/a", false, Create|Remove), vzOpWatch(1, "/o", true, Create),
		vzOpSym("/t", "/t/l"), vzOpSym("a", "/t/l"), vzOpSym("/o", "/t/l"), vzOpSym("..", "/t/a/up"), vzOpSym("nowhere", "/t/n"), vzOpSym("/t/a/f", "/t/n"),
		vzOpRm("/t/l"), vzOpRm("/t/n"), vzOpRename("/t/l", "/t/a/l"), vzOpRename("/t/n", "/t/l"), vzOpMkdir("/t/l"), vzOpMkdir("/t/n"), vzOpMkdir("/t/a/b"), vzOpRm("/t/a/b"), vzOpStop(1),
	}
}

func vzInner(prop string, n int, final func(e *vzEnv)) (out []vzScn) {
	out = vzFirst("links", prop, vzTree("/t/", "/t/a/", "/t/a/f", "/o/", "/o/d/", "/o/f"), 2, vzInnerOps(), n+1, final)
	return append(out, vzFirst("links0", prop, vzTree("/t/", "/t/a/", "/t/a/f", "/o/", "/o/d/", "/o/f", "/t/l -> /t", "/t/n -> /o/f", "/t/a/up -> ../../o"), 2, vzInnerOps(), n+1, final)...)
}

var _ = vzFor("C02", func(th bool) []vzScn { return vzInner("C02", vzMoreIf(th, 2), (*vzEnv).finalDeep) })

var _ = vzFor("C03", func(th bool) (out []vzScn) {
	out = vzInner("C03", vzMoreIf(th, 3), (*vzEnv).final)
	for i, s := range [][]vzOp{{vzOpSym("/t", "/t/l"), vzOpMkdir("/t/b")}, {vzOpSym("a", "/t/l"), vzOpRm("/t/l"), vzOpMkdir("/t/l")}, {vzOpMkdir("/t/b"), vzOpSym("/t", "/t/b/l")},
		{vzOpRm("/t/a"), vzOpSym(".", "/t/a")}, {vzOpRm("/t/a"), vzOpSym(".", "/t/a"), vzOpRm("/t/a"), vzOpMkdir("/t/a")}} {
		n := vzMoreIf(th, 2)
		if len(s) > 3 {
			n-- // many more goroutines
		}
		out = append(out, vzConc{name: fmt.Sprintf("links/conc/%d", i), fixture: []string{"/t/", "/t/a/"}, nch: 1, setup: []vzOp{vzOpWatch(0, "/t", true, All)}, threads: [][]vzOp{s}, bounds: vzPe(vzUpTo(n)...), final: (*vzEnv).final}.scn("C03"))
	}
	// (a known finding)
	out = append(out, vzConc{name: "known/links/mkdir-rm-symlink", fixture: []string{"/t/", "/t/a/"}, nch: 1, setup: []vzOp{vzOpWatch(0, "/t", true, All)}, threads: [][]vzOp{{vzOpMkdir("/t/l"), vzOpRm("/t/l"), vzOpSym("/t", "/t/l")}}, bounds: vzPe(0, 1), final: (*vzEnv).final}.scn("C03"))
	return
})

var _ = vzFor("C04", func(th bool) []vzScn { return vzInner("C04", vzMoreIf(th, 2), (*vzEnv).finalRemove) })
