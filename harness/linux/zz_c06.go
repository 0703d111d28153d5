package notify

import (
	"fmt"
	"path"
	"strings"

	"vmc/kern"
	"vmc/vs"
)

// vzSpellings: all paths of at most n components.
func vzSpellings(comps []string, n int) (out []string) {
	var rec func(p string, d int)
	rec = func(p string, d int) {
		if p != "" {
			out = append(out, p)
		}
		if d == n {
			return
		}
		for _, c := range comps {
			if p == "" {
				rec(c, d+1)
			} else {
				rec(p+"/"+c, d+1)
			}
		}
	}
	rec("", 0)
	return
}

// vzTry watches p and checks that it is the file the kernel resolves p to.
// cyc: links that cannot be resolved are known to form a cycle.
func (e *vzEnv) vzTry(p string, rec bool, cyc bool) (real string, ok bool) {
	spell := p
	if rec {
		spell = strings.TrimSuffix(p, "/") + "/..."
	}
	look := p
	if rec {
		look = strings.TrimSuffix(p, "/") + "/"
	}
	return e.vzTrySpell(spell, look, rec, cyc)
}

// vzTryDots: whatever precedes the final dots is the path.
func (e *vzEnv) vzTryDots(spell string) {
	look := strings.TrimSuffix(spell, "...")
	rec := look != spell
	if look == "" {
		look = "."
	}
	e.vzTrySpell(spell, look, rec, true)
}

func (e *vzEnv) vzTrySpell(spell, look string, rec, cyc bool) (real string, ok bool) {
	p := look
	real, errno := e.k.RealPath(look)
	if errno != 0 && !rec {
		// a trailing slash or dot after a file is not an error of interest
		if r2, e2 := e.k.RealPath(strings.TrimRight(p, "/")); e2 == 0 && strings.HasSuffix(p, "/") {
			_ = r2
			return "", false
		}
	}
	before := len(e.k.Marks())
	err := Watch(spell, e.chans[0], Create, Write)
	defer func() {
		Stop(e.chans[0])
		vs.Quiesce()
		if len(e.k.Marks()) != 0 {
			e.fail("%q (in %q): OS watches remain after Stop: %v", spell, e.k.Cwd, e.k.Marks())
		}
		vs.Drain(e.chans[0])
	}()
	if errno != 0 {
		if errno.Error() == "too many levels of symbolic links" && !cyc {
			return "", false
		}
		// a slash after a link to a file: of no interest in a link either
		if errno.Error() == "not a directory" && strings.Contains(e.links(), "/  ") {
			return "", false
		}
		if errno.Error() == "file name too long" {
			return "", false
		}
		if err == nil {
			e.fail("Watch(%q) (in %q) succeeded although the kernel cannot resolve the path: %v\n  links: %s", spell, e.k.Cwd, errno, e.links())
		}
		if len(e.k.Marks()) != before {
			e.fail("Watch(%q) failed but left an OS watch", spell)
		}
		return "", false
	}
	ino, _ := e.k.Lookup(real, true)
	if err != nil && rec && ino.Kind != kern.Dir {
		return "", false // files cannot be watched recursively
	}
	if err != nil {
		e.fail("Watch(%q) (in %q) failed: %v; the kernel resolves the path to %q\n  links: %s", spell, e.k.Cwd, err, real, e.links())
	}
	e.touch(ino, real, rec, spell)
	return real, true
}

func (e *vzEnv) links() (s string) {
	e.paths(func(p string, i *kern.Inode) {
		if i.Kind == kern.Link {
			s += p + " -> " + i.Target + "  "
		}
	})
	return
}

// touch changes the file and expects precisely the events of one watchpoint.
func (e *vzEnv) touch(ino *kern.Inode, real string, rec bool, spell string) {
	var want []string
	if real != "/" { // not watched
		o := vzJoin(path.Dir(real), "zzo")
		e.k.Create(o)
		defer e.k.Unlink(o)
	}
	if ino.Kind == kern.Dir {
		want = append(want, fmt.Sprint(Event(Create), " ", vzJoin(real, "zz")))
		e.k.Create(vzJoin(real, "zz"))
		for _, n := range ino.Entries() {
			if c := ino.Child(n); c.Kind == kern.Dir {
				p := vzJoin(vzJoin(real, n), "zz")
				if rec {
					want = append(want, fmt.Sprint(Event(Create), " ", p))
				}
				e.k.Create(p)
				defer e.k.Unlink(p)
			}
		}
		vs.Quiesce()
		defer vs.Quiesce()
		defer e.k.Unlink(vzJoin(real, "zz"))
	} else {
		want = append(want, fmt.Sprint(Event(Write), " ", real))
		e.k.WriteFile(real)
		vs.Quiesce()
	}
	var got []string
	for _, ei := range vs.Drain(e.chans[0]) {
		got = append(got, fmt.Sprint(ei.Event(), " ", ei.Path()))
	}
	vzSort(want)
	vzSort(got)
	if fmt.Sprint(got) != fmt.Sprint(want) {
		e.fail("Watch(%q) (in %q) names %q, but after a change there got %v, not %v\n  links: %s", spell, e.k.Cwd, real, got, want, e.links())
	}
}

var _ = vzFor("C06", vzC06)

func vzC06(thorough bool) (out []vzScn) {
	pos := []string{"/l", "/d/l", "/d/m", "/k"}
	targets := []string{"/", "/d", "/d/e", "/l", "/d/l", ".", "..", "e", "../d", "l", "m", "../l", "d/../d", "./e", "d/", "/d/f", "zz", "k", "d/e/..", "/d/e/../m/"}
	base := []string{"/d/", "/d/e/", "/d/f", "/dd/", "/d/e/g"}
	comps := []string{"d", "e", "l", "m", "k", "f", ".", ".."}
	n := 2
	cwds := []string{"/", "/d", "/l"}
	if thorough {
		n = 3
	}
	sp := vzSpellings(comps, n)
	body := func(ps []string, rec bool) func() {
		return func() {
			e := vzNewEnv("C06", 1, 64)
			for _, p := range ps {
				t := targets[vs.Choose("target of "+p, len(targets), false)]
				e.k.Symlink(t, p)
				e.note("%s -> %s", p, t)
			}
			for _, cwd := range cwds {
				i, err := e.k.Lookup(cwd, true)
				if err != 0 || i.Kind != kern.Dir {
					continue
				}
				e.k.Cwd = cwd
				for _, s := range sp {
					if cwd == cwds[0] {
						e.vzTry("/"+s, rec, true)
					}
					if cwd == "/l" && len(s) > 5 {
						continue
					}
					e.vzTry(s, rec, true)
				}
			}
			for _, s := range []string{"/", "//", "/.", "/..", "//d", "/d/", "/d//e", "/./d/./e/.", "/d/../d/e/", ".", "./", "..", "", "/l/", "/l//", "//l/.", "/l/../l"} {
				if s == "" {
					continue
				}
				e.vzTry(s, rec, true)
			}
		}
	}
	for i, a := range pos {
		for j, b := range pos {
			if i >= j {
				continue
			}
			for _, rec := range []bool{false, true} {
				out = append(out, vzScn{name: fmt.Sprintf("links/%s,%s/recursive=%v", a, b, rec), serial: true, steps: 1 << 24, bounds: vzPe(0), kern: vzTree(base...), body: body([]string{a, b}, rec)})
			}
			if thorough {
				for k, c := range pos {
					if j < k {
						out = append(out, vzScn{name: fmt.Sprintf("links/%s,%s,%s", a, b, c), serial: true, steps: 1 << 24, bounds: vzPe(0), kern: vzTree(base...), body: body([]string{a, b, c}, false)})
					}
				}
			}
		}
	}
	// names with dots, and what the final dots are taken off from
	out = append(out, vzScn{name: "dots", serial: true, steps: 1 << 24, bounds: vzPe(0), kern: vzTree("/d/", "/d/h./", "/d/h./h./", "/d/.../", "/d/.../d/", "/d/..x/", "/d/h../", "/d/f", "/d/f.", "/d/..../"), body: func() {
		e := vzNewEnv("C06", 1, 64)
		cwd := []string{"/", "/d", "/d/h."}[vs.Choose("cwd", 3, false)]
		first := []string{"", "/", "d", "/d", "h.", "...", "..", "./d", "/d/h.", "/d/...", "/d//"}[vs.Choose("first", 11, false)]
		e.k.Cwd = cwd
		mid := vzSpellings([]string{"d", "h.", "h..", "...", "....", "..", ".", "..x", "f", "f.", ""}, n)
		for _, m := range append(mid, "") {
			for _, end := range []string{"", "/", "...", "/...", "....", "/....", "......"} {
				s := first + end
				if m != "" {
					s = first + "/" + m + end
					if first == "" {
						s = m + end
					}
				}
				if s != "" {
					e.vzTryDots(s)
				}
			}
		}
	}})
	// depth of the tree and length of chains of links
	depth := 150
	if thorough {
		depth = 400
	}
	for _, kind := range []string{"absolute", "relative"} {
		kind := kind
		out = append(out, vzScn{name: "deep/" + kind, serial: true, steps: 1 << 24, bounds: vzPe(0), kern: vzTree(), body: func() {
			e := vzNewEnv("C06", 1, 64)
			d := vs.Choose("depth", depth, false)
			p := ""
			for i := 0; i < d; i++ {
				p += "/d"
				e.k.Mkdir(p)
			}
			if p != "" {
				e.vzTry(p, false, true)
			}
			n := vs.Choose("links", 40, false)
			prev := vzJoin("/", strings.TrimPrefix(p, "/"))
			for i := 0; i < n; i++ {
				l := fmt.Sprintf("%s/l%d", p, i)
				if kind == "relative" && i > 0 {
					prev = fmt.Sprintf("l%d", i-1)
				} else if kind == "relative" {
					prev = "."
				}
				e.k.Symlink(prev, l)
				prev = l
			}
			if n > 0 {
				e.vzTry(fmt.Sprintf("%s/l%d", p, n-1), false, false)
			}
		}})
	}
	for _, kind := range []string{"nested", "long-names"} {
		kind := kind
		out = append(out, vzScn{name: "deep/" + kind, serial: true, steps: 1 << 24, bounds: vzPe(0), kern: vzTree(), body: func() {
			e := vzNewEnv("C06", 1, 64)
			if kind == "nested" {
				// a link in every directory, all of them on the way
				d := 1 + vs.Choose("depth", 39, false)
				p, q := "", ""
				for i := 0; i < d; i++ {
					p += "/d"
					e.k.Mkdir(p)
					e.k.Symlink("d", p[:len(p)-2]+"/l")
					q += "/l"
				}
				e.vzTry(q, false, false)
				e.vzTry(q+"/../d", false, false)
			} else {
				p := ""
				for i, n := 0, vs.Choose("names", 15, false); i <= n; i++ {
					p += "/" + strings.Repeat("n", 255)
					e.k.Mkdir(p)
				}
				e.vzTry(p, false, false)
			}
		}})
	}
	// cycles of every length, and links that grow as they are resolved
	out = append(out, vzScn{name: "cycles", serial: true, steps: 1 << 24, bounds: vzPe(0), kern: vzTree("/d/"), body: func() {
		e := vzNewEnv("C06", 1, 64)
		n := 1 + vs.Choose("length", 60, false)
		suffix := []string{"", "/x", "/.", "/..", "/../d"}[vs.Choose("suffix", 5, false)]
		rel := vs.Choose("relative", 2, false) == 0
		for i := 0; i < n; i++ {
			t := fmt.Sprintf("l%d%s", (i+1)%n, suffix)
			if !rel {
				t = "/d/" + t
			}
			e.k.Symlink(t, fmt.Sprintf("/d/l%d", i))
		}
		e.vzTry("/d/l0", false, true)
		e.vzTry("/d/l0/..", false, true)
	}})
	// spellings of one file are one watchpoint
	out = append(out, vzScn{name: "same", serial: true, steps: 1 << 24, bounds: vzPe(0), kern: vzTree(append(base, "/l -> d", "/d/m -> /l/e", "/k -> d/m")...), body: func() {
		e := vzNewEnv("C06", 1, 64)
		by := map[string][]string{}
		for _, s := range sp {
			if r, err := e.k.RealPath("/" + s); err == 0 && r != "/" {
				by[r] = append(by[r], "/"+s, s, "/"+s+"/.")
			}
		}
		var rs []string
		for r := range by {
			rs = append(rs, r)
		}
		vzSort(rs)
		for _, r := range rs {
			ino, _ := e.k.Lookup(r, true)
			for _, rec := range []bool{false, true} {
				if rec && ino.Kind != kern.Dir {
					continue
				}
				for _, s := range by[r] {
					if strings.HasSuffix(s, "/.") && ino.Kind != kern.Dir {
						continue
					}
					if err := Watch(vzSpell(s, rec), e.chans[0], Create, Write); err != nil {
						e.fail("Watch(%q): %v", s, err)
					}
				}
				e.touch(ino, r, rec, fmt.Sprint(by[r]))
				Stop(e.chans[0])
				vs.Quiesce()
				if len(e.k.Marks()) != 0 {
					e.fail("OS watches remain after Stop: %v", e.k.Marks())
				}
				vs.Drain(e.chans[0])
			}
		}
	}})
	return
}
