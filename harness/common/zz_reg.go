package notify

import (
	"fmt"
	"path"
	"sort"
	"strings"

	"vmc/kern"
)

type vzReg struct {
	ch   int
	path string
	rec  bool
	e    Event
}

func vzUnder(dir, p string) bool {
	return dir == "/" && p != "/" || strings.HasPrefix(p, dir+"/")
}

func vzJoin(d, n string) string {
	if n == "" {
		return d
	}
	if d == "/" {
		return "/" + n
	}
	return d + "/" + n
}

// setAt is the merged event set of channel ch on the watchpoint at p.
func vzSetAt(regs []vzReg, ch int, p string) (all, rec Event, isrec bool) {
	for _, r := range regs {
		if r.ch == ch && r.path == p {
			all |= r.e
			if r.rec {
				rec |= r.e
				isrec = true
			}
		}
	}
	return
}

// vzDue says how many copies of ev about p channel ch must (strict) or may
// receive under registrations regs. A channel registered twice on one path,
// once recursively, has a single watchpoint: whether events requested by the
// plain registration alone are delivered from deep below is not specified.
func vzDue(regs []vzReg, ch int, ev Event, p string, strict bool) (n int) {
	done := map[string]bool{}
	for _, r := range regs {
		if r.ch != ch || done[r.path] {
			continue
		}
		done[r.path] = true
		all, rec, isrec := vzSetAt(regs, ch, r.path)
		switch {
		case r.path == p || r.path == path.Dir(p):
			if all&ev == ev {
				n++
			}
		case isrec && vzUnder(r.path, p):
			if rec&ev == ev || !strict && all&ev == ev {
				n++
			}
		}
	}
	return
}

func vzNeed(regs []vzReg, p string, dir bool) (set Event, needed bool) {
	for _, r := range regs {
		if r.path == p || r.rec && dir && vzUnder(r.path, p) {
			set |= r.e
			needed = true
		}
	}
	return
}

func vzSpell(p string, rec bool) string {
	if rec {
		return vzJoin(p, "...")
	}
	return p
}

func vzAdd(regs []vzReg, r vzReg) []vzReg {
	out := append([]vzReg(nil), regs...)
	for i := range out {
		if o := &out[i]; o.ch == r.ch && o.path == r.path && o.rec == r.rec {
			o.e |= r.e
			return out
		}
	}
	return append(out, r)
}

// vzOnly: the registrations of ch.
func vzOnly(regs []vzReg, ch int) (out []vzReg) {
	for _, r := range regs {
		if r.ch == ch {
			out = append(out, r)
		}
	}
	return
}

func vzDrop(regs []vzReg, ch int) (out []vzReg) {
	for _, r := range regs {
		if r.ch != ch {
			out = append(out, r)
		}
	}
	return
}

// vzTree makes a kernel whose name space holds the given entries: "x/" is a
// directory, "x -> y" a link, others files.
func vzTree(ents ...string) func() any {
	return func() any {
		k := kern.New()
		vzFill(k, ents)
		return k
	}
}

func vzFill(k *kern.K, ents []string) {
	for _, s := range ents {
		var err error
		if i := strings.Index(s, " -> "); i >= 0 {
			if e := k.Symlink(s[i+4:], s[:i]); e != 0 {
				err = e
			}
		} else if strings.HasSuffix(s, "/") {
			if e := k.Mkdir(strings.TrimSuffix(s, "/")); e != 0 {
				err = e
			}
		} else if e := k.Create(s); e != 0 {
			err = e
		}
		if err != nil {
			panic("fixture " + s + ": " + err.Error())
		}
	}
}

func vzRegText(regs []vzReg) string {
	var s []string
	for _, r := range regs {
		d := ""
		if r.rec {
			d = "/..."
		}
		s = append(s, fmt.Sprintf("c%d:%s%s[%v]", r.ch, r.path, d, r.e))
	}
	return strings.Join(s, " ")
}

// paths visits everything in the name space, sorted, not following links.
func vzPaths(k *kern.K, f func(p string, i *kern.Inode)) {
	var rec func(p string, d *kern.Inode)
	rec = func(p string, d *kern.Inode) {
		for _, n := range d.Entries() {
			c := d.Child(n)
			f(p+"/"+n, c)
			if c.Kind == kern.Dir {
				rec(p+"/"+n, c)
			}
		}
	}
	f("/", k.Root)
	rec("", k.Root)
}

func vzSort(s []string) { sort.Strings(s) }

// vzLv: preemption bounds of concurrent scenarios.
func vzLv(thorough bool) []vzBound {
	if thorough {
		return vzPe(0, 1, 2, 3, 4)
	}
	return vzPe(0, 1, 2)
}

func vzMin(a, b int) int {
	if a < b {
		return a
	}
	return b
}
