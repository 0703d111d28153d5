package notify

import (
	"fmt"
	"path"
	"sort"
	"strings"

	"vmc/kern"
	"vmc/vs"
)

// vzChange is what one file system operation did to one path.
type vzChange struct {
	p    string
	kind string // create, write, attrib, remove, over (removed by renaming a file), rename, moved (with a directory above)
	dir  bool
}

var vzBits = map[string][]Event{
	"create": {Create},
	"write":  {Write, FileModified},
	"attrib": {FileAttrib},
	"remove": {Remove, FileDelete},
	"rename": {Rename, FileRenameFrom},
	"moved":  {Rename, FileRenameFrom},
	"over":   {Remove, FileRenameTo},
}

// vzFsOp changes the file system and says what it did.
type vzFsOp struct {
	name string
	do   func(k *kern.K) []vzChange
	dir  string // what it moves
}

func vzIsDir(k *kern.K, p string) bool {
	i, e := k.Lookup(p, false)
	return e == 0 && i.Kind == kern.Dir
}

func vzExists(k *kern.K, p string) bool {
	_, e := k.Lookup(p, false)
	return e == 0
}

func vzOk(e interface{ Error() string }, zero bool, cs ...vzChange) []vzChange {
	if !zero {
		return nil
	}
	return cs
}

func vzBelow(k *kern.K, p string) (out []vzChange) {
	for _, q := range k.Tree(p) {
		if _, e := k.Lookup(strings.TrimSuffix(q, "/"), true); e != 0 {
			continue // cannot be watched
		}
		out = append(out, vzChange{strings.TrimSuffix(q, "/"), "moved", strings.HasSuffix(q, "/")})
	}
	return
}

func vzFcreate(p string) vzFsOp {
	return vzFsOp{"create " + p, func(k *kern.K) []vzChange {
		if vzExists(k, p) || k.Create(p) != 0 {
			return nil
		}
		return []vzChange{{p, "create", false}}
	}, ""}
}
func vzFwrite(p string) vzFsOp {
	return vzFsOp{"write " + p, func(k *kern.K) []vzChange {
		if !vzExists(k, p) || k.WriteFile(p) != 0 {
			return nil
		}
		return []vzChange{{p, "write", false}}
	}, ""}
}
func vzFchmod(p string) vzFsOp {
	return vzFsOp{"chmod " + p, func(k *kern.K) []vzChange {
		d := vzIsDir(k, p)
		if k.Chmod(p, 0700) != 0 {
			return nil
		}
		return []vzChange{{p, "attrib", d}}
	}, ""}
}
func vzFmkdir(p string) vzFsOp {
	return vzFsOp{"mkdir " + p, func(k *kern.K) []vzChange {
		if k.Mkdir(p) != 0 {
			return nil
		}
		return []vzChange{{p, "create", true}}
	}, ""}
}
func vzFrm(p string) vzFsOp {
	return vzFsOp{"rm " + p, func(k *kern.K) []vzChange {
		d := vzIsDir(k, p)
		if k.Remove(p) != 0 {
			return nil
		}
		return []vzChange{{p, "remove", d}}
	}, ""}
}
func vzFmv(p, q string) vzFsOp {
	return vzFsOp{"mv " + p + " " + q, func(k *kern.K) []vzChange {
		d, od, had := vzIsDir(k, p), vzIsDir(k, q), vzExists(k, q)
		below := vzBelow(k, p)
		if p == q || k.Rename(p, q) != 0 {
			return nil
		}
		var out []vzChange
		if d {
			out = below
		}
		out = append(out, vzChange{p, "rename", d})
		if had {
			out = append(out, vzChange{q, "over", od})
		}
		return append(out, vzChange{q, "create", d})
	}, p}
}

// vzFen is a watcher, its kernel and what it is meant to do.
type vzFen struct {
	k        *kern.K
	w        vzWatcherI
	c        chan EventInfo
	reg      map[string]Event // requested by Watch, as long as the file is there
	log      []string
	fds      map[string]bool
	gos, mem int
}

func vzNewFen() *vzFen {
	x := &vzFen{k: kern.Cur(), c: vs.Made(make(chan EventInfo, 256)), reg: map[string]Event{}, fds: map[string]bool{}, gos: vs.LibAlive()}
	for _, f := range x.k.OpenFDs() {
		x.fds[f] = true
	}
	vs.Quiesce()
	x.mem = vzH().vzLive()
	x.w = newWatcher(x.c)
	vs.Quiesce()
	return x
}

func (x *vzFen) note(f string, a ...any) {
	s := fmt.Sprintf(f, a...)
	x.log = append(x.log, s)
	vs.Note("%s", s)
}

func (x *vzFen) fail(f string, a ...any) {
	var s []string
	for p, e := range x.reg {
		s = append(s, fmt.Sprintf("%s[%v]", p, e))
	}
	sort.Strings(s)
	vs.Fail("C16", "%s\n  watched: %s\n  history: %s", fmt.Sprintf(f, a...), strings.Join(s, " "), strings.Join(x.log, "; "))
}

// set is what is requested for changes of the file at p itself.
func (x *vzFen) set(p string) Event { return x.reg[p] | x.reg[path.Dir(p)] }

type vzKev struct {
	p   string
	ev  Event
	dir bool
}

func (v vzKev) String() string { return fmt.Sprintf("%v %s", v.ev, v.p) }

// due says which events changes have to cause, and which they may.
func (x *vzFen) due(cs []vzChange) (must, may []vzKev) {
	moved := map[string]bool{}
	for _, c := range cs {
		for _, b := range vzBits[c.kind] {
			v := vzKev{c.p, b, c.dir}
			switch c.kind {
			case "create":
				if x.reg[path.Dir(c.p)]&Create != 0 {
					must = append(must, v)
				}
			case "moved":
				// reported along with the directory, under its event set
				moved[c.p] = true
				if b == Rename {
					if x.reg[path.Dir(c.p)]&Rename != 0 && x.reg[c.p] == 0 && !c.dir {
						must = append(must, v)
					} else {
						may = append(may, v)
					}
				} else {
					may = append(may, v)
				}
			default:
				if x.set(c.p)&b != 0 {
					if c.dir && c.kind == "attrib" {
						may = append(may, v)
					} else {
						must = append(must, v)
					}
				}
			}
		}
		if c.kind == "over" && x.set(c.p)&FileDelete != 0 {
			may = append(may, vzKev{c.p, FileDelete, c.dir})
		}
		if c.dir && (c.kind != "attrib") {
			for _, b := range []Event{FileModified, FileAttrib, FileAccess} {
				may = append(may, vzKev{c.p, b, true})
			}
		}
	}
	return
}

// after: what the changes mean for the registrations.
func (x *vzFen) after(cs []vzChange) {
	for _, c := range cs {
		switch c.kind {
		case "remove", "over", "rename", "moved":
			delete(x.reg, c.p)
		}
	}
}

// check compares what was sent with what was due.
func (x *vzFen) check(cs []vzChange) {
	vs.Quiesce()
	must, may := x.due(cs)
	for _, ei := range vs.Drain(x.c) {
		v := vzKev{ei.Path(), ei.Event(), false}
		if v.ev&(v.ev-1) != 0 || v.ev == 0 {
			x.fail("received %v %s (%#x), which is not a single event", v.ev, v.p, uint32(v.ev))
		}
		found := false
		dirOk := func(want bool) {
			if d, err := ei.(interface{ isDir() (bool, error) }).isDir(); err != nil || d != want {
				x.fail("%v: isDir() = %v, %v", v, d, err)
			}
		}
		for i := range must {
			if must[i].p == v.p && must[i].ev == v.ev {
				dirOk(must[i].dir)
				must = append(must[:i], must[i+1:]...)
				found = true
				break
			}
		}
		for i := 0; !found && i < len(may); i++ {
			if may[i].p == v.p && may[i].ev == v.ev {
				dirOk(may[i].dir)
				may = append(may[:i], may[i+1:]...)
				found = true
			}
		}
		// the directories whose entries changed may report raw events of their own
		for i := 0; !found && i < len(cs); i++ {
			if path.Dir(cs[i].p) == v.p && v.ev&(FileModified|FileAttrib|FileAccess)&x.set(v.p) == v.ev {
				found = true
			}
		}
		if !found {
			x.fail("received %v, which nothing caused or requested", v)
		}
	}
	if len(must) > 0 {
		x.fail("did not receive %v", must[0])
	}
	x.after(cs)
}

// tracked lists the paths that need a descriptor.
func (x *vzFen) tracked() map[string]Event {
	out := map[string]Event{}
	for p, e := range x.reg {
		out[p] |= e
		if i, err := x.k.Lookup(p, true); err == 0 && i.Kind == kern.Dir {
			for _, n := range i.Entries() {
				q := vzJoin(p, n)
				if _, err := x.k.Lookup(q, true); err == 0 {
					out[q] |= e
				}
			}
		}
	}
	return out
}

// descriptors: exactly the files to watch are associated, once, and the kernel
// is asked for enough.
func (x *vzFen) descriptors() {
	want := x.tracked()
	// an object and its name for each association, and what port_get fills in
	if n := vzH().vzLive(); n-x.mem > 2*len(x.k.FenWatches())+1 {
		x.fail("%d native objects are left although only %d files are associated", n-x.mem, len(x.k.FenWatches()))
	}
	seen := map[string]bool{}
	for _, v := range x.k.FenWatches() {
		if seen[v.Name] {
			x.fail("%s is associated twice", v.Name)
		}
		seen[v.Name] = true
		e, ok := want[v.Name]
		if !ok {
			x.fail("%s is still associated", v.Name)
		}
		i, err := x.k.Lookup(v.Name, true)
		if err != 0 || i != v.Ino {
			x.fail("the association of %s is with a different file, which is no longer there", v.Name)
		}
		need := int(e & (FileAccess | FileModified | FileAttrib | FileTrunc))
		if e&Write != 0 || x.reg[v.Name] != 0 && i.Kind == kern.Dir {
			need |= kern.FenModified
		}
		if need&^v.Events != 0 {
			x.fail("the kernel is asked for events %#x of %s, not for %#x", v.Events, v.Name, need)
		}
	}
	for p := range want {
		if !seen[p] {
			x.fail("%s is not associated", p)
		}
	}
	x.sane()
}

func (x *vzFen) sane() {
	if len(x.k.Closed) > 0 {
		x.fail("%s", x.k.Closed[0])
	}
	if b := vzH().bad; b != "" {
		x.fail("%s", b)
	}
}

func (x *vzFen) fs(o vzFsOp) {
	if o.dir != "" && x.tracked()[o.dir] == 0 {
		for p := range x.reg {
			if strings.HasPrefix(p, o.dir+"/") {
				return // nobody is told
			}
		}
	}
	x.note("%s", o.name)
	x.check(o.do(x.k))
	x.descriptors()
}

type vzKop struct {
	name string
	kind string
	p    string
	set  Event
}

// op performs one operation of the watcher; it returns false if it makes no
// sense now.
func (x *vzFen) op(o vzKop) bool {
	i, e := x.k.Lookup(o.p, true)
	if e != 0 || i == nil {
		return false
	}
	old, watched := x.reg[o.p]
	if watched != (o.kind != "Watch") {
		return false
	}
	x.note("%s", o.name)
	n := x.k.NFaults
	var err error
	switch o.kind {
	case "Watch":
		err = x.w.Watch(o.p, o.set)
	case "Rewatch":
		err = x.w.Rewatch(o.p, old, o.set)
	case "Unwatch":
		err = x.w.Unwatch(o.p)
	}
	failed := x.k.NFaults > n
	if err != nil && !failed {
		x.fail("%s: %v", o.name, err)
	}
	if err == nil && failed {
		x.fail("%s succeeded although the system refused", o.name)
	}
	if err == nil {
		if o.kind == "Unwatch" {
			delete(x.reg, o.p)
		} else {
			x.reg[o.p] = o.set
		}
	}
	x.k.FaultOn = map[string]bool{}
	if o.kind == "Unwatch" && err != nil {
		return false // what remains watched is unspecified
	}
	x.check(nil)
	x.descriptors()
	return true
}

func (x *vzFen) close() {
	x.note("Close")
	x.k.FaultOn = map[string]bool{}
	if err := x.w.Close(); err != nil {
		x.fail("Close: %v", err)
	}
	vs.Quiesce()
	if l := vs.Drain(x.c); len(l) > 0 {
		x.fail("%v was reported when closing", l[0])
	}
	x.released()
}

func (x *vzFen) released() {
	for _, f := range x.k.OpenFDs() {
		if !x.fds[f] {
			x.fail("descriptor left open: %s", f)
		}
	}
	x.sane()
	if n := vzH().vzLive(); n > x.mem {
		x.fail("%d native objects have not been freed", n-x.mem)
	}
	if n := vs.LibAlive(); n > x.gos {
		x.fail("goroutines left: %s", vs.Describe())
	}
}

func vzFsOps(thorough bool) []vzFsOp {
	l := []vzFsOp{
		vzFcreate("/d/n"), vzFwrite("/d/a"), vzFwrite("/d/n"), vzFrm("/d/a"), vzFrm("/d/n"), vzFmv("/d/a", "/d/b"), vzFmv("/d/b", "/d/a"), vzFmv("/d/n", "/d/a"), vzFmv("/d/a", "/o/a"),
	}
	if thorough {
		l = append(l, vzFmv("/o/s", "/d/s"), vzFmv("/d/s/x", "/d/x"), vzFwrite("/o/y"), vzFchmod("/d"), vzFcreate("/d/k/m"), vzFrm("/d/k/m"), vzFmv("/d/k", "/d/s"), vzFcreate("/d/a"), vzFrm("/d/y"), vzFrm("/d/b"))
	}
	return l
}

var _ = vzFor("C16", vzC16)

func vzC16(thorough bool) (out []vzScn) {
	fx := vzTree("/d/", "/d/a", "/d/s/", "/d/s/x", "/o/", "/o/y", "/d/dangling -> nowhere")
	allev := Create | Remove | Write | Rename
	raw := FileModified | FileAttrib | FileDelete | FileRenameFrom | FileRenameTo
	fsops := vzFsOps(thorough)
	// changes of the file system under fixed registrations
	regs := [][]vzKop{
		{{"", "Watch", "/d", allev}},
		{{"", "Watch", "/d", Create}},
		{{"", "Watch", "/d", Remove | Rename}},
		{{"", "Watch", "/d", allev | raw}},
		{{"", "Watch", "/d/a", allev}},
		{{"", "Watch", "/d/a", Write | FileModified}, {"", "Watch", "/d", Create | Write}},
		{{"", "Watch", "/d", allev}, {"", "Watch", "/d/s", allev}},
		{{"", "Watch", "/d/s", allev}, {"", "Watch", "/o", Create | Write}},
		{{"", "Watch", "/d", Write}, {"", "Watch", "/d/s", Create | Remove}, {"", "Watch", "/d/a", Rename}},
		{{"", "Watch", "/", allev}, {"", "Watch", "/d", Create | Remove}},
	}
	n := 3
	if thorough {
		n = 4
	}
	for i := range regs {
		ws := regs[i]
		nm := ""
		for j := range ws {
			ws[j].name = fmt.Sprintf("Watch(%s, %v)", ws[j].p, ws[j].set)
			nm += ws[j].name + " "
		}
		for j := range fsops {
			j := j
			out = append(out, vzScn{name: "fs/" + strings.TrimSpace(nm) + "/" + fsops[j].name, serial: true, bounds: vzPe(0), kern: fx, body: func() {
				x := vzNewFen()
				for _, w := range ws {
					x.op(w)
				}
				for d := 0; d < n; d++ {
					f := j
					if d > 0 {
						f = vs.Choose("change", len(fsops), false)
					}
					x.fs(fsops[f])
					vs.CountState()
				}
				x.close()
			}})
		}
	}
	// operations of the watcher mixed with changes, and failures
	var ops []vzKop
	for _, p := range []string{"/d", "/d/a", "/d/s"} {
		for _, e := range []Event{allev, Create | Write} {
			ops = append(ops, vzKop{fmt.Sprintf("Watch(%s, %v)", p, e), "Watch", p, e})
		}
		ops = append(ops, vzKop{fmt.Sprintf("Rewatch(%s, %v)", p, Remove|Create), "Rewatch", p, Remove | Create})
		ops = append(ops, vzKop{fmt.Sprintf("Unwatch(%s)", p), "Unwatch", p, 0})
	}
	some := []vzFsOp{vzFcreate("/d/n"), vzFmv("/d/n", "/d/a"), vzFrm("/d/a"), vzFwrite("/d/a"), vzFcreate("/d/s/z"), vzFmv("/d/s", "/d/t"), vzFrm("/d/s/x")}
	nn := n + 1
	for _, faults := range []int{0, 1} {
		nm := "ops"
		depth := nn
		if faults > 0 {
			nm, depth = "opsfail", nn-1
		}
		faults := faults
		for i := range ops {
			if ops[i].kind != "Watch" {
				continue
			}
			i := i
			out = append(out, vzScn{name: nm + "/" + ops[i].name, serial: true, bounds: []vzBound{{0, faults}}, kern: fx, body: func() {
				x := vzNewFen()
				for d := 0; d < depth; d++ {
					j := i
					if d > 0 {
						j = vs.Choose("op", len(ops)+len(some), false)
					}
					if j >= len(ops) {
						x.fs(some[j-len(ops)])
					} else {
						if faults > 0 {
							x.k.FaultOn = map[string]bool{"open": true, "port_associate": true, "getdents": true, "stat": true}
						}
						ok := x.op(ops[j])
						x.k.FaultOn = map[string]bool{}
						if !ok {
							return
						}
					}
					vs.CountState()
				}
				// what remains works
				for _, f := range some {
					x.fs(f)
				}
				x.close()
			}})
		}
	}
	// changes too quick to be told apart: afterwards everything that is there
	// is watched again
	quick := []vzFsOp{vzFcreate("/d/n"), vzFrm("/d/n"), vzFrm("/d/a"), vzFcreate("/d/a"), vzFmv("/d/n", "/d/a"), vzFmv("/d/a", "/d/b"), vzFmv("/d/b", "/d/a"), vzFwrite("/d/a"), vzFmkdir("/d/k"), vzFrm("/d/k"), vzFmkdir("/d/a"), vzFcreate("/d/k")}
	for j := range quick {
		j := j
		out = append(out, vzScn{name: "burst/" + quick[j].name, serial: true, bounds: vzPe(0), kern: fx, body: func() {
			x := vzNewFen()
			x.op(regs[0][0])
			var created, had = map[string]bool{}, map[string]bool{}
			vzPaths(x.k, func(p string, _ *kern.Inode) { had[p] = true })
			for d := 0; d < n; d++ {
				f := j
				if d > 0 {
					f = vs.Choose("change", len(quick), false)
				}
				x.note("%s", quick[f].name)
				for _, c := range quick[f].do(x.k) {
					if c.kind == "create" {
						created[c.p] = true
					} else if c.kind == "remove" || c.kind == "over" || c.kind == "rename" {
						delete(created, c.p)
					}
				}
			}
			vs.Quiesce()
			got := map[string]bool{}
			for _, ei := range vs.Drain(x.c) {
				if ei.Event() == Create {
					got[ei.Path()] = true
				}
			}
			for p := range created {
				if !got[p] {
					x.fail("the creation of %s was not reported", p)
				}
			}
			x.descriptors()
			vs.CountState()
			for _, f := range []vzFsOp{vzFwrite("/d/a"), vzFwrite("/d/b"), vzFwrite("/d/n"), vzFrm("/d/a"), vzFcreate("/d/a")} {
				x.fs(f)
			}
			x.close()
		}})
	}
	// start-up that fails, and closing at any time
	out = append(out, vzScn{name: "init", serial: true, bounds: []vzBound{{0, 0}, {0, 1}}, kern: fx, body: func() {
		k := kern.Cur()
		k.FaultOn = map[string]bool{"port_create": true}
		x := vzNewFen()
		k.FaultOn = map[string]bool{}
		err := x.w.Watch("/d", Create)
		if k.NFaults == 0 {
			if err != nil {
				x.fail("Watch: %v", err)
			}
			x.reg["/d"] = Create
			x.fs(vzFcreate("/d/n"))
			x.close()
			return
		}
		if err == nil {
			x.fail("Watch succeeded although the watcher could not be set up")
		}
		x.released()
	}})
	lv := vzLv(thorough)
	for _, f := range [][]vzFsOp{{vzFcreate("/d/n"), vzFwrite("/d/a")}, {vzFrm("/d/a")}, {vzFmv("/d", "/e"), vzFcreate("/o/n")}} {
		f := f
		out = append(out, vzScn{name: "close/" + f[0].name, bounds: lv, kern: fx, body: func() {
			vs.Calm(true)
			x := vzNewFen()
			x.op(regs[0][0])
			vs.Calm(false)
			vs.Thread("fs", func() {
				for _, o := range f {
					o.do(x.k)
				}
			})
			vs.Thread("close", func() { x.w.Close() })
			vs.Quiesce()
			vs.CheckIdle()
			vs.Calm(true)
			vs.Drain(x.c)
			x.sane()
			if n := vs.LibAlive(); n > x.gos {
				x.fail("goroutines left: %s", vs.Describe())
			}
		}})
		out = append(out, vzScn{name: "conc/" + f[0].name, bounds: lv, kern: fx, body: func() {
			vs.Calm(true)
			x := vzNewFen()
			x.op(regs[0][0])
			vs.Calm(false)
			vs.Thread("fs", func() {
				for _, o := range f {
					o.do(x.k)
				}
			})
			vs.Thread("user", func() {
				x.w.Watch("/o", allev)
				x.w.Rewatch("/d", allev, Create|Write)
				x.w.Unwatch("/o")
			})
			vs.Quiesce()
			vs.CheckIdle()
			vs.Calm(true)
			x.sane()
		}})
	}
	// entries that vanish while their directory is being listed
	for _, f := range []vzFsOp{vzFrm("/d/a"), vzFmv("/d/a", "/o/a"), vzFmv("/d/s", "/d/t")} {
		f := f
		out = append(out, vzScn{name: "list/" + f.name, bounds: lv, kern: fx, body: func() {
			vs.Calm(true)
			x := vzNewFen()
			vs.Calm(false)
			var err error
			vs.Thread("fs", func() { f.do(x.k) })
			vs.Thread("user", func() { err = x.w.Watch("/d", allev) })
			vs.Quiesce()
			vs.CheckIdle()
			vs.Calm(true)
			if err != nil {
				x.fail("Watch(/d) while %s: %v", f.name, err)
			}
			vs.Drain(x.c)
			// (that /d/a is gone may go unnoticed)
			x.reg["/d"] = allev
			x.note("create /d/n")
			x.check(vzFcreate("/d/n").do(x.k))
			x.note("write /d/n")
			x.check(vzFwrite("/d/n").do(x.k))
			x.close()
		}})
	}
	// symlinks stand for the files they lead to
	for _, made := range []bool{false, true} {
		for _, w := range []vzKop{{"Watch(/d)", "Watch", "/d", allev}, {"Watch(/d, raw)", "Watch", "/d", Create | FileModified | FileAttrib | FileDelete}} {
			made, w := made, w
			init := vzTree("/d/", "/d/a", "/o/", "/o/y", "/d/l -> /o/y")
			if made {
				init = vzTree("/d/", "/d/a", "/o/", "/o/y")
			}
			out = append(out, vzScn{name: fmt.Sprintf("symlink/%s made later %v", w.name, made), bounds: lv, kern: init, body: func() {
				vs.Calm(true)
				x := vzNewFen()
				x.op(w)
				if made {
					x.note("symlink /d/l -> /o/y")
					x.k.Symlink("/o/y", "/d/l")
					x.check([]vzChange{{"/d/l", "create", false}})
				}
				x.descriptors()
				step := func(o vzFsOp, kind string) {
					x.note("%s", o.name)
					cs := o.do(x.k)
					if kind == "" {
						x.check(cs)
					} else {
						x.check([]vzChange{{"/d/l", kind, false}})
					}
				}
				step(vzFwrite("/o/y"), "write")
				step(vzFcreate("/d/n"), "")
				step(vzFwrite("/o/y"), "write")
				step(vzFchmod("/o/y"), "attrib")
				x.descriptors()
				step(vzFrm("/o/y"), "remove")
				x.descriptors()
				x.close()
			}})
		}
	}
	// changes of the same name while earlier ones are being handled: whatever is
	// there in the end is watched
	for _, f := range [][]vzFsOp{
		{vzFwrite("/d/a"), vzFrm("/d/a"), vzFcreate("/d/a")},
		{vzFchmod("/d/a"), vzFmv("/d/a", "/d/b"), vzFmv("/d/b", "/d/a")},
		{vzFwrite("/d/a"), vzFmv("/d/a", "/o/a"), vzFcreate("/d/a")},
		{vzFcreate("/d/n"), vzFmv("/d/n", "/d/a"), vzFcreate("/d/n")},
		{vzFrm("/d/s/x"), vzFrm("/d/s"), vzFmkdir("/d/s")},
	} {
		f := f
		for _, w := range []vzKop{{"Watch(/d)", "Watch", "/d", allev}, {"Watch(/d, +FileAttrib)", "Watch", "/d", allev | vzAttr}} {
			w := w
			out = append(out, vzScn{name: "churn/" + w.name + "/" + f[0].name + "; " + f[1].name, bounds: lv, kern: fx, body: func() {
				vs.Calm(true)
				x := vzNewFen()
				x.op(w)
				vs.Calm(false)
				vs.Thread("fs", func() {
					for _, o := range f {
						o.do(x.k)
					}
				})
				for _, o := range f {
					x.note("%s", o.name)
				}
				vs.Quiesce()
				vs.CheckIdle()
				vs.Calm(true)
				vs.Drain(x.c)
				x.descriptors()
				for _, f := range []vzFsOp{vzFwrite("/d/a"), vzFwrite("/d/n"), vzFwrite("/d/k"), vzFcreate("/d/q"), vzFrm("/d/a"), vzFcreate("/d/a")} {
					x.fs(f)
				}
				x.close()
			}})
		}
	}
	return
}

var vzAttr = FileAttrib
