package notify

import (
	"fmt"
	"path"
	"sort"
	"strings"

	"vmc/kern"
	"vmc/vs"
)

const (
	vzAdded = iota + 1
	vzRemoved
	vzModified
	vzOldName
	vzNewName
)

// vzWop changes the file system and says what it did.
type vzWop struct {
	name string
	do   func(k *kern.K) []vzWch
}

type vzWch struct {
	p      string
	dir    bool
	action uint32
	bit    uint32
}

func vzTell(k *kern.K, cs ...vzWch) []vzWch {
	var rs []kern.WinRec
	for _, c := range cs {
		rs = append(rs, kern.WinRec{P: c.p, Action: c.action, Bit: c.bit})
	}
	k.WinNotify(rs...)
	return cs
}

func vzName(dir bool) uint32 {
	if dir {
		return uint32(FileNotifyChangeDirName)
	}
	return uint32(FileNotifyChangeFileName)
}

func vzIsDir(k *kern.K, p string) bool {
	i, e := k.Lookup(p, false)
	return e == 0 && i.Kind == kern.Dir
}

func vzExists(k *kern.K, p string) bool {
	_, e := k.Lookup(p, false)
	return e == 0
}

func vzWcreate(p string, dir bool) vzWop {
	n := "create "
	if dir {
		n = "mkdir "
	}
	return vzWop{n + p, func(k *kern.K) []vzWch {
		if vzExists(k, p) {
			return nil
		}
		if dir && k.Mkdir(p) != 0 || !dir && k.Create(p) != 0 {
			return nil
		}
		return vzTell(k, vzWch{p, dir, vzAdded, vzName(dir)})
	}}
}

func vzWrm(p string) vzWop {
	return vzWop{"rm " + p, func(k *kern.K) []vzWch {
		d := vzIsDir(k, p)
		if k.Remove(p) != 0 {
			return nil
		}
		return vzTell(k, vzWch{p, d, vzRemoved, vzName(d)})
	}}
}

func vzWmod(what string, bit Event, p string) vzWop {
	return vzWop{what + " " + p, func(k *kern.K) []vzWch {
		if !vzExists(k, p) {
			return nil
		}
		return vzTell(k, vzWch{p, vzIsDir(k, p), vzModified, uint32(bit)})
	}}
}

func vzWmv(p, q string) vzWop {
	return vzWop{"mv " + p + " " + q, func(k *kern.K) []vzWch {
		d := vzIsDir(k, p)
		if !vzExists(k, p) || vzExists(k, q) || k.Rename(p, q) != 0 {
			return nil
		}
		b := vzName(d)
		if path.Dir(p) == path.Dir(q) {
			return vzTell(k, vzWch{p, d, vzOldName, b}, vzWch{q, d, vzNewName, b})
		}
		return vzTell(k, vzWch{p, d, vzRemoved, b}, vzWch{q, d, vzAdded, b})
	}}
}

type vzWreg struct {
	e   Event
	rec bool
}

// vzWin is a watcher, its system and what it is meant to do.
type vzWin struct {
	k   *kern.K
	w   vzWatcherI
	rw  vzRW
	c   chan EventInfo
	reg map[string]vzWreg
	log []string
	gos int
}

func vzNewWin() *vzWin {
	x := &vzWin{k: kern.Cur(), c: vs.Made(make(chan EventInfo, 256)), reg: map[string]vzWreg{}, gos: vs.LibAlive()}
	x.w = newWatcher(x.c)
	x.rw, _ = x.w.(vzRW)
	vs.Quiesce()
	return x
}

func (x *vzWin) note(f string, a ...any) {
	s := fmt.Sprintf(f, a...)
	x.log = append(x.log, s)
	vs.Note("%s", s)
}

func (x *vzWin) fail(f string, a ...any) {
	var s []string
	for p, r := range x.reg {
		d := ""
		if r.rec {
			d = "/..."
		}
		s = append(s, fmt.Sprintf("%s%s[%v]", p, d, r.e))
	}
	sort.Strings(s)
	vs.Fail("C14", "%s\n  watched: %s\n  history: %s", fmt.Sprintf(f, a...), strings.Join(s, " "), strings.Join(x.log, "; "))
}

var vzGen = map[uint32]Event{vzAdded: Create, vzRemoved: Remove, vzModified: Write, vzOldName: Rename, vzNewName: Rename}
var vzSys = map[uint32]Event{vzAdded: FileActionAdded, vzRemoved: FileActionRemoved, vzModified: FileActionModified, vzOldName: FileActionRenamedOldName, vzNewName: FileActionRenamedNewName}

const vzWriteBits = uint32(FileNotifyChangeAttributes | FileNotifyChangeSize | FileNotifyChangeCreation | FileNotifyChangeSecurity)

type vzWev struct {
	p   string
	e   Event
	dir bool
}

func (v vzWev) String() string { return fmt.Sprintf("%v %s", v.e, v.p) }

func vzCovers(p string, r vzWreg, q string) bool {
	return path.Dir(q) == p || r.rec && vzUnder(p, q)
}

// vzWdue: the events a change causes for one watch: those it has to send, and
// those it may send.
func vzWdue(r vzWreg, c vzWch) (must, may []Event) {
	gen, sys := vzGen[c.action], vzSys[c.action]
	if r.e&gen != 0 {
		if c.action != vzModified || c.bit&vzWriteBits != 0 {
			must = append(must, gen)
		} else {
			may = append(may, gen) // the system does not say what was modified
		}
	}
	switch mod := uint32(r.e) & uint32(fileNotifyChangeModified); {
	case uint32(r.e)&c.bit != 0:
		must = append(must, sys)
	case mod != 0:
		may = append(may, sys)
	}
	return
}

// check compares what was sent with what was due.
func (x *vzWin) check(cs []vzWch) {
	vs.Quiesce()
	var must, may []vzWev
	for _, c := range cs {
		for p, r := range x.reg {
			if vzCovers(p, r, c.p) {
				a, b := vzWdue(r, c)
				for _, e := range a {
					must = append(must, vzWev{c.p, e, c.dir})
				}
				for _, e := range b {
					may = append(may, vzWev{c.p, e, c.dir})
				}
			}
		}
	}
	take := func(l *[]vzWev, v vzWev) bool {
		for i, o := range *l {
			if o.p == v.p && o.e == v.e {
				*l = append((*l)[:i:i], (*l)[i+1:]...)
				return true
			}
		}
		return false
	}
	for _, ei := range vs.Drain(x.c) {
		v := vzWev{p: ei.Path(), e: ei.Event()}
		if take(&must, v) || take(&may, v) {
			for _, c := range cs {
				if c.p == v.p && vzExists(x.k, v.p) {
					if d, err := ei.(interface{ isDir() (bool, error) }).isDir(); err != nil || d != c.dir {
						x.fail("%v: isDir() = %v, %v", v, d, err)
					}
				}
			}
			continue
		}
		x.fail("sent %v, which nothing caused or requested", v)
	}
	if len(must) > 0 {
		x.fail("did not send %v", must[0])
	}
}

// vzNeeds are the changes the system has to be asked for.
func vzNeeds(e Event) (n uint32) {
	n = uint32(e) & uint32(fileNotifyChangeAll)
	if e&(Create|Remove|Rename) != 0 {
		n |= uint32(FileNotifyChangeFileName | FileNotifyChangeDirName)
	}
	if e&Write != 0 {
		n |= vzWriteBits
	}
	return
}

// handles: the directories to watch are open and being read, others are not.
func (x *vzWin) handles() {
	ds, _ := x.k.WinDirs()
	got := map[string]uint32{}
	for _, d := range ds {
		r, ok := x.reg[d.Path]
		switch {
		case !ok:
			x.fail("a handle of %s is still open", d.Path)
		case d.Gone:
			continue
		case !d.Pending:
			x.fail("a handle of %s is open, and changes are not read from it", d.Path)
		case d.Rec != r.rec:
			x.fail("%s is read with recursive=%v", d.Path, d.Rec)
		case d.Filter&^vzNeeds(r.e) != 0:
			x.fail("%s is read with filter %#x, which is more than was requested", d.Path, d.Filter)
		case got[d.Path]&d.Filter != 0:
			x.fail("changes %#x of %s are read twice", got[d.Path]&d.Filter, d.Path)
		}
		got[d.Path] |= d.Filter
	}
	for p, r := range x.reg {
		if need := vzNeeds(r.e); vzExists(x.k, p) && got[p] != need {
			x.fail("%s is read with filter %#x, not with %#x", p, got[p], need)
		}
	}
	if len(x.k.Closed) > 0 {
		x.fail("%s", x.k.Closed[0])
	}
}

func (x *vzWin) fs(o vzWop) {
	x.note("%s", o.name)
	x.check(o.do(x.k))
	x.handles()
}

type vzWcall struct {
	kind string
	p, q string
	rec  bool
	e    Event
}

func (o vzWcall) String() string {
	s := o.p
	if o.rec {
		s += "/..."
	}
	switch o.kind {
	case "Unwatch":
		return fmt.Sprintf("Unwatch(%s)", s)
	case "Move":
		return fmt.Sprintf("RecursiveRewatch(%s -> %s, %v)", o.p, o.q, o.e)
	}
	return fmt.Sprintf("%s(%s, %v)", o.kind, s, o.e)
}

func (x *vzWin) can(o vzWcall) bool {
	_, watched := x.reg[o.p]
	return watched == (o.kind != "Watch")
}

// call performs one operation of the watcher, and says how it went.
func (x *vzWin) call(o vzWcall) error {
	old := x.reg[o.p]
	x.note("%v", o)
	n := x.k.NFaults
	var err error
	switch {
	case o.kind == "Watch" && o.rec:
		err = x.rw.RecursiveWatch(o.p, o.e)
	case o.kind == "Watch":
		err = x.w.Watch(o.p, o.e)
	case o.kind == "Rewatch" && o.rec:
		err = x.rw.RecursiveRewatch(o.p, o.p, old.e, o.e)
	case o.kind == "Rewatch":
		err = x.w.Rewatch(o.p, old.e, o.e)
	case o.kind == "Move":
		err = x.rw.RecursiveRewatch(o.p, o.q, old.e, o.e)
	case old.rec:
		err = x.rw.RecursiveUnwatch(o.p)
	default:
		err = x.w.Unwatch(o.p)
	}
	t := o.p
	if o.kind == "Move" {
		t = o.q
	}
	failed := x.k.NFaults > n || o.kind != "Unwatch" && !vzExists(x.k, t)
	if (err != nil) != failed {
		x.fail("%v: %v", o, err)
	}
	if err == nil {
		delete(x.reg, o.p)
		if o.kind != "Unwatch" {
			x.reg[t] = vzWreg{o.e, o.rec || o.kind == "Move"}
		}
	}
	return err
}

func (x *vzWin) close() {
	x.note("Close")
	x.k.FaultOn = map[string]bool{}
	if err := x.w.Close(); err != nil {
		x.fail("Close: %v", err)
	}
	vs.Quiesce()
	x.reg = map[string]vzWreg{}
	x.released()
}

func (x *vzWin) released() {
	vs.CheckIdle()
	ds, ports := x.k.WinDirs()
	for _, d := range ds {
		x.fail("a handle of %s is still open", d.Path)
	}
	if ports > 0 {
		x.fail("a completion port is still open")
	}
	if len(x.k.Closed) > 0 {
		x.fail("%s", x.k.Closed[0])
	}
	if n := vs.LibAlive(); n > x.gos {
		x.fail("goroutines left: %s", vs.Describe())
	}
}

var _ = vzFor("C14", vzC14)

func vzC14(thorough bool) (out []vzScn) {
	fx := vzTree("/d/", "/d/a", "/d/s/", "/d/s/x", "/o/", "/o/y")
	allev := Create | Remove | Write | Rename
	fsops := []vzWop{
		vzWcreate("/d/n", false), vzWrm("/d/n"), vzWmv("/d/a", "/d/b"), vzWmv("/d/b", "/d/a"), vzWmod("write", FileNotifyChangeSize, "/d/a"), vzWmod("chattr", FileNotifyChangeAttributes, "/d/s"),
		vzWmod("touch", FileNotifyChangeLastWrite, "/d/a"), vzWcreate("/d/k", true), vzWrm("/d/k"), vzWmv("/d/k", "/d/l"), vzWrm("/d/l"), vzWcreate("/d/s/z", false), vzWmv("/d/s/x", "/d/x"), vzWmod("write", FileNotifyChangeSize, "/d/s/x"),
		vzWmv("/d/a", "/o/a"), vzWmod("write", FileNotifyChangeSize, "/o/y"), vzWmv("/o/y", "/d/s/y"), vzWcreate("/d/s/k", true),
	}
	n := 3
	if thorough {
		n = 4
	}
	sets := []Event{allev, Create, Remove, Write, Rename, FileNotifyChangeFileName, FileNotifyChangeDirName, Create | FileNotifyChangeDirName, Write | FileNotifyChangeLastWrite, Rename | FileNotifyChangeSize, allev | fileNotifyChangeAll, FileNotifyChangeAttributes | FileNotifyChangeFileName, FileNotifyChangeCreation | FileNotifyChangeSecurity | FileNotifyChangeLastAccess}
	for _, rec := range []bool{false, true} {
		for _, e := range sets {
			o := vzWcall{kind: "Watch", p: "/d", rec: rec, e: e}
			for j := range fsops {
				j := j
				out = append(out, vzScn{name: fmt.Sprintf("fs/%v/%s", o, fsops[j].name), serial: true, bounds: vzPe(0), kern: fx, body: func() {
					x := vzNewWin()
					x.call(o)
					x.check(nil)
					x.handles()
					for d := 0; d < n; d++ {
						f := j
						if d > 0 {
							f = vs.Choose("change", len(fsops), false)
						}
						x.fs(fsops[f])
						vs.CountState()
					}
					x.close()
				}})
				if e != allev && e != allev|fileNotifyChangeAll {
					continue
				}
				out = append(out, vzScn{name: fmt.Sprintf("batch/%v/%s", o, fsops[j].name), serial: true, bounds: vzPe(0), kern: fx, body: func() {
					x := vzNewWin()
					x.call(o)
					x.check(nil)
					var cs []vzWch
					for d := 0; d <= n; d++ {
						f := j
						if d > 0 {
							f = vs.Choose("change", len(fsops), false)
						}
						x.note("%s", fsops[f].name)
						cs = append(cs, fsops[f].do(x.k)...)
					}
					x.check(cs)
					vs.CountState()
					x.handles()
					x.close()
				}})
			}
		}
	}
	// names of all lengths, one change at a time and several in one completion
	long, wide := strings.Repeat("n", 250), strings.Repeat("\u017c", 100)+"\U0001f600"
	var named []vzWop
	for i := range long {
		named = append(named, vzWcreate("/d/"+long[:i+1], false))
	}
	deep := []vzWop{
		vzWcreate("/d/"+long, false), vzWcreate("/d/s/"+long, true), vzWcreate("/d/s/"+long+"/"+long, false), vzWcreate("/d/s/"+wide, false),
		vzWmv("/d/"+long, "/d/"+wide), vzWrm("/d/s/" + long + "/" + long), vzWrm("/d/s/" + wide), vzWmod("write", FileNotifyChangeSize, "/d/"+wide),
	}
	for _, rec := range []bool{false, true} {
		for _, e := range []Event{allev, allev | fileNotifyChangeAll, Create | Rename} {
			o := vzWcall{kind: "Watch", p: "/d", rec: rec, e: e}
			out = append(out, vzScn{name: fmt.Sprintf("names/%v", o), serial: true, bounds: vzPe(0), kern: fx, body: func() {
				x := vzNewWin()
				x.call(o)
				for _, f := range append(named[:len(named)-1:len(named)-1], deep...) {
					x.fs(f)
				}
				x.close()
			}})
			for from := range deep {
				from := from
				out = append(out, vzScn{name: fmt.Sprintf("burst/%v/%d", o, from), serial: true, bounds: vzPe(0), kern: fx, body: func() {
					x := vzNewWin()
					x.call(o)
					for _, f := range deep[:from] {
						x.fs(f)
					}
					var cs []vzWch
					for _, f := range deep[from:] {
						x.note("%s", f.name)
						cs = append(cs, f.do(x.k)...)
					}
					x.check(cs)
					x.handles()
					x.close()
				}})
			}
		}
	}
	// histories of calls, changes and failures
	var calls []vzWcall
	for _, p := range []string{"/d", "/d/s", "/o"} {
		for _, rec := range []bool{false, true} {
			calls = append(calls, vzWcall{"Watch", p, "", rec, allev}, vzWcall{"Rewatch", p, "", rec, Create | FileNotifyChangeSize})
		}
		calls = append(calls, vzWcall{"Watch", p, "", false, Write}, vzWcall{"Rewatch", p, "", false, FileNotifyChangeDirName}, vzWcall{"Unwatch", p, "", false, 0})
	}
	calls = append(calls, vzWcall{"Move", "/d/s", "/d", true, Create | Write}, vzWcall{"Move", "/d/s", "/o", true, allev}, vzWcall{"Move", "/d/s", "/none", true, allev}, vzWcall{"Watch", "/none", "", false, allev})
	some := []vzWop{vzWcreate("/d/n", false), vzWrm("/d/n"), vzWmod("write", FileNotifyChangeSize, "/d/s/x"), vzWcreate("/d/s/k", true), vzWrm("/d/s/k"), vzWrm("/o/y"), vzWrm("/o"), vzWcreate("/o", true), vzWcreate("/o/y", false)}
	for _, faults := range []int{0, 1} {
		nm, depth := "ops", n+1
		if faults > 0 {
			nm, depth = "opsfail", n
		}
		faults := faults
		for i := range calls {
			if calls[i].kind != "Watch" {
				continue
			}
			i := i
			out = append(out, vzScn{name: nm + "/" + calls[i].String(), serial: true, bounds: []vzBound{{0, faults}}, kern: fx, body: func() {
				x := vzNewWin()
				for d := 0; d < depth; d++ {
					j := i
					if d > 0 {
						j = vs.Choose("op", len(calls)+len(some), false)
					}
					if j >= len(calls) {
						// what is watched and removed cannot be created again
						if f := some[j-len(calls)]; f.name != "mkdir /o" || x.reg["/o"].e == 0 {
							x.fs(f)
						}
					} else {
						o := calls[j]
						if !x.can(o) || o.kind == "Move" && x.reg[o.q].e != 0 {
							return
						}
						if faults > 0 {
							x.k.FaultOn = map[string]bool{"CreateFile": true, "CreateIoCompletionPort": true, "ReadDirectoryChanges": true}
						}
						x.call(o)
						x.k.FaultOn = map[string]bool{}
						x.check(nil)
						x.handles()
					}
					vs.CountState()
				}
				for _, f := range some[:5] {
					x.fs(f)
				}
				x.close()
			}})
		}
	}
	// calls, changes and completions at the same time
	lv := vzLv(thorough)
	W := func(p string, e Event) vzWcall { return vzWcall{"Watch", p, "", false, e} }
	R := func(p string, e Event) vzWcall { return vzWcall{"Rewatch", p, "", false, e} }
	U := func(p string) vzWcall { return vzWcall{"Unwatch", p, "", false, 0} }
	rec := func(o vzWcall) vzWcall { o.rec = true; return o }
	mv := func(p, q string, e Event) vzWcall { return vzWcall{"Move", p, q, true, e} }
	seqs := [][]vzWcall{
		{W("/d", allev)},
		{W("/d", Write), R("/d", Create)},
		{W("/d", Create), R("/d", Create|Write), R("/d", allev)},
		{W("/d", Create), U("/d"), W("/d", Write)},
		{W("/d", Create), U("/d"), W("/d", Write), R("/d", Create)},
		{W("/d", allev), U("/d")},
		{rec(W("/d", allev)), R("/d", Create), rec(R("/d", Create))},
		{rec(W("/d/s", Create)), mv("/d/s", "/d", Create|Write), U("/d")},
		{W("/d", Create), W("/d/s", Create), U("/d"), R("/d/s", Write)},
	}
	for i, seq := range seqs {
		seq := seq
		for j, fs := range [][]vzWop{{vzWcreate("/d/n", false), vzWrm("/d/n")}, {vzWcreate("/d/s/k", true), vzWmod("write", FileNotifyChangeSize, "/d/a")}} {
			fs := fs
			out = append(out, vzScn{name: fmt.Sprintf("conc/%d/%d", i, j), bounds: lv, kern: fx, body: func() {
				vs.Calm(true)
				x := vzNewWin()
				vs.Calm(false)
				x.note("at the same time: %s, %s", fs[0].name, fs[1].name)
				vs.Thread("fs", func() {
					for _, o := range fs {
						o.do(x.k)
					}
				})
				vs.Thread("user", func() {
					for _, o := range seq {
						x.call(o)
					}
				})
				vs.Quiesce()
				vs.CheckIdle()
				vs.Calm(true)
				vs.Drain(x.c)
				x.handles()
				for _, f := range some[:5] {
					x.fs(f)
				}
				x.close()
			}})
			out = append(out, vzScn{name: fmt.Sprintf("keep/%d/%d", i, j), bounds: lv, kern: fx, body: func() {
				// what stays watched with the event reports it throughout
				vs.Calm(true)
				x := vzNewWin()
				x.call(seq[0])
				vs.Quiesce()
				vs.Calm(false)
				var cs []vzWch
				vs.Thread("fs", func() {
					for _, o := range fs {
						cs = append(cs, o.do(x.k)...)
					}
				})
				vs.Thread("user", func() {
					for _, o := range seq[1:] {
						x.call(o)
					}
				})
				vs.Quiesce()
				vs.CheckIdle()
				vs.Calm(true)
				got := map[string]bool{}
				for _, ei := range vs.Drain(x.c) {
					got[fmt.Sprintf("%v %s", ei.Event(), ei.Path())] = true
				}
				for _, c := range cs {
					always := Event(^uint32(0))
					cur := map[string]vzWreg{}
					for k, o := range seq {
						if o.kind == "Unwatch" {
							delete(cur, o.p)
						} else {
							t := o.p
							if o.kind == "Move" {
								delete(cur, o.p)
								t = o.q
							}
							cur[t] = vzWreg{o.e, o.rec || o.kind == "Move"}
						}
						var now Event
						for p, r := range cur {
							if vzCovers(p, r, c.p) {
								must, _ := vzWdue(r, c)
								for _, e := range must {
									now |= e
								}
							}
						}
						_ = k
						always &= now
					}
					for _, e := range []Event{Create, Remove, Write, Rename} {
						if v := (vzWev{c.p, e, c.dir}); always&e != 0 && !got[v.String()] {
							x.fail("did not send %v, though it was requested all the time", v)
						}
					}
				}
				x.handles()
				x.close()
			}})
		}
		out = append(out, vzScn{name: fmt.Sprintf("close/%d", i), bounds: lv, kern: fx, body: func() {
			vs.Calm(true)
			x := vzNewWin()
			for _, o := range seq[:len(seq)-1] {
				x.call(o)
			}
			vs.Quiesce()
			vs.Calm(false)
			vs.Thread("fs", func() {
				vzWcreate("/d/n", false).do(x.k)
				vzWrm("/d/n").do(x.k)
			})
			x.note("Close")
			x.call(seq[len(seq)-1])
			if err := x.w.Close(); err != nil {
				x.fail("Close: %v", err)
			}
			if _, ports := x.k.WinDirs(); ports > 0 {
				x.fail("the completion port is still in use when Close returns")
			}
			vs.Quiesce()
			vs.Calm(true)
			x.reg = map[string]vzWreg{}
			x.released()
		}})
	}
	return
}
