package kern

import (
	"fmt"
	"sort"
	"syscall"

	"vmc/vs"
)

// The kqueue simulation: vnode and pipe filters as on FreeBSD. Vnode notes are
// raised by the same operations, in the same order, as VOP_*_post hooks do.

const (
	NoteDelete = 1 << iota
	NoteWrite
	NoteExtend
	NoteAttrib
	NoteLink
	NoteRename
	NoteRevoke
)

// Knote is one registration with a kqueue.
type Knote struct {
	fd     int
	f      *file
	want   uint32
	note   uint32
	clear  bool
	active bool
	gone   bool
}

type kqueue struct {
	o     vs.Obj
	notes []*Knote
	act   []*Knote // pending, first one first
	dead  bool
}

func (q *kqueue) wake(n *Knote) {
	if !n.active {
		n.active = true
		q.act = append(q.act, n)
	}
}

func (q *kqueue) drop(n *Knote) {
	n.gone = true
	for i, x := range q.notes {
		if x == n {
			q.notes = append(q.notes[:i:i], q.notes[i+1:]...)
			break
		}
	}
	for i, x := range q.act {
		if x == n {
			q.act = append(q.act[:i:i], q.act[i+1:]...)
			break
		}
	}
}

func (k *K) kqueues() (out []*kqueue) {
	var ns []int
	for n, f := range k.fds {
		if f.kq != nil {
			ns = append(ns, n)
		}
	}
	sort.Ints(ns)
	for _, n := range ns {
		out = append(out, k.fds[n].kq)
	}
	return
}

// kqVnode raises vnode notes.
func (k *K) kqVnode(i *Inode, what int) {
	var note uint32
	for _, x := range [][2]int{{VnWrite, NoteWrite}, {VnExtend, NoteExtend}, {VnDelete, NoteDelete}, {VnRename, NoteRename}, {VnAttrib, NoteAttrib}, {VnLink, NoteLink}} {
		if what&x[0] != 0 {
			note |= uint32(x[1])
		}
	}
	for _, q := range k.kqueues() {
		for _, n := range q.notes {
			if n.f.ino == i && n.want&note != 0 {
				vs.Touch(&q.o, true)
				n.note |= n.want & note
				q.wake(n)
			}
		}
	}
}

func (k *K) kqClosed(f *file) {
	for _, q := range k.kqueues() {
		for _, n := range append([]*Knote(nil), q.notes...) {
			if n.f == f {
				vs.Touch(&q.o, true)
				q.drop(n)
			}
		}
	}
}

// Kqueue is kqueue(2).
func (k *K) Kqueue() (fd int, err syscall.Errno) {
	fd, err = -1, syscall.EMFILE
	call(k, "kqueue", func() {
		vs.Touch(&k.fdo, true)
		if k.fault("kqueue") {
			return
		}
		err = 0
		k.HasKq = true
		fd = k.newFD(&file{kind: "kqueue", kq: &kqueue{}})
	})
	return
}

// OpenFD is open(2) of anything, for reading.
func (k *K) OpenVnode(p string) (fd int, err syscall.Errno) {
	fd, err = -1, syscall.EMFILE
	call(k, "open "+p, func() {
		vs.Touch(&k.FS, false)
		if k.fault("open") {
			return
		}
		_, _, i, e := k.walk(p, true, false)
		if err = e; e != 0 {
			return
		}
		vs.Touch(&k.fdo, true)
		i.open++
		fd = k.newFD(&file{kind: "vnode", name: p, ino: i})
	})
	return
}

// FstatVnode is fstat(2).
func (k *K) FstatVnode(fd int) (st StatT, err syscall.Errno) {
	err = syscall.EBADF
	call(k, fmt.Sprintf("fstat %d", fd), func() {
		vs.Touch(&k.fdo, false)
		vs.Touch(&k.FS, false)
		f := k.fds[fd]
		if f == nil {
			k.Closed = append(k.Closed, fmt.Sprintf("fstat of a descriptor that is not open (%d)", fd))
			return
		}
		if f.ino == nil {
			return
		}
		if k.fault("fstat") {
			err = syscall.EIO
			return
		}
		st, err = mkFI("", f.ino).st, 0
	})
	return
}

// Change is one change of a kqueue; filters are "vnode" or "read".
type Change struct {
	Fd     int
	Filter string
	Add    bool
	Delete bool
	Clear  bool
	Fflags uint32
}

// KqChange applies one change.
func (k *K) KqChange(kq int, c Change) (err syscall.Errno) {
	err = syscall.EBADF
	call(k, fmt.Sprintf("kevent %d %+v", kq, c), func() {
		vs.Touch(&k.fdo, false)
		f := k.fds[kq]
		if f == nil || f.kq == nil {
			return
		}
		q := f.kq
		vs.Touch(&q.o, true)
		vs.Release(&q.o)
		t := k.fds[c.Fd]
		if t == nil {
			k.Closed = append(k.Closed, fmt.Sprintf("kevent on a descriptor that is not open (%d)", c.Fd))
			return
		}
		var n *Knote
		for _, x := range q.notes {
			if x.f == t && x.fd == c.Fd {
				n = x
			}
		}
		switch {
		case c.Delete:
			if n == nil {
				err = syscall.ENOENT
				return
			}
			q.drop(n)
		case c.Add:
			if k.fault("kevent") {
				err = syscall.ENOMEM
				return
			}
			if (c.Filter == "vnode") != (t.ino != nil) {
				err = syscall.EINVAL
				return
			}
			if n == nil {
				n = &Knote{fd: c.Fd, f: t}
				q.notes = append(q.notes, n)
				n.clear = c.Clear
			}
			n.want = c.Fflags
		}
		err = 0
	})
	return
}

// KqEvent is one event returned by kevent.
type KqEvent struct {
	Fd     int
	Filter string
	Fflags uint32
}

// KqWait waits for one event.
func (k *K) KqWait(kq int, wait bool) (ev KqEvent, ok bool, err syscall.Errno) {
	if !vs.Active() {
		return ev, false, syscall.EBADF
	}
	me := k.fds[kq]
	ready := func() bool {
		q := me.kq
		if len(q.act) > 0 {
			return true
		}
		for _, n := range q.notes {
			if n.f.pipe != nil && k.readable(n.f) != 0 {
				return true
			}
		}
		return false
	}
	vs.Point(vs.Op{Name: "kevent", Kind: vs.KPoll,
		Enabled: func() bool {
			if me == nil || me.kq == nil {
				return true
			}
			if k.fds[kq] != me {
				return true // EBADF
			}
			return ready() || !wait
		},
		Exec: func() {
			vs.Touch(&k.fdo, false)
			if me == nil || me.kq == nil || k.fds[kq] != me {
				err = syscall.EBADF
				return
			}
			q := me.kq
			vs.Touch(&q.o, true)
			vs.Acquire(&q.o)
			if k.FaultOn["eintr"] && k.fault("eintr") {
				err = syscall.EINTR
				return
			}
			var pipes []*Knote
			for _, n := range q.notes {
				if n.f.pipe != nil {
					vs.Touch(&n.f.pipe.o, false)
					vs.Acquire(&n.f.pipe.o)
					if k.readable(n.f) != 0 {
						pipes = append(pipes, n)
					}
				}
			}
			c := 0
			if len(pipes) > 0 && len(q.act) > 0 {
				c = vs.Choose("kevent order", 2, false)
			}
			if len(q.act) > 0 && c == 0 {
				n := q.act[0]
				q.act = q.act[1:]
				n.active = false
				ev, ok = KqEvent{n.fd, "vnode", n.note}, true
				if n.clear {
					n.note = 0
				}
				return
			}
			if len(pipes) > 0 {
				ev, ok = KqEvent{pipes[0].fd, "read", 0}, true
			}
		}})
	return
}

// Vnodes lists the descriptors of files the library has open, with the notes
// asked for, as "path-as-opened inode notes".
type VnodeFD struct {
	Fd    int
	Name  string
	Ino   *Inode
	Notes uint32
	Noted bool
}

func (k *K) Vnodes() (out []VnodeFD) {
	for n, f := range k.fds {
		if f.ino == nil {
			continue
		}
		v := VnodeFD{Fd: n, Name: f.name, Ino: f.ino}
		for _, q := range k.kqueues() {
			for _, x := range q.notes {
				if x.f == f {
					v.Noted, v.Notes = true, x.want
				}
			}
		}
		out = append(out, v)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Fd < out[j].Fd })
	return
}

// KqPending tells whether a kqueue has undelivered events.
func (k *K) KqPending() bool {
	for _, q := range k.kqueues() {
		if len(q.act) > 0 {
			return true
		}
	}
	return false
}
