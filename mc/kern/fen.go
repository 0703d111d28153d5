package kern

import (
	"fmt"
	"sort"
	"syscall"

	"vmc/vs"
)

// The event port simulation: PORT_SOURCE_FILE as on illumos. An association is
// known by the address of its file_obj and ends when it has caused an event;
// what happens until that event is collected is added to it. Associating again
// discards an event not collected yet, and causes one at once if the times
// given are not those of the file.

const (
	FenAccess     = 0x1
	FenModified   = 0x2
	FenAttrib     = 0x4
	FenDelete     = 0x10
	FenRenameTo   = 0x20
	FenRenameFrom = 0x40
	FenTrunc      = 0x100000
	FenNoFollow   = 0x10000000
	fenException  = FenDelete | FenRenameTo | FenRenameFrom
)

type fenNote struct {
	i    *Inode
	what int
}

type fenAssoc struct {
	obj    uintptr
	user   uintptr
	name   string
	ino    *Inode
	events int
	active bool
	queued bool
	got    int
}

type fenPort struct {
	o     vs.Obj
	all   []*fenAssoc
	queue []*fenAssoc
	alert bool
	aev   int
}

func (q *fenPort) unqueue(a *fenAssoc) {
	for i, x := range q.queue {
		if x == a {
			q.queue = append(q.queue[:i:i], q.queue[i+1:]...)
			break
		}
	}
	a.queued, a.got = false, 0
}

func (q *fenPort) remove(a *fenAssoc) {
	for i, x := range q.all {
		if x == a {
			q.all = append(q.all[:i:i], q.all[i+1:]...)
			break
		}
	}
}

func (q *fenPort) send(a *fenAssoc, ev int) {
	vs.Touch(&q.o, true)
	a.got |= ev
	a.active = false
	if !a.queued {
		a.queued = true
		q.queue = append(q.queue, a)
	}
}

func (k *K) fenPorts() (out []*fenPort) {
	var ns []int
	for n, f := range k.fds {
		if f.fen != nil {
			ns = append(ns, n)
		}
	}
	sort.Ints(ns)
	for _, n := range ns {
		out = append(out, k.fds[n].fen)
	}
	return
}

// fenFlush raises the events of one operation: what happened to files comes
// before the changes of directories.
func (k *K) fenFlush() {
	l := k.fenQ
	k.fenQ = nil
	for _, exc := range []bool{true, false} {
		for _, n := range l {
			if exc != (n.what&(VnDelete|VnRename) != 0) {
				continue
			}
			ev := 0
			switch {
			case n.what&VnReplaced != 0:
				ev = FenRenameTo
			case n.what&VnDelete != 0:
				ev = FenDelete
			case n.what&VnRename != 0:
				ev = FenRenameFrom
			case n.what&VnAccess != 0:
				ev = FenAccess
			case n.what&VnWrite != 0 && n.i.Kind == Dir:
				ev = FenModified | FenAttrib
			case n.what&VnWrite != 0:
				ev = FenModified
			default:
				ev = FenAttrib
			}
			for _, q := range k.fenPorts() {
				for _, a := range q.all {
					if a.ino == n.i && (a.active || a.queued) && ev&(a.events|fenException) != 0 {
						q.send(a, ev&(a.events|fenException))
					}
				}
			}
		}
	}
}

// PortCreate is port_create(3C).
func (k *K) PortCreate() (fd int, err syscall.Errno) {
	fd, err = -1, syscall.EMFILE
	call(k, "port_create", func() {
		vs.Touch(&k.fdo, true)
		if k.fault("port_create") {
			return
		}
		err = 0
		k.HasFen = true
		fd = k.newFD(&file{kind: "port", fen: &fenPort{}})
	})
	return
}

func (k *K) port(fd int) *fenPort {
	vs.Touch(&k.fdo, false)
	if f := k.fds[fd]; f != nil && f.fen != nil {
		vs.Touch(&f.fen.o, true)
		vs.Release(&f.fen.o)
		return f.fen
	}
	k.Closed = append(k.Closed, fmt.Sprintf("use of a port that is not open (%d)", fd))
	return nil
}

// PortAssociate is port_associate(3C) of a file.
func (k *K) PortAssociate(fd int, obj uintptr, name string, at, mt, ct Timespec, events int, user uintptr) (err syscall.Errno) {
	err = syscall.EBADFD
	call(k, fmt.Sprintf("port_associate %s %#x", name, events), func() {
		q := k.port(fd)
		if q == nil {
			return
		}
		vs.Touch(&k.FS, false)
		if k.fault("port_associate") {
			err = syscall.EAGAIN
			return
		}
		_, _, i, e := k.walk(name, events&FenNoFollow == 0, false)
		if err = e; e != 0 {
			return
		}
		var a *fenAssoc
		for _, x := range q.all {
			if x.obj == obj {
				a = x
			}
		}
		if a == nil {
			a = &fenAssoc{obj: obj}
			q.all = append(q.all, a)
		}
		if a.queued {
			q.unqueue(a)
		}
		a.name, a.ino, a.events, a.user, a.active = name, i, events, user, true
		fi := mkFI(name, i)
		var zero Timespec
		ev := 0
		for _, t := range []struct {
			given, is Timespec
			ev        int
		}{{at, fi.st.Atim, FenAccess}, {mt, fi.st.Mtim, FenModified}, {ct, fi.st.Ctim, FenAttrib}} {
			if t.given != zero && t.given != t.is {
				ev |= t.ev
			}
		}
		if ev &= events; ev != 0 {
			q.send(a, ev)
		}
	})
	return
}

// PortDissociate is port_dissociate(3C) of a file.
func (k *K) PortDissociate(fd int, obj uintptr) (err syscall.Errno) {
	err = syscall.EBADFD
	call(k, fmt.Sprintf("port_dissociate %#x", obj), func() {
		q := k.port(fd)
		if q == nil {
			return
		}
		err = syscall.ENOENT
		for _, a := range q.all {
			if a.obj == obj {
				if a.active || a.queued {
					err = 0
				}
				if a.queued {
					q.unqueue(a)
				}
				q.remove(a)
				return
			}
		}
	})
	return
}

// PortAlert is port_alert(3C) with PORT_ALERT_SET.
func (k *K) PortAlert(fd, events int) (err syscall.Errno) {
	err = syscall.EBADFD
	call(k, "port_alert", func() {
		if q := k.port(fd); q != nil {
			q.alert, q.aev, err = true, events, 0
		}
	})
	return
}

// PortEv is an event of a port.
type PortEv struct {
	Events int
	Alert  bool
	Obj    uintptr
	User   uintptr
}

// PortGet is port_get(3C).
func (k *K) PortGet(fd int) (ev PortEv, err syscall.Errno) {
	if !vs.Active() {
		return ev, syscall.EBADF
	}
	me := k.fds[fd]
	vs.Point(vs.Op{Name: "port_get", Kind: vs.KPoll,
		Enabled: func() bool {
			return me == nil || me.fen == nil || k.fds[fd] != me || me.fen.alert || len(me.fen.queue) > 0
		},
		Exec: func() {
			vs.Touch(&k.fdo, false)
			if me == nil || me.fen == nil || k.fds[fd] != me {
				err = syscall.EBADF
				return
			}
			q := me.fen
			vs.Touch(&q.o, true)
			vs.Acquire(&q.o)
			if k.FaultOn["eintr"] && k.fault("eintr") {
				err = syscall.EINTR
				return
			}
			if q.alert {
				ev = PortEv{Events: q.aev, Alert: true}
				return
			}
			a := q.queue[0]
			ev = PortEv{Events: a.got, Obj: a.obj, User: a.user}
			exc := a.got&fenException != 0
			q.unqueue(a)
			if exc {
				q.remove(a)
			}
		}})
	return
}

// FenWatch is an association that is active.
type FenWatch struct {
	Name   string
	Ino    *Inode
	Events int
}

// FenWatches lists the active associations, or those with an event pending.
func (k *K) FenWatches() (out []FenWatch) {
	for _, q := range k.fenPorts() {
		for _, a := range q.all {
			if a.active || a.queued {
				out = append(out, FenWatch{a.name, a.ino, a.events})
			}
		}
	}
	return
}
