// Package syscall replaces package syscall of a BSD for the kqueue watcher.
package syscall

import (
	"syscall"

	"vmc/kern"
	"vmc/vs"
)

type Errno = syscall.Errno

const (
	E2BIG   = syscall.E2BIG
	EACCES  = syscall.EACCES
	EAGAIN  = syscall.EAGAIN
	EBADF   = syscall.EBADF
	EBUSY   = syscall.EBUSY
	EEXIST  = syscall.EEXIST
	EINTR   = syscall.EINTR
	EINVAL  = syscall.EINVAL
	EIO     = syscall.EIO
	EISDIR  = syscall.EISDIR
	ELOOP   = syscall.ELOOP
	EMFILE  = syscall.EMFILE
	ENFILE  = syscall.ENFILE
	ENOENT  = syscall.ENOENT
	ENOMEM  = syscall.ENOMEM
	ENOSYS  = syscall.ENOSYS
	ENOTDIR = syscall.ENOTDIR
	ENOTSUP = syscall.ENOTSUP
	EPERM   = syscall.EPERM

	EVFILT_READ  = -1
	EVFILT_VNODE = -4

	EV_ADD     = 0x1
	EV_DELETE  = 0x2
	EV_ENABLE  = 0x4
	EV_DISABLE = 0x8
	EV_ONESHOT = 0x10
	EV_CLEAR   = 0x20

	NOTE_DELETE = 0x1
	NOTE_WRITE  = 0x2
	NOTE_EXTEND = 0x4
	NOTE_ATTRIB = 0x8
	NOTE_LINK   = 0x10
	NOTE_RENAME = 0x20
	NOTE_REVOKE = 0x40

	O_RDONLY   = 0
	O_NONBLOCK = 0x4
	O_CLOEXEC  = 0x100000
)

type Timespec struct{ Sec, Nsec int64 }

type Kevent_t struct {
	Ident  uint64
	Filter int16
	Flags  uint16
	Fflags uint32
	Data   int64
	Udata  *byte
}

func SetKevent(k *Kevent_t, fd, mode, flags int) {
	k.Ident = uint64(fd)
	k.Filter = int16(mode)
	k.Flags = uint16(flags)
}

func k() *kern.K {
	if !vs.Active() {
		return nil
	}
	return kern.Cur()
}

func e2(e syscall.Errno) error {
	if e == 0 {
		return nil
	}
	return e
}

func Kqueue() (int, error) {
	if k() == nil {
		return -1, EBADF
	}
	fd, e := k().Kqueue()
	return fd, e2(e)
}

func Kevent(kq int, changes, events []Kevent_t, timeout *Timespec) (int, error) {
	if k() == nil {
		return -1, EBADF
	}
	for _, c := range changes {
		x := kern.Change{Fd: int(c.Ident), Filter: "vnode", Add: c.Flags&EV_ADD != 0, Delete: c.Flags&EV_DELETE != 0, Clear: c.Flags&EV_CLEAR != 0, Fflags: c.Fflags}
		if c.Filter == EVFILT_READ {
			x.Filter = "read"
		}
		if e := k().KqChange(kq, x); e != 0 {
			return -1, e
		}
	}
	if len(events) == 0 {
		return 0, nil
	}
	n := 0
	for n < len(events) {
		ev, ok, e := k().KqWait(kq, n == 0 && timeout == nil)
		if e != 0 {
			return -1, e
		}
		if !ok {
			break
		}
		f := int16(EVFILT_VNODE)
		if ev.Filter == "read" {
			f = EVFILT_READ
		}
		events[n] = Kevent_t{Ident: uint64(ev.Fd), Filter: f, Flags: EV_CLEAR, Fflags: ev.Fflags}
		n++
	}
	return n, nil
}

func Open(p string, mode int, perm uint32) (int, error) {
	if k() == nil {
		return -1, EBADF
	}
	fd, e := k().OpenVnode(p)
	return fd, e2(e)
}

// Stat_t is the part of struct stat in use.
type Stat_t = kern.StatT

func Fstat(fd int, st *Stat_t) error {
	if k() == nil {
		return EBADF
	}
	s, e := k().FstatVnode(fd)
	*st = s
	return e2(e)
}

func Stat(p string, st *Stat_t) error  { return stat(p, st, true) }
func Lstat(p string, st *Stat_t) error { return stat(p, st, false) }

func stat(p string, st *Stat_t, follow bool) error {
	if k() == nil {
		return ENOENT
	}
	fi, e := k().Stat(p, follow)
	if e != 0 {
		return e
	}
	*st = *fi.Sys().(*Stat_t)
	return nil
}

func Close(fd int) error {
	if k() == nil {
		return nil
	}
	return e2(k().Close(fd))
}

func Pipe(p []int) error { return Pipe2(p, 0) }

func Pipe2(p []int, flags int) error {
	if len(p) != 2 {
		return EINVAL
	}
	if k() == nil {
		return EBADF
	}
	r, w, e := k().Pipe(flags&O_NONBLOCK != 0)
	if e != 0 {
		return e
	}
	p[0], p[1] = r, w
	return nil
}

func Write(fd int, p []byte) (int, error) {
	if k() == nil {
		return -1, EBADF
	}
	n, e := k().WriteFD(fd, p)
	return n, e2(e)
}

func Read(fd int, p []byte) (int, error) {
	if k() == nil {
		return -1, EBADF
	}
	n, e := k().ReadFD(fd, p)
	return n, e2(e)
}
