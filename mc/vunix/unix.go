// Package unix replaces the system calls of golang.org/x/sys/unix (and of
// package syscall) that the inotify watcher makes.
package unix

import (
	"syscall"

	"golang.org/x/sys/unix"

	"vmc/kern"
	"vmc/vs"
)

func k() *kern.K {
	if !vs.Active() {
		return nil
	}
	return kern.Cur()
}

func e2(e syscall.Errno) error {
	if e == 0 {
		return nil
	}
	return e
}

func InotifyInit1(flags int) (int, error) {
	if k() == nil {
		return -1, unix.EBADF
	}
	fd, e := k().InotifyInit(flags)
	if e != 0 {
		return -1, e
	}
	return fd, nil
}

func InotifyInit() (int, error) { return InotifyInit1(0) }

func InotifyAddWatch(fd int, p string, mask uint32) (int, error) {
	if k() == nil {
		return -1, unix.EBADF
	}
	wd, e := k().AddWatch(fd, p, mask)
	if e != 0 {
		return -1, e
	}
	return wd, nil
}

func InotifyRmWatch(fd int, wd uint32) (int, error) {
	if k() == nil {
		return -1, unix.EBADF
	}
	if e := k().RmWatch(fd, int32(wd)); e != 0 {
		return -1, e
	}
	return 0, nil
}

func EpollCreate1(flag int) (int, error) {
	if k() == nil {
		return -1, unix.EBADF
	}
	fd, e := k().EpollCreate()
	if e != 0 {
		return -1, e
	}
	return fd, nil
}

func EpollCreate(size int) (int, error) { return EpollCreate1(0) }

func EpollCtl(epfd, op, fd int, ev *unix.EpollEvent) error {
	if k() == nil {
		return unix.EBADF
	}
	var x unix.EpollEvent
	if ev != nil {
		x = *ev
	}
	return e2(k().EpollCtl(epfd, op, fd, x.Events, x.Fd, x.Pad))
}

func EpollWait(epfd int, events []unix.EpollEvent, msec int) (int, error) {
	if k() == nil {
		return -1, unix.EBADF
	}
	out, e := k().EpollWait(epfd, len(events), msec)
	if e != 0 {
		return -1, e
	}
	for i, o := range out {
		events[i] = unix.EpollEvent{Events: o.Events, Fd: o.Fd, Pad: o.Pad}
	}
	return len(out), nil
}

// Poll is poll(2) over the same descriptors.
func Poll(fds []unix.PollFd, timeout int) (int, error) {
	if k() == nil {
		return -1, unix.EBADF
	}
	in := make([]int, len(fds))
	for i := range fds {
		in[i] = int(fds[i].Fd)
	}
	n := 0
	for i, r := range k().PollFDs(in, timeout) {
		fds[i].Revents = int16(r)
		if r != 0 {
			n++
		}
	}
	return n, nil
}

func Pipe(p []int) error { return Pipe2(p, 0) }

func Pipe2(p []int, flags int) error {
	if len(p) != 2 {
		return unix.EINVAL
	}
	if k() == nil {
		return unix.EBADF
	}
	r, w, e := k().Pipe(flags&unix.O_NONBLOCK != 0)
	if e != 0 {
		// The pinned version of the package stores the zero values.
		p[0], p[1] = 0, 0
		return e
	}
	p[0], p[1] = r, w
	return nil
}

func Close(fd int) error {
	if k() == nil {
		return nil
	}
	return e2(k().Close(fd))
}

func Read(fd int, p []byte) (int, error) {
	if k() == nil {
		return -1, unix.EBADF
	}
	n, e := k().ReadFD(fd, p)
	if e != 0 {
		return -1, e
	}
	return n, nil
}

func Write(fd int, p []byte) (int, error) {
	if k() == nil {
		return -1, unix.EBADF
	}
	n, e := k().WriteFD(fd, p)
	if e != 0 {
		return -1, e
	}
	return n, nil
}

func SetNonblock(fd int, nonblocking bool) error {
	if k() == nil {
		return unix.EBADF
	}
	return e2(k().SetNonblock(fd, nonblocking))
}
