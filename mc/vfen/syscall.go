// Package syscall replaces package syscall of illumos for the FEN watcher.
package syscall

import (
	"syscall"

	"vmc/kern"
	"vmc/vs"
)

type Errno = syscall.Errno

const (
	EACCES  = syscall.EACCES
	EAGAIN  = syscall.EAGAIN
	EBADF   = syscall.EBADF
	EBADFD  = syscall.EBADFD
	EEXIST  = syscall.EEXIST
	EINTR   = syscall.EINTR
	EINVAL  = syscall.EINVAL
	EIO     = syscall.EIO
	ELOOP   = syscall.ELOOP
	EMFILE  = syscall.EMFILE
	ENOENT  = syscall.ENOENT
	ENOMEM  = syscall.ENOMEM
	ENOTDIR = syscall.ENOTDIR
	ENOTSUP = syscall.ENOTSUP
	EPERM   = syscall.EPERM
)

type Timespec = kern.Timespec
type Stat_t = kern.StatT

func Close(fd int) error {
	if !vs.Active() {
		return nil
	}
	if e := kern.Cur().Close(fd); e != 0 {
		return e
	}
	return nil
}
