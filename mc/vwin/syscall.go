// Package syscall replaces package syscall of Windows.
package syscall

import (
	"strings"
	"syscall"
	"unicode/utf16"
	"unsafe"

	"vmc/kern"
	"vmc/vs"
)

type (
	Errno  = syscall.Errno
	Handle uintptr
)

type Overlapped struct {
	Internal     uintptr
	InternalHigh uintptr
	Offset       uint32
	OffsetHigh   uint32
	HEvent       Handle
}

type SecurityAttributes struct{}

type FileNotifyInformation struct {
	NextEntryOffset uint32
	Action          uint32
	FileNameLength  uint32
	FileName        uint16
}

const (
	InvalidHandle = ^Handle(0)
	INFINITE      = 0xffffffff
	MAX_LONG_PATH = 0x8000
	MAX_PATH      = 260

	FILE_LIST_DIRECTORY        = 1
	FILE_SHARE_READ            = 1
	FILE_SHARE_WRITE           = 2
	FILE_SHARE_DELETE          = 4
	OPEN_EXISTING              = 3
	FILE_FLAG_BACKUP_SEMANTICS = 0x02000000
	FILE_FLAG_OVERLAPPED       = 0x40000000

	FILE_NOTIFY_CHANGE_FILE_NAME   = 1
	FILE_NOTIFY_CHANGE_DIR_NAME    = 2
	FILE_NOTIFY_CHANGE_ATTRIBUTES  = 4
	FILE_NOTIFY_CHANGE_SIZE        = 8
	FILE_NOTIFY_CHANGE_LAST_WRITE  = 0x10
	FILE_NOTIFY_CHANGE_LAST_ACCESS = 0x20
	FILE_NOTIFY_CHANGE_CREATION    = 0x40

	FILE_ACTION_ADDED            = 1
	FILE_ACTION_REMOVED          = 2
	FILE_ACTION_MODIFIED         = 3
	FILE_ACTION_RENAMED_OLD_NAME = 4
	FILE_ACTION_RENAMED_NEW_NAME = 5

	FILE_ATTRIBUTE_DIRECTORY = 0x10
	INVALID_FILE_ATTRIBUTES  = 0xffffffff

	ENOENT  = ERROR_FILE_NOT_FOUND
	ENOTDIR = syscall.ENOTDIR
	EINVAL  = syscall.EINVAL
	EACCES  = syscall.EACCES
	EEXIST  = syscall.EEXIST
	ENOSYS  = syscall.ENOSYS

	ERROR_FILE_NOT_FOUND      = Errno(2)
	ERROR_PATH_NOT_FOUND      = Errno(3)
	ERROR_ACCESS_DENIED       = Errno(5)
	ERROR_INVALID_HANDLE      = Errno(6)
	ERROR_NOT_ENOUGH_MEMORY   = Errno(8)
	ERROR_OPERATION_ABORTED   = Errno(995)
	ERROR_IO_PENDING          = Errno(997)
	ERROR_MORE_DATA           = Errno(234)
	ERROR_NETNAME_DELETED     = Errno(64)
	ERROR_HANDLE_EOF          = Errno(38)
	ERROR_INSUFFICIENT_BUFFER = Errno(122)
)

func k() *kern.K {
	if !vs.Active() {
		return nil
	}
	return kern.Cur()
}

func er(e Errno) error {
	if e == 0 {
		return nil
	}
	return e
}

func UTF16FromString(s string) ([]uint16, error) {
	if strings.IndexByte(s, 0) >= 0 {
		return nil, Errno(syscall.EINVAL)
	}
	return utf16.Encode([]rune(s + "\x00")), nil
}

func UTF16PtrFromString(s string) (*uint16, error) {
	a, err := UTF16FromString(s)
	if err != nil {
		return nil, err
	}
	return &a[0], nil
}

func UTF16ToString(s []uint16) string {
	for i, v := range s {
		if v == 0 {
			s = s[:i]
			break
		}
	}
	return string(utf16.Decode(s))
}

func str(p *uint16) string {
	var a []uint16
	for i := uintptr(0); ; i++ {
		c := *(*uint16)(unsafe.Pointer(uintptr(unsafe.Pointer(p)) + 2*i))
		if c == 0 {
			return string(utf16.Decode(a))
		}
		a = append(a, c)
	}
}

func CreateFile(name *uint16, access uint32, mode uint32, sa *SecurityAttributes, createmode uint32, attrs uint32, templatefile int32) (Handle, error) {
	k := k()
	if k == nil {
		return InvalidHandle, ERROR_INVALID_HANDLE
	}
	h, e := k.WinOpen(str(name))
	return Handle(h), er(e)
}

func CreateIoCompletionPort(filehandle Handle, cphandle Handle, key uint32, threadcnt uint32) (Handle, error) {
	k := k()
	if k == nil {
		return 0, ERROR_INVALID_HANDLE
	}
	h, e := k.WinPort(uintptr(filehandle), uintptr(cphandle), key)
	return Handle(h), er(e)
}

func CloseHandle(h Handle) error {
	k := k()
	if k == nil {
		return ERROR_INVALID_HANDLE
	}
	return er(k.WinClose(uintptr(h)))
}

func ReadDirectoryChanges(handle Handle, buf *byte, buflen uint32, watchSubTree bool, mask uint32, retlen *uint32, overlapped *Overlapped, completionRoutine uintptr) error {
	k := k()
	if k == nil {
		return ERROR_INVALID_HANDLE
	}
	return er(k.WinRead(uintptr(handle), unsafe.Slice(buf, int(buflen)), watchSubTree, mask, unsafe.Pointer(overlapped)))
}

func PostQueuedCompletionStatus(cphandle Handle, qty uint32, key uint32, overlapped *Overlapped) error {
	k := k()
	if k == nil {
		return ERROR_INVALID_HANDLE
	}
	return er(k.WinPost(uintptr(cphandle), qty, key, unsafe.Pointer(overlapped)))
}

func GetQueuedCompletionStatus(cphandle Handle, qty *uint32, key *uint32, overlapped **Overlapped, timeout uint32) error {
	k := k()
	if k == nil {
		*overlapped = nil
		return ERROR_INVALID_HANDLE
	}
	p, e := k.WinGet(uintptr(cphandle))
	*qty, *key, *overlapped = p.N, p.Key, (*Overlapped)(p.Ov)
	return er(e)
}

func GetFileAttributes(name *uint16) (uint32, error) {
	k := k()
	if k == nil {
		return INVALID_FILE_ATTRIBUTES, ERROR_INVALID_HANDLE
	}
	fi, e := k.Stat(str(name), true)
	if e != 0 {
		return INVALID_FILE_ATTRIBUTES, ERROR_FILE_NOT_FOUND
	}
	if fi.IsDir() {
		return FILE_ATTRIBUTE_DIRECTORY, nil
	}
	return 0x20, nil
}
