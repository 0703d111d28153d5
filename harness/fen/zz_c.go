package notify

import (
	"fmt"
	"syscall"
	"unsafe"

	"vmc/kern"
	"vmc/vs"
)

// What watcher_fen_cgo.go takes from C: types, constants and functions of
// <port.h> and <stdlib.h>, and those it defines itself. Memory is accounted
// for: using or freeing what was freed already is noticed.

type (
	vzC_int       int32
	vzC_long      int64
	vzC_time_t    int64
	vzC_uintptr_t uintptr
	vzC_ushort    uint16
	vzC_uchar     uint8

	vzC_char struct {
		s    string
		live bool
	}
	vzC_timestruct struct {
		tv_sec  vzC_time_t
		tv_nsec vzC_long
	}
	vzC_struct_file_obj struct {
		fo_atime, fo_mtime, fo_ctime vzC_timestruct
		fo_name                      *vzC_char
		id                           uintptr
		live                         bool
	}
	vzC_port_event_t struct {
		portev_events vzC_int
		portev_source vzC_ushort
		portev_pad    vzC_ushort
		portev_object vzC_uintptr_t
		portev_user   vzC_uintptr_t
		live          bool
	}
)

const (
	vzC_FILE_ACCESS      = 0x1
	vzC_FILE_MODIFIED    = 0x2
	vzC_FILE_ATTRIB      = 0x4
	vzC_FILE_DELETE      = 0x10
	vzC_FILE_RENAME_TO   = 0x20
	vzC_FILE_RENAME_FROM = 0x40
	vzC_FILE_TRUNC       = 0x100000
	vzC_FILE_NOFOLLOW    = 0x10000000
	vzC_UNMOUNTED        = 0x20000000
	vzC_MOUNTEDOVER      = 0x40000000

	vzC_PORT_SOURCE_ALERT = 5
	vzC_PORT_SOURCE_FILE  = 7
	vzC_PORT_ALERT_SET    = 1
)

// vzHeap is the C memory of one execution.
type vzHeap struct {
	all map[unsafe.Pointer]*bool // what is allocated
	fos map[uintptr]*vzC_struct_file_obj
	ids uintptr
	old []uintptr // addresses that are free, the last one is used next
	bad string
	o   vs.Obj
}

var vzHp *vzHeap
var vzHpOf *kern.K

func vzH() *vzHeap {
	if k := kern.Cur(); vzHp == nil || vzHpOf != k {
		vzHp, vzHpOf = &vzHeap{all: map[unsafe.Pointer]*bool{}, fos: map[uintptr]*vzC_struct_file_obj{}}, k
	}
	return vzHp
}

func (h *vzHeap) wrong(f string, a ...any) {
	if h.bad == "" {
		h.bad = fmt.Sprintf(f, a...)
	}
}

func vzErr(e syscall.Errno) error {
	if e == 0 {
		return nil
	}
	return e
}

func vzC_newFo() *vzC_struct_file_obj {
	h := vzH()
	fo := &vzC_struct_file_obj{live: true}
	if n := len(h.old); n > 0 {
		fo.id, h.old = h.old[n-1], h.old[:n-1]
	} else {
		h.ids += 16
		fo.id = 0x1000 + h.ids
	}
	h.all[unsafe.Pointer(fo)], h.fos[fo.id] = &fo.live, fo
	return fo
}

func vzC_newPe() *vzC_port_event_t {
	pe := &vzC_port_event_t{live: true}
	vzH().all[unsafe.Pointer(pe)] = &pe.live
	return pe
}

func vzC_CString(s string) *vzC_char {
	c := &vzC_char{s, true}
	vzH().all[unsafe.Pointer(c)] = &c.live
	return c
}

// vzC_GoString reads memory that others may free: a scheduling point.
func vzC_GoString(c *vzC_char) (s string) {
	if c == nil {
		return ""
	}
	read := func() {
		if s = c.s; !c.live {
			vzH().wrong("the name %q was read after it had been freed", c.s)
		}
	}
	if vs.Active() {
		vs.Point(vs.Op{Name: "read name", Exec: func() { vs.Touch(&vzH().o, false); read() }})
	}
	return
}

func vzC_free(p unsafe.Pointer) {
	if !vs.Active() || p == nil {
		return
	}
	h := vzH()
	vs.Touch(&h.o, true)
	l, ok := h.all[p]
	if !ok || !*l {
		h.wrong("memory was freed twice")
		return
	}
	*l = false
	for id, fo := range h.fos {
		if unsafe.Pointer(fo) == p {
			h.old = append(h.old, id)
		}
	}
}

// vzLive counts what is allocated.
func (h *vzHeap) vzLive() (n int) {
	for _, l := range h.all {
		if *l {
			n++
		}
	}
	return
}

func vzC_conv(fo *vzC_struct_file_obj) vzC_uintptr_t { return vzC_uintptr_t(fo.id) }

func vzC_dconv(p vzC_uintptr_t) *vzC_struct_file_obj {
	if p == 0 {
		return nil
	}
	fo := vzH().fos[uintptr(p)]
	if fo == nil {
		vzH().wrong("%#x is no address of a file_obj", uintptr(p))
	}
	return fo
}

func vzDeadFo(p vzC_uintptr_t) bool {
	fo := vzH().fos[uintptr(p)]
	if fo == nil || !fo.live || fo.fo_name == nil || !fo.fo_name.live {
		vzH().wrong("a system call was given a file_obj that is not there (any more)")
		return true
	}
	return false
}

func vzC2_port_create() (vzC_int, error) {
	if !vs.Active() {
		return -1, syscall.EBADF
	}
	fd, e := kern.Cur().PortCreate()
	return vzC_int(fd), vzErr(e)
}

// vzC2_associate is a function of the preamble.
func vzC2_associate(port vzC_int, fo *vzC_struct_file_obj, events vzC_int, user vzC_uintptr_t) (vzC_int, error) {
	return vzAssoc(port, vzC_PORT_SOURCE_FILE, vzC_conv(fo), events, uintptr(user))
}

func vzC2_port_associate(port vzC_int, source int, obj vzC_uintptr_t, events vzC_int, user unsafe.Pointer) (vzC_int, error) {
	return vzAssoc(port, source, obj, events, uintptr(user))
}

func vzAssoc(port vzC_int, source int, obj vzC_uintptr_t, events vzC_int, user uintptr) (vzC_int, error) {
	if !vs.Active() || vzDeadFo(obj) {
		return -1, syscall.EBADF
	}
	if source != vzC_PORT_SOURCE_FILE {
		return -1, syscall.EINVAL
	}
	fo := vzH().fos[uintptr(obj)]
	t := func(t vzC_timestruct) kern.Timespec {
		return kern.Timespec{Sec: int64(t.tv_sec), Nsec: int64(t.tv_nsec)}
	}
	e := kern.Cur().PortAssociate(int(port), uintptr(obj), fo.fo_name.s, t(fo.fo_atime), t(fo.fo_mtime), t(fo.fo_ctime), int(events), user)
	if e != 0 {
		return -1, e
	}
	return 0, nil
}

func vzC2_port_dissociate(port vzC_int, source int, obj vzC_uintptr_t) (vzC_int, error) {
	if !vs.Active() {
		return -1, syscall.EBADF
	}
	if e := kern.Cur().PortDissociate(int(port), uintptr(obj)); e != 0 {
		return -1, e
	}
	return 0, nil
}

func vzC2_port_get(port vzC_int, pe *vzC_port_event_t, timeout unsafe.Pointer) (vzC_int, error) {
	if !vs.Active() {
		return -1, syscall.EBADF
	}
	ev, e := kern.Cur().PortGet(int(port))
	if e != 0 {
		return -1, e
	}
	pe.portev_user = vzC_uintptr_t(ev.User)
	pe.portev_events, pe.portev_object, pe.portev_source = vzC_int(ev.Events), vzC_uintptr_t(ev.Obj), vzC_PORT_SOURCE_FILE
	if ev.Alert {
		pe.portev_source = vzC_PORT_SOURCE_ALERT
	}
	return 0, nil
}

func vzC2_port_alert(port vzC_int, flags int, events vzC_int, user unsafe.Pointer) (vzC_int, error) {
	if !vs.Active() {
		return -1, syscall.EBADF
	}
	if e := kern.Cur().PortAlert(int(port), int(events)); e != 0 {
		return -1, e
	}
	return 0, nil
}
