package kern

import (
	"encoding/binary"
	"fmt"
	"sort"
	"strings"
	"syscall"
	"unicode/utf16"
	"unsafe"

	"vmc/vs"
)

// The Windows simulation: directory handles, overlapped reads of directory
// changes and completion ports. Names are separated by slashes.

// WinRec is one change, as the file system tells it to directory handles.
type WinRec struct {
	P      string
	Action uint32
	Bit    uint32 // FILE_NOTIFY_CHANGE_*
}

type winRead struct {
	buf []byte
	ov  unsafe.Pointer
}

type winNote struct {
	name   string
	action uint32
}

type winHandle struct {
	path   string
	ino    *Inode
	port   *winPort
	key    uint32
	rec    bool
	filter uint32
	set    bool
	gone   bool
	log    []winNote
	pend   *winRead
}

// WinPacket is one completion.
type WinPacket struct {
	N, Key uint32
	Ov     unsafe.Pointer
	Err    syscall.Errno
}

type winPort struct{ q []WinPacket }

type winObj struct {
	h *winHandle
	p *winPort
}

type win struct {
	o   vs.Obj
	tab map[uintptr]*winObj
}

func (k *K) w() *win {
	if k.win == nil {
		k.win = &win{tab: map[uintptr]*winObj{}}
	}
	return k.win
}

func (w *win) add(o *winObj) uintptr {
	id := uintptr(0x10)
	for w.tab[id] != nil {
		id += 4
	}
	w.tab[id] = o
	return id
}

const (
	winNotFound = syscall.Errno(2)
	winDenied   = syscall.Errno(5)
	winHandleE  = syscall.Errno(6)
	winNoMem    = syscall.Errno(8)
	winParam    = syscall.Errno(87)
	winAborted  = syscall.Errno(995)
)

// WinOpen is CreateFile of a directory.
func (k *K) WinOpen(p string) (id uintptr, err syscall.Errno) {
	id, err = ^uintptr(0), winHandleE
	call(k, "CreateFile "+p, func() {
		vs.Touch(&k.w().o, true)
		vs.Touch(&k.FS, false)
		if k.fault("CreateFile") {
			err = winNoMem
			return
		}
		_, _, i, e := k.walk(p, true, false)
		if err = winNotFound; e != 0 || i == nil {
			return
		}
		err = 0
		id = k.w().add(&winObj{h: &winHandle{path: p, ino: i}})
	})
	return
}

// WinPort is CreateIoCompletionPort.
func (k *K) WinPort(h uintptr, port uintptr, key uint32) (id uintptr, err syscall.Errno) {
	err = winHandleE
	call(k, "CreateIoCompletionPort", func() {
		w := k.w()
		vs.Touch(&w.o, true)
		vs.Release(&w.o)
		if k.fault("CreateIoCompletionPort") {
			err = winNoMem
			return
		}
		err = 0
		if h == ^uintptr(0) {
			id = w.add(&winObj{p: &winPort{}})
			return
		}
		o, p := w.tab[h], w.tab[port]
		if o == nil || o.h == nil || p == nil || p.p == nil {
			k.Closed = append(k.Closed, fmt.Sprintf("CreateIoCompletionPort with a handle that is not open (%#x, %#x)", h, port))
			err = winHandleE
			return
		}
		if o.h.port != nil {
			err = winParam
			return
		}
		o.h.port, o.h.key = p.p, key
		id = port
	})
	return
}

// WinClose is CloseHandle.
func (k *K) WinClose(h uintptr) (err syscall.Errno) {
	err = winHandleE
	call(k, fmt.Sprintf("CloseHandle %#x", h), func() {
		w := k.w()
		vs.Touch(&w.o, true)
		vs.Release(&w.o)
		o := w.tab[h]
		if o == nil {
			k.Closed = append(k.Closed, fmt.Sprintf("close of a handle that is not open (%#x)", h))
			return
		}
		err = 0
		delete(w.tab, h)
		if o.h != nil {
			o.h.finish(0, 0)
		}
	})
	return
}

// finish completes the pending read, if there is one.
func (h *winHandle) finish(n uint32, e syscall.Errno) {
	if h.pend != nil {
		if h.port != nil {
			h.port.q = append(h.port.q, WinPacket{N: n, Key: h.key, Ov: h.pend.ov, Err: e})
		}
		h.pend = nil
	}
}

func (h *winHandle) flush() {
	if h.pend == nil || len(h.log) == 0 {
		return
	}
	b := h.pend.buf
	at, last := 0, -1
	for _, r := range h.log {
		u := utf16.Encode([]rune(r.name))
		if at+12+2*len(u) > len(b) {
			at = 0 // too many: the read completes without any
			break
		}
		if last >= 0 {
			binary.LittleEndian.PutUint32(b[last:], uint32(at-last))
		}
		binary.LittleEndian.PutUint32(b[at:], 0)
		binary.LittleEndian.PutUint32(b[at+4:], r.action)
		binary.LittleEndian.PutUint32(b[at+8:], uint32(2*len(u)))
		for i, c := range u {
			binary.LittleEndian.PutUint16(b[at+12+2*i:], c)
		}
		last = at
		at += (12 + 2*len(u) + 3) &^ 3
	}
	h.log = nil
	h.finish(uint32(at), 0)
}

// WinRead is ReadDirectoryChanges.
func (k *K) WinRead(h uintptr, buf []byte, rec bool, filter uint32, ov unsafe.Pointer) (err syscall.Errno) {
	err = winHandleE
	call(k, fmt.Sprintf("ReadDirectoryChanges %#x %v %#x", h, rec, filter), func() {
		w := k.w()
		vs.Touch(&w.o, true)
		vs.Release(&w.o)
		o := w.tab[h]
		if o == nil || o.h == nil {
			k.Closed = append(k.Closed, fmt.Sprintf("ReadDirectoryChanges on a handle that is not open (%#x)", h))
			return
		}
		if k.fault("ReadDirectoryChanges") {
			err = winNoMem
			return
		}
		d := o.h
		if d.gone {
			err = winDenied
			return
		}
		if filter == 0 || d.ino.Kind != Dir {
			err = winParam
			return
		}
		if d.pend != nil {
			k.Closed = append(k.Closed, fmt.Sprintf("two reads at a time of %s into one buffer", d.path))
		}
		if !d.set {
			d.set, d.rec, d.filter = true, rec, filter
		}
		d.pend = &winRead{buf, ov}
		d.flush()
		err = 0
	})
	return
}

// WinPost is PostQueuedCompletionStatus.
func (k *K) WinPost(port uintptr, n, key uint32, ov unsafe.Pointer) (err syscall.Errno) {
	err = winHandleE
	call(k, "PostQueuedCompletionStatus", func() {
		w := k.w()
		vs.Touch(&w.o, true)
		vs.Release(&w.o)
		o := w.tab[port]
		if o == nil || o.p == nil {
			k.Closed = append(k.Closed, fmt.Sprintf("PostQueuedCompletionStatus to a port that is not open (%#x)", port))
			return
		}
		if k.fault("PostQueuedCompletionStatus") {
			err = winNoMem
			return
		}
		o.p.q = append(o.p.q, WinPacket{N: n, Key: key, Ov: ov})
		err = 0
	})
	return
}

// WinGet is GetQueuedCompletionStatus without time-out.
func (k *K) WinGet(port uintptr) (p WinPacket, err syscall.Errno) {
	err = winHandleE
	if !vs.Active() {
		return
	}
	w := k.w()
	me := w.tab[port]
	vs.Point(vs.Op{Name: "GetQueuedCompletionStatus", Kind: vs.KPoll,
		Enabled: func() bool { return me == nil || me.p == nil || w.tab[port] != me || len(me.p.q) > 0 },
		Exec: func() {
			vs.Touch(&w.o, true)
			vs.Acquire(&w.o)
			if me == nil || me.p == nil || w.tab[port] != me {
				k.Closed = append(k.Closed, fmt.Sprintf("GetQueuedCompletionStatus from a port that is not open (%#x)", port))
				return
			}
			p = me.p.q[0]
			me.p.q = me.p.q[1:]
			err = p.Err
		}})
	return
}

// WinNotify tells open directories about changes.
func (k *K) WinNotify(rs ...WinRec) {
	call(k, "notify", func() {
		w := k.w()
		vs.Touch(&w.o, true)
		for _, r := range rs {
			for _, id := range w.ids() {
				h := w.tab[id].h
				if h == nil || !h.set || h.gone || h.filter&r.Bit == 0 {
					continue
				}
				pre := strings.TrimSuffix(h.path, "/") + "/"
				if !strings.HasPrefix(r.P, pre) {
					continue
				}
				n := r.P[len(pre):]
				if n == "" || strings.Contains(n, "/") && !h.rec {
					continue
				}
				h.log = append(h.log, winNote{n, r.Action})
			}
		}
		for _, id := range w.ids() {
			if h := w.tab[id].h; h != nil {
				h.flush()
				if h.ino.dead && !h.gone {
					h.gone = true
					h.finish(0, winDenied)
				}
			}
		}
	})
}

func (w *win) ids() (out []uintptr) {
	for id := range w.tab {
		out = append(out, id)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return
}

// WinDir describes an open directory handle.
type WinDir struct {
	Path    string
	Rec     bool
	Filter  uint32
	Pending bool
	Gone    bool
}

// WinDirs lists the open directories, and the number of open ports.
func (k *K) WinDirs() (out []WinDir, ports int) {
	w := k.w()
	for _, id := range w.ids() {
		if h := w.tab[id].h; h != nil {
			out = append(out, WinDir{h.path, h.rec, h.filter, h.pend != nil, h.gone})
		} else {
			ports++
		}
	}
	return
}
