package kern

import (
	"encoding/binary"
	"fmt"
	"sort"
	"strings"
	"syscall"

	"vmc/vs"
)

const (
	inAccess       = 0x1
	inModify       = 0x2
	inAttrib       = 0x4
	inCloseWrite   = 0x8
	inCloseNowrite = 0x10
	inOpen         = 0x20
	inMovedFrom    = 0x40
	inMovedTo      = 0x80
	inCreate       = 0x100
	inDelete       = 0x200
	inDeleteSelf   = 0x400
	inMoveSelf     = 0x800
	inUnmount      = 0x2000
	inOverflow     = 0x4000
	inIgnored      = 0x8000
	inOnlydir      = 0x1000000
	inDontFollow   = 0x2000000
	inExclUnlink   = 0x4000000
	inMaskCreate   = 0x10000000
	inMaskAdd      = 0x20000000
	inIsdir        = 0x40000000
	inOneshot      = 0x80000000
	inAll          = 0xfff
)

// Mark is an inotify watch.
type Mark struct {
	Inst *Inst
	Wd   int32
	Mask uint32
	Ino  *Inode
	one  bool
	Path string // as given to inotify_add_watch
}

// RawEvent is one record of an inotify queue.
type RawEvent struct {
	Wd     int32
	Mask   uint32
	Cookie uint32
	Name   string
}

// Rec is a queued record with the inode whose watch produced it.
type Rec struct {
	RawEvent
	Ino  *Inode
	Path string // of the watched inode, at the time
}

// Inst is an inotify instance.
type Inst struct {
	Q       vs.Obj // queue
	T       vs.Obj // watch table
	queue   []RawEvent
	over    bool
	marks   map[int32]*Mark
	next    int32
	closed  bool
	nonb    bool
	Dropped int
}

type file struct {
	kind string // inotify, epoll, piper, pipew, dir
	name string
	inst *Inst
	ep   *epoll
	pipe *pipe
	kq   *kqueue
	fen  *fenPort
	ino  *Inode // open file (kqueue)
}

type pipe struct {
	o    vs.Obj
	n    int
	wcl  bool
	rcl  bool
	nonb bool
}

type epoll struct {
	o   vs.Obj
	reg []epreg
}

type epreg struct {
	fd   int
	f    *file
	ev   uint32
	data int32
	pad  int32
}

func (k *K) newFD(f *file) int {
	n := 3
	for k.fds[n] != nil {
		n++
	}
	k.fds[n] = f
	return n
}

// OpenFDs lists descriptors the library has open.
func (k *K) OpenFDs() (out []string) {
	for n, f := range k.fds {
		out = append(out, fmt.Sprintf("%d:%s", n, f.kind))
	}
	sort.Strings(out)
	return
}

// isdirBits adds IN_ISDIR where the kernel reports it.
func withDir(i *Inode, mask uint32) uint32 {
	if i != nil && i.Kind == Dir {
		return mask | inIsdir
	}
	return mask
}

// notify reports an event about entry n of d, which is inode i; self also
// reports it to watches of i itself.
func (k *K) notify(d *Inode, n string, i *Inode, self bool, mask uint32, cookie uint32) {
	if d != nil && n != "." {
		for _, m := range d.marks {
			if m.Mask&mask != 0 {
				m.Inst.add(k, RawEvent{m.Wd, withDir(i, mask), cookie, n}, m)
				k.oneshot(m)
			}
		}
	}
	if self {
		for _, m := range append([]*Mark(nil), i.marks...) {
			if m.Mask&mask != 0 {
				m.Inst.add(k, RawEvent{m.Wd, withDir(i, mask), cookie, ""}, m)
				k.oneshot(m)
			}
		}
	}
}

func (k *K) notifySelf(i *Inode, mask uint32) {
	for _, m := range append([]*Mark(nil), i.marks...) {
		if m.Mask&mask != 0 {
			ev := mask
			if mask == inAttrib {
				ev = withDir(i, mask)
			}
			m.Inst.add(k, RawEvent{m.Wd, ev, 0, ""}, m)
			k.oneshot(m)
		}
	}
}

func (k *K) oneshot(m *Mark) {
	if m.one {
		k.rmMark(m)
	}
}

func (k *K) dropMarks(i *Inode) {
	for _, m := range append([]*Mark(nil), i.marks...) {
		k.rmMark(m)
	}
}

func (k *K) rmMark(m *Mark) {
	vs.Touch(&m.Inst.T, true)
	for n, x := range m.Ino.marks {
		if x == m {
			m.Ino.marks = append(m.Ino.marks[:n:n], m.Ino.marks[n+1:]...)
			break
		}
	}
	delete(m.Inst.marks, m.Wd)
	m.Inst.add(k, RawEvent{m.Wd, inIgnored, 0, ""}, m)
}

func (in *Inst) add(k *K, e RawEvent, m *Mark) {
	vs.Touch(&in.Q, true)
	if n := len(in.queue); n > 0 && e.Mask != inIgnored {
		if l := in.queue[n-1]; l.Mask == e.Mask && l.Wd == e.Wd && l.Name == e.Name {
			return
		}
	}
	if len(in.queue) >= k.QMax {
		in.Dropped++
		if !in.over {
			in.over = true
			in.queue = append(in.queue, RawEvent{-1, inOverflow, 0, ""})
		}
		return
	}
	in.queue = append(in.queue, e)
	if k.KeepEv {
		p := m.Ino.last
		if !m.Ino.dead && m.Ino.nlink > 0 {
			p = k.InoPath(m.Ino)
		}
		k.Events = append(k.Events, Rec{e, m.Ino, p})
	}
	if vs.Tracing() {
		vs.Note("inotify <- %v", e)
	}
}

func (e RawEvent) String() string {
	return fmt.Sprintf("{wd %d %s cookie %d %q}", e.Wd, MaskText(e.Mask), e.Cookie, e.Name)
}

// MaskText names the bits of an inotify mask.
func MaskText(m uint32) string {
	names := []struct {
		b uint32
		n string
	}{{inAccess, "ACCESS"}, {inModify, "MODIFY"}, {inAttrib, "ATTRIB"}, {inCloseWrite, "CLOSE_WRITE"}, {inCloseNowrite, "CLOSE_NOWRITE"},
		{inOpen, "OPEN"}, {inMovedFrom, "MOVED_FROM"}, {inMovedTo, "MOVED_TO"}, {inCreate, "CREATE"}, {inDelete, "DELETE"},
		{inDeleteSelf, "DELETE_SELF"}, {inMoveSelf, "MOVE_SELF"}, {inUnmount, "UNMOUNT"}, {inOverflow, "Q_OVERFLOW"}, {inIgnored, "IGNORED"}, {inIsdir, "ISDIR"}}
	var out []string
	for _, x := range names {
		if m&x.b != 0 {
			out = append(out, x.n)
			m &^= x.b
		}
	}
	if m != 0 {
		out = append(out, fmt.Sprintf("%#x", m))
	}
	return strings.Join(out, "|")
}

// MarkInfo describes one kernel watch; for oracles.
type MarkInfo struct {
	Path string // current path of the watched inode
	Ino  *Inode
	Mask uint32
	Wd   int32
}

// Marks lists the watches of all open inotify instances.
func (k *K) Marks() (out []MarkInfo) {
	for _, in := range k.insts {
		if in.closed {
			continue
		}
		for _, m := range in.marks {
			out = append(out, MarkInfo{k.InoPath(m.Ino), m.Ino, m.Mask, m.Wd})
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Wd < out[j].Wd })
	return
}

// InoPath finds a path of an inode.
func (k *K) InoPath(i *Inode) string {
	if i.Kind == Dir {
		return k.dirPath(i)
	}
	var rec func(p string, d *Inode) string
	rec = func(p string, d *Inode) string {
		for _, n := range sorted(d.ents) {
			if d.ents[n] == i {
				return p + "/" + n
			}
			if d.ents[n].Kind == Dir {
				if s := rec(p+"/"+n, d.ents[n]); s != "" {
					return s
				}
			}
		}
		return ""
	}
	if s := rec("", k.Root); s != "" {
		return s
	}
	return "(deleted)"
}

// Pending is the number of records no one has read.
func (k *K) Pending() int {
	n := 0
	for _, in := range k.insts {
		if !in.closed {
			n += len(in.queue)
		}
	}
	return n
}

// Overflowed tells whether events were lost.
func (k *K) Overflowed() bool {
	for _, in := range k.insts {
		if in.Dropped > 0 {
			return true
		}
	}
	return false
}

// Inject queues raw records as if the kernel had produced them.
func (k *K) Inject(es ...RawEvent) {
	sys("inject", func() {
		for _, in := range k.insts {
			if !in.closed {
				vs.Touch(&in.Q, true)
				in.queue = append(in.queue, es...)
				for _, e := range es {
					vs.Note("inotify <- %v", e)
				}
			}
		}
	})
}

// ---- system calls ------------------------------------------------------

func point(o vs.Op) {
	if vs.W == nil {
		o.Exec()
		return
	}
	vs.Point(o)
}

func call(k *K, name string, f func()) bool {
	if vs.W == nil {
		f()
		return true
	}
	if !vs.Active() {
		return false
	}
	vs.Point(vs.Op{Name: name, Exec: f})
	return true
}

// InotifyInit is inotify_init1(2).
func (k *K) InotifyInit(flags int) (fd int, err syscall.Errno) {
	fd = -1
	err = syscall.EMFILE
	call(k, "inotify_init", func() {
		err = 0
		vs.Touch(&k.fdo, true)
		if k.fault("inotify_init") {
			err = syscall.EMFILE
			return
		}
		in := &Inst{marks: map[int32]*Mark{}, nonb: flags&syscall.O_NONBLOCK != 0}
		k.insts = append(k.insts, in)
		fd = k.newFD(&file{kind: "inotify", inst: in})
	})
	return
}

// AddWatch is inotify_add_watch(2).
func (k *K) AddWatch(fd int, p string, mask uint32) (wd int, err syscall.Errno) {
	wd = -1
	err = syscall.EBADF
	call(k, fmt.Sprintf("inotify_add_watch %s %s", p, MaskText(mask)), func() {
		err = 0
		vs.Touch(&k.fdo, false)
		vs.Touch(&k.FS, false)
		if k.fault("inotify_add_watch") {
			err = k.ferr("inotify_add_watch", syscall.ENOSPC)
			return
		}
		f := k.fds[fd]
		if f == nil {
			err = syscall.EBADF
			return
		}
		if mask&(inAll|inUnmount|inOverflow|inIgnored|inOnlydir|inDontFollow|inExclUnlink|inMaskAdd|inMaskCreate|inIsdir|inOneshot) == 0 {
			err = syscall.EINVAL
			return
		}
		if f.inst == nil {
			err = syscall.EINVAL
			return
		}
		if mask&inMaskAdd != 0 && mask&inMaskCreate != 0 {
			err = syscall.EINVAL
			return
		}
		_, _, i, e := k.walk(p, mask&inDontFollow == 0, false)
		if e != 0 {
			k.AddErrs = append(k.AddErrs, p)
			err = e
			return
		}
		k.Added = append(k.Added, p)
		if mask&inOnlydir != 0 && i.Kind != Dir {
			err = syscall.ENOTDIR
			return
		}
		in := f.inst
		vs.Touch(&in.T, true)
		for _, m := range i.marks {
			if m.Inst == in {
				if mask&inMaskCreate != 0 {
					err = syscall.EEXIST
					return
				}
				if mask&inMaskAdd != 0 {
					m.Mask |= mask & inAll
				} else {
					m.Mask = mask & inAll
					m.one = mask&inOneshot != 0
				}
				wd = int(m.Wd)
				return
			}
		}
		if len(in.marks) >= k.WMax {
			err = syscall.ENOSPC
			return
		}
		in.next++
		m := &Mark{Inst: in, Wd: in.next, Mask: mask & inAll, Ino: i, one: mask&inOneshot != 0, Path: p}
		in.marks[m.Wd] = m
		i.marks = append(i.marks, m)
		wd = int(m.Wd)
	})
	return
}

// RmWatch is inotify_rm_watch(2).
func (k *K) RmWatch(fd int, wd int32) (err syscall.Errno) {
	err = syscall.EBADF
	call(k, fmt.Sprintf("inotify_rm_watch %d", wd), func() {
		err = 0
		vs.Touch(&k.fdo, false)
		f := k.fds[fd]
		if f == nil {
			err = syscall.EBADF
			return
		}
		if f.inst == nil {
			err = syscall.EINVAL
			return
		}
		vs.Touch(&f.inst.T, true)
		m := f.inst.marks[wd]
		if m == nil {
			err = syscall.EINVAL
			return
		}
		if k.fault("inotify_rm_watch") {
			err = syscall.ENOMEM
			return
		}
		k.rmMark(m)
	})
	return
}

// EpollCreate is epoll_create1(2).
func (k *K) EpollCreate() (fd int, err syscall.Errno) {
	fd = -1
	err = syscall.EMFILE
	call(k, "epoll_create", func() {
		err = 0
		vs.Touch(&k.fdo, true)
		if k.fault("epoll_create") {
			err = syscall.EMFILE
			return
		}
		fd = k.newFD(&file{kind: "epoll", ep: &epoll{}})
	})
	return
}

// EpollCtl is epoll_ctl(2).
func (k *K) EpollCtl(epfd, op, fd int, events uint32, dfd, pad int32) (err syscall.Errno) {
	err = syscall.EBADF
	call(k, fmt.Sprintf("epoll_ctl %d fd %d", op, fd), func() {
		err = 0
		vs.Touch(&k.fdo, false)
		if k.fault("epoll_ctl") {
			err = syscall.ENOSPC
			return
		}
		e, f := k.fds[epfd], k.fds[fd]
		if e == nil || f == nil {
			err = syscall.EBADF
			return
		}
		if e.ep == nil || f == e {
			err = syscall.EINVAL
			return
		}
		vs.Touch(&e.ep.o, true)
		at := -1
		for i, r := range e.ep.reg {
			if r.fd == fd && r.f == f {
				at = i
			}
		}
		switch op {
		case syscall.EPOLL_CTL_ADD:
			if at >= 0 {
				err = syscall.EEXIST
				return
			}
			e.ep.reg = append(e.ep.reg, epreg{fd, f, events, dfd, pad})
		case syscall.EPOLL_CTL_MOD:
			if at < 0 {
				err = syscall.ENOENT
				return
			}
			e.ep.reg[at].ev, e.ep.reg[at].data, e.ep.reg[at].pad = events, dfd, pad
		case syscall.EPOLL_CTL_DEL:
			if at < 0 {
				err = syscall.ENOENT
				return
			}
			e.ep.reg = append(e.ep.reg[:at:at], e.ep.reg[at+1:]...)
		default:
			err = syscall.EINVAL
		}
	})
	return
}

func (k *K) opened(f *file) bool {
	for _, x := range k.fds {
		if x == f {
			return true
		}
	}
	return false
}

func (k *K) readable(f *file) uint32 {
	switch {
	case f.inst != nil:
		if len(f.inst.queue) > 0 {
			return syscall.EPOLLIN
		}
	case f.kind == "piper":
		var r uint32
		if f.pipe.n > 0 {
			r |= syscall.EPOLLIN
		}
		if f.pipe.wcl {
			r |= syscall.EPOLLHUP
		}
		return r
	case f.kind == "pipew":
		var r uint32 = syscall.EPOLLOUT
		if f.pipe.rcl {
			r |= syscall.EPOLLERR
		}
		return r
	}
	return 0
}

// EpEvent is one epoll result.
type EpEvent struct {
	Events  uint32
	Fd, Pad int32
}

// EpollWait is epoll_wait(2); which ready descriptor comes first is chosen by
// the explorer.
func (k *K) EpollWait(epfd int, max int, msec int) (out []EpEvent, err syscall.Errno) {
	if !vs.Active() {
		return nil, syscall.EBADF
	}
	ready := func() (rs []EpEvent, bad bool) {
		e := k.fds[epfd]
		if e == nil || e.ep == nil {
			return nil, true
		}
		for _, r := range e.ep.reg {
			if !k.opened(r.f) {
				continue
			}
			if x := k.readable(r.f) & (r.ev | syscall.EPOLLHUP | syscall.EPOLLERR); x != 0 {
				rs = append(rs, EpEvent{x, r.data, r.pad})
			}
		}
		return
	}
	intr := k.FaultOn["eintr"]
	ep := k.fds[epfd]
	vs.Point(vs.Op{Name: "epoll_wait", Kind: vs.KPoll,
		Enabled: func() bool {
			rs, bad := ready()
			if k.fds[epfd] != ep {
				// the descriptor was closed under a waiting call: it keeps waiting
				// on the old object, which nobody can make ready any more
				return false
			}
			return bad || len(rs) > 0 || msec >= 0
		},
		Exec: func() {
			vs.Touch(&k.fdo, false)
			if intr && k.fault("eintr") {
				err = syscall.EINTR
				return
			}
			rs, bad := ready()
			if bad {
				err = syscall.EBADF
				return
			}
			vs.Touch(&k.fds[epfd].ep.o, true)
			for _, r := range k.fds[epfd].ep.reg {
				if r.f.inst != nil {
					vs.Touch(&r.f.inst.Q, false)
				}
				if r.f.pipe != nil {
					vs.Touch(&r.f.pipe.o, false)
				}
			}
			if max > 0 && len(rs) > 1 {
				if c := vs.Choose("epoll order", len(rs), false); c > 0 {
					rs = append(append([]EpEvent{rs[c]}, rs[:c]...), rs[c+1:]...)
				}
			}
			if len(rs) > max {
				rs = rs[:max]
			}
			out = rs
		}})
	return
}

// Pipe is pipe(2).
func (k *K) Pipe(nonblock bool) (r, w int, err syscall.Errno) {
	r, w = -1, -1
	err = syscall.EMFILE
	call(k, "pipe", func() {
		err = 0
		vs.Touch(&k.fdo, true)
		if k.fault("pipe") {
			err = syscall.EMFILE
			return
		}
		p := &pipe{nonb: nonblock}
		r = k.newFD(&file{kind: "piper", pipe: p})
		w = k.newFD(&file{kind: "pipew", pipe: p})
	})
	return
}

// Close is close(2).
func (k *K) Close(fd int) (err syscall.Errno) {
	call(k, fmt.Sprintf("close %d", fd), func() {
		vs.Touch(&k.fdo, true)
		f := k.fds[fd]
		if f == nil {
			err = syscall.EBADF
			k.Closed = append(k.Closed, fmt.Sprintf("close of a descriptor that is not open (%d)", fd))
			return
		}
		if k.FaultOn["close"] && k.fault("close") {
			err = syscall.EINTR // the descriptor is closed all the same
		}
		delete(k.fds, fd)
		if k.HasKq {
			k.kqClosed(f)
		}
		switch {
		case f.ino != nil:
			f.ino.open--
			k.maybeGone(f.ino)
		case f.kq != nil:
			vs.Touch(&f.kq.o, true)
			f.kq.dead = true
		case f.fen != nil:
			vs.Touch(&f.fen.o, true)
		case f.inst != nil:
			vs.Touch(&f.inst.T, true)
			vs.Touch(&f.inst.Q, true)
			f.inst.closed = true
			for _, m := range f.inst.marks {
				for n, x := range m.Ino.marks {
					if x == m {
						m.Ino.marks = append(m.Ino.marks[:n:n], m.Ino.marks[n+1:]...)
						break
					}
				}
			}
			f.inst.marks = map[int32]*Mark{}
			f.inst.queue = nil
		case f.kind == "piper":
			vs.Touch(&f.pipe.o, true)
			f.pipe.rcl = true
		case f.kind == "pipew":
			vs.Touch(&f.pipe.o, true)
			f.pipe.wcl = true
		}
	})
	return
}

// WriteFD is write(2).
func (k *K) WriteFD(fd int, p []byte) (n int, err syscall.Errno) {
	call(k, fmt.Sprintf("write %d", fd), func() {
		vs.Touch(&k.fdo, false)
		if k.fault("write") {
			n, err = -1, syscall.EIO
			return
		}
		f := k.fds[fd]
		if f == nil || f.kind != "pipew" {
			n, err = -1, syscall.EBADF
			return
		}
		vs.Touch(&f.pipe.o, true)
		if f.pipe.rcl {
			n, err = -1, syscall.EPIPE
			return
		}
		f.pipe.n += len(p)
		vs.Release(&f.pipe.o)
		n = len(p)
	})
	return
}

func recLen(name string) int {
	if name == "" {
		return 0
	}
	return (len(name) + 1 + 15) / 16 * 16
}

// ReadFD is read(2).
func (k *K) ReadFD(fd int, p []byte) (n int, err syscall.Errno) {
	if vs.W != nil && !vs.Active() {
		return -1, syscall.EBADF
	}
	f0 := k.fds[fd]
	point(vs.Op{Name: fmt.Sprintf("read %d", fd), Kind: vs.KPoll,
		Enabled: func() bool {
			f := f0
			if f == nil || k.fds[fd] == nil {
				return true
			}
			switch {
			case f.inst != nil:
				return f.inst.nonb || len(f.inst.queue) > 0
			case f.kind == "piper":
				return f.pipe.n > 0 || f.pipe.wcl || f.pipe.nonb
			}
			return true
		},
		Exec: func() {
			vs.Touch(&k.fdo, false)
			f := k.fds[fd]
			if f == nil {
				n, err = -1, syscall.EBADF
				return
			}
			if k.FaultOn["read"] && k.fault("read") {
				n, err = -1, syscall.EINTR
				return
			}
			switch {
			case f.inst != nil:
				in := f.inst
				vs.Touch(&in.Q, true)
				if len(in.queue) == 0 {
					n, err = -1, syscall.EAGAIN
					return
				}
				cnt, tot := 0, 0
				for _, e := range in.queue {
					l := 16 + recLen(e.Name)
					if tot+l > len(p) {
						break
					}
					tot += l
					cnt++
				}
				if cnt == 0 {
					n, err = -1, syscall.EINVAL
					return
				}
				if k.SplitRd && cnt > 1 {
					if c := vs.Choose("read split", cnt, true); c > 0 {
						cnt = c
					}
				}
				pos := 0
				for _, e := range in.queue[:cnt] {
					l := recLen(e.Name)
					binary.NativeEndian.PutUint32(p[pos:], uint32(e.Wd))
					binary.NativeEndian.PutUint32(p[pos+4:], e.Mask)
					binary.NativeEndian.PutUint32(p[pos+8:], e.Cookie)
					binary.NativeEndian.PutUint32(p[pos+12:], uint32(l))
					pos += 16
					for j := 0; j < l; j++ {
						p[pos+j] = 0
					}
					copy(p[pos:], e.Name)
					pos += l
					if e.Mask&inOverflow != 0 {
						in.over = false
					}
				}
				in.queue = append([]RawEvent(nil), in.queue[cnt:]...)
				n = pos
				vs.MemRange(p, n, true)
			case f.kind == "piper":
				vs.Touch(&f.pipe.o, true)
				vs.Acquire(&f.pipe.o)
				if f.pipe.n == 0 {
					if f.pipe.wcl {
						return
					}
					n, err = -1, syscall.EAGAIN
					return
				}
				n = f.pipe.n
				if n > len(p) {
					n = len(p)
				}
				f.pipe.n -= n
			default:
				n, err = -1, syscall.EINVAL
			}
		}})
	return
}

// SetNonblock is fcntl(2) with O_NONBLOCK.
func (k *K) SetNonblock(fd int, on bool) (err syscall.Errno) {
	call(k, fmt.Sprintf("set nonblock %d", fd), func() {
		f := k.fds[fd]
		switch {
		case f == nil:
			err = syscall.EBADF
		case f.inst != nil:
			f.inst.nonb = on
		case f.pipe != nil:
			f.pipe.nonb = on
		}
	})
	return
}

// PollFDs is poll(2) for input.
func (k *K) PollFDs(fds []int, timeout int) (out []uint32) {
	if !vs.Active() {
		return make([]uint32, len(fds))
	}
	scan := func() (rs []uint32, n int) {
		for _, fd := range fds {
			var r uint32
			if f := k.fds[fd]; f == nil {
				r = 0x20 // POLLNVAL
			} else {
				r = k.readable(f) & (syscall.EPOLLIN | syscall.EPOLLHUP | syscall.EPOLLERR)
			}
			if r != 0 {
				n++
			}
			rs = append(rs, r)
		}
		return
	}
	vs.Point(vs.Op{Name: "poll", Kind: vs.KPoll,
		Enabled: func() bool { _, n := scan(); return n > 0 || timeout >= 0 },
		Exec: func() {
			vs.Touch(&k.fdo, false)
			for _, fd := range fds {
				if f := k.fds[fd]; f != nil && f.inst != nil {
					vs.Touch(&f.inst.Q, false)
				} else if f != nil && f.pipe != nil {
					vs.Touch(&f.pipe.o, false)
				}
			}
			out, _ = scan()
		}})
	return
}
