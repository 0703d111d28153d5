package notify

import (
	"fmt"
	"path"
	"runtime"
	"unsafe"

	"vmc/kern"
	"vmc/vs"
)

// What watcher_fsevents_cgo.go takes from C: the functions of the FSEvents and
// CoreFoundation frameworks, and the one its preamble defines. Streams deliver
// the records that the harness hands out through the exported gostream, one
// callback at a time, as on a serial dispatch queue.

type (
	vzC_char                     struct{ s string }
	vzC_size_t                   uint64
	vzC_uintptr_t                uint64
	vzC_Boolean                  uint8
	vzC_CFIndex                  int64
	vzC_CFTimeInterval           float64
	vzC_CFAllocatorRef           uintptr
	vzC_CFTypeRef                uintptr
	vzC_CFStringRef              uintptr
	vzC_CFArrayRef               uintptr
	vzC_CFStringEncoding         uint32
	vzC_FSEventStreamRef         = *vzStream
	vzC_FSEventStreamEventId     uint64
	vzC_FSEventStreamEventFlags  uint32
	vzC_FSEventStreamCreateFlags uint32
	vzC_FSEventStreamContext     struct{ info unsafe.Pointer }
	vzC_dispatch_queue_t         = *vzQueue
	vzC_dispatch_queue_attr_t    uintptr
)

const (
	vzC_kFSEventStreamCreateFlagNone       = 0
	vzC_kFSEventStreamCreateFlagNoDefer    = 2
	vzC_kFSEventStreamCreateFlagWatchRoot  = 4
	vzC_kFSEventStreamCreateFlagIgnoreSelf = 8
	vzC_kFSEventStreamCreateFlagFileEvents = 16
	vzC_kFSEventStreamEventIdSinceNow      = 1<<64 - 1
	vzC_kCFStringEncodingUTF8              = vzC_CFStringEncoding(0x08000100)
	vzC_DISPATCH_QUEUE_SERIAL              = 0

	vzC_kCFAllocatorDefault = vzC_CFAllocatorRef(0)

	vzFirstID = 1000 // of an event, when the program starts
)

type vzQueue struct{ label string }

// vzStream is a stream of the framework.
type vzStream struct {
	path  string
	info  uintptr
	flags uint32
	since uint64
	min   uint64 // events up to this one are not delivered

	queue, live, stopped, invalid, released bool

	done bool
}

// vzFr is the framework.
type vzFr struct {
	o     vs.Obj
	live  []*vzStream
	all   []*vzStream
	cf    map[uintptr]any
	ids   uintptr
	cur   uint64 // last event
	hist  []FSEvent
	ever  int
	fails bool
	nfail int
	bad   string
	k     *kern.K
	kept  int
}

var vzF *vzFr

func vzNewFr() *vzFr {
	return &vzFr{cf: map[uintptr]any{}, cur: vzFirstID, k: kern.Cur(), kept: vzKept()}
}

func (f *vzFr) wrong(s string, a ...any) {
	if f.bad == "" {
		f.bad = fmt.Sprintf(s, a...)
	}
}

// vzCheck tells what is wrong with the use of the framework, if all is quiet.
func (f *vzFr) vzCheck() string {
	if f.bad != "" {
		return f.bad
	}
	for _, s := range f.all {
		if !s.live && !s.released {
			return fmt.Sprintf("the native stream of %s, which is not used any longer, was not released", s.path)
		}
	}
	if n := vzKept() - f.kept; n > len(f.live) {
		return fmt.Sprintf("%d callbacks are kept for %d streams", n, len(f.live))
	}
	return ""
}

// vzKept counts the callbacks the library keeps.
var vzKept = func() int { return 0 }

func vzC_CString(s string) *vzC_char { return &vzC_char{s} }

func vzC_GoString(c *vzC_char) string {
	if c == nil {
		return ""
	}
	return c.s
}

func vzC_FSEventsGetCurrentEventId() vzC_FSEventStreamEventId {
	if vzF == nil || !vs.Active() || vzF.k != kern.Cur() { // starting
		return vzFirstID
	}
	return vzC_FSEventStreamEventId(vzF.cur)
}

func vzC_dispatch_queue_create(label *vzC_char, attr vzC_dispatch_queue_attr_t) vzC_dispatch_queue_t {
	return &vzQueue{label.s}
}

func (f *vzFr) add(x any) uintptr {
	f.ids += 16
	f.cf[f.ids] = x
	return f.ids
}

func vzC_CFStringCreateWithCStringNoCopy(_ vzC_CFAllocatorRef, s *vzC_char, _ vzC_CFStringEncoding, _ vzC_CFAllocatorRef) vzC_CFStringRef {
	return vzC_CFStringRef(vzF.add(s.s))
}

func vzC_CFStringCreateWithCString(_ vzC_CFAllocatorRef, s *vzC_char, _ vzC_CFStringEncoding) vzC_CFStringRef {
	return vzC_CFStringRef(vzF.add(s.s))
}

func vzC_CFArrayCreate(_ vzC_CFAllocatorRef, values *unsafe.Pointer, n vzC_CFIndex, _ unsafe.Pointer) vzC_CFArrayRef {
	var l []string
	for i := 0; i < int(n); i++ {
		s, ok := vzF.cf[*(*uintptr)(unsafe.Add(unsafe.Pointer(values), uintptr(i)*unsafe.Sizeof(uintptr(0))))].(string)
		if !ok {
			vzF.wrong("CFArrayCreate: no string")
		}
		l = append(l, s)
	}
	return vzC_CFArrayRef(vzF.add(l))
}

func vzC_CFRelease(x vzC_CFTypeRef) {
	if _, ok := vzF.cf[uintptr(x)]; !ok {
		vzF.wrong("CFRelease of what was released before")
	}
	delete(vzF.cf, uintptr(x))
}

func vzC_free(unsafe.Pointer) {}

func vzC_EventStreamCreate(_ *vzC_FSEventStreamContext, info vzC_uintptr_t, paths vzC_CFArrayRef, since vzC_FSEventStreamEventId, _ vzC_CFTimeInterval, flags vzC_FSEventStreamCreateFlags) (s vzC_FSEventStreamRef) {
	l, ok := vzF.cf[uintptr(paths)].([]string)
	if !ok || len(l) != 1 {
		vzF.wrong("FSEventStreamCreate: not an array of one path")
		return nil
	}
	vs.Point(vs.Op{Name: "FSEventStreamCreate " + l[0], Exec: func() {
		vs.Touch(&vzF.o, true)
		if vzF.fails && vs.Choose("the stream cannot be created", 2, true) == 1 {
			vs.Note("(the stream cannot be created)")
			vzF.nfail++
			return
		}
		s = &vzStream{path: l[0], info: uintptr(info), flags: uint32(flags), since: uint64(since)}
		if s.since > vzF.cur && s.since != vzC_kFSEventStreamEventIdSinceNow {
			s.min = s.since
		}
		vzF.all = append(vzF.all, s)
		vs.Release(&vzF.o)
	}})
	return
}

func vzC_FSEventStreamSetDispatchQueue(s vzC_FSEventStreamRef, q vzC_dispatch_queue_t) {
	if s == nil || s.invalid || s.released {
		vzF.wrong("FSEventStreamSetDispatchQueue of a stream that is not valid")
		return
	}
	s.queue = q != nil
}

func vzC_FSEventStreamStart(s vzC_FSEventStreamRef) (ok vzC_Boolean) {
	vs.Point(vs.Op{Name: "FSEventStreamStart", Exec: func() {
		vs.Touch(&vzF.o, true)
		if s == nil || !s.queue || s.live || s.invalid || s.released {
			vzF.wrong("FSEventStreamStart of a stream that is not scheduled or has been started")
			return
		}
		if vzF.fails && vs.Choose("the stream cannot be started", 2, true) == 1 {
			vs.Note("(the stream cannot be started)")
			vzF.nfail++
			return
		}
		s.live, ok = true, 1
		vzF.ever++
		vzF.live = append(vzF.live, s)
		vs.Release(&vzF.o)
	}})
	return
}

func (s *vzStream) end() {
	s.live = false
	for i := range vzF.live {
		if vzF.live[i] == s {
			vzF.live = append(append([]*vzStream(nil), vzF.live[:i]...), vzF.live[i+1:]...)
			break
		}
	}
}

func vzC_FSEventStreamStop(s vzC_FSEventStreamRef) {
	vs.Point(vs.Op{Name: "FSEventStreamStop", Exec: func() {
		vs.Touch(&vzF.o, true)
		if s == nil || !s.live || s.released {
			vzF.wrong("FSEventStreamStop of a stream that is not started")
			return
		}
		s.end()
		s.stopped = true
	}})
}

func vzC_FSEventStreamInvalidate(s vzC_FSEventStreamRef) {
	vs.Touch(&vzF.o, true)
	if s == nil || !s.queue || s.live || s.invalid || s.released {
		vzF.wrong("FSEventStreamInvalidate of a stream that is started, not scheduled or not valid")
		return
	}
	s.invalid = true
}

func vzC_FSEventStreamRelease(s vzC_FSEventStreamRef) {
	vs.Touch(&vzF.o, true)
	if s == nil || s.released || s.live || s.queue && !s.invalid {
		vzF.wrong("FSEventStreamRelease of a stream that is started, scheduled or released")
		return
	}
	s.released = true
}

func vzC_FSEventStreamFlushSync(vzC_FSEventStreamRef)           {}
func vzC_FSEventStreamFlushAsync(s vzC_FSEventStreamRef) uint64 { return 0 }

// fn is a callback with the given records.
func (s *vzStream) fn(recs []FSEvent) {
	var paths []*vzC_char
	var flags []uint32
	var ids []uint64
	for _, r := range recs {
		switch h := r.Flags&uint32(FSEventsHistoryDone) != 0; {
		case h && s.since == vzC_kFSEventStreamEventIdSinceNow, !h && s.min != 0 && r.ID <= s.min:
			continue
		case s.flags&vzC_kFSEventStreamCreateFlagFileEvents == 0 && !h && r.Path != s.path:
			r.Path, r.Flags = path.Dir(r.Path), 0
		}
		paths = append(paths, vzC_CString(r.Path))
		flags = append(flags, r.Flags)
		ids = append(ids, r.ID)
	}
	var z uintptr
	if len(paths) == 0 {
		gostream(z, s.info, 0, z, z, z)
		return
	}
	gostream(z, s.info, vzC_size_t(len(paths)), uintptr(unsafe.Pointer(&paths[0])), uintptr(unsafe.Pointer(&flags[0])), uintptr(unsafe.Pointer(&ids[0])))
	runtime.KeepAlive(paths)
	runtime.KeepAlive(flags)
	runtime.KeepAlive(ids)
}

// streams: those live now.
func (f *vzFr) streams() (l []*vzStream) {
	vs.Point(vs.Op{Name: "callback", Exec: func() {
		vs.Touch(&f.o, true)
		vs.Acquire(&f.o)
		l = append(l, f.live...)
	}})
	return
}

func (f *vzFr) under(s *vzStream, recs []FSEvent) (l []FSEvent) {
	for _, r := range recs {
		if r.Path == s.path || vzUnder(s.path, r.Path) {
			l = append(l, r)
		}
	}
	return
}

// deliver runs the callback of every live stream whose subtree has the paths.
// The first one of a stream reports what happened before it was created.
func (f *vzFr) deliver(recs []FSEvent) {
	for i := range recs {
		f.cur++
		recs[i].ID = f.cur
	}
	old := f.hist
	f.hist = append(f.hist, recs...)
	for _, s := range f.streams() {
		if !s.live {
			continue
		}
		if !s.done {
			s.done = true
			var l []FSEvent
			for _, r := range f.under(s, old) {
				if r.ID > s.since {
					l = append(l, r)
				}
			}
			s.fn(append(l, FSEvent{Path: s.path, Flags: uint32(FSEventsHistoryDone)}))
		}
		if l := f.under(s, recs); len(l) > 0 {
			s.fn(l)
		}
	}
}
