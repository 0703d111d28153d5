// Package kern simulates the parts of the operating system the library talks
// to: a file system name space, inotify, epoll, pipes and the descriptor
// table. conform.go (in the conformance binary) replays every short operation
// sequence on it and on the real kernel.
package kern

import (
	"io/fs"
	"os"
	"sort"
	"strings"
	"syscall"
	"time"

	"vmc/vs"
)

// Kind of an inode.
type Kind int

const (
	File Kind = iota
	Dir
	Link
)

// Inode is a file, directory or symbolic link.
type Inode struct {
	ID     int
	Kind   Kind
	Target string
	ents   map[string]*Inode
	parent *Inode // directories
	nlink  int
	open   int
	dead   bool // directory removed
	perm   os.FileMode
	size   int64
	marks  []*Mark
	VFd    []int // vnode watchers (kqueue simulation)
	VData  any
	last   string

	at, mt, ct int64 // when accessed, modified, changed: logical time
}

// K is the kernel of one execution.
type K struct {
	Root   *Inode
	Cwd    string
	ids    int
	FS     vs.Obj // name space
	fdo    vs.Obj // descriptor table
	fds    map[int]*file
	insts  []*Inst
	cookie uint32
	QMax   int // inotify queue limit
	WMax   int // inotify watch limit
	OpenFD int

	FaultOn  map[string]bool // system calls that may fail (costly choice)
	Sticky   bool            // a failure repeats until Heal
	failing  map[string]bool
	SplitRd  bool // reads may return a part of the queue
	Log      []string
	Calls    map[string]int
	OnVnode  func(ino *Inode, what int, arg any)
	HasKq    bool
	HasFen   bool
	fenQ     []fenNote
	now      int64
	Closed   []string // close errors
	win      *win
	NFaults  int
	FaultErr map[string]syscall.Errno // errors of injected failures, if not the usual ones
	Added    []string                 // paths inotify_add_watch resolved
	AddErrs  []string                 // and those it did not
	SrvClock int
	Events   []Rec // all events queued, for oracles
	KeepEv   bool
	SelfLast bool // older kernels: the parent hears of a removal first
	hook     []func(EntryEvent)
}

// New makes an empty file system with a root directory.
func New() *K {
	k := &K{fds: map[int]*file{}, QMax: 16384, WMax: 1 << 20, Cwd: "/", FaultOn: map[string]bool{}, failing: map[string]bool{}, Calls: map[string]int{}}
	k.Root = k.newInode(Dir)
	k.Root.parent = k.Root
	k.Root.nlink = 2
	return k
}

// Cur is the kernel of the running execution.
func Cur() *K {
	if vs.W == nil {
		return nil
	}
	k, _ := vs.W.Kern.(*K)
	return k
}

func (k *K) newInode(kind Kind) *Inode {
	k.ids++
	k.now++
	i := &Inode{ID: k.ids, Kind: kind, nlink: 1, perm: 0644, at: k.now, mt: k.now, ct: k.now}
	if kind == Dir {
		i.ents = map[string]*Inode{}
		i.perm = 0755
	}
	return i
}

const (
	nameMax = 255
	pathMax = 4096
	maxLink = 40
)

// walk resolves p. If last is true the final component is not looked up: the
// parent directory and the final name are returned.
func (k *K) walk(p string, follow, last bool) (dir *Inode, name string, ino *Inode, err syscall.Errno) {
	if p == "" {
		return nil, "", nil, syscall.ENOENT
	}
	if len(p) >= pathMax {
		return nil, "", nil, syscall.ENAMETOOLONG
	}
	cur := k.Root
	if p[0] != '/' {
		_, _, cur, err = k.walk(k.Cwd, true, false)
		if err != 0 {
			return
		}
	}
	links := 0
	rest := p
	for {
		rest = strings.TrimLeft(rest, "/")
		if rest == "" {
			return cur.parent, ".", cur, 0
		}
		if cur.Kind != Dir {
			return nil, "", nil, syscall.ENOTDIR
		}
		var c string
		tail := ""
		if i := strings.IndexByte(rest, '/'); i >= 0 {
			c, tail = rest[:i], rest[i:]
		} else {
			c = rest
		}
		fin := strings.Trim(tail, "/") == ""
		slash := fin && tail != ""
		if len(c) > nameMax {
			return nil, "", nil, syscall.ENAMETOOLONG
		}
		var next *Inode
		switch c {
		case ".":
			next = cur
		case "..":
			next = cur.parent
		default:
			if fin && last {
				return cur, c, cur.ents[c], 0
			}
			next = cur.ents[c]
		}
		if next == nil {
			return cur, c, nil, syscall.ENOENT
		}
		if next.Kind == Link && (!fin || follow || slash) {
			links++
			if links > maxLink {
				return nil, "", nil, syscall.ELOOP
			}
			if next.Target == "" {
				return nil, "", nil, syscall.ENOENT
			}
			rest = next.Target + tail
			if len(rest) >= pathMax {
				return nil, "", nil, syscall.ENAMETOOLONG
			}
			if next.Target[0] == '/' {
				cur = k.Root
			}
			continue
		}
		if fin {
			if slash && next.Kind != Dir {
				return nil, "", nil, syscall.ENOTDIR
			}
			return cur, c, next, 0
		}
		cur = next
		rest = tail
	}
}

// Lookup resolves p without being a system call; for oracles.
func (k *K) Lookup(p string, follow bool) (*Inode, syscall.Errno) {
	_, _, i, e := k.walk(p, follow, false)
	return i, e
}

// RealPath is the path of p with all links resolved; for oracles.
func (k *K) RealPath(p string) (string, syscall.Errno) {
	d, n, i, e := k.walk(p, true, false)
	if e != 0 {
		return "", e
	}
	if i.Kind == Dir {
		return k.dirPath(i), 0
	}
	dp := k.dirPath(d)
	if dp == "/" {
		return "/" + n, 0
	}
	return dp + "/" + n, 0
}

func (k *K) dirPath(i *Inode) string {
	if i == k.Root {
		return "/"
	}
	for n, c := range i.parent.ents {
		if c == i {
			p := k.dirPath(i.parent)
			if p == "/" {
				return "/" + n
			}
			return p + "/" + n
		}
	}
	return "(deleted)"
}

// Tree lists all paths below the directory p, with a trailing slash for
// directories; for oracles.
func (k *K) Tree(p string) []string {
	i, e := k.Lookup(p, true)
	if e != 0 {
		return nil
	}
	var out []string
	var rec func(p string, i *Inode)
	rec = func(p string, i *Inode) {
		for _, n := range sorted(i.ents) {
			c := i.ents[n]
			if c.Kind == Dir {
				out = append(out, p+"/"+n+"/")
				rec(p+"/"+n, c)
			} else {
				out = append(out, p+"/"+n)
			}
		}
	}
	rec(strings.TrimSuffix(p, "/"), i)
	return out
}

func sorted(m map[string]*Inode) []string {
	ns := make([]string, 0, len(m))
	for n := range m {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	return ns
}

// fault is consulted by every system call that may be made to fail.
func (k *K) fault(call string) bool {
	k.Calls[call]++
	if !k.FaultOn[call] {
		return false
	}
	if k.failing[call] {
		return true
	}
	if vs.Choose("fail "+call, 2, true) == 1 {
		k.NFaults++
		if k.Sticky {
			k.failing[call] = true
		}
		return true
	}
	return false
}

// ferr is the error of an injected failure.
func (k *K) ferr(call string, def syscall.Errno) syscall.Errno {
	if e, ok := k.FaultErr[call]; ok {
		return e
	}
	return def
}

// Heal ends injected failures.
func (k *K) Heal() { k.FaultOn = map[string]bool{}; k.failing = map[string]bool{} }

// sys runs f as one system call.
func sys(name string, f func()) {
	if !vs.Active() {
		if vs.W == nil {
			f()
		}
		return
	}
	vs.Point(vs.Op{Name: name, Exec: f})
}

// ---- operations on the name space --------------------------------------

func (k *K) mutate(name string, f func() syscall.Errno) (err syscall.Errno) {
	sys(name, func() {
		vs.Touch(&k.FS, true)
		err = f()
		if err != 0 {
			vs.Note("%s: %v", name, err)
		}
		if k.HasFen {
			k.fenFlush()
		}
	})
	return
}

// Mkdir is mkdir(2).
func (k *K) Mkdir(p string) syscall.Errno {
	return k.mutate("mkdir "+p, func() syscall.Errno {
		d, n, i, e := k.walk(p, false, true)
		if e != 0 {
			return e
		}
		if i != nil || n == "." {
			return syscall.EEXIST
		}
		if d.dead {
			return syscall.ENOENT
		}
		i = k.newInode(Dir)
		i.parent, i.nlink = d, 2
		d.ents[n] = i
		k.vnode(d, VnWrite|VnLink)
		k.onEntry(d, n, i, "create")
		k.notify(d, n, i, false, inCreate, 0)
		return 0
	})
}

// Symlink is symlink(2).
func (k *K) Symlink(target, p string) syscall.Errno {
	return k.mutate("symlink "+target+" <- "+p, func() syscall.Errno {
		d, n, i, e := k.walk(p, false, true)
		if e != 0 {
			return e
		}
		if i != nil || n == "." {
			return syscall.EEXIST
		}
		i = k.newInode(Link)
		i.Target = target
		i.perm = 0777
		d.ents[n] = i
		k.vnode(d, VnWrite)
		k.onEntry(d, n, i, "create")
		k.notify(d, n, i, false, inCreate, 0)
		return 0
	})
}

// OpenWrite is open(O_WRONLY|O_CREAT); it returns a handle for Write and CloseW.
func (k *K) OpenWrite(p string) (h *Handle, err syscall.Errno) {
	err = k.mutate("open(creat) "+p, func() syscall.Errno {
		d, n, i, e := k.walk(p, true, true)
		if e != 0 {
			return e
		}
		for cnt, q := 0, p; i != nil && i.Kind == Link; cnt++ {
			if cnt > maxLink {
				return syscall.ELOOP
			}
			if q = i.Target; q[0] != '/' {
				q = k.dirPath(d) + "/" + q
			}
			d, n, i, e = k.walk(q, true, true)
			if e != 0 {
				return e
			}
		}
		if n == "." || i != nil && i.Kind == Dir {
			return syscall.EISDIR
		}
		if d.dead {
			return syscall.ENOENT
		}
		if i == nil {
			i = k.newInode(File)
			d.ents[n] = i
			k.vnode(d, VnWrite)
			k.onEntry(d, n, i, "create")
			k.notify(d, n, i, false, inCreate, 0)
		}
		i.open++
		k.notify(d, n, i, true, inOpen, 0)
		h = &Handle{d: d, n: n, i: i}
		return 0
	})
	return
}

// Handle is an open file.
type Handle struct {
	d *Inode
	n string
	i *Inode
}

// Write is write(2) on h.
func (k *K) Write(h *Handle) syscall.Errno {
	return k.mutate("write "+h.n, func() syscall.Errno {
		h.i.size++
		k.vnode(h.i, VnWrite|VnExtend)
		d, n := k.nameOf(h)
		k.onEntry(d, n, h.i, "modify")
		k.notify(d, n, h.i, true, inModify, 0)
		return 0
	})
}

// nameOf follows the dentry of an open file, which moves with renames.
func (k *K) nameOf(h *Handle) (*Inode, string) {
	if h.d.ents[h.n] == h.i {
		return h.d, h.n
	}
	var rec func(d *Inode) bool
	rec = func(d *Inode) bool {
		for n, c := range d.ents {
			if c == h.i {
				h.d, h.n = d, n
				return true
			}
			if c.Kind == Dir && rec(c) {
				return true
			}
		}
		return false
	}
	rec(k.Root)
	return h.d, h.n
}

// CloseW is close(2) on h.
func (k *K) CloseW(h *Handle) syscall.Errno {
	return k.mutate("close "+h.n, func() syscall.Errno {
		d, n := k.nameOf(h)
		k.notify(d, n, h.i, true, inCloseWrite, 0)
		h.i.open--
		k.maybeGone(h.i)
		return 0
	})
}

// Create makes an empty file: open and close.
func (k *K) Create(p string) syscall.Errno {
	h, e := k.OpenWrite(p)
	if e != 0 {
		return e
	}
	return k.CloseW(h)
}

// WriteFile opens (creating it), writes and closes p.
func (k *K) WriteFile(p string) syscall.Errno {
	h, e := k.OpenWrite(p)
	if e != 0 {
		return e
	}
	k.Write(h)
	return k.CloseW(h)
}

// ReadFile opens, reads and closes p.
func (k *K) ReadFile(p string) syscall.Errno {
	return k.mutate("read "+p, func() syscall.Errno {
		d, n, i, e := k.walk(p, true, false)
		if e != 0 {
			return e
		}
		if i.Kind == Dir {
			return syscall.EISDIR
		}
		k.notify(d, n, i, true, inOpen, 0)
		if i.size > 0 {
			k.vnode(i, VnAccess)
			k.notify(d, n, i, true, inAccess, 0)
		}
		k.notify(d, n, i, true, inCloseNowrite, 0)
		return 0
	})
}

// Chmod is chmod(2).
func (k *K) Chmod(p string, perm os.FileMode) syscall.Errno {
	return k.mutate("chmod "+p, func() syscall.Errno {
		d, n, i, e := k.walk(p, true, false)
		if e != 0 {
			return e
		}
		i.perm = perm
		k.vnode(i, VnAttrib)
		k.notify(d, n, i, true, inAttrib, 0)
		return 0
	})
}

// Unlink is unlink(2).
func (k *K) Unlink(p string) syscall.Errno {
	return k.mutate("unlink "+p, func() syscall.Errno {
		d, n, i, e := k.walk(p, false, true)
		if e != 0 {
			return e
		}
		if i == nil {
			return syscall.ENOENT
		}
		if i.Kind == Dir {
			return syscall.EISDIR
		}
		k.remember(d, n, i)
		delete(d.ents, n)
		k.drop(d, n, i)
		return 0
	})
}

// remember keeps the last path of a file about to lose its name.
func (k *K) remember(d *Inode, n string, i *Inode) {
	if k.KeepEv {
		i.last = k.dirPath(d)
		if i.last == "/" {
			i.last = ""
		}
		i.last += "/" + n
	}
}

func (k *K) drop(d *Inode, n string, i *Inode) {
	i.nlink--
	k.vnode(d, VnWrite)
	k.vnode(i, VnDelete)
	k.onEntry(d, n, i, "remove")
	k.notifySelf(i, inAttrib)
	if !k.SelfLast {
		k.maybeGone(i)
	}
	k.notify(d, n, i, false, inDelete, 0)
	if k.SelfLast {
		k.maybeGone(i)
	}
}

func (k *K) maybeGone(i *Inode) {
	if i.Kind != Dir && i.nlink == 0 && i.open == 0 {
		k.gone(i)
	}
}

// gone: the last reference to the inode disappeared.
func (k *K) gone(i *Inode) {
	k.notifySelf(i, inDeleteSelf)
	k.dropMarks(i)
}

// Rmdir is rmdir(2).
func (k *K) Rmdir(p string) syscall.Errno {
	return k.mutate("rmdir "+p, func() syscall.Errno {
		d, n, i, e := k.walk(p, false, true)
		if e != 0 {
			return e
		}
		if n == "." {
			return syscall.EINVAL
		}
		if i == nil {
			return syscall.ENOENT
		}
		if i.Kind != Dir {
			return syscall.ENOTDIR
		}
		if len(i.ents) != 0 {
			return syscall.ENOTEMPTY
		}
		k.remember(d, n, i)
		delete(d.ents, n)
		i.dead = true
		i.nlink = 0
		k.vnode(d, VnWrite|VnLink)
		k.vnode(i, VnDelete)
		k.onEntry(d, n, i, "remove")
		if !k.SelfLast && i.open == 0 {
			k.gone(i)
		}
		k.notify(d, n, i, false, inDelete, 0)
		if k.SelfLast && i.open == 0 {
			k.gone(i)
		}
		return 0
	})
}

// Remove unlinks a file or removes an empty directory.
func (k *K) Remove(p string) syscall.Errno {
	if i, e := k.Lookup(p, false); e == 0 && i.Kind == Dir {
		return k.Rmdir(p)
	}
	return k.Unlink(p)
}

// RemoveAll is rm -r: children first.
func (k *K) RemoveAll(p string) syscall.Errno {
	i, e := k.Lookup(p, false)
	if e != 0 {
		return e
	}
	if i.Kind == Dir {
		for _, n := range sorted(i.ents) {
			k.RemoveAll(p + "/" + n)
		}
		return k.Rmdir(p)
	}
	return k.Unlink(p)
}

// Rename is rename(2).
func (k *K) Rename(from, to string) syscall.Errno {
	return k.mutate("rename "+from+" -> "+to, func() syscall.Errno {
		d1, n1, i, e := k.walk(from, false, true)
		if e != 0 {
			return e
		}
		d2, n2, t, e := k.walk(to, false, true)
		if e != 0 {
			return e
		}
		if n1 == "." || n2 == "." {
			return syscall.EBUSY
		}
		if i == nil {
			return syscall.ENOENT
		}
		if i == t {
			return 0
		}
		if i.Kind == Dir {
			for x := d2; ; x = x.parent {
				if x == i {
					return syscall.EINVAL
				}
				if x == k.Root {
					break
				}
			}
		}
		if t != nil {
			if t.Kind == Dir && i.Kind != Dir {
				return syscall.EISDIR
			}
			if t.Kind != Dir && i.Kind == Dir {
				return syscall.ENOTDIR
			}
			if t.Kind == Dir {
				for x := d1; x != k.Root; x = x.parent {
					if x == t {
						return syscall.ENOTEMPTY
					}
				}
				if len(t.ents) != 0 {
					return syscall.ENOTEMPTY
				}
			}
		}
		if t != nil {
			k.remember(d2, n2, t)
		}
		delete(d1.ents, n1)
		d2.ents[n2] = i
		if i.Kind == Dir {
			i.parent = d2
		}
		if t != nil {
			t.nlink--
			if t.Kind == Dir {
				t.dead = true
				t.nlink = 0
			}
		}
		k.vnode(d1, VnWrite)
		if d2 != d1 {
			k.vnode(d2, VnWrite)
		}
		k.vnode(i, VnRename)
		if t != nil {
			k.vnode(t, VnDelete|VnReplaced)
		}
		k.onRename(d1, n1, d2, n2, i, t)
		k.cookie++
		ck := k.cookie + 0x7ffffff0 // both halves of it matter
		k.notify(d1, n1, i, false, inMovedFrom, ck)
		k.notify(d2, n2, i, false, inMovedTo, ck)
		if t != nil {
			k.notifySelf(t, inAttrib)
		}
		k.notifySelf(i, inMoveSelf)
		if t != nil && t.nlink == 0 && t.open == 0 {
			k.gone(t)
		}
		return 0
	})
}

// LinkFile is link(2).
func (k *K) LinkFile(from, to string) syscall.Errno {
	return k.mutate("link "+from+" "+to, func() syscall.Errno {
		_, _, i, e := k.walk(from, false, false)
		if e != 0 {
			return e
		}
		d, n, t, e := k.walk(to, false, true)
		if e != 0 {
			return e
		}
		if t != nil || n == "." {
			return syscall.EEXIST
		}
		if i.Kind == Dir {
			return syscall.EPERM
		}
		d.ents[n] = i
		i.nlink++
		k.vnode(d, VnWrite)
		k.vnode(i, VnLink)
		k.notifySelf(i, inAttrib)
		k.notify(d, n, i, false, inCreate, 0)
		return 0
	})
}

// vnode events, for the kqueue and FEN simulations
const (
	VnWrite = 1 << iota
	VnExtend
	VnDelete
	VnRename
	VnAttrib
	VnLink
	VnReplaced // deleted by renaming another file
	VnAccess
)

func (k *K) vnode(i *Inode, what int) {
	if k.OnVnode != nil {
		k.OnVnode(i, what, nil)
	}
	k.now++
	if what == VnAccess {
		i.at = k.now
	} else {
		i.ct = k.now
		if what&VnWrite != 0 {
			i.mt = k.now
		}
	}
	if k.HasKq {
		k.kqVnode(i, what)
	}
	if k.HasFen {
		k.fenQ = append(k.fenQ, fenNote{i, what})
	}
}

// OnEntryFn observes changes of directory entries (stream and directory based
// backends).
type EntryEvent struct {
	Dir  *Inode
	Name string
	Ino  *Inode
	What string
	To   *Inode // rename target directory
	ToN  string
	Over *Inode
}

// SetEntryHook registers f for directory entry changes.
func (k *K) SetEntryHook(f func(EntryEvent)) { k.entry(f) }

func (k *K) entry(f func(EntryEvent)) { k.hook = append(k.hook, f) }

func (k *K) onEntry(d *Inode, n string, i *Inode, what string) {
	for _, f := range k.hook {
		f(EntryEvent{Dir: d, Name: n, Ino: i, What: what})
	}
}

func (k *K) onRename(d1 *Inode, n1 string, d2 *Inode, n2 string, i, t *Inode) {
	for _, f := range k.hook {
		f(EntryEvent{Dir: d1, Name: n1, Ino: i, What: "rename", To: d2, ToN: n2, Over: t})
	}
}

// DirPath is the path of directory i; for oracles and simulations.
func (k *K) DirPath(i *Inode) string { return k.dirPath(i) }

// Entries lists the entries of a directory.
func (i *Inode) Entries() []string { return sorted(i.ents) }

// Child looks up an entry.
func (i *Inode) Child(n string) *Inode { return i.ents[n] }

// ---- queries made by the library ---------------------------------------

// FI implements os.FileInfo.
type FI struct {
	N    string
	Ino  *Inode
	kind Kind
	perm os.FileMode
	size int64
	st   StatT
}

// Timespec is a point of logical time.
type Timespec struct{ Sec, Nsec int64 }

func (t Timespec) Unix() (sec, nsec int64) { return t.Sec, t.Nsec }
func (t Timespec) Nano() int64             { return t.Sec*1e9 + t.Nsec }

// StatT is the part of struct stat in use.
type StatT struct {
	Dev              uint64
	Ino              uint64
	Mode             uint32
	Size             int64
	Atim, Mtim, Ctim Timespec
}

func (f *FI) Name() string       { return f.N }
func (f *FI) Size() int64        { return f.size }
func (f *FI) ModTime() time.Time { return time.Unix(1500000000, 0) }
func (f *FI) IsDir() bool        { return f.kind == Dir }
func (f *FI) Sys() any           { return &f.st }
func (f *FI) Mode() os.FileMode {
	switch f.kind {
	case Dir:
		return os.ModeDir | f.perm
	case Link:
		return os.ModeSymlink | 0777
	}
	return f.perm
}
func (f *FI) Type() fs.FileMode          { return f.Mode().Type() }
func (f *FI) Info() (fs.FileInfo, error) { return f, nil }
func (f *FI) String() string             { return f.N }

func mkFI(n string, i *Inode) *FI {
	t := func(n int64) Timespec { return Timespec{1500000000 + n/4, n % 4} }
	return &FI{N: n, Ino: i, kind: i.Kind, perm: i.perm, size: i.size, st: StatT{Ino: uint64(i.ID), Size: i.size, Atim: t(i.at), Mtim: t(i.mt), Ctim: t(i.ct)}}
}

func baseName(p string) string {
	p = strings.TrimRight(p, "/")
	if p == "" {
		return "/"
	}
	if i := strings.LastIndexByte(p, '/'); i >= 0 {
		return p[i+1:]
	}
	return p
}

// Stat is stat(2) or lstat(2).
func (k *K) Stat(p string, follow bool) (fi *FI, err syscall.Errno) {
	name := "lstat"
	if follow {
		name = "stat"
	}
	sys(name+" "+p, func() {
		vs.Touch(&k.FS, false)
		if k.fault("stat") {
			err = syscall.EACCES
			return
		}
		var i *Inode
		if _, _, i, err = k.walk(p, follow, false); err == 0 {
			fi = mkFI(baseName(p), i)
		}
	})
	if !vs.Active() && fi == nil && err == 0 {
		err = syscall.ENOENT
	}
	return
}

// Readlink is readlink(2).
func (k *K) Readlink(p string) (s string, err syscall.Errno) {
	sys("readlink "+p, func() {
		vs.Touch(&k.FS, false)
		if k.fault("readlink") {
			err = syscall.EACCES
			return
		}
		var i *Inode
		if _, _, i, err = k.walk(p, false, false); err == 0 {
			if i.Kind != Link {
				err = syscall.EINVAL
				return
			}
			s = i.Target
		}
	})
	return
}

// DirHandle is an open directory or file.
type DirHandle struct {
	k    *K
	I    *Inode
	d    *Inode
	n    string
	Path string
	done bool
	fd   int
}

// OpenRead is open(O_RDONLY).
func (k *K) OpenRead(p string) (h *DirHandle, err syscall.Errno) {
	sys("open "+p, func() {
		vs.Touch(&k.FS, false)
		if k.fault("open") {
			err = k.ferr("open", syscall.EMFILE)
			return
		}
		d, n, i, e := k.walk(p, true, false)
		if e != 0 {
			err = e
			return
		}
		i.open++
		h = &DirHandle{k: k, I: i, d: d, n: n, Path: p}
		vs.Touch(&k.fdo, true)
		h.fd = k.newFD(&file{kind: "dir", name: p})
		k.notify(d, n, i, true, inOpen, 0)
	})
	if h == nil && err == 0 {
		err = syscall.EBADF
	}
	return
}

// FD is the descriptor number.
func (h *DirHandle) FD() int { return h.fd }

// List is getdents(2) of everything.
func (h *DirHandle) List() (out []*FI, err syscall.Errno) {
	k := h.k
	sys("getdents "+h.Path, func() {
		vs.Touch(&k.FS, false)
		if h.I.Kind != Dir {
			err = syscall.ENOTDIR
			return
		}
		if h.I.dead {
			err = syscall.ENOENT
			return
		}
		if k.fault("getdents") {
			err = syscall.EIO
			return
		}
		for _, n := range sorted(h.I.ents) {
			out = append(out, mkFI(n, h.I.ents[n]))
		}
		if k.HasFen {
			k.vnode(h.I, VnAccess)
			k.fenFlush()
		}
		// getdents is called once more to see the end
		k.notify(h.d, h.n, h.I, true, inAccess, 0)
		k.notify(h.d, h.n, h.I, true, inAccess, 0)
	})
	return
}

// Close is close(2).
func (h *DirHandle) Close() syscall.Errno {
	if h.done {
		return syscall.EBADF
	}
	h.done = true
	k := h.k
	if vs.W != nil && !vs.Active() {
		return 0
	}
	// no scheduling point: nobody can tell when exactly it happens, except
	// through the events it causes
	vs.Touch(&k.FS, h.I.dead)
	vs.Touch(&k.fdo, true)
	k.notify(h.d, h.n, h.I, true, inCloseNowrite, 0)
	h.I.open--
	delete(k.fds, h.fd)
	if h.I.Kind == Dir {
		if h.I.dead && h.I.open == 0 {
			k.gone(h.I)
		}
	} else {
		k.maybeGone(h.I)
	}
	return 0
}
