// Command conform replays every operation sequence up to a depth both on the
// simulated kernel and on the real one and compares every result: errors,
// directory listings, link resolution and the exact inotify records.
package main

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"

	"vmc/kern"
)

type op struct {
	name string
	a, b string
	mask uint32
}

func (o op) String() string {
	s := o.name + " " + o.a
	if o.b != "" {
		s += " " + o.b
	}
	if o.mask != 0 {
		s += " " + kern.MaskText(o.mask)
	}
	return s
}

// sides

type real struct {
	dir  string
	fd   int
	wds  map[string]int
	hs   map[string]int
	buf  []byte
	base string
}

func errno(err error) syscall.Errno {
	if err == nil {
		return 0
	}
	if e, ok := err.(syscall.Errno); ok {
		return e
	}
	return syscall.Errno(9999)
}

func (r *real) p(s string) string { return r.dir + "/" + s }

func (r *real) do(o op) (res string) {
	var err error
	extra := ""
	switch o.name {
	case "mkdir":
		err = syscall.Mkdir(r.p(o.a), 0755)
	case "create":
		var fd int
		if fd, err = syscall.Open(r.p(o.a), syscall.O_WRONLY|syscall.O_CREAT, 0644); err == nil {
			syscall.Close(fd)
		}
	case "write":
		var fd int
		if fd, err = syscall.Open(r.p(o.a), syscall.O_WRONLY|syscall.O_CREAT, 0644); err == nil {
			syscall.Write(fd, []byte("x"))
			syscall.Close(fd)
		}
	case "hopen":
		var fd int
		if fd, err = syscall.Open(r.p(o.a), syscall.O_WRONLY|syscall.O_CREAT, 0644); err == nil {
			r.hs["h"] = fd
		}
	case "hwrite":
		if fd, ok := r.hs["h"]; ok {
			_, err = syscall.Write(fd, []byte("x"))
		} else {
			err = syscall.EBADF
		}
	case "hclose":
		if fd, ok := r.hs["h"]; ok {
			err = syscall.Close(fd)
			delete(r.hs, "h")
		} else {
			err = syscall.EBADF
		}
	case "read":
		var fd int
		if fd, err = syscall.Open(r.p(o.a), syscall.O_RDONLY, 0); err == nil {
			var st syscall.Stat_t
			syscall.Fstat(fd, &st)
			if st.Mode&syscall.S_IFMT == syscall.S_IFDIR {
				err = syscall.EISDIR
			} else {
				b := make([]byte, 10)
				syscall.Read(fd, b)
			}
			syscall.Close(fd)
		}
	case "chmod":
		err = syscall.Chmod(r.p(o.a), 0700)
	case "unlink":
		err = syscall.Unlink(r.p(o.a))
	case "rmdir":
		err = syscall.Rmdir(r.p(o.a))
	case "rename":
		err = syscall.Rename(r.p(o.a), r.p(o.b))
	case "symlink":
		err = syscall.Symlink(o.a, r.p(o.b))
	case "link":
		err = syscall.Link(r.p(o.a), r.p(o.b))
	case "list":
		var es []os.DirEntry
		es, err = os.ReadDir(r.p(o.a))
		if pe, ok := err.(*os.PathError); ok {
			err = pe.Err
		}
		if se, ok := err.(*os.SyscallError); ok {
			err = se.Err
		}
		for _, e := range es {
			extra += fmt.Sprintf(" %s:%v", e.Name(), e.Type())
		}
	case "lstat", "stat":
		var st syscall.Stat_t
		if o.name == "stat" {
			err = syscall.Stat(r.p(o.a), &st)
		} else {
			err = syscall.Lstat(r.p(o.a), &st)
		}
		if err == nil {
			switch st.Mode & syscall.S_IFMT {
			case syscall.S_IFDIR:
				extra = " dir"
			case syscall.S_IFLNK:
				extra = " link"
			default:
				extra = " file"
			}
		}
	case "readlink":
		b := make([]byte, 4096)
		var n int
		if n, err = syscall.Readlink(r.p(o.a), b); err == nil {
			extra = " " + string(b[:n])
		}
	case "real":
		var fd int
		if fd, err = syscall.Open(r.p(o.a), 0x200000 /* O_PATH */, 0); err == nil {
			s, _ := os.Readlink(fmt.Sprintf("/proc/self/fd/%d", fd))
			syscall.Close(fd)
			extra = " " + strings.TrimPrefix(s, r.dir)
		}
	case "watch":
		var wd int
		if wd, err = syscall.InotifyAddWatch(r.fd, r.p(o.a), o.mask); err == nil {
			r.wds[o.a] = wd
			extra = fmt.Sprintf(" wd %d", wd)
		}
	case "unwatch":
		wd, ok := r.wds[o.a]
		if !ok {
			wd = 77
		}
		_, err = syscall.InotifyRmWatch(r.fd, uint32(wd))
	}
	return fmt.Sprintf("errno %d%s", int(errno(err)), extra)
}

func parse(b []byte) (out []kern.RawEvent) {
	for len(b) >= 16 {
		l := int(binary.NativeEndian.Uint32(b[12:]))
		out = append(out, kern.RawEvent{
			Wd:     int32(binary.NativeEndian.Uint32(b)),
			Mask:   binary.NativeEndian.Uint32(b[4:]),
			Cookie: binary.NativeEndian.Uint32(b[8:]),
			Name:   strings.TrimRight(string(b[16:16+l]), "\x00")})
		if l != 0 && l != (len(out[len(out)-1].Name)+1+15)/16*16 {
			out[len(out)-1].Name += fmt.Sprintf("!len %d", l)
		}
		b = b[16+l:]
	}
	return
}

func (r *real) drain() (out []kern.RawEvent) {
	for {
		n, err := syscall.Read(r.fd, r.buf)
		if err != nil || n <= 0 {
			return
		}
		out = append(out, parse(r.buf[:n])...)
	}
}

type sim struct {
	k   *kern.K
	dir string
	fd  int
	wds map[string]int
	h   *kern.Handle
	buf []byte
}

func (r *sim) p(s string) string { return r.dir + "/" + s }

func (r *sim) do(o op) string {
	k := r.k
	var err syscall.Errno
	extra := ""
	switch o.name {
	case "mkdir":
		err = k.Mkdir(r.p(o.a))
	case "create":
		err = k.Create(r.p(o.a))
	case "write":
		err = k.WriteFile(r.p(o.a))
	case "hopen":
		var h *kern.Handle
		if h, err = k.OpenWrite(r.p(o.a)); err == 0 {
			r.h = h
		}
	case "hwrite":
		err = syscall.EBADF
		if r.h != nil {
			err = k.Write(r.h)
		}
	case "hclose":
		err = syscall.EBADF
		if r.h != nil {
			err = k.CloseW(r.h)
			r.h = nil
		}
	case "read":
		if i, e := k.Lookup(r.p(o.a), true); e == 0 && i.Kind == kern.Dir {
			h, _ := k.OpenRead(r.p(o.a))
			h.Close()
			err = syscall.EISDIR
		} else {
			err = k.ReadFile(r.p(o.a))
		}
	case "chmod":
		err = k.Chmod(r.p(o.a), 0700)
	case "unlink":
		err = k.Unlink(r.p(o.a))
	case "rmdir":
		err = k.Rmdir(r.p(o.a))
	case "rename":
		err = k.Rename(r.p(o.a), r.p(o.b))
	case "symlink":
		err = k.Symlink(o.a, r.p(o.b))
	case "link":
		err = k.LinkFile(r.p(o.a), r.p(o.b))
	case "list":
		var h *kern.DirHandle
		if h, err = k.OpenRead(r.p(o.a)); err == 0 {
			var fis []*kern.FI
			fis, err = h.List()
			for _, f := range fis {
				extra += fmt.Sprintf(" %s:%v", f.Name(), f.Type())
			}
			h.Close()
		}
	case "lstat", "stat":
		var fi *kern.FI
		if fi, err = k.Stat(r.p(o.a), o.name == "stat"); err == 0 {
			switch {
			case fi.Mode()&os.ModeSymlink != 0:
				extra = " link"
			case fi.IsDir():
				extra = " dir"
			default:
				extra = " file"
			}
		}
	case "readlink":
		var s string
		if s, err = k.Readlink(r.p(o.a)); err == 0 {
			extra = " " + s
		}
	case "real":
		var s string
		if s, err = k.RealPath(r.p(o.a)); err == 0 {
			extra = " " + strings.TrimPrefix(s, r.dir)
		}
	case "watch":
		var wd int
		if wd, err = k.AddWatch(r.fd, r.p(o.a), o.mask); err == 0 {
			r.wds[o.a] = wd
			extra = fmt.Sprintf(" wd %d", wd)
		}
	case "unwatch":
		wd, ok := r.wds[o.a]
		if !ok {
			wd = 77
		}
		err = k.RmWatch(r.fd, int32(wd))
	}
	return fmt.Sprintf("errno %d%s", int(err), extra)
}

func (r *sim) drain() []kern.RawEvent {
	var out []kern.RawEvent
	for {
		n, err := r.k.ReadFD(r.fd, r.buf)
		if err != 0 || n <= 0 {
			return out
		}
		out = append(out, parse(r.buf[:n])...)
	}
}

// cookies are compared up to renaming
func canon(es []kern.RawEvent, m map[uint32]uint32) string {
	var sb strings.Builder
	for _, e := range es {
		if e.Cookie != 0 {
			if _, ok := m[e.Cookie]; !ok {
				m[e.Cookie] = uint32(len(m) + 1)
			}
			e.Cookie = m[e.Cookie]
		}
		fmt.Fprintf(&sb, "%v;", e)
	}
	return sb.String()
}

var (
	nSeq, nStep, nEv, nBad int64
	mu                     sync.Mutex
	firstBad               string
)

// runSeq compares one sequence. The real kernel may repeat a directory read
// when a signal arrives, so a difference counts if it shows three times.
func runSeq(base string, setup []op, seq []op, late bool) {
	atomic.AddInt64(&nSeq, 1)
	bad := ""
	for i := 0; i < 3; i++ {
		if bad = runOnce(base, setup, seq, late); bad == "" {
			return
		}
	}
	atomic.AddInt64(&nBad, 1)
	mu.Lock()
	if firstBad == "" || len(bad) < len(firstBad) {
		firstBad = bad
	}
	mu.Unlock()
}

func runOnce(base string, setup []op, seq []op, late bool) string {
	os.RemoveAll(base)
	if err := os.Mkdir(base, 0755); err != nil {
		panic(err)
	}
	fd, err := syscall.InotifyInit1(syscall.O_NONBLOCK | syscall.O_CLOEXEC)
	if err != nil {
		panic(err)
	}
	r := &real{dir: base, fd: fd, wds: map[string]int{}, hs: map[string]int{}, buf: make([]byte, 65536)}
	defer func() {
		syscall.Close(fd)
		for _, h := range r.hs {
			syscall.Close(h)
		}
	}()
	k := kern.New()
	for i := 1; i <= len(base); i++ {
		if i == len(base) || base[i] == '/' {
			k.Mkdir(base[:i])
		}
	}
	sfd, _ := k.InotifyInit(syscall.O_NONBLOCK)
	s := &sim{k: k, dir: base, fd: sfd, wds: map[string]int{}, buf: make([]byte, 65536)}
	cr, cs := map[uint32]uint32{}, map[uint32]uint32{}
	all := append(append([]op{}, setup...), seq...)
	for i, o := range all {
		a, b := r.do(o), s.do(o)
		ea, eb := "", ""
		if !late || i == len(all)-1 {
			x := r.drain()
			atomic.AddInt64(&nEv, int64(len(x)))
			ea, eb = canon(x, cr), canon(s.drain(), cs)
		}
		atomic.AddInt64(&nStep, 1)
		if a != b || ea != eb {
			return fmt.Sprintf("after %v (late=%v):\n real: %s %s\n sim:  %s %s", all[:i+1], late, a, ea, b, eb)
		}
	}
	return ""
}

func main() {
	depth := flag.Int("depth", 2, "sequence length")
	dir := flag.String("dir", "", "scratch directory")
	workers := flag.Int("workers", 64, "")
	limit := flag.Int("links", 2, "symlink sequence length")
	flag.Parse()
	root, err := os.MkdirTemp(*dir, "conform")
	if err != nil {
		panic(err)
	}
	root, _ = filepath.EvalSymlinks(root)
	defer os.RemoveAll(root)

	const all = 0xfff
	setups := [][]op{
		{{name: "mkdir", a: "a"}, {name: "create", a: "f"}, {name: "watch", a: ".", mask: all}, {name: "watch", a: "a", mask: all}, {name: "watch", a: "f", mask: all}},
		{{name: "mkdir", a: "a"}, {name: "mkdir", a: "a/c"}, {name: "write", a: "a/f"}, {name: "watch", a: "a", mask: all}, {name: "watch", a: "a/c", mask: all}, {name: "watch", a: "a/f", mask: all}},
	}
	var ops []op
	add := func(n string, xs ...string) {
		for _, x := range xs {
			ab := strings.SplitN(x, " ", 2)
			o := op{name: n, a: ab[0]}
			if len(ab) > 1 {
				o.b = ab[1]
			}
			ops = append(ops, o)
		}
	}
	add("mkdir", "b", "a/c")
	add("create", "b", "a/f")
	add("write", "f", "a/f")
	add("unlink", "f", "a/f", "b")
	add("rmdir", "a", "a/c", "b")
	add("rename", "a b", "f b", "f a/f", "a/f f", "a/c b", "b a", "b f")
	add("chmod", "a", "f", "a/f")
	add("link", "f b")
	add("symlink", "f b")
	add("list", "a")
	add("read", "f")
	add("hopen", "f")
	add("hwrite", "")
	add("hclose", "")
	add("unwatch", "a", "f")
	for _, w := range []op{{name: "watch", a: "a", mask: 0x100 | 0x200}, {name: "watch", a: "b", mask: all}, {name: "watch", a: "a/c", mask: 0x2}, {name: "watch", a: "f", mask: 0x400}} {
		ops = append(ops, w)
	}

	type job struct {
		setup, seq []op
		late       bool
	}
	jobs := make(chan job, 1024)
	var wg sync.WaitGroup
	for w := 0; w < *workers; w++ {
		wg.Add(1)
		base := fmt.Sprintf("%s/w%d", root, w)
		go func() {
			defer wg.Done()
			for j := range jobs {
				runSeq(base, j.setup, j.seq, j.late)
			}
		}()
	}
	for _, s := range setups {
		idx := make([]int, *depth)
		for {
			seq := make([]op, *depth)
			for i, x := range idx {
				seq[i] = ops[x]
			}
			jobs <- job{s, seq, false}
			if seq[len(seq)-1].name != "watch" {
				jobs <- job{s, seq, true}
			}
			i := len(idx) - 1
			for i >= 0 {
				idx[i]++
				if idx[i] < len(ops) {
					break
				}
				idx[i] = 0
				i--
			}
			if i < 0 {
				break
			}
		}
	}
	// link resolution: all small link structures, all queries
	targets := []string{"a", "b", "f", "a/c", "../f", "..", ".", "l1", "l2", "a/l2", "./l1", "../l1/c", "l1/", "//", "zz", "@/a", "@/l1", "@//a/../f"}
	var queries []op
	for _, q := range []string{"l1", "l2", "a/l2", "l1/c", "l2/c", "l1/..", "l1/../f", "a/l2/f", "l1/l2", "a/../l1/.", "l1/", "f/", "f/..", "./l1//c"} {
		for _, n := range []string{"lstat", "stat", "readlink", "real"} {
			queries = append(queries, op{name: n, a: q})
		}
	}
	_ = limit
	for _, t1 := range targets {
		for _, t2 := range targets {
			for _, where := range []string{"l2", "a/l2"} {
				mk := func(base string) []op {
					fix := func(t string) string { return strings.Replace(t, "@", base, 1) }
					return []op{{name: "mkdir", a: "a"}, {name: "mkdir", a: "a/c"}, {name: "create", a: "f"},
						{name: "symlink", a: fix(t1), b: "l1"}, {name: "symlink", a: fix(t2), b: where}}
				}
				// absolute targets name the worker's own directory: run them on a private one
				base := root + "/links"
				runSeq(base, mk(base), queries, true)
			}
		}
	}
	close(jobs)
	wg.Wait()
	json.NewEncoder(os.Stdout).Encode(map[string]any{"sequences": nSeq, "steps": nStep, "events": nEv, "mismatches": nBad, "first": firstBad, "depth": *depth})
	if nBad > 0 {
		os.RemoveAll(root)
		os.Exit(1)
	}
}
