// Package os replaces the parts of package os that reach the operating system.
package os

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"

	"vmc/kern"
	"vmc/vs"
)

func perr(op, p string, e syscall.Errno) error { return &os.PathError{Op: op, Path: p, Err: e} }

func dead() bool { return vs.W != nil && !vs.Active() }

var errDead = errors.New("execution is over")

func Lstat(p string) (os.FileInfo, error) {
	if dead() || kern.Cur() == nil {
		return nil, errDead
	}
	fi, e := kern.Cur().Stat(p, false)
	if e != 0 {
		return nil, perr("lstat", p, e)
	}
	return fi, nil
}

func Stat(p string) (os.FileInfo, error) {
	if dead() || kern.Cur() == nil {
		return nil, errDead
	}
	fi, e := kern.Cur().Stat(p, true)
	if e != 0 {
		return nil, perr("stat", p, e)
	}
	return fi, nil
}

func Readlink(p string) (string, error) {
	if dead() || kern.Cur() == nil {
		return "", errDead
	}
	s, e := kern.Cur().Readlink(p)
	if e != 0 {
		return "", perr("readlink", p, e)
	}
	return s, nil
}

func Getwd() (string, error) {
	if dead() || kern.Cur() == nil {
		return "", errDead
	}
	return kern.Cur().Cwd, nil
}

func SameFile(a, b os.FileInfo) bool {
	x, ok := a.(*kern.FI)
	y, ok2 := b.(*kern.FI)
	return ok && ok2 && x.Ino == y.Ino
}

// File is an open directory or file.
type File struct {
	h    *kern.DirHandle
	name string
	list []*kern.FI
	got  bool
	pos  int
	real *os.File
}

func Open(p string) (*File, error) {
	if dead() || kern.Cur() == nil {
		return nil, errDead
	}
	h, e := kern.Cur().OpenRead(p)
	if e != 0 {
		return nil, perr("open", p, e)
	}
	return &File{h: h, name: p}, nil
}

func OpenFile(p string, flag int, perm os.FileMode) (*File, error) { return Open(p) }

func (f *File) Name() string { return f.name }

func (f *File) Fd() uintptr { return uintptr(f.h.FD()) }

func (f *File) Close() error {
	if f == nil || f.h == nil {
		return os.ErrInvalid
	}
	if e := f.h.Close(); e != 0 {
		return perr("close", f.name, e)
	}
	return nil
}

func (f *File) Stat() (os.FileInfo, error) {
	return Stat(f.name)
}

func (f *File) fill() error {
	if dead() {
		return errDead
	}
	if !f.got {
		l, e := f.h.List()
		if e != 0 {
			return perr("readdirent", f.name, e)
		}
		f.list, f.got = l, true
	}
	return nil
}

func (f *File) take(n int) (out []*kern.FI, err error) {
	if err = f.fill(); err != nil {
		return
	}
	rest := f.list[f.pos:]
	if n > 0 {
		if len(rest) == 0 {
			return nil, io.EOF
		}
		if len(rest) > n {
			rest = rest[:n]
		}
	}
	f.pos += len(rest)
	return rest, nil
}

func (f *File) Readdir(n int) (out []os.FileInfo, err error) {
	l, err := f.take(n)
	if err != nil {
		return nil, err
	}
	for _, x := range l {
		// package os calls lstat for every name and skips those that are gone
		fi, e := Lstat(strings.TrimSuffix(f.name, "/") + "/" + x.N)
		if e != nil {
			if os.IsNotExist(e) {
				continue
			}
			return out, e
		}
		out = append(out, fi)
	}
	return
}

func (f *File) ReadDir(n int) (out []os.DirEntry, err error) {
	l, err := f.take(n)
	if err != nil {
		return nil, err
	}
	for _, x := range l {
		out = append(out, &dirEntry{x, strings.TrimSuffix(f.name, "/") + "/" + x.N})
	}
	return
}

func (f *File) Readdirnames(n int) (out []string, err error) {
	l, err := f.take(n)
	if err != nil {
		return nil, err
	}
	for _, x := range l {
		out = append(out, x.N)
	}
	return
}

type dirEntry struct {
	f *kern.FI
	p string
}

func (d *dirEntry) Name() string               { return d.f.N }
func (d *dirEntry) IsDir() bool                { return d.f.IsDir() }
func (d *dirEntry) Type() fs.FileMode          { return d.f.Type() }
func (d *dirEntry) Info() (fs.FileInfo, error) { return Lstat(d.p) }

func ReadDir(p string) ([]os.DirEntry, error) {
	f, err := Open(p)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	es, err := f.ReadDir(-1)
	sort.Slice(es, func(i, j int) bool { return es[i].Name() < es[j].Name() })
	return es, err
}

// dirFS is os.DirFS for what fs.WalkDir and fs.ReadDir need.
type dirFS string

func DirFS(dir string) fs.FS { return dirFS(dir) }

func (d dirFS) full(n string) string {
	if n == "." {
		return string(d)
	}
	return filepath.Join(string(d), n)
}
func (d dirFS) Open(n string) (fs.File, error)          { return nil, perr("open", n, syscall.ENOSYS) }
func (d dirFS) ReadDir(n string) ([]os.DirEntry, error) { return ReadDir(d.full(n)) }
func (d dirFS) Stat(n string) (os.FileInfo, error)      { return Stat(d.full(n)) }
