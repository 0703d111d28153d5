// Package filepath replaces the functions of package path/filepath that reach
// the operating system.
package filepath

import (
	"errors"
	"io/fs"
	"path/filepath"
	"syscall"

	"vmc/kern"
	vos "vmc/vos"
)

func Abs(p string) (string, error) {
	if filepath.IsAbs(p) {
		return filepath.Clean(p), nil
	}
	wd, err := vos.Getwd()
	if err != nil {
		return "", err
	}
	return filepath.Join(wd, p), nil
}

func EvalSymlinks(p string) (string, error) {
	if kern.Cur() == nil {
		return "", errors.New("execution is over")
	}
	// one lstat for the sake of the scheduling point
	if _, err := vos.Lstat(p); err != nil {
		return "", err
	}
	s, e := kern.Cur().RealPath(p)
	if e != 0 {
		return "", &fs.PathError{Op: "lstat", Path: p, Err: syscall.Errno(e)}
	}
	return s, nil
}

func Walk(root string, fn filepath.WalkFunc) error {
	info, err := vos.Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walk(root, info, fn)
	}
	if err == filepath.SkipDir || err == filepath.SkipAll {
		return nil
	}
	return err
}

func walk(p string, info fs.FileInfo, fn filepath.WalkFunc) error {
	if !info.IsDir() {
		return fn(p, info, nil)
	}
	es, err := vos.ReadDir(p)
	err1 := fn(p, info, err)
	if err != nil || err1 != nil {
		return err1
	}
	for _, e := range es {
		n := filepath.Join(p, e.Name())
		fi, err := vos.Lstat(n)
		if err != nil {
			if err := fn(n, fi, err); err != nil && err != filepath.SkipDir {
				return err
			}
			continue
		}
		if err = walk(n, fi, fn); err != nil {
			if !fi.IsDir() || err != filepath.SkipDir {
				return err
			}
		}
	}
	return nil
}

func WalkDir(root string, fn fs.WalkDirFunc) error {
	info, err := vos.Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walkDir(root, fs.FileInfoToDirEntry(info), fn)
	}
	if err == filepath.SkipDir || err == filepath.SkipAll {
		return nil
	}
	return err
}

func walkDir(p string, d fs.DirEntry, fn fs.WalkDirFunc) error {
	if err := fn(p, d, nil); err != nil || !d.IsDir() {
		if err == filepath.SkipDir && d.IsDir() {
			err = nil
		}
		return err
	}
	es, err := vos.ReadDir(p)
	if err != nil {
		if err = fn(p, d, err); err != nil {
			if err == filepath.SkipDir && d.IsDir() {
				err = nil
			}
			return err
		}
	}
	for _, e := range es {
		if err := walkDir(filepath.Join(p, e.Name()), e, fn); err != nil {
			if err == filepath.SkipDir {
				break
			}
			return err
		}
	}
	return nil
}
