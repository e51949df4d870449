// Package vfilepath replaces the parts of path/filepath that touch the file system.
package vfilepath

import (
	"io/fs"
	"path/filepath"
	"vshim/vos"
)

func Abs(p string) (string, error) {
	if filepath.IsAbs(p) {
		return filepath.Clean(p), nil
	}
	d, err := vos.Getwd()
	if err != nil {
		return "", err
	}
	return filepath.Join(d, p), nil
}
func EvalSymlinks(p string) (string, error) {
	if _, err := vos.Stat(p); err != nil {
		return "", err
	}
	return filepath.Clean(p), nil
}
func Glob(pattern string) ([]string, error) {
	var l []string
	dir := filepath.Dir(pattern)
	es, err := vos.ReadDir(dir)
	if err != nil {
		return nil, nil
	}
	for _, e := range es {
		if ok, err := filepath.Match(filepath.Base(pattern), e.Name()); err != nil {
			return nil, err
		} else if ok {
			l = append(l, filepath.Join(dir, e.Name()))
		}
	}
	return l, nil
}

func Walk(root string, fn filepath.WalkFunc) error {
	info, err := vos.Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walk(root, info, fn)
	}
	if err == filepath.SkipDir || err == filepath.SkipAll {
		return nil
	}
	return err
}

func walk(path string, info fs.FileInfo, fn filepath.WalkFunc) error {
	if !info.IsDir() {
		return fn(path, info, nil)
	}
	var names []string
	f, err := vos.Open(path)
	if err == nil {
		names, err = f.Readdirnames(-1)
		f.Close()
	}
	err1 := fn(path, info, err)
	if err != nil || err1 != nil {
		return err1
	}
	for _, n := range names {
		p := filepath.Join(path, n)
		i, err := vos.Lstat(p)
		if err != nil {
			if err := fn(p, i, err); err != nil && err != filepath.SkipDir {
				return err
			}
			continue
		}
		err = walk(p, i, fn)
		if err != nil && (!i.IsDir() || err != filepath.SkipDir) {
			return err
		}
	}
	return nil
}

func WalkDir(root string, fn fs.WalkDirFunc) error {
	return Walk(root, func(p string, i fs.FileInfo, err error) error {
		if i == nil {
			return fn(p, nil, err)
		}
		return fn(p, fs.FileInfoToDirEntry(i), err)
	})
}
