// Package vfilepath stands in for path/filepath, with the working directory of
// vos.
package vfilepath

import (
	"path"
	"path/filepath"

	"github.com/webrpc/webrpc/internal/vos"
)

const (
	Separator     = '/'
	ListSeparator = ':'
)

func Abs(p string) (string, error) {
	if path.IsAbs(p) {
		return path.Clean(p), nil
	}
	return path.Join(vos.Cwd, p), nil
}

func IsAbs(p string) bool                   { return path.IsAbs(p) }
func Base(p string) string                  { return filepath.Base(p) }
func Clean(p string) string                 { return path.Clean(p) }
func Dir(p string) string                   { return filepath.Dir(p) }
func Ext(p string) string                   { return path.Ext(p) }
func FromSlash(p string) string             { return p }
func ToSlash(p string) string               { return p }
func Join(e ...string) string               { return path.Join(e...) }
func Match(pat, n string) (bool, error)     { return path.Match(pat, n) }
func Rel(b, t string) (string, error)       { return filepath.Rel(b, t) }
func Split(p string) (string, string)       { return path.Split(p) }
func VolumeName(p string) string            { return "" }
func EvalSymlinks(p string) (string, error) { return path.Clean(p), nil }
func SplitList(p string) []string           { return filepath.SplitList(p) }
func IsLocal(p string) bool                 { return filepath.IsLocal(p) }

var SkipDir, SkipAll = filepath.SkipDir, filepath.SkipAll

type (
	WalkFunc    func(path string, info vos.FileInfo, err error) error
	WalkDirFunc = func(path string, d vos.DirEntry, err error) error
)

// Glob lists the files of one directory that match.
func Glob(pattern string) (r []string, err error) {
	dir, base := path.Split(pattern)
	if _, err := path.Match(base, ""); err != nil {
		return nil, err
	}
	d := dir
	if d == "" {
		d = "."
	}
	l, err := vos.ReadDir(d)
	if err != nil {
		return nil, nil
	}
	for _, e := range l {
		if ok, _ := path.Match(base, e.Name()); ok {
			r = append(r, path.Join(dir, e.Name()))
		}
	}
	return r, nil
}

// WalkDir visits the tree below root.
func WalkDir(root string, fn WalkDirFunc) error {
	i, err := vos.Stat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walk(root, i.(vos.DirEntry), fn)
	}
	if err == SkipDir || err == SkipAll {
		return nil
	}
	return err
}

func walk(p string, d vos.DirEntry, fn WalkDirFunc) error {
	if err := fn(p, d, nil); err != nil || !d.IsDir() {
		if err == SkipDir && d.IsDir() {
			return nil
		}
		return err
	}
	l, err := vos.ReadDir(p)
	if err != nil {
		return fn(p, d, err)
	}
	for _, e := range l {
		if err := walk(path.Join(p, e.Name()), e, fn); err != nil {
			if err == SkipDir {
				break
			}
			return err
		}
	}
	return nil
}

func Walk(root string, fn WalkFunc) error {
	return WalkDir(root, func(p string, d vos.DirEntry, err error) error {
		var i vos.FileInfo
		if d != nil {
			i, _ = d.Info()
		}
		return fn(p, i, err)
	})
}
