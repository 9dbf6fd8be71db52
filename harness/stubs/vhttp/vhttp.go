// Package vhttp stands in for the file systems of net/http.
package vhttp

import (
	"io"
	"io/fs"
	"path"

	"github.com/webrpc/webrpc/internal/vos"
)

type File interface {
	io.Closer
	io.Reader
	io.Seeker
	Readdir(count int) ([]vos.FileInfo, error)
	Stat() (vos.FileInfo, error)
}

type FileSystem interface {
	Open(name string) (File, error)
}

// Dir is a directory.
type Dir string

func (d Dir) Open(name string) (File, error) {
	return vos.Open(path.Join(string(d), path.Clean("/"+name)))
}

// FS is the file system of an fs.FS.
func FS(f fs.FS) FileSystem { return ioFS{f} }

type ioFS struct{ f fs.FS }

func (f ioFS) Open(name string) (File, error) {
	n := path.Clean("/" + name)[1:]
	if n == "" {
		n = "."
	}
	x, err := f.f.Open(n)
	if err != nil {
		return nil, err
	}
	if g, ok := x.(interface{ Std() *vos.File }); ok {
		return g.Std(), nil
	}
	x.Close()
	return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrInvalid}
}
