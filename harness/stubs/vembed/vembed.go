// Package vembed stands in for embed.
package vembed

import (
	"io"
	"io/fs"
	"time"
)

// FS has files, sorted by name, all in the root.
type FS struct{ Names, Texts []string }

type node struct {
	name, text string
	dir        bool
	all        []fs.DirEntry
}

func (f FS) list() (r []fs.DirEntry) {
	for i, n := range f.Names {
		r = append(r, &node{name: n, text: f.Texts[i]})
	}
	return
}

func (f FS) Open(name string) (fs.File, error) {
	if name == "." {
		return &node{name: ".", dir: true, all: f.list()}, nil
	}
	for i, n := range f.Names {
		if n == name {
			return &node{name: n, text: f.Texts[i]}, nil
		}
	}
	return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrNotExist}
}

func (f FS) ReadFile(name string) ([]byte, error) {
	for i, n := range f.Names {
		if n == name {
			return []byte(f.Texts[i]), nil
		}
	}
	return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrNotExist}
}

func (f FS) ReadDir(name string) ([]fs.DirEntry, error) {
	if name != "." {
		return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrNotExist}
	}
	return f.list(), nil
}

func (n *node) Stat() (fs.FileInfo, error)         { return n, nil }
func (n *node) Info() (fs.FileInfo, error)         { return n, nil }
func (n *node) Close() error                       { return nil }
func (n *node) ReadDir(int) ([]fs.DirEntry, error) { return n.all, nil }
func (n *node) Read(p []byte) (int, error) {
	if n.text == "" {
		return 0, io.EOF
	}
	c := copy(p, n.text)
	n.text = n.text[c:]
	return c, nil
}
func (n *node) Name() string       { return n.name }
func (n *node) Size() int64        { return int64(len(n.text)) }
func (n *node) Type() fs.FileMode  { return n.Mode().Type() }
func (n *node) ModTime() time.Time { return time.Time{} }
func (n *node) IsDir() bool        { return n.dir }
func (n *node) Sys() any           { return nil }
func (n *node) Mode() fs.FileMode {
	if n.dir {
		return fs.ModeDir | 0o555
	}
	return 0o444
}
