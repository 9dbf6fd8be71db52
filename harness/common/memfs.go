// Package memfs is an in-memory fs.FS for the harnesses.
package memfs

import (
	"errors"
	"io"
	"io/fs"
	"time"

	"github.com/webrpc/webrpc/schema"
	"github.com/webrpc/webrpc/schema/ridl"
)

// FS maps paths to contents.
type FS map[string]string

var errNotExist = errors.New("file does not exist")

func (f FS) ReadFile(name string) ([]byte, error) {
	for k, v := range f {
		if k == name {
			return []byte(v), nil
		}
	}
	return nil, &fs.PathError{Op: "open", Path: name, Err: errNotExist}
}

func (f FS) Open(name string) (fs.File, error) {
	b, err := f.ReadFile(name)
	if err != nil {
		return nil, err
	}
	return &file{b: b, name: name}, nil
}

type file struct {
	b    []byte
	name string
}

func (f *file) Stat() (fs.FileInfo, error) { return f, nil }
func (f *file) Close() error               { return nil }
func (f *file) Read(p []byte) (int, error) {
	if len(f.b) == 0 {
		return 0, io.EOF
	}
	n := copy(p, f.b)
	f.b = f.b[n:]
	return n, nil
}
func (f *file) Name() string       { return f.name }
func (f *file) Size() int64        { return int64(len(f.b)) }
func (f *file) Mode() fs.FileMode  { return 0o444 }
func (f *file) ModTime() time.Time { return time.Time{} }
func (f *file) IsDir() bool        { return false }
func (f *file) Sys() any           { return nil }

// Parse parses one RIDL text.
func Parse(src string) (*schema.WebRPCSchema, error) {
	return ridl.NewParser(FS{"a.ridl": src}, "", "a.ridl").Parse()
}
