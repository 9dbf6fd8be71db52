// Package vvfsutil stands in for httpfs/vfsutil.
package vvfsutil

import (
	"io"

	"github.com/webrpc/webrpc/internal/vhttp"
)

func ReadFile(fs vhttp.FileSystem, name string) ([]byte, error) {
	f, err := fs.Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}
