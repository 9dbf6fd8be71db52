// Package vvfstemplate stands in for httpfs/text/vfstemplate.
package vvfstemplate

import (
	"errors"
	"path"

	"github.com/webrpc/webrpc/internal/vhttp"
	"github.com/webrpc/webrpc/internal/vtemplate"
	"github.com/webrpc/webrpc/internal/vvfspath"
	"github.com/webrpc/webrpc/internal/vvfsutil"
)

func ParseGlob(fs vhttp.FileSystem, t *vtemplate.Template, pattern string) (*vtemplate.Template, error) {
	l, err := vvfspath.Glob(fs, pattern)
	if err != nil {
		return nil, err
	}
	return ParseFiles(fs, t, l...)
}

func ParseFiles(fs vhttp.FileSystem, t *vtemplate.Template, names ...string) (*vtemplate.Template, error) {
	if len(names) == 0 {
		return nil, errors.New("vfs/text/vfstemplate: no files named in call to ParseFiles")
	}
	for _, n := range names {
		b, err := vvfsutil.ReadFile(fs, n)
		if err != nil {
			return nil, err
		}
		if t, err = t.Add(path.Base(n), string(b)); err != nil {
			return nil, err
		}
	}
	return t, nil
}
