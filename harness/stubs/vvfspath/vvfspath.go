// Package vvfspath stands in for httpfs/path/vfspath.
package vvfspath

import (
	"path"

	"github.com/webrpc/webrpc/internal/vhttp"
)

// Glob lists the files of one directory that match.
func Glob(fs vhttp.FileSystem, pattern string) (r []string, err error) {
	dir, base := path.Split(pattern)
	dir = path.Clean(dir)
	d, err := fs.Open(dir)
	if err != nil {
		return nil, nil
	}
	l, err := d.Readdir(-1)
	if err != nil {
		return nil, nil
	}
	for _, i := range l {
		ok, err := path.Match(base, i.Name())
		if err != nil {
			return nil, err
		}
		if ok {
			r = append(r, path.Join(dir, i.Name()))
		}
	}
	for i := range r {
		for k := i; k > 0 && r[k] < r[k-1]; k-- {
			r[k], r[k-1] = r[k-1], r[k]
		}
	}
	return r, nil
}
