// Package vgitfs stands in for gitfs: repositories by name, in memory.
package vgitfs

import (
	"context"
	"errors"
	"io/fs"

	"github.com/webrpc/webrpc/internal/vhttp"
	"github.com/webrpc/webrpc/internal/vos"
)

// Repo is what a fetch returns.
type Repo struct {
	Names, Texts []string
	Err          bool
	BadRead      string // the file that cannot be read
}

var (
	Repos   map[string]Repo
	Fetched []string
)

func Reset() { Repos, Fetched = map[string]Repo{}, nil }

type Option func()

func OptPrefetch(bool) Option  { return nil }
func OptGlob(...string) Option { return nil }
func OptLocal(string) Option   { return nil }
func OptClient(any) Option     { return nil }

var ErrFetch = errors.New("fetch failed")

type fsys struct {
	root string
	r    Repo
}

// New fetches a repository.
func New(ctx context.Context, target string, opts ...Option) (vhttp.FileSystem, error) {
	Fetched = append(Fetched, target)
	r, ok := Repos[target]
	if !ok || r.Err {
		return nil, ErrFetch
	}
	root := "/.git-" + string(rune('a'+len(Fetched)))
	for i, n := range r.Names {
		vos.Put(root+"/"+n, r.Texts[i])
	}
	return fsys{root, r}, nil
}

func (f fsys) Open(name string) (vhttp.File, error) {
	if f.r.BadRead != "" && name == "/"+f.r.BadRead {
		return nil, &fs.PathError{Op: "open", Path: name, Err: ErrFetch}
	}
	return vhttp.Dir(f.root).Open(name)
}
