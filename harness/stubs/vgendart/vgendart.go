// Package vgendart stands in for the dart templates.
package vgendart

import "github.com/webrpc/webrpc/internal/vembed"

var FS = vembed.FS{Names: []string{"main.go.tmpl", "other.txt", "types.go.tmpl"}, Texts: []string{"dart-main", "none", "dart-types"}}
