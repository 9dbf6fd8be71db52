// Package vgentypescript stands in for the typescript templates.
package vgentypescript

import "github.com/webrpc/webrpc/internal/vembed"

var FS = vembed.FS{Names: []string{"main.go.tmpl", "other.txt", "types.go.tmpl"}, Texts: []string{"typescript-main", "none", "typescript-types"}}
