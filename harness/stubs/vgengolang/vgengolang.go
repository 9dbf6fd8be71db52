// Package vgengolang stands in for the golang templates.
package vgengolang

import "github.com/webrpc/webrpc/internal/vembed"

var FS = vembed.FS{Names: []string{"main.go.tmpl", "other.txt", "types.go.tmpl"}, Texts: []string{"golang-main", "none", "golang-types"}}
