// Package vgenkotlin stands in for the kotlin templates.
package vgenkotlin

import "github.com/webrpc/webrpc/internal/vembed"

var FS = vembed.FS{Names: []string{"main.go.tmpl", "other.txt", "types.go.tmpl"}, Texts: []string{"kotlin-main", "none", "kotlin-types"}}
