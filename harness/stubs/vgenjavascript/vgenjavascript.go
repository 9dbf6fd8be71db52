// Package vgenjavascript stands in for the javascript templates.
package vgenjavascript

import "github.com/webrpc/webrpc/internal/vembed"

var FS = vembed.FS{Names: []string{"main.go.tmpl", "other.txt", "types.go.tmpl"}, Texts: []string{"javascript-main", "none", "javascript-types"}}
