// Package vgenopenapi stands in for the openapi templates.
package vgenopenapi

import "github.com/webrpc/webrpc/internal/vembed"

var FS = vembed.FS{Names: []string{"main.go.tmpl", "other.txt", "types.go.tmpl"}, Texts: []string{"openapi-main", "none", "openapi-types"}}
