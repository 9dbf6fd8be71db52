// Package vimports stands in for x/tools/imports.
package vimports

import "errors"

type Options struct {
	Fragment, AllErrors, Comments, TabIndent, FormatOnly bool
	TabWidth                                             int
}

// Fail makes formatting fail.
var Fail bool

// LocalPrefix is ignored.
var LocalPrefix string

func Process(name string, src []byte, o *Options) ([]byte, error) {
	if Fail {
		return nil, errors.New("cannot format")
	}
	return append([]byte("formatted "), src...), nil
}
