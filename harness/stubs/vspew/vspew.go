// Package vspew stands in for go-spew.
package vspew

import "io"

type ConfigState struct {
	Indent                                                         string
	MaxDepth                                                       int
	DisableMethods, DisablePointerMethods, DisablePointerAddresses bool
	DisableCapacities, ContinueOnMethod, SortKeys, SpewKeys        bool
}

var Dumped []any

func NewDefaultConfig() *ConfigState { return &ConfigState{} }

func (c *ConfigState) Sdump(a ...any) string { Dumped = a; return "dump" }

func Sdump(a ...any) string { Dumped = a; return "dump" }

var Config = ConfigState{Indent: " "}

func NewTestConfig() *ConfigState { return &ConfigState{} }

func (c *ConfigState) Fdump(w io.Writer, a ...any) { io.WriteString(w, c.Sdump(a...)) }
func Fdump(w io.Writer, a ...any)                  { io.WriteString(w, Sdump(a...)) }
