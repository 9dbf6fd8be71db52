// Package vsprig stands in for sprig.
package vsprig

// FuncMap has functions that webrpc-gen replaces and some it leaves.
func FuncMap() map[string]any {
	r := map[string]any{}
	for _, n := range []string{"trim", "upper", "join", "split", "first", "last", "dict", "get", "set", "default", "coalesce", "ternary", "append", "list", "hasPrefix", "hasSuffix", "trimPrefix", "trimSuffix"} {
		r[n] = func() string { return "sprig" }
	}
	return r
}
func TxtFuncMap() map[string]any     { return FuncMap() }
func GenericFuncMap() map[string]any { return FuncMap() }
