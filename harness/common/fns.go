// Package fns calls the template functions the way templates do.
package fns

import (
	"fmt"
	"reflect"

	"github.com/webrpc/webrpc/gen"
	"github.com/webrpc/webrpc/internal/vos"
	"github.com/webrpc/webrpc/internal/vsym"
	"github.com/webrpc/webrpc/internal/vtemplate"
)

var funcs map[string]any

// Load fetches the template functions of a new template.
func Load() {
	vos.Reset()
	opts := map[string]any{"pkg": "proto"}
	if _, err := gen.NewTemplateSource("golang", &gen.Config{TemplateOptions: opts}); err != nil {
		vsym.Fail("no template source")
	}
	funcs = vtemplate.Last.FuncMap()
}

// Has says whether templates have the function.
func Has(name string) bool { return funcs[name] != nil }

// Call calls a function. Like in templates, a panic or an error result is an
// error.
func Call(name string, args ...any) (out any, err error) {
	fn := funcs[name]
	if fn == nil {
		vsym.Fail("template function " + name + " is missing")
	}
	defer func() {
		if r := recover(); r != nil {
			if x, ok := r.(vos.Exited); ok {
				panic(x)
			}
			out, err = nil, fmt.Errorf("panic")
		}
	}()
	v := reflect.ValueOf(fn)
	t := v.Type()
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		var pt reflect.Type
		if t.IsVariadic() && i >= t.NumIn()-1 {
			pt = t.In(t.NumIn() - 1).Elem()
		} else {
			pt = t.In(i)
		}
		if a == nil {
			in[i] = reflect.Zero(pt)
		} else {
			in[i] = reflect.ValueOf(a)
		}
	}
	res := v.Call(in)
	if len(res) == 2 && !res[1].IsNil() {
		return nil, res[1].Interface().(error)
	}
	return res[0].Interface(), nil
}

// Str calls a function that must return a text.
func Str(name string, args ...any) string {
	out, err := Call(name, args...)
	s, ok := out.(string)
	if err != nil || !ok {
		vsym.Fail(name + " gives no text")
	}
	return s
}

// Bool calls a function that must return a truth value.
func Bool(name string, args ...any) bool {
	out, err := Call(name, args...)
	b, ok := out.(bool)
	if err != nil || !ok {
		vsym.Fail(name + " gives no truth value")
	}
	return b
}

// Seq calls a function that must return a list.
func Seq(name string, args ...any) []any {
	out, err := Call(name, args...)
	l, ok := out.([]any)
	if err != nil || !ok {
		vsym.Fail(name + " gives no list")
	}
	return l
}
