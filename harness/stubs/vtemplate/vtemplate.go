// Package vtemplate stands in for text/template. Templates are their sources;
// their output lists them.
package vtemplate

import (
	"errors"
	"io"
	"io/fs"
	"path"
	"strings"
	"text/template"

	"github.com/webrpc/webrpc/internal/vos"
)

type FuncMap map[string]any

type Template struct {
	name         string
	funcs        map[string]any
	Names, Texts []string
}

var (
	Last *Template // the last template made
	Data any       // what the last execution was given
	Fail bool      // executions fail
)

func New(name string) *Template {
	Last = &Template{name: name, funcs: map[string]any{}}
	return Last
}

func Must(t *Template, err error) *Template {
	if err != nil {
		panic(err)
	}
	return t
}

func (t *Template) Name() string { return t.name }

func (t *Template) Funcs(m map[string]any) *Template {
	for k, v := range m {
		t.funcs[k] = v
	}
	return t
}

// FuncMap gives the functions.
func (t *Template) FuncMap() map[string]any { return t.funcs }

// Option is ignored.
func (t *Template) Option(o ...string) *Template { return t }

// Add parses one source; a text with "{{" left open is an error.
func (t *Template) Add(name, text string) (*Template, error) {
	if strings.Count(text, "{{") != strings.Count(text, "}}") {
		return nil, errors.New("template: " + name + ": unclosed action")
	}
	for i, n := range t.Names {
		if n == name {
			t.Texts[i] = text
			return t, nil
		}
	}
	t.Names, t.Texts = append(t.Names, name), append(t.Texts, text)
	return t, nil
}

func (t *Template) Parse(text string) (*Template, error) { return t.Add(t.name, text) }

func (t *Template) ParseFS(fsys fs.FS, patterns ...string) (*Template, error) {
	n := 0
	for _, p := range patterns {
		l, err := fs.Glob(fsys, p)
		if err != nil {
			return nil, err
		}
		for _, f := range l {
			b, err := fs.ReadFile(fsys, f)
			if err != nil {
				return nil, err
			}
			n++
			if _, err := t.Add(path.Base(f), string(b)); err != nil {
				return nil, err
			}
		}
	}
	if n == 0 {
		return nil, errors.New("template: pattern matches no files")
	}
	return t, nil
}

func (t *Template) ParseGlob(pattern string) (*Template, error) {
	dir, base := path.Split(pattern)
	l, err := vos.ReadDir(dir)
	n := 0
	if err == nil {
		for _, e := range l {
			if ok, _ := path.Match(base, e.Name()); ok {
				b, err := vos.ReadFile(path.Join(dir, e.Name()))
				if err != nil {
					return nil, err
				}
				n++
				if _, err := t.Add(e.Name(), string(b)); err != nil {
					return nil, err
				}
			}
		}
	}
	if n == 0 {
		return nil, errors.New("template: pattern matches no files: " + pattern)
	}
	return t, nil
}

// Lookup is never nil for a template that has sources.
func (t *Template) Lookup(name string) *Template {
	if len(t.Names) == 0 {
		return nil
	}
	return t
}

func (t *Template) ExecuteTemplate(w io.Writer, name string, data any) error {
	Data = data
	if Fail {
		io.WriteString(w, "half")
		return errors.New("template: execution failed")
	}
	if _, err := io.WriteString(w, name+":"); err != nil {
		return err
	}
	for i := range t.Names {
		if _, err := io.WriteString(w, t.Names[i]+"="+t.Texts[i]+";"); err != nil {
			return err
		}
	}
	return nil
}

func (t *Template) Execute(w io.Writer, data any) error { return t.ExecuteTemplate(w, t.name, data) }

// Templates lists the sources as templates of their own.
func (t *Template) Templates() (r []*Template) {
	for i, n := range t.Names {
		r = append(r, &Template{name: n, funcs: t.funcs, Names: t.Names[i : i+1], Texts: t.Texts[i : i+1]})
	}
	return
}

func (t *Template) DefinedTemplates() string {
	return "; defined templates are: " + strings.Join(t.Names, ", ")
}

// New makes an associated template, Clone a copy.
func (t *Template) New(name string) *Template { return &Template{name: name, funcs: t.funcs} }
func (t *Template) Clone() (*Template, error) {
	return &Template{t.name, t.funcs, append([]string{}, t.Names...), append([]string{}, t.Texts...)}, nil
}

func (t *Template) Delims(l, r string) *Template { return t }

func (t *Template) ParseFiles(names ...string) (*Template, error) {
	if len(names) == 0 {
		return nil, errors.New("template: no files named in call to ParseFiles")
	}
	for _, n := range names {
		b, err := vos.ReadFile(n)
		if err != nil {
			return nil, err
		}
		if _, err := t.Add(path.Base(n), string(b)); err != nil {
			return nil, err
		}
	}
	return t, nil
}

func ParseFS(fsys fs.FS, patterns ...string) (*Template, error) {
	return New("").ParseFS(fsys, patterns...)
}
func ParseGlob(pattern string) (*Template, error)   { return New("").ParseGlob(pattern) }
func ParseFiles(names ...string) (*Template, error) { return New("").ParseFiles(names...) }
func IsTrue(v any) (bool, bool)                     { return template.IsTrue(v) }
func HTMLEscapeString(s string) string              { return template.HTMLEscapeString(s) }
func JSEscapeString(s string) string                { return template.JSEscapeString(s) }
