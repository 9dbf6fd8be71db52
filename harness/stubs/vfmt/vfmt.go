// Package vfmt is fmt with its standard output in vos.
package vfmt

import (
	"fmt"
	"io"

	"github.com/webrpc/webrpc/internal/vos"
)

type (
	Stringer   = fmt.Stringer
	GoStringer = fmt.GoStringer
	Formatter  = fmt.Formatter
	State      = fmt.State
)

func Print(a ...any) (int, error)            { return io.WriteString(vos.Stdout, fmt.Sprint(a...)) }
func Println(a ...any) (int, error)          { return io.WriteString(vos.Stdout, fmt.Sprintln(a...)) }
func Printf(f string, a ...any) (int, error) { return io.WriteString(vos.Stdout, fmt.Sprintf(f, a...)) }

func Fprint(w io.Writer, a ...any) (int, error)   { return io.WriteString(w, fmt.Sprint(a...)) }
func Fprintln(w io.Writer, a ...any) (int, error) { return io.WriteString(w, fmt.Sprintln(a...)) }
func Fprintf(w io.Writer, f string, a ...any) (int, error) {
	return io.WriteString(w, fmt.Sprintf(f, a...))
}

func Sprint(a ...any) string            { return fmt.Sprint(a...) }
func Sprintln(a ...any) string          { return fmt.Sprintln(a...) }
func Sprintf(f string, a ...any) string { return fmt.Sprintf(f, a...) }
func Errorf(f string, a ...any) error   { return fmt.Errorf(f, a...) }
func Append(b []byte, a ...any) []byte  { return append(b, fmt.Sprint(a...)...) }
func Appendf(b []byte, f string, a ...any) []byte {
	return append(b, fmt.Sprintf(f, a...)...)
}

func Appendln(b []byte, a ...any) []byte { return append(b, fmt.Sprintln(a...)...) }

func Sscan(s string, a ...any) (int, error)               { return fmt.Sscan(s, a...) }
func Sscanf(s, f string, a ...any) (int, error)           { return fmt.Sscanf(s, f, a...) }
func Sscanln(s string, a ...any) (int, error)             { return fmt.Sscanln(s, a...) }
func Fscan(r io.Reader, a ...any) (int, error)            { return fmt.Fscan(r, a...) }
func Fscanln(r io.Reader, a ...any) (int, error)          { return fmt.Fscanln(r, a...) }
func Fscanf(r io.Reader, f string, a ...any) (int, error) { return fmt.Fscanf(r, f, a...) }
