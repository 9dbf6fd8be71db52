// Package vexec stands in for os/exec; commands print what Out says.
package vexec

import (
	"context"
	"errors"
	"io"
	"strings"
)

var Out map[string]string

type Cmd struct {
	Path, Dir      string
	Args, Env      []string
	Stdin          io.Reader
	Stdout, Stderr io.Writer
	line           string
}

var ErrNotFound = errors.New("executable file not found in $PATH")

func Command(name string, args ...string) *Cmd {
	return &Cmd{Path: name, Args: append([]string{name}, args...), line: name + " " + strings.Join(args, " ")}
}

func (c *Cmd) Output() ([]byte, error) {
	if s, ok := Out[c.line]; ok {
		return []byte(s), nil
	}
	return nil, errors.New("exit status 1")
}
func (c *Cmd) Run() error {
	b, err := c.Output()
	if c.Stdout != nil {
		c.Stdout.Write(b)
	}
	return err
}
func (c *Cmd) CombinedOutput() ([]byte, error) { return c.Output() }

func CommandContext(ctx context.Context, name string, args ...string) *Cmd {
	return Command(name, args...)
}

func LookPath(f string) (string, error) { return "/bin/" + f, nil }
