// Package vsha1 stands for crypto/sha1: an ideal hash without collisions. A
// digest is the number of the first equal content that was hashed.
package vsha1

import (
	"hash"

	"github.com/webrpc/webrpc/internal/vsym"
)

const (
	Size      = 20
	BlockSize = 64
)

var seen []string

func digest(content string) [Size]byte {
	id := len(seen)
	for i := len(seen) - 1; i >= 0; i-- {
		id = vsym.IteInt(seen[i] == content, i, id)
	}
	seen = append(seen, content)
	var d [Size]byte
	for i := range d {
		d[i] = byte(7 * i)
		if i%4 == 3 {
			d[i] = byte(0xa0 + id)
		}
	}
	return d
}

type state struct{ b []byte }

func New() hash.Hash { return &state{} }

func Sum(b []byte) [Size]byte { return digest(string(b)) }

func (s *state) Write(p []byte) (int, error) {
	s.b = append(s.b, p...)
	return len(p), nil
}

func (s *state) WriteString(p string) (int, error) {
	s.b = append(s.b, p...)
	return len(p), nil
}

func (s *state) Sum(in []byte) []byte {
	d := digest(string(s.b))
	return append(in, d[:]...)
}

func (s *state) Reset()         { s.b = nil }
func (s *state) Size() int      { return Size }
func (s *state) BlockSize() int { return BlockSize }
