// Package vfnv stands for hash/fnv: an ideal hash without collisions. A digest
// is the number of the first equal content that was hashed.
package vfnv

import "hash"

var seen []string

func digest(content string) uint32 {
	for i := range seen {
		if seen[i] == content {
			return 1000 + uint32(i)
		}
	}
	seen = append(seen, content)
	return 1000 + uint32(len(seen)-1)
}

// State is a hash in progress.
type State struct {
	b    []byte
	size int
}

func New32() hash.Hash32  { return &State{size: 4} }
func New32a() hash.Hash32 { return &State{size: 4} }

type State64 struct{ State }

func New64() hash.Hash64  { return &State64{State{size: 8}} }
func New64a() hash.Hash64 { return &State64{State{size: 8}} }

func (s *State) Write(p []byte) (int, error) {
	s.b = append(s.b, p...)
	return len(p), nil
}

func (s *State) Sum(in []byte) []byte {
	d := digest(string(s.b))
	for i := 0; i < s.size; i++ {
		in = append(in, byte(d>>(8*uint(i%4))))
	}
	return in
}

func (s *State) Sum32() uint32   { return digest(string(s.b)) }
func (s *State64) Sum64() uint64 { return uint64(digest(string(s.b))) }
func (s *State) Reset()          { s.b = nil }
func (s *State) Size() int       { return s.size }
func (s *State) BlockSize() int  { return 1 }
