// Package c11 checks the normalisation of base paths.
package c11

import (
	"github.com/webrpc/webrpc/internal/vsym"
	"github.com/webrpc/webrpc/schema"
)

func hex(c byte) bool {
	return vsym.Or(vsym.And(c >= '0', c <= '9'), vsym.And(c >= 'a', c <= 'f'), vsym.And(c >= 'A', c <= 'F'))
}

// wellFormed says whether a text may be a base path.
func wellFormed(p string) bool {
	ok := true
	for i := 0; i < len(p); i++ {
		c := p[i]
		ok = vsym.And(ok, c > ' ', c != 0x7f, c != '?', c != '#')
		if i+2 < len(p) {
			ok = vsym.And(ok, vsym.Or(c != '%', vsym.And(hex(p[i+1]), hex(p[i+2]))))
			ok = vsym.And(ok, !vsym.And(c == ':', p[i+1] == '/', p[i+2] == '/'))
		} else {
			ok = vsym.And(ok, c != '%')
		}
	}
	return ok
}

func checkPath(p string) {
	checkSchema(p, &schema.WebRPCSchema{WebrpcVersion: "v1", BasePath: p})
}

func checkSchema(p string, s *schema.WebRPCSchema) {
	err := s.Validate()
	if len(p) == 0 {
		vsym.Assert(err == nil, "a schema without base path is rejected")
		vsym.Assert(s.BasePath == "", "an omitted base path does not stay empty")
		return
	}
	vsym.Observe("accepted", err == nil)
	if err != nil {
		vsym.Assert(!wellFormed(p), "a well-formed base path is rejected")
		return
	}
	vsym.Assert(wellFormed(p), "a base path with a blank, query, fragment, scheme or bad escape is accepted")
	want := p
	if p[0] != '/' {
		want = "/" + want
	}
	if p[len(p)-1] != '/' {
		want = want + "/"
	}
	vsym.Observe("path", s.BasePath)
	vsym.Assert(s.BasePath == want, "the base path is not what was written with the missing slashes added")
	once := s.BasePath
	err = s.Validate()
	vsym.Assert(err == nil, "a normalised base path is rejected by a second validation")
	vsym.Assert(s.BasePath == once, "a second validation changes the base path")
}

// VH_PathAny: every base path of arbitrary bytes.
func VH_PathAny() {
	n := 3
	if vsym.Tier() > 0 {
		n = 4
	}
	checkPath(vsym.Str(vsym.Pick(n + 1)))
}

// VH_PathShape: longer base paths over the characters with a meaning.
func VH_PathShape() {
	n := 7
	if vsym.Tier() > 0 {
		n = 9
	}
	checkPath(vsym.StrIn(n, "/a:?"))
}

// VH_PathURL: texts around the shape of a URL.
func VH_PathURL() {
	pre := []string{"http", "", "/", "a/b", "//h"}[vsym.Pick(5)]
	mid := vsym.StrIn(4, ":/@%4 ")
	suf := []string{"", "h/p", "/"}[vsym.Pick(3)]
	checkPath(pre + mid + suf)
}

// VH_PathLits: base paths around the literals of the code.
func VH_PathLits() {
	p := ""
	if n := vsym.LitLen(130); n > 0 {
		p = vsym.StrIn(1, "a/")
		for len(p) < n {
			p += "b"
		}
		p = p[:n-1] + vsym.StrIn(1, "a/")
	} else {
		p = vsym.StrIn(vsym.Pick(2+vsym.Tier()), "/a.?%:") + vsym.Lit() + vsym.StrIn(vsym.Pick(2+vsym.Tier()), "/a?#.")
	}
	s := &schema.WebRPCSchema{WebrpcVersion: "v1", SchemaName: "n", SchemaVersion: "v1", BasePath: p}
	if vsym.Bool() {
		s.Types = []*schema.Type{{Kind: "struct", Name: "A"}}
		s.Services = []*schema.Service{{Name: "S", Methods: []*schema.Method{{Name: "M"}}}}
	}
	checkSchema(p, s)
}
