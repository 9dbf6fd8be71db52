// Package genenv is the world around code generation.
package genenv

import (
	"strings"

	"github.com/webrpc/webrpc"
	"github.com/webrpc/webrpc/internal/vgitfs"
	"github.com/webrpc/webrpc/internal/vimports"
	"github.com/webrpc/webrpc/internal/vos"
	"github.com/webrpc/webrpc/internal/vspew"
	"github.com/webrpc/webrpc/internal/vtemplate"
	"github.com/webrpc/webrpc/internal/vtime"
	"github.com/webrpc/webrpc/schema"
)

// Reset makes a new world.
func Reset() {
	vos.Reset()
	vgitfs.Reset()
	vimports.Fail, vtemplate.Fail, vtemplate.Data, vtemplate.Last, vspew.Dumped = false, false, nil, nil, nil
	vtime.Clock = 1_700_000_000
}

// Bundled are the names and versions of the generators in go.mod.
func Bundled() (names, versions []string) {
	for _, l := range strings.Split(webrpc.GoModFile, "\n") {
		f := strings.Fields(l)
		if len(f) >= 2 && strings.HasPrefix(f[0], "github.com/webrpc/gen-") {
			names, versions = append(names, f[0][len("github.com/webrpc/gen-"):]), append(versions, f[1])
		}
	}
	return
}

// Schema is a small valid schema.
func Schema(name, version string, services bool) *schema.WebRPCSchema {
	s := &schema.WebRPCSchema{WebrpcVersion: "v1", SchemaName: name, SchemaVersion: version,
		Types:    []*schema.Type{{Kind: "struct", Name: "A", Fields: []*schema.TypeField{{Name: "f", Type: &schema.VarType{Expr: "string"}}}}},
		Errors:   []*schema.Error{},
		Services: []*schema.Service{}}
	if services {
		s.Services = append(s.Services, &schema.Service{Name: "S", Methods: []*schema.Method{{Name: "M", Inputs: []*schema.MethodArgument{}, Outputs: []*schema.MethodArgument{}, Annotations: schema.Annotations{}}}})
	}
	return s
}
