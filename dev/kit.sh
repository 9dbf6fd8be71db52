# sourced by demo.sh: a copy of the repository in $t/m, with small stand-ins for
# the modules that are not available here, in which gen and cmd/webrpc-gen build.
. /opt/vp/env.sh >/dev/null 2>&1
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GONOSUMDB='*' GOFLAGS=
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/m" "$t/s" "$t/tmp" || exit 3
cp -r /repo/*.go /repo/go.mod /repo/schema /repo/gen /repo/cmd "$t/m/" || exit 3
find "$t/m" -name '*_test.go' -delete
find "$t/m" -type d -name '_*' -prune -exec rm -rf {} +
export TMPDIR="$t/tmp"
mod=$t/alt.mod
printf 'module github.com/webrpc/webrpc\ngo 1.25\n' >"$mod"
stub() { # module directory-in-module ; source on stdin
  mkdir -p "$t/s/$1/$2"
  [ -f "$t/s/$1/go.mod" ] || {
    printf 'module %s\ngo 1.25\n' "$1" >"$t/s/$1/go.mod"
    local v=v0.0.0; case $1 in */v3) v=v3.0.0;; esac
    printf 'require %s %s\nreplace %s => %s\n' "$1" "$v" "$1" "$t/s/$1" >>"$mod"
  }
  cat >"$t/s/$1/$2/x.go"
}
for g in dart golang javascript kotlin openapi typescript; do
  stub github.com/webrpc/gen-$g . <<E
package gen
import "embed"
//go:embed *.go.tmpl
var FS embed.FS
E
  printf '{{define "main"}}%s {{.SchemaName}}|{{.WebrpcHeader}}{{end}}' $g >"$t/s/github.com/webrpc/gen-$g/main.go.tmpl"
done
stub github.com/Masterminds/sprig/v3 . <<'E'
package sprig
func FuncMap() map[string]interface{} { return map[string]interface{}{} }
E
stub github.com/davecgh/go-spew spew <<'E'
package spew
import "fmt"
type ConfigState struct { DisableMethods, DisablePointerAddresses, SortKeys bool; Indent string }
func NewDefaultConfig() *ConfigState { return &ConfigState{} }
func (c *ConfigState) Sdump(a ...interface{}) string { return fmt.Sprintf("%+v", a) }
func Sdump(a ...interface{}) string { return fmt.Sprintf("%+v", a) }
E
stub github.com/golang-cz/textcase . <<'E'
package textcase
func CamelCase(s string) string { return s }
func PascalCase(s string) string { return s }
func SnakeCase(s string) string { return s }
func KebabCase(s string) string { return s }
E
stub github.com/posener/gitfs . <<'E'
package gitfs
import ("context"; "errors"; "net/http"; "os"; "path/filepath")
type Option func()
func OptPrefetch(bool) Option { return nil }
func OptGlob(...string) Option { return nil }
// New serves the directory of the project below $VP_GIT and logs what was asked for.
func New(ctx context.Context, project string, opts ...Option) (http.FileSystem, error) {
	if f, err := os.OpenFile(os.Getenv("VP_GITLOG"), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644); err == nil {
		f.WriteString(project + "\n"); f.Close()
	}
	d := filepath.Join(os.Getenv("VP_GIT"), project)
	if _, err := os.Stat(d); err != nil { return nil, errors.New("no repository " + project) }
	return http.Dir(d), nil
}
E
stub github.com/shurcooL/httpfs path/vfspath <<'E'
package vfspath
import ("net/http"; "path"; "sort")
func Glob(fs http.FileSystem, pattern string) ([]string, error) {
	f, err := fs.Open("/")
	if err != nil { return nil, nil }
	defer f.Close()
	l, err := f.Readdir(0)
	if err != nil { return nil, nil }
	var out []string
	for _, i := range l {
		if ok, _ := path.Match(pattern, "/"+i.Name()); ok { out = append(out, "/"+i.Name()) }
	}
	sort.Strings(out)
	return out, nil
}
E
stub github.com/shurcooL/httpfs vfsutil <<'E'
package vfsutil
import ("io"; "net/http")
func ReadFile(fs http.FileSystem, p string) ([]byte, error) {
	f, err := fs.Open(p)
	if err != nil { return nil, err }
	defer f.Close()
	return io.ReadAll(f)
}
E
stub github.com/shurcooL/httpfs text/vfstemplate <<'E'
package vfstemplate
import ("fmt"; "net/http"; "path"; "text/template"
	"github.com/shurcooL/httpfs/path/vfspath"; "github.com/shurcooL/httpfs/vfsutil")
func ParseGlob(fs http.FileSystem, t *template.Template, pattern string) (*template.Template, error) {
	names, _ := vfspath.Glob(fs, pattern)
	if len(names) == 0 { return nil, fmt.Errorf("pattern matches no files: %#q", pattern) }
	for _, n := range names {
		b, err := vfsutil.ReadFile(fs, n)
		if err != nil { return nil, err }
		if _, err := t.New(path.Base(n)).Parse(string(b)); err != nil { return nil, err }
	}
	return t, nil
}
E
stub golang.org/x/tools imports <<'E'
package imports
import "go/format"
type Options struct { AllErrors, Comments, TabIndent bool; TabWidth int }
func Process(name string, src []byte, o *Options) ([]byte, error) { return format.Source(src) }
E
cd "$t/m" || exit 3
gobuild() { go build -modfile="$mod" -ldflags="-X github.com/webrpc/webrpc.VERSION=v9.9.9" -o "$t/webrpc-gen" ./cmd/webrpc-gen >&2 || exit 3; }
gotest() { timeout 200 go test -modfile="$mod" -vet=off -count=1 "$@"; }
