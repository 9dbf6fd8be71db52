// Package c04 checks that parsing any text ends with a schema or an error.
package c04

import (
	"strconv"
	"strings"

	"github.com/webrpc/webrpc/internal/vh/memfs"
	"github.com/webrpc/webrpc/internal/vsym"
	"github.com/webrpc/webrpc/schema"
	"github.com/webrpc/webrpc/schema/ridl"
)

const head = "webrpc = v1\nname = n\nversion = v1\n"

const full = head + `basepath = /b
import b.ridl
import
  - c.ridl
# about E
enum E: uint8
  - x = 7 # c
  - y
type A: []T
  + k = v
struct T
  - f?: map<string,[]E>
    + json = ff
    + go.tag = "a \"b"
error 1 Ea "msg" HTTP 404
service S
  @k @l:w @m:"a w"
  - M(a: int, b?: []T) => stream (c: A) errors Ea | Eb # c
  - N(T) => (T)
  - stream O()
  - proxy P
error 2 Eb msg
`

var others = map[string]string{"b.ridl": "webrpc = v1\nstruct B\n", "c.ridl": "webrpc = v1\nstruct C\n"}

// place is the line of a syntax error, 0 for other errors.
func place(src string, err error) int {
	msg := err.Error()
	lines := 1
	for i := range len(src) {
		if src[i] == '\n' {
			lines++
		}
	}
	if strings.HasPrefix(msg, "0:") {
		vsym.Fail("syntax error without a place")
	}
	for l := 1; l <= lines; l++ {
		at := strconv.Itoa(l) + ":"
		if !strings.HasPrefix(msg, at) {
			continue
		}
		for c := 1; c <= len(src)+1; c++ {
			if strings.HasPrefix(msg, at+strconv.Itoa(c)+": error near ") {
				return l
			}
		}
		vsym.Fail("syntax error without a column")
	}
	for c := byte('1'); c <= '9'; c++ {
		if strings.HasPrefix(msg, string([]byte{c})) {
			vsym.Fail("syntax error outside of the file")
		}
	}
	return 0
}

func parse(src string) (*schema.WebRPCSchema, error) {
	f := memfs.FS{"a.ridl": src}
	for k, v := range others {
		f[k] = v
	}
	s, err := ridl.NewParser(f, "", "a.ridl").Parse()
	vsym.Assert((s == nil) != (err == nil), "neither or both of schema and error")
	if err != nil {
		if place(src, err) > 0 {
			vsym.Reach("syntax error")
		} else {
			vsym.Reach("other error")
		}
		return nil, err
	}
	vsym.Reach("schema")
	valid(s)
	return s, nil
}

func hasType(t *schema.VarType) {
	if t == nil {
		vsym.Fail("a type is missing")
	}
	vsym.Assert(t.Expr != "" && t.Type != schema.T_Unknown, "type not resolved")
}

// valid checks what every validated schema has.
func valid(s *schema.WebRPCSchema) {
	vsym.Assert(s.WebrpcVersion != "", "schema without webrpc version")
	for _, t := range s.Types {
		vsym.Assert(t.Name != "", "type without name")
		switch t.Kind {
		case schema.TypeKind_Struct:
		case schema.TypeKind_Enum, schema.TypeKind_Alias:
			hasType(t.Type)
		default:
			vsym.Fail("type of another kind")
		}
		for _, f := range t.Fields {
			vsym.Assert(f.Name != "", "field without name")
			if t.Kind == schema.TypeKind_Struct {
				hasType(f.Type)
			}
		}
	}
	for _, e := range s.Errors {
		vsym.Assert(e.Name != "" && e.Code != 0 && e.HTTPStatus >= 400 && e.HTTPStatus <= 599, "error out of range")
	}
	for _, v := range s.Services {
		vsym.Assert(v.Name != "", "service without name")
		for _, m := range v.Methods {
			vsym.Assert(m.Name != "", "method without name")
			for _, a := range append(append([]*schema.MethodArgument{}, m.Inputs...), m.Outputs...) {
				vsym.Assert(a.Name != "", "argument without name")
				hasType(a.Type)
			}
		}
	}
}

func bytes(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = vsym.Byte()
	}
	return string(b)
}

// upto chooses a number below n.
func upto(n int) int {
	i := 64*vsym.Pick((n+63)/64) + vsym.Pick(64)
	vsym.Assume(i < n)
	return i
}

// VH_Any: short texts of any bytes.
func VH_Any() {
	parse(bytes(vsym.Pick(4 + vsym.Tier())))
}

// VH_After: any bytes after the head of a document.
func VH_After() {
	parse(head + bytes(vsym.Pick(3+vsym.Tier())))
}

var contexts = []string{
	"webrpc", "webrpc = ", "name = \"a", "version = v", "basepath = /",
	"import", "import ", "import b.ridl", "import \"b.ridl\"\n", "import\n- ", "import\n- b.ridl", "import\n- b.ridl\n  ", "import b.ridl\n- ",
	"enum", "enum E", "enum E: ", "enum E: uint8\n", "enum E: uint8\n- ", "enum E: uint8\n- x", "enum E: uint8\n- x = ", "enum E: uint8\n- x = \"", "enum E: string\n- x\n- y\n",
	"type", "type A", "type A: ", "type A: []", "type A: map", "type A: map<", "type A: map<string,", "type A: map<string,[]int", "type A: int\n", "type A: int\n+ ", "type A: int\n+ k = ",
	"struct", "struct T", "struct T\n", "struct T\n- ", "struct T\n- f", "struct T\n- f?", "struct T\n- f: ", "struct T\n- f: int\n", "struct T\n- f: int\n+ ", "struct T\n- f: int\n+ k", "struct T\n- f: int\n+ k.", "struct T\n- f: int\n+ k = ", "struct T\n- f: int\n+ k = \"v",
	"error", "error 1", "error 1 E ", "error 1 E \"", "error 1 E \"m\"", "error 1 E \"m\" HTTP", "error 1 E \"m\" HTTP 4", "error 1 E m ",
	"service", "service S", "service S\n", "service S\n- ", "service S\n- stream ", "service S\n- proxy ", "service S\n- M", "service S\n- M(", "service S\n- M(a", "service S\n- M(a?", "service S\n- M(a: ", "service S\n- M(a: int", "service S\n- M(a: int, ", "service S\n- M()", "service S\n- M() =", "service S\n- M() => ", "service S\n- M() => stream ", "service S\n- M() => (", "service S\n- M() => (a: int)", "service S\n- M() errors ", "struct T\nerror 1 E m\nservice S\n- M() errors E", "struct T\nerror 1 E m\nservice S\n- M() errors E |",
	"service S\n@", "service S\n@k", "service S\n@k:", "service S\n@k:\"", "service S\n@k:\"v\"", "service S\n@k @", "struct T\nservice S\n- M(T", "struct T\nservice S\n- M(T)", "struct T\nservice S\n- M(T) => (T", "struct T\nservice S\n- M(T) => (T)",
	"#", "#!", "name = a\\", "name = \"a\\",
}

// VH_Context: any bytes in the middle of every production.
func VH_Context() {
	c := contexts[vsym.Pick(len(contexts))]
	h := "webrpc = v1\n"
	if strings.Contains(c, "service") {
		h = "webrpc = v1\nversion = v1\nname = n\n"
	}
	if len(c) > 5 && (c[:6] == "webrpc" || c[:6] == "name =") || len(c) > 6 && c[:7] == "version" {
		h = ""
	}
	tail := []string{"", "\n", "\nstruct Zz\n- f: int\n"}[vsym.Pick(3)]
	n := 1 + vsym.Tier()
	if tail == "" {
		n = 2
	}
	parse(h + c + bytes(n) + tail)
}

var tokens = []string{" ", "\n", "\t", "=", "(", ")", "[", "]", "<", ">", "+", "-", "#", ":", ",", "|", "\\", "/", "\"", ".", "?", "=>", "!", "a", "T", "7", "@", "$", "[]", "map", "stream", "proxy", "errors", "\n- ", "\n+ ", "\nservice S\n"}

// VH_Tokens: tokens in any order in the middle of every production.
func VH_Tokens() {
	c := contexts[vsym.Pick(len(contexts))]
	h := "webrpc = v1\n"
	if strings.Contains(c, "service") {
		h = "webrpc = v1\nversion = v1\nname = n\n"
	}
	src := h + c
	for range 1 + vsym.Tier() {
		src += tokens[vsym.Pick(len(tokens))]
	}
	src += tokens[2*vsym.Pick(len(tokens)/2)]
	parse(src + "\n")
}

// VH_Cut: a document cut anywhere, followed by any byte.
func VH_Cut() {
	n := upto(len(full) + 1)
	parse(full[:n] + bytes(vsym.Pick(2)))
}

// VH_Replace: a document with any byte anywhere, put in or in place of
// another.
func VH_Replace() {
	n := upto(len(full))
	to := n + 1
	if vsym.Bool() {
		to = n
	}
	parse(full[:n] + bytes(1) + full[to:])
}

// VH_Drop: a document without some of its text.
func VH_Drop() {
	n := upto(len(full))
	k := 1 + vsym.Pick(6)
	to := min(n+k, len(full))
	parse(full[:n] + full[to:])
}

func split(s string) (r []string) {
	for {
		i := strings.Index(s, "\n")
		if i < 0 {
			return
		}
		r = append(r, s[:i+1])
		s = s[i+1:]
	}
}

// VH_Lines: a document with its lines moved, doubled or dropped.
func VH_Lines() {
	l := split(full)
	i, k := vsym.Pick(len(l)), vsym.Pick(len(l))
	src := ""
	form := vsym.Pick(3)
	for n := range l {
		if n == k && form < 2 {
			src += l[i]
		}
		if n == i && form == 0 || form == 2 && (n == i || n == k) {
			continue
		}
		src += l[n]
	}
	parse(src)
}

// VH_Place: the place of a character that is nowhere allowed.
func VH_Place() {
	l := split(full)
	i := vsym.Pick(len(l))
	b := vsym.ByteIn("$%&'*;^`{}~")
	src := ""
	for n := range l {
		if n != i {
			src += l[n]
			continue
		}
		if strings.Contains(l[i], "#") {
			return
		}
		src += l[i][:len(l[i])-1] + " " + string([]byte{b}) + "\n"
	}
	s, err := parse(src)
	vsym.Assert(s == nil, "a stray character is accepted")
	if err != nil {
		vsym.Assert(place(src, err) == i+1, "another line than the one of the error")
	}
}

// VH_Long: repeated text.
func VH_Long() {
	t := []string{"[]", "map<string,", "\n", " ", "#", "\"", "\\", "(", "- ", "@k ", "a", "\n  - f: int"}[vsym.Pick(12)]
	c := contexts[vsym.Pick(len(contexts))]
	h := "webrpc = v1\n"
	if strings.Contains(c, "service") {
		h = "webrpc = v1\nversion = v1\nname = n\n"
	}
	src := h + c
	for range 40 {
		src += t
	}
	parse(src + bytes(vsym.Tier()))
}
