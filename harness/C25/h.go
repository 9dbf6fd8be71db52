// Package c25 checks that an accepted document is represented completely: its
// schema, written down again, gives the text of the document.
package c25

import (
	"sort"
	"strconv"
	"strings"

	"github.com/webrpc/webrpc/internal/vh/memfs"
	"github.com/webrpc/webrpc/internal/vsym"
	"github.com/webrpc/webrpc/schema"
	"github.com/webrpc/webrpc/schema/ridl"
)

const full = `webrpc = v1
name = n
version = v2
basepath = /b
type A: []T
  + k = v
type B: map<string,[]E>
enum E: uint8
  - x = 7
  - y
struct T
  - f?: map<string,[]E>
    + json = ff
    + go.tag = "a.b"
  - g: A
    + jx = gg
struct U
error 2 Ea "msg" HTTP 417
error 3 Eb msg
service S
  @k
  - M(a: int, b?: []T) => stream (c: A) errors Ea | Eb
  @l:w
  - N(T) => (U)
  - stream O(p: bool)
  @m:"a w"
  - Q() errors Eb
service R
  - V(m: map<uint8,T>) => (d?: B, e: timestamp)
`

// squeeze leaves out what only separates: blanks, line ends, quotes, the commas
// and bars of argument lists and the slashes of a base path.
func squeeze(s string) string {
	b := make([]byte, 0, len(s))
	list, path := false, false
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case vsym.Or(c == ' ', c == '\t', c == '\r', c == '"'):
			continue
		case c == '\n':
			path = false
			continue
		case c == '(':
			list = true
		case c == ')':
			list = false
		case vsym.And(list, vsym.Or(c == ',', c == '|')):
			continue
		case vsym.And(path, c == '/'):
			continue
		}
		b = append(b, c)
		if c == 'h' && strings.HasSuffix(string(b), "basepath") {
			path = true
		}
	}
	return string(b)
}

// norm also leaves out what says nothing: results of which there are none, and
// an annotation value that is empty.
func norm(s string) string {
	s = strings.ReplaceAll(squeeze(s), "=>()", "")
	return strings.ReplaceAll(strings.ReplaceAll(s, ":-", "-"), ":@", "@")
}

func metas(l []schema.TypeFieldMeta) (r string) {
	for _, m := range l {
		for k, v := range m {
			s, ok := v.(string)
			vsym.Assert(ok, "meta that is not a string")
			r += "+" + k + "=" + s
		}
	}
	return
}

func args(l []*schema.MethodArgument, succinct bool) string {
	if succinct {
		if len(l) == 0 {
			return "()"
		}
		return "(" + l[0].Type.Expr + ")"
	}
	r := "("
	for _, a := range l {
		r += a.Name
		if a.Optional {
			r += "?"
		}
		r += ":" + a.Type.Expr
	}
	return r + ")"
}

// write writes the schema as a document, the annotations of a method in the
// order of their names or the other way round.
func write(s *schema.WebRPCSchema, back bool) (r string) {
	r = "webrpc=" + s.WebrpcVersion
	if s.SchemaName != "" {
		r += "name=" + s.SchemaName
	}
	if s.SchemaVersion != "" {
		r += "version=" + s.SchemaVersion
	}
	if s.BasePath != "" {
		r += "basepath=" + strings.ReplaceAll(s.BasePath, "/", "") + "\n"
	}
	for _, t := range s.Types {
		switch t.Kind {
		case schema.TypeKind_Alias:
			r += "type" + t.Name + ":" + t.Type.Expr + metas(t.Meta)
		case schema.TypeKind_Enum:
			r += "enum" + t.Name + ":" + t.Type.Expr
			for i, f := range t.Fields {
				r += "-" + f.Name
				if f.Value != strconv.Itoa(i) {
					r += "=" + f.Value
				}
			}
		case schema.TypeKind_Struct:
			r += "struct" + t.Name
			for _, f := range t.Fields {
				r += "-" + f.Name
				if f.Optional {
					r += "?"
				}
				r += ":" + f.Type.Expr + metas(f.Meta)
			}
		}
	}
	for _, e := range s.Errors {
		r += "error" + strconv.Itoa(e.Code) + e.Name + e.Message
		if e.HTTPStatus != 400 {
			r += "HTTP" + strconv.Itoa(e.HTTPStatus)
		}
	}
	for _, v := range s.Services {
		r += "service" + v.Name
		for _, m := range v.Methods {
			var keys []string
			for k := range m.Annotations {
				keys = append(keys, k)
			}
			sort.Strings(keys)
			for i := range keys {
				k := keys[i]
				if back {
					k = keys[len(keys)-1-i]
				}
				a := m.Annotations[k]
				r += "@" + a.AnnotationType
				if a.Value != "" {
					r += ":" + a.Value
				}
			}
			r += "-"
			if m.StreamInput {
				r += "stream"
			}
			r += m.Name + args(m.Inputs, m.Succinct)
			if m.StreamOutput || len(m.Outputs) > 0 {
				r += "=>"
				if m.StreamOutput {
					r += "stream"
				}
				r += args(m.Outputs, m.Succinct)
			}
			if len(m.Errors) > 0 {
				r += "errors" + strings.Join(m.Errors, "|")
			}
		}
	}
	return
}

// change is the part of the text that differs from the document.
func change(s string) string {
	i := 0
	for i < len(s) && i < len(full) && s[i] == full[i] {
		i++
	}
	j := 0
	for j < len(s)-i && j < len(full)-i && s[len(s)-1-j] == full[len(full)-1-j] {
		j++
	}
	for i > 0 && full[i-1] != '\n' {
		i--
	}
	for j > 0 && s[len(s)-j] != '\n' {
		j--
	}
	return s[i : len(s)-j]
}

func parse(src string) {
	s, err := memfs.Parse(src)
	if err != nil {
		vsym.Reach("rejected")
		return
	}
	vsym.Reach("accepted")
	doc := norm(src)
	if vsym.Or(doc == norm(write(s, false)), doc == norm(write(s, true))) {
		return
	}
	vsym.Observe("text", src)
	vsym.Fail("accepted, although the schema is that of another document: " + change(src))
}

// upto chooses a number below n.
func upto(n int) int {
	i := 64*vsym.Pick((n+63)/64) + vsym.Pick(64)
	vsym.Assume(i < n)
	return i
}

func char() string {
	b := vsym.Byte()
	vsym.Assume(vsym.Or(b == '\t', b == '\n', b == '\r', vsym.And(b >= ' ', b <= '~')))
	vsym.Assume(vsym.And(b != '#', b != '\\', b != '0'))
	return string([]byte{b})
}

// VH_Put: one character put in.
func VH_Put() {
	n := upto(len(full) + 1)
	c := char()
	if vsym.Tier() > 0 {
		c += char()
	}
	parse(full[:n] + c + full[n:])
}

// VH_Change: one character replaced.
func VH_Change() {
	n := upto(len(full))
	c := char()
	if n > 3 && full[n-1] == '(' && full[n+1] == ')' {
		// the type of the succinct form may be spelled in lower case
		vsym.Assume(vsym.And(c != "t", c != "u"))
	}
	parse(full[:n] + c + full[n+1:])
}

// VH_Drop: some text left out.
func VH_Drop() {
	n := upto(len(full))
	to := min(n+1+vsym.Pick(8), len(full))
	parse(full[:n] + full[to:])
}

// words are the tokens of a document, each with the blanks before it.
func words(s string) (r []string) {
	from := 0
	word := false
	for i := 0; i < len(s); i++ {
		c := s[i]
		w := c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9'
		sp := c == ' ' || c == '\n'
		if i > from && !(w && word) && !blank(s[from:i]) {
			r = append(r, s[from:i])
			from = i
		}
		word = w && !sp
	}
	return append(r, s[from:])
}

func blank(s string) bool { return strings.Trim(s, " \n") == "" }

func cut(s string) (sp, w string) {
	w = strings.TrimLeft(s, " \n")
	return s[:len(s)-len(w)], w
}

var tokens = []string{"=", "(", ")", "[", "]", "<", ">", "+", "-", ":", ",", "|", "/", ".", "?", "=>", "!", "T", "7", "@", "[]", "map", "stream", "proxy", "errors", "HTTP", "struct", "type", "error", "word", "\"q\""}

// VH_Token: a token put in, replaced or doubled.
func VH_Token() {
	l := words(full)
	n := upto(len(l))
	sp, w := cut(l[n])
	t := w
	if k := vsym.Pick(len(tokens) + 1); k < len(tokens) {
		t = tokens[k]
	}
	gaps := []string{"", " ", "\n"}
	gap := gaps[vsym.Pick(3)]
	mid := ""
	if vsym.Bool() {
		mid = sp + t + gap
	} else {
		mid = sp + gaps[vsym.Pick(2)] + t + gap + w
	}
	parse(strings.Join(l[:n], "") + mid + strings.Join(l[n+1:], ""))
}

// VH_Swap: two tokens exchanged.
func VH_Swap() {
	l := append([]string(nil), words(full)...)
	n := upto(len(l))
	k := n + 1 + vsym.Pick(4)
	vsym.Assume(k < len(l))
	vsym.Assume(n > 12) // the head of a document may be in any order
	a, x := cut(l[n])
	b, y := cut(l[k])
	l[n], l[k] = a+y, b+x
	parse(strings.Join(l, ""))
}

// VH_Line: lines left out, or a line of a declaration moved or repeated
// elsewhere.
func VH_Line() {
	l := strings.SplitAfter(full, "\n")
	l = l[:len(l)-1]
	i := vsym.Pick(len(l))
	rest := append(append([]string(nil), l[:i]...), l[i+1:]...)
	switch vsym.Pick(3) {
	case 0:
		// one or two lines left out
		j := i + vsym.Pick(len(l)-i)
		rest = append([]string(nil), l[:i]...)
		for k := i + 1; k < len(l); k++ {
			if k != j {
				rest = append(rest, l[k])
			}
		}
	case 1:
		// moved
		vsym.Assume(l[i][0] == ' ')
		j := vsym.Pick(len(rest) + 1)
		rest = append(append(append([]string(nil), rest[:j]...), l[i]), rest[j:]...)
	case 2:
		// repeated
		vsym.Assume(l[i][0] == ' ')
		j := vsym.Pick(len(l) + 1)
		rest = append(append(append([]string(nil), l[:j]...), l[i]), l[j:]...)
	}
	parse(strings.Join(rest, ""))
}

const importing = `webrpc = v1
import cc.ridl
import bb.ridl
struct T
import
  - "dd.ridl"
import ee.ridl
`

var files = memfs.FS{
	"bb.ridl": "webrpc = v1\nstruct B1\n",
	"cc.ridl": "webrpc = v1\nstruct C1\n",
	"dd.ridl": "webrpc = v1\nstruct D1\n",
	"ee.ridl": "webrpc = v1\nstruct E1\n",
}

// VH_Imports: the same for import statements, whose files are told by
// the declarations that they bring in.
func VH_Imports() {
	n := vsym.Pick(len(importing))
	src := ""
	c := char()
	vsym.Assume(c != "-") // names of a list that no declaration has say nothing
	switch vsym.Pick(3) {
	case 0:
		src = importing[:n] + c + importing[n:]
	case 1:
		src = importing[:n] + c + importing[n+1:]
	case 2:
		src = importing[:n] + importing[min(n+1+vsym.Pick(8), len(importing)):]
	}
	fs := memfs.FS{"a.ridl": src}
	for k, v := range files {
		fs[k] = v
	}
	s, err := ridl.NewParser(fs, "", "a.ridl").Parse()
	if err != nil {
		vsym.Reach("rejected")
		return
	}
	vsym.Reach("accepted")
	has := map[string]bool{}
	own := ""
	for _, t := range s.Types {
		vsym.Assert(t.Kind == schema.TypeKind_Struct && len(t.Fields) == 0, "type that was not written")
		switch t.Name {
		case "B1", "C1", "D1", "E1":
			has[t.Name] = true
		default:
			own += "struct" + t.Name
		}
	}
	r := "webrpc=" + s.WebrpcVersion
	for _, x := range []string{"c", "b", "d", "e"} {
		if has[strings.ToUpper(x)+"1"] {
			r += x + x + ".ridl"
		}
		if x == "b" {
			r += own
		}
	}
	if bare(src) != bare(r) {
		vsym.Observe("text", src)
		vsym.Fail("accepted, although what is imported was not written")
	}
}

// bare leaves out the marks of import statements too.
func bare(s string) string {
	s = strings.ReplaceAll(squeeze(s), "/", "")
	return strings.ReplaceAll(strings.ReplaceAll(s, "import", ""), "-", "")
}

const lists = `webrpc = v1
import cc.ridl
  - C1
  - C2
import bb.ridl
  - B2
struct T
`

// imported is what a text without blanks imports: all that a file
// declares or what its list names, and the rest of the text.
func imported(s string) (r string) {
	parts := strings.Split(s, "import")
	r = parts[0]
	for _, p := range parts[1:] {
		p, rest, _ := strings.Cut(p, "struct")
		names := strings.Split(p, "-")
		names[0] = strings.ReplaceAll(names[0], "/", "")
		r += " " + names[0] + ":"
		for _, n := range []string{"B1", "B2", "C1", "C2", "C3"} {
			has := false
			for _, x := range names[1:] {
				has = vsym.Or(has, x == n)
			}
			if vsym.And(strings.ToLower(n[:1]) == names[0][:1], vsym.Or(has, len(names) == 1)) {
				r += n
			}
		}
		// names that nothing has are words
		for _, x := range names[1:] {
			for i := 0; i < len(x); i++ {
				vsym.Assert(vsym.And(x[i] != ',', x[i] != ':', x[i] != '=', x[i] != '(', x[i] != ')', x[i] != '?', x[i] != '!', x[i] != '<', x[i] != '>', x[i] != '[', x[i] != ']', x[i] != '{', x[i] != '}'), "text without a meaning in a list of names")
			}
		}
		r += " " + rest
	}
	return
}

// VH_Members: the same for the lists of what is imported: what is put in is
// rejected or says nothing.
func VH_Members() {
	n := vsym.Pick(len(lists))
	c := char()
	vsym.Assume(c != "-")
	src := lists[:n] + c + lists[n:]
	switch vsym.Pick(3) {
	case 1:
		c = tokens[vsym.Pick(len(tokens))]
		vsym.Assume(c != "-" && c != "struct" && c != "type" && c != "error")
		c = []string{"", " ", "\n"}[vsym.Pick(3)] + c + []string{"", " ", "\n"}[vsym.Pick(3)]
		src = lists[:n] + c + lists[n:]
	case 2:
		src = lists[:n] + c + lists[n+1:]
	}
	fs := memfs.FS{"a.ridl": src, "bb.ridl": "webrpc = v1\nstruct B1\nstruct B2\n", "cc.ridl": "webrpc = v1\nstruct C1\nstruct C2\nstruct C3\n"}
	s, err := ridl.NewParser(fs, "", "a.ridl").Parse()
	if err != nil {
		vsym.Reach("rejected")
		return
	}
	vsym.Reach("accepted")
	b, cc, own := "", "", ""
	for _, t := range s.Types {
		switch t.Name {
		case "B1", "B2":
			b += t.Name
		case "C1", "C2", "C3":
			cc += t.Name
		default:
			own += t.Name
		}
	}
	got := imported(squeeze(src))
	if got != "webrpc="+s.WebrpcVersion+" cc.ridl:"+cc+"  bb.ridl:"+b+" "+own {
		vsym.Observe("text", src)
		vsym.Fail("accepted, although what is imported was not written: " + got)
	}
}

// VH_Repeat: annotations that are written twice, and long numbers.
func VH_Repeat() {
	const head = "webrpc = v1\nname = n\nversion = v1\n"
	switch vsym.Pick(2) {
	case 0:
		n := 1 + vsym.Pick(8)
		at := vsym.Pick(n)
		x := vsym.StrIn(1, "abcdefghz")
		src := head + "service S\n"
		dup := false
		for i := 0; i < n; i++ {
			k := string(rune('a' + i))
			if i == at {
				k = x
			} else {
				dup = vsym.Or(dup, x == k)
			}
			src += "  @" + k + []string{"\n", ":v\n", ":\"v w\""}[i%3]
			if i%3 == 2 {
				src += " "
			}
		}
		_, err := memfs.Parse(src + "\n  - M()\n")
		vsym.Assert(vsym.Iff(err != nil, dup), "an annotation that is written twice is an error")
		vsym.Reach("annotations")
	case 1:
		n := 1 + vsym.Pick(9)
		at := vsym.Pick(n)
		x := vsym.StrIn(1, "0123456789abz_-+.xeE")
		digits := "123456789"[:n]
		digits = digits[:at] + x + digits[at+1:]
		digit := vsym.And(x[0] >= '0', x[0] <= '9')
		s, err := memfs.Parse(head + "error " + digits + " Foo \"m\"\n")
		if err != nil {
			vsym.Assert(vsym.Or(!digit, vsym.And(n == 1, x == "0")), "a number is accepted")
			vsym.Reach("no number")
			return
		}
		vsym.Assert(digit, "what is not a number is an error")
		v := 0
		for i := 0; i < n; i++ {
			v = v*10 + int(digits[i]-'0')
		}
		vsym.Assert(s.Errors[0].Code == v, "the code is the number that is written")
		vsym.Reach("number")
	}
}
