// Package c06 checks documentation comments in RIDL.
package c06

import (
	"strings"

	"github.com/webrpc/webrpc/internal/vh/memfs"
	"github.com/webrpc/webrpc/internal/vsym"
	"github.com/webrpc/webrpc/schema"
	"github.com/webrpc/webrpc/schema/ridl"
)

// line is a line of the sample document; doc says whose comment belongs to
// it, "" for lines whose comments nobody gets.
type line struct{ text, doc string }

var sample = []line{
	{"webrpc = v1", ""},
	{"version = v1", ""},
	{"error 1 E \"m\"", ""},
	{"error 2 F \"m # m\" HTTP 500", ""},
	{"type Al: string", "Al"},
	{"  + go.type = y", ""},
	{"type Am: []string", "Am"},
	{"enum En: uint8", "En"},
	{"  - A = 1", "En.A"},
	{"  - B", "En.B"},
	{"struct St", "St"},
	{"  - f: int", "St.f"},
	{"    + go.tag = a#b", ""},
	{"    + go.two = \"#\"", ""},
	{"  - g?: map<string,int>", "St.g"},
	{"  - h: []Al", "St.h"},
	{"struct Em", "Em"},
	{"service Sv", "Sv"},
	{"  - M(a: int)", "Sv.M"},
	{"  - N() => (b: int)", "Sv.N"},
	{"  @auth", "@"},
	{"  - O() => stream (b: St)", "Sv.O"},
	{"  @x:\"# y\"", "@"},
	{"  @y @z:1", "@"},
	{"  - P(St) => (Em)", "Sv.P"},
	{"  - Q() errors E | F", "Sv.Q"},
	{"service Sw", "Sw"},
	{"  - R()", "Sw.R"},
}

// fills are what may stand between two lines.
var fills = [][]string{
	{}, {"# a"}, {"# a", "# b"}, {""}, {"# a", ""}, {"", "# a"}, {"#! i"}, {"# a", "#! i"}, {"#! i", "# a"}, {"# a", "#! i", "# b"},
	{"#"}, {"# a", "#"}, {"#", "# a"}, {"# a", "", "# b"}, {"# a", "", ""}, {"\t  # a  b "}, {"#a"}, {"# a", "", "#! i"}, {"# a", "\t", "# b"}, {"#", "#"}, {"# see #1"},
}

const quickFills = 9

var tails = []string{"", " # t", " #! i", "\t#t  u", " #", "  "}

// words joins the words of s by single blanks.
func words(s string) string {
	r, w := []byte{}, false
	for i := 0; i < len(s); i++ {
		if s[i] == ' ' || s[i] == '\t' || s[i] == '\r' {
			w = len(r) > 0
			continue
		}
		if w {
			r = append(r, ' ')
		}
		r, w = append(r, s[i]), false
	}
	return string(r)
}

// text of a comment line: its words.
func text(s string) string {
	s = strings.TrimLeft(strings.TrimLeft(s, " \t"), "#")
	return words(s)
}

func isComment(s string) bool { return strings.HasPrefix(strings.TrimLeft(s, " \t"), "#") }

// block is the comments in lines, read upwards from the end to the first line
// that is not one.
func block(lines []string) (r []string) {
	for i := len(lines) - 1; i >= 0; i-- {
		if !isComment(lines[i]) {
			break
		}
		if t := text(lines[i]); !strings.HasPrefix(t, "!") {
			r = append([]string{t}, r...)
		}
	}
	return
}

func tail(s string) (r []string) {
	if isComment(s) {
		if t := text(s); !strings.HasPrefix(t, "!") {
			r = []string{t}
		}
	}
	return
}

type slot struct {
	above []string
	tail  string
}

// render writes the document with the fill and the tail of each line.
func render(slots map[int]slot, final string) string {
	return renderFrom(0, slots, final)
}

// renderFrom writes the lines before start last.
func renderFrom(start int, slots map[int]slot, final string) string {
	b := []string{}
	for k := range sample {
		i := (start + k) % len(sample)
		s := slots[i]
		b = append(b, s.above...)
		b = append(b, sample[i].text+s.tail)
	}
	return strings.Join(b, "\n") + final
}

// expect is the comment of every declaration. skip tells whose comment is not
// pinned.
func expect(slots map[int]slot) (want map[string][]string, skip map[string]bool) {
	want, skip = map[string][]string{}, map[string]bool{}
	for i, l := range sample {
		if l.doc == "" || l.doc == "@" {
			continue
		}
		if l.doc == "En" {
			skip[l.doc] = true // enums have no comments, see DESIGN.md
		}
		first := i
		for sample[first-1].doc == "@" {
			first--
		}
		c := append([]string{}, block(slots[first].above)...)
		for k := first; k < i; k++ {
			// what stands at or below an annotation is left open
			if slots[k].tail != "" || len(slots[k+1].above) > 0 {
				skip[l.doc] = true
			}
		}
		c = append(c, tail(slots[i].tail)...)
		if strings.Join(c, "\n") == "" {
			c = nil
		}
		want[l.doc] = c
	}
	return
}

func eq(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func comments(s *schema.WebRPCSchema) map[string][]string {
	r := map[string][]string{}
	for _, t := range s.Types {
		r[t.Name] = t.Comments
		for _, f := range t.Fields {
			r[t.Name+"."+f.Name] = f.Comments
		}
	}
	for _, v := range s.Services {
		r[v.Name] = v.Comments
		for _, m := range v.Methods {
			r[v.Name+"."+m.Name] = m.Comments
		}
	}
	return r
}

func check(slots map[int]slot, final string) { checkFrom(0, slots, final) }

func checkFrom(start int, slots map[int]slot, final string) {
	s, err := memfs.Parse(renderFrom(start, slots, final))
	if err != nil {
		vsym.Fail("rejected: " + err.Error())
	}
	got := comments(s)
	want, skip := expect(slots)
	if len(got) != len(want) {
		vsym.Fail("declarations lost or invented")
	}
	for k, w := range want {
		g, ok := got[k]
		if !ok {
			vsym.Fail("declaration " + k + " lost")
		}
		if !skip[k] {
			vsym.Assert(eq(g, w), "the comments of "+k+" are "+strings.Join(g, "|")+" and not "+strings.Join(w, "|"))
		}
	}
	if len(skip) == 1 {
		vsym.Reach("all pinned")
	}
}

func fill(tailCount int) slot {
	n, m := quickFills, 3
	if vsym.Tier() == 1 {
		n, m = len(fills), len(tails)
	}
	return slot{fills[vsym.Pick(n)], tails[vsym.Pick(min(m, tailCount))]}
}

// VH_One: comments at one line and its tail.
func VH_One() {
	i := 1 + vsym.Pick(len(sample)-1)
	check(map[int]slot{i: {fills[vsym.Pick(len(fills))], tails[vsym.Pick(len(tails))]}}, "\n")
}

// VH_Pair: comments at two lines in a row.
func VH_Pair() {
	i := 1 + vsym.Pick(len(sample)-2)
	check(map[int]slot{i: fill(len(tails)), i + 1: fill(2)}, "\n")
}

// VH_All: the same comments everywhere but at annotations.
func VH_All() {
	a, t := fills[vsym.Pick(len(fills))], tails[vsym.Pick(len(tails))]
	m := map[int]slot{}
	every := 1 + vsym.Pick(3)
	for i := 1; i < len(sample); i++ {
		if sample[i-1].doc != "@" && i%every == 0 {
			s := slot{a, t}
			if sample[i].doc == "@" {
				s.tail = ""
			}
			m[i] = s
		}
	}
	check(m, "\n")
}

// VH_End: a comment on the last line, with and without what ends it.
func VH_End() {
	last := len(sample) - 1
	check(map[int]slot{last: {fills[vsym.Pick(4)], tails[vsym.Pick(len(tails))]}}, []string{"", "\n", "\n\n", "\r\n", "\n# z", "\n\n# z\n", " ", "\n "}[vsym.Pick(8)])
}

// starts are the lines at which declarations begin.
var starts = []int{1, 2, 4, 6, 7, 10, 16, 17, 26}

// VH_First: any declaration, with its comments, is the first of the file.
func VH_First() {
	i := starts[vsym.Pick(len(starts))]
	j := (i + 1) % len(sample)
	slots := map[int]slot{i: {fills[vsym.Pick(len(fills))], tails[vsym.Pick(len(tails))]}}
	if sample[i].doc != "@" && sample[j].doc != "@" && j > 0 && vsym.Bool() {
		slots[j] = slot{above: []string{"# n"}}
	}
	checkFrom(i, slots, []string{"\n", "", "\n# z"}[vsym.Pick(1+2*vsym.Tier())])
}

// VH_Import: the comments of imported files.
func VH_Import() {
	i := starts[vsym.Pick(len(starts))]
	slots := map[int]slot{i: {fills[vsym.Pick(len(fills))], tails[vsym.Pick(len(tails))]}}
	fs := memfs.FS{"a.ridl": []string{"webrpc = v1\nname = n\nversion = v1\n", "# r\nwebrpc = v1 # s\nversion = v1\n# t\n"}[vsym.Pick(2)] + "import b.ridl\n", "b.ridl": renderFrom(i, slots, "\n")}
	s, err := ridl.NewParser(fs, "", "a.ridl").Parse()
	if err != nil {
		vsym.Fail("rejected: " + err.Error())
	}
	got := comments(s)
	want, skip := expect(slots)
	for k, w := range want {
		if strings.HasPrefix(k, "Sv") || strings.HasPrefix(k, "Sw") {
			if _, ok := got[k]; !ok {
				continue
			}
		}
		if !skip[k] {
			vsym.Assert(eq(got[k], w), "the comments of "+k+" in an imported file are "+strings.Join(got[k], "|")+" and not "+strings.Join(w, "|"))
		}
	}
	vsym.Reach("imported")
}

// VH_Text: the words of a comment, whatever they are.
func VH_Text() {
	n := 1 + vsym.Pick(3+vsym.Tier())
	raw := vsym.StrIn(n, " #!\"\\:=>a.,(@-")
	lines := []int{11, 20, 2, 4, 8, 10, 17, 18, 5}
	switch {
	case n > 3:
		lines = lines[:1]
	case n > 2:
		lines = lines[:1+2*vsym.Tier()]
	}
	i := lines[vsym.Pick(len(lines))]
	c := "# " + raw
	m := map[int]slot{}
	switch vsym.Pick(3) {
	case 0:
		m[i] = slot{above: []string{c}}
	case 1:
		m[i] = slot{above: []string{"# x", c, "# y"}}
	case 2:
		m[i] = slot{tail: " " + c}
	}
	want, skip := expect(m)
	s, err := memfs.Parse(render(m, "\n"))
	if err != nil {
		vsym.Fail("rejected: " + err.Error())
	}
	got := comments(s)
	for k, w := range want {
		if !skip[k] {
			vsym.Assert(eq(got[k], w), "the comments of "+k+" changed")
		}
	}
	vsym.Reach("text")
}

// VH_Any: every byte in a comment.
func VH_Any() {
	b := vsym.Str(1)
	vsym.Assume(vsym.And(b[0] < 0x80, b[0] != '\n', b[0] != 0))
	w := []string{"x" + b + "y", "x " + b, b}[vsym.Pick(3)]
	vsym.Assume(b[0] != '!' && b[0] != '#')
	i := []int{4, 8, 10, 11, 17, 18}[vsym.Pick(6)]
	m := map[int]slot{}
	if vsym.Bool() {
		m[i] = slot{above: []string{"# " + w}}
	} else {
		m[i] = slot{tail: " # " + w}
	}
	s, err := memfs.Parse(render(m, "\n"))
	if err != nil {
		vsym.Fail("rejected: " + err.Error())
	}
	want := []string{w}
	if b[0] == ' ' || b[0] == '\t' || b[0] == '\r' {
		want = []string{words(w)}
		if want[0] == "" {
			want = nil
		}
	}
	vsym.Assert(eq(comments(s)[sample[i].doc], want), "the words of a comment changed")
}

// VH_Long: long blocks of comments, of many words, at the declarations of a
// schema with many of everything.
func VH_Long() {
	var ds []line
	add := func(text, doc string) { ds = append(ds, line{text, doc}) }
	letter := func(i int) string { return string(rune('A' + i)) }
	for i := 0; i < 2; i++ {
		n := letter(i)
		add("enum En"+n+": uint8", "")
		for k := 0; k < 6; k++ {
			add("  - V"+letter(k), "En"+n+".V"+letter(k))
		}
		add("struct St"+n, "St"+n)
		for k := 0; k < 6; k++ {
			add("  - F"+letter(k)+": string", "St"+n+".F"+letter(k))
			if k%4 == 1 {
				add("    + json = j"+letter(k), "")
			}
		}
		add("service Sv"+n, "Sv"+n)
		for k := 0; k < 6; k++ {
			add("  - M"+letter(k)+"()", "Sv"+n+".M"+letter(k))
		}
	}
	at := -1
	for want := vsym.Pick(40); want >= 0; want-- {
		at++
		for ds[at].doc == "" {
			at++
		}
	}
	sizes := []int{1, 3, 4, 6, 9}
	n, w := sizes[vsym.Pick(len(sizes))], 0
	odd, what := 0, 0
	x := vsym.StrIn(1, "a:@")
	if at%6 == 0 || vsym.Tier() == 1 {
		what = vsym.Pick(3)
		odd = vsym.Pick(n)
		w = sizes[vsym.Pick(len(sizes))]
	}
	doc := "webrpc = v1\nname = n\nversion = v1\nbasepath = /x\n\n"
	var want []string
	for i, l := range ds {
		switch {
		case i == at:
			for k := 0; k < n; k++ {
				if k == odd && what > 0 {
					doc += []string{"", "  #! i\n", "  #\n"}[what]
					if what == 2 {
						want = append(want, "")
					}
					continue
				}
				t := "l" + letter(k)
				for j := 0; j < w; j++ {
					t += " " + x + letter(j)
				}
				doc += "# " + t + "\n"
				want = append(want, t)
			}
		case l.doc != "":
			doc += "# " + l.doc + "\n"
		}
		doc += l.text + "\n"
	}
	if strings.Join(want, "\n") == "" {
		want = nil
	}
	s, err := memfs.Parse(doc)
	if err != nil {
		vsym.Fail("rejected: " + err.Error())
	}
	got := comments(s)
	seen := 0
	for i, l := range ds {
		if l.doc == "" {
			continue
		}
		seen++
		g, ok := got[l.doc]
		if !ok {
			vsym.Fail("declaration " + l.doc + " lost")
		}
		if i == at {
			vsym.Assert(eq(g, want), "the long comment of "+l.doc+" is "+strings.Join(g, "|")+" and not "+strings.Join(want, "|"))
			continue
		}
		if !eq(g, []string{l.doc}) {
			vsym.Fail("the comment of " + l.doc + " is " + strings.Join(g, "|"))
		}
	}
	vsym.Reach("long")
}
