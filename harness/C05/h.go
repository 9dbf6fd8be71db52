// Package c05 checks quoted values in RIDL.
package c05

import (
	"github.com/webrpc/webrpc/internal/vh/memfs"
	"github.com/webrpc/webrpc/internal/vh/sch"
	"github.com/webrpc/webrpc/internal/vsym"
	"github.com/webrpc/webrpc/schema"
	"github.com/webrpc/webrpc/schema/ridl"
)

const places = 8

// doc has the text q, with its quotes, at one place; tail follows it.
func doc(place int, q, tail string) memfs.FS {
	at := func(p int, def string) string {
		if p == place {
			return q + tail
		}
		return def
	}
	s := "webrpc = v1\nname = " + at(0, "n") + "\nversion = " + at(1, "v1") + "\n\n"
	s += "import " + at(2, "imp.ridl") + "\n\n"
	s += "error 1 E " + at(3, "\"m\"") + "\nerror 2 F \"f\" HTTP 500\n"
	s += "enum En: string\n  - A = " + at(4, "a") + "\n  - B = b\n"
	s += "struct St\n  - f: int\n    + go.tag = " + at(5, "x") + "\n    + go.other = y\n  - g: int\n"
	s += "type Al: string\n  + go.type = " + at(6, "y") + "\n"
	s += "service Sv\n  @auth:" + at(7, "v") + "\n  - M() => (r: int)\n  - N()\n"
	return memfs.FS{"a.ridl": s}
}

func get(s *schema.WebRPCSchema, place int) *string {
	switch place {
	case 0:
		return &s.SchemaName
	case 1:
		return &s.SchemaVersion
	case 3:
		return &s.Errors[0].Message
	case 4:
		return &s.Types[2].Fields[0].Value
	case 7:
		return &s.Services[0].Methods[0].Annotations["auth"].Value
	}
	return nil
}

func shape(s *schema.WebRPCSchema) bool {
	if len(s.Types) != 4 || len(s.Errors) != 2 || len(s.Services) != 1 || len(s.Services[0].Methods) != 2 {
		return false
	}
	t := s.Types
	return t[0].Name == "Imp" && t[1].Name == "Al" && t[2].Name == "En" && t[3].Name == "St" && len(t[1].Meta) == 1 && len(t[2].Fields) == 2 &&
		len(t[3].Fields) == 2 && len(t[3].Fields[0].Meta) == 2 && s.Services[0].Methods[0].Annotations["auth"] != nil
}

const imported = "webrpc = v1\nstruct Imp\n"

func parse(place int, q, tail, v string) (*schema.WebRPCSchema, error) {
	f := doc(place, q, tail)
	if place == 2 {
		f[v] = imported
	} else {
		f["imp.ridl"] = imported
	}
	return ridl.NewParser(f, "", "a.ridl").Parse()
}

// check: the value at place is v and everything else is what it is with a
// plain value there.
func check(place int, q, tail, v string) {
	s, err := parse(place, q, tail, v)
	if err != nil {
		vsym.Fail("rejected: " + err.Error())
	}
	if !shape(s) {
		vsym.Fail("declarations lost or invented")
	}
	switch place {
	case 2:
	case 5, 6:
		m := s.Types[3].Fields[0].Meta
		key := "go.tag"
		if place == 6 {
			m, key = s.Types[1].Meta, "go.type"
		}
		x, ok := m[0][key].(string)
		if !ok {
			vsym.Fail("meta lost")
		}
		vsym.Assert(x == v, "another value than the one written")
		m[0][key] = "x"
	default:
		p := get(s, place)
		vsym.Assert(*p == v, "another value than the one written")
		*p = "x"
	}
	r, err := parse(place, "\"x\"", "", "x")
	if err != nil {
		vsym.Fail("plain value rejected: " + err.Error())
	}
	vsym.Assert(sch.Same(s, r), "the value changes something else")
	vsym.Reach("accepted")
}

// char is one character and how it is written in a string.
func char(set string) (v, q string) {
	c := vsym.ByteIn(set)
	switch c {
	case '\n':
		return "\n", "\\n"
	case '"':
		return "\"", "\\\""
	case '\t':
		if vsym.Bool() {
			return "\t", "\\t"
		}
	}
	return string([]byte{c}), string([]byte{c})
}

var ascii = func() string {
	b := []byte{}
	for c := byte(1); c < 128; c++ {
		if c != '\\' {
			b = append(b, c)
		}
	}
	return string(b)
}()

const names = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 #_-+=@,;:(){}[]<>|!?*&%$^~'"

var wide = []string{"é", "ÿ", "ß", "日", "本", "😀", "\u00a0", "\u2028", "\ufeff", "\ufffd", "\u0080", "Å"}

func tails(place int) string {
	return []string{"", " # note", "# note", " \t"}[vsym.Pick(4)]
}

// VH_One: one character anywhere, every place.
func VH_One() {
	place := vsym.Pick(places)
	set := ascii
	if place == 2 {
		set = names
	}
	v, q := char(set)
	switch vsym.Pick(4) {
	case 1:
		v, q = "a"+v, "a"+q
	case 2:
		v, q = v+"b", q+"b"
	case 3:
		v, q = "a "+v+" b", "a "+q+" b"
	}
	check(place, "\""+q+"\"", "", v)
}

// VH_Two: two and three characters that the lexer and the parser look at.
func VH_Two() {
	place := vsym.Pick(places)
	set := " #\"\n\t!@,:=.+-/|()<a1"
	if place == 2 {
		set = " #,:=+-|()<a1"
	}
	v, q := "", ""
	for range 2 + vsym.Tier() {
		x, y := char(set)
		v, q = v+x, q+y
	}
	check(place, "\""+q+"\"", "", v)
}

// VH_Wide: characters outside ASCII.
func VH_Wide() {
	place := vsym.Pick(places)
	v := ""
	for range 1 + vsym.Pick(2+vsym.Tier()) {
		if i := vsym.Pick(len(wide) + 1); i < len(wide) {
			v += wide[i]
		} else {
			v += string([]byte{vsym.ByteIn("a #1")})
		}
	}
	check(place, "\""+v+"\"", "", v)
}

// VH_Rune: every character of two bytes.
func VH_Rune() {
	b := vsym.Str(2)
	vsym.Assume(vsym.And(b[0] >= 0xc2, b[0] <= 0xdf, b[1] >= 0x80, b[1] <= 0xbf))
	place := []int{0, 3, 4, 7}[vsym.Pick(4)]
	check(place, "\"x"+b+"y\"", "", "x"+b+"y")
}

// VH_Tail: a comment or blanks after the value.
func VH_Tail() {
	place := vsym.Pick(places)
	set := " #\"\n\ta/"
	if place == 2 {
		set = " #a"
	}
	v, q := char(set)
	v2, q2 := char(set)
	s, err := parse(place, "\""+q+q2+"\"", tails(place), v+v2)
	vsym.Assert(err == nil && shape(s), "rejected or declarations lost")
	if err == nil && shape(s) && get(s, place) != nil {
		vsym.Assert(*get(s, place) == v+v2, "another value than the one written")
	}
}

// VH_Raw: arbitrary text between the quotes; what is not a string is
// rejected, and what is denotes what the escapes say.
func VH_Raw() {
	place := []int{0, 3, 4, 5, 6, 7}[vsym.Pick(6)]
	n := vsym.Pick(4 + vsym.Tier())
	raw := vsym.StrIn(n, "\\\"\nnt \trx/#a")
	v, bad := "", n == 0
	for i := 0; i < n; i++ {
		switch raw[i] {
		case '"':
			vsym.Assume(false) // what follows is not in the string
		case '\n':
			bad = true
		case '\\':
			i++
			switch {
			case i == n:
				bad = true // the closing quote is escaped
			case raw[i] == 'n':
				v += "\n"
			case raw[i] == 't':
				v += "\t"
			case raw[i] == '"':
				v += "\""
			default:
				bad = true
			}
		default:
			v += raw[i : i+1]
		}
	}
	if bad {
		s, err := parse(place, "\""+raw+"\"", "", v)
		vsym.Assert(s == nil && err != nil, "a malformed string is accepted")
		vsym.Reach("malformed")
		return
	}
	check(place, "\""+raw+"\"", "", v)
}

// VH_Escape: every character after a backslash.
func VH_Escape() {
	place := []int{0, 3, 4, 5, 6, 7}[vsym.Pick(6)]
	c := vsym.ByteIn(ascii + "\\")
	pre := []string{"", "a ", "#"}[vsym.Pick(3)]
	q := pre + "\\" + string([]byte{c}) + "z"
	switch c {
	case 'n':
		check(place, "\""+q+"\"", "", pre+"\nz")
	case 't':
		check(place, "\""+q+"\"", "", pre+"\tz")
	case '"':
		check(place, "\""+q+"\"", "", pre+"\"z")
	default:
		s, err := parse(place, "\""+q+"\"", "", "")
		vsym.Assert(s == nil && err != nil, "an unknown escape is accepted")
		vsym.Reach("unknown escape")
	}
}

// VH_Open: a string that is not closed on its line.
func VH_Open() {
	place := []int{0, 3, 4, 5, 6, 7}[vsym.Pick(6)]
	raw := vsym.StrIn(vsym.Pick(3+vsym.Tier()), "a #nt/")
	end := []string{"", "\\\"", "\\n", "\n\"", "\r\n\"", "#\n"}[vsym.Pick(6)]
	s, err := parse(place, "\""+raw+end, "", "")
	vsym.Assert(s == nil && err != nil, "a string that is not closed is accepted")
}

// VH_Lits: strings the code mentions.
func VH_Lits() {
	place := []int{0, 1, 3, 4, 5, 6, 7}[vsym.Pick(7)]
	l := vsym.Lit()
	vsym.Assume(len(l) <= 24)
	v, q := "", ""
	for i := 0; i < len(l); i++ {
		switch l[i] {
		case '\n':
			v, q = v+"\n", q+"\\n"
		case '"':
			v, q = v+"\"", q+"\\\""
		case '\\':
		default:
			v, q = v+l[i:i+1], q+l[i:i+1]
		}
	}
	x := vsym.StrIn(vsym.Pick(2), " a")
	if vsym.Bool() {
		v, q = x+v, x+q
	} else {
		v, q = v+x, q+x
	}
	vsym.Assume(len(v) > 0)
	check(place, "\""+q+"\"", "", v)
}

// VH_Long: long texts.
func VH_Long() {
	place := []int{0, 3, 4, 5, 6, 7}[vsym.Pick(6)]
	n := vsym.LitLen(300)
	vsym.Assume(n > 0)
	b := make([]byte, n)
	for i := range b {
		b[i] = " a#/é日"[i%5]
		if b[i] >= 0x80 {
			b[i] = 'z'
		}
	}
	check(place, "\""+string(b)+"\"", "", string(b))
}
