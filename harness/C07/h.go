// Package c07 checks what imports bring in.
package c07

import (
	"strings"

	"github.com/webrpc/webrpc/internal/vh/memfs"
	"github.com/webrpc/webrpc/internal/vsym"
	"github.com/webrpc/webrpc/schema"
	"github.com/webrpc/webrpc/schema/ridl"
)

// imp is one import line: the file and the members, none for all.
type imp struct {
	to      int
	members []string
}

// world is a set of files; file i declares the type T, the error E and the
// service V named after it.
type world struct {
	names  []string
	imps   [][]imp
	style  int // how imports are written
	extra  []string
	decls  []string // the kind of type of each file
	noDeps bool
}

func (w *world) letter(i int) string { return string(rune('a' + i)) }

func (w *world) text(i int) string {
	src := "webrpc = v1\nname = n" + w.letter(i) + "\nversion = v" + w.letter(i) + "\n\n"
	im := ""
	if w.style == 1 && len(w.imps[i]) > 0 {
		im = "import\n"
	}
	for _, x := range w.imps[i] {
		switch {
		case w.style == 1 && len(x.members) == 0:
			im += "  - " + w.names[x.to] + "\n"
		case w.style == 1:
			im += "import " + w.names[x.to] + "\n  - " + strings.Join(x.members, "\n  - ") + "\nimport # more\n"
		case len(x.members) == 0:
			im += "import " + w.names[x.to] + "\n"
		default:
			im += "import " + w.names[x.to] + "\n  - " + strings.Join(x.members, "\n  - ") + "\n"
		}
	}
	im += "\n"
	if w.style != 2 {
		src += im
	}
	n := w.letter(i)
	switch w.decls[i] {
	case "enum":
		src += "enum T" + n + ": uint8\n  - A\n"
	case "alias":
		src += "type T" + n + ": string\n"
	default:
		src += "struct T" + n + "\n  - own: int\n"
		for _, j := range w.deps(i) {
			src += "  - f" + w.letter(j) + ": []T" + w.letter(j) + "\n"
		}
	}
	src += "\nerror " + string(rune('1'+i)) + " E" + n + " \"m" + n + "\" HTTP 50" + string(rune('1'+i)) + "\n"
	src += "\nservice V" + n + "\n  - M" + n + "(x: T" + n + ") => (y: T" + n + ") errors E" + n + "\n"
	if w.style == 2 {
		src += "\n" + im
	}
	return src
}

// deps are the files whose types the struct of file i mentions.
func (w *world) deps(i int) (r []int) {
	if w.decls[i] != "" || w.noDeps {
		return nil
	}
	for j := range w.names {
		if has(w.part(i, 'T'), "T"+w.letter(j)) && j != i {
			r = append(r, j)
		}
	}
	return
}

func has(l []string, x string) bool {
	for _, y := range l {
		if y == x {
			return true
		}
	}
	return false
}

// part lists the declarations of one kind that file i ends up with: what its
// imports bring, in their order, then its own.
func (w *world) part(i int, kind byte) (r []string) {
	for _, x := range w.imps[i] {
		for _, d := range w.part(x.to, kind) {
			if (len(x.members) == 0 || has(x.members, d)) && !has(r, d) {
				r = append(r, d)
			}
		}
	}
	return append(r, string(rune(kind))+w.letter(i))
}

// valid: every declaration file i ends up with, and those of its imports, has
// what it mentions.
func (w *world) valid(i int) bool {
	for _, x := range w.imps[i] {
		if !w.valid(x.to) {
			return false
		}
	}
	ts, es := w.part(i, 'T'), w.part(i, 'E')
	for _, t := range ts {
		for _, j := range w.deps(int(t[1] - 'a')) {
			if !has(ts, "T"+w.letter(j)) {
				return false
			}
		}
	}
	for _, v := range w.part(i, 'V') {
		if !has(ts, "T"+v[1:]) || !has(es, "E"+v[1:]) {
			return false
		}
	}
	return true
}

func (w *world) parse() (*schema.WebRPCSchema, error) {
	f := memfs.FS{}
	for i, n := range w.names {
		f[n] = w.text(i)
	}
	return ridl.NewParser(f, "", w.names[0]).Parse()
}

func (w *world) check() {
	s, err := w.parse()
	vsym.Assert((s == nil) != (err == nil), "neither a schema nor an error")
	if !w.valid(0) {
		vsym.Assert(err != nil, "a declaration that mentions a type or error left out is accepted")
		vsym.Reach("incomplete")
		return
	}
	if err != nil {
		vsym.Fail("rejected: " + err.Error())
	}
	w.same(s)
	vsym.Reach("accepted")
}

func (w *world) same(s *schema.WebRPCSchema) {
	ts, es, vs := w.part(0, 'T'), w.part(0, 'E'), w.part(0, 'V')
	vsym.Assert(s.SchemaName == "na" && s.SchemaVersion == "va", "name or version of another file")
	vsym.Assert(len(s.Types) == len(ts), "number of types")
	vsym.Assert(len(s.Errors) == len(es), "number of errors")
	vsym.Assert(len(s.Services) == len(vs), "number of services")
	for k, t := range s.Types {
		if k < len(ts) {
			vsym.Assert(t.Name == ts[k], "type "+t.Name+" in place of "+ts[k])
			w.sameType(s, t)
		}
	}
	for k, e := range s.Errors {
		if k < len(es) {
			n := int(es[k][1] - 'a')
			vsym.Assert(e.Name == es[k] && e.Code == n+1 && e.HTTPStatus == 501+n && e.Message == "m"+w.letter(n), "error "+e.Name+" in place of "+es[k])
		}
	}
	for k, v := range s.Services {
		if k < len(vs) {
			n := vs[k][1:]
			vsym.Assert(v.Name == vs[k], "service "+v.Name+" in place of "+vs[k])
			if len(v.Methods) != 1 || len(v.Methods[0].Inputs) != 1 || len(v.Methods[0].Outputs) != 1 || len(v.Methods[0].Errors) != 1 {
				vsym.Fail("method of " + v.Name)
			}
			m := v.Methods[0]
			vsym.Assert(m.Name == "M"+n && m.Errors[0] == "E"+n, "method of "+v.Name)
			w.sameRef(s, m.Inputs[0].Type, "T"+n)
			w.sameRef(s, m.Outputs[0].Type, "T"+n)
		}
	}
}

func (w *world) sameType(s *schema.WebRPCSchema, t *schema.Type) {
	i := int(t.Name[1] - 'a')
	switch w.decls[i] {
	case "enum":
		vsym.Assert(t.Kind == "enum" && len(t.Fields) == 1 && t.Fields[0].Name == "A" && t.Fields[0].Value == "0", "enum changed")
	case "alias":
		vsym.Assert(t.Kind == "alias" && len(t.Fields) == 0 && t.Type != nil && t.Type.Expr == "string", "alias changed")
	default:
		d := w.deps(i)
		vsym.Assert(t.Kind == "struct" && len(t.Fields) == len(d)+1, "struct changed")
		for k, j := range d {
			if k+1 < len(t.Fields) {
				f := t.Fields[k+1]
				vsym.Assert(f.Name == "f"+w.letter(j) && f.Type.Type == schema.T_List, "field changed")
				if f.Type.List != nil {
					w.sameRef(s, f.Type.List.Elem, "T"+w.letter(j))
				}
			}
		}
	}
}

// sameRef: the reference points at the type of the schema with that name.
func (w *world) sameRef(s *schema.WebRPCSchema, v *schema.VarType, name string) {
	var d *schema.Type
	for _, t := range s.Types {
		if t.Name == name {
			d = t
		}
	}
	var to *schema.Type
	switch {
	case v.Struct != nil:
		to = v.Struct.Type
	case v.Enum != nil:
		to = v.Enum.Type
	case v.Alias != nil:
		to = v.Alias.Type
	}
	vsym.Assert(v.Expr == name && d != nil && to == d, "reference to "+name+" changed")
}

func files(n int) *world {
	w := &world{names: []string{"a.ridl", "b.ridl", "c.ridl", "d.ridl", "e.ridl", "f.ridl", "g.ridl"}[:n], imps: make([][]imp, n), decls: make([]string, n)}
	return w
}

// VH_Graphs: every acyclic import graph, imports in both orders.
func VH_Graphs() {
	n := 4 + vsym.Tier()
	w := files(n)
	w.style = vsym.Pick(3)
	rev := vsym.Bool()
	for i := range n {
		for k := i + 1; k < n; k++ {
			j := k
			if rev {
				j = n + i - k
			}
			if vsym.Bool() {
				w.imps[i] = append(w.imps[i], imp{to: j})
			}
		}
	}
	w.check()
}

// VH_Kinds: imports of every kind of type, also twice.
func VH_Kinds() {
	w := files(3)
	for i := range 3 {
		w.decls[i] = []string{"", "enum", "alias"}[vsym.Pick(3)]
	}
	w.style = vsym.Pick(3)
	for range vsym.Pick(3) {
		w.imps[0] = append(w.imps[0], imp{to: 1 + vsym.Pick(2)})
	}
	if vsym.Bool() {
		w.imps[1] = append(w.imps[1], imp{to: 2})
	}
	w.check()
}

func some(names ...string) (r []string) {
	for _, n := range names {
		if vsym.Bool() {
			r = append(r, n)
		}
	}
	return
}

// VH_Members: a imports b with any list of members, b imports c.
func VH_Members() {
	w := files(3)
	w.style = vsym.Pick(2)
	w.noDeps = vsym.Bool()
	w.imps[0] = []imp{{to: 1, members: some("Tb", "Eb", "Vb", "Tc", "Ec", "Vc")}}
	w.imps[1] = []imp{{to: 2, members: some("Vc", "Ec", "Tc")}}
	w.check()
}

// VH_Both: a imports c and b, which imports c, each with its members.
func VH_Both() {
	w := files(3)
	w.noDeps = vsym.Bool()
	ib := imp{to: 1, members: some("Tb", "Tc", "Ec")}
	ic := imp{to: 2, members: some("Tc", "Ec", "Vc")}
	if vsym.Bool() {
		w.imps[0] = []imp{ib, ic}
	} else {
		w.imps[0] = []imp{ic, ib}
	}
	w.imps[1] = []imp{{to: 2, members: some("Tc", "Ec")}}
	w.check()
}

// VH_Twice: the same file imported in parts.
func VH_Twice() {
	w := files(2)
	w.imps[0] = []imp{{to: 1, members: some("Tb", "Eb", "Vb")}, {to: 1, members: some("Tb", "Eb", "Vb")}}
	if vsym.Tier() == 1 {
		w.imps[0] = append(w.imps[0], imp{to: 1, members: some("Eb", "Tb")})
	}
	w.check()
}

// VH_MemberName: a member is matched exactly.
func VH_MemberName() {
	w := files(3)
	w.noDeps = true
	m := vsym.StrIn(1+vsym.Pick(3+vsym.Tier()), "TEVbct")
	w.imps[0] = []imp{{to: 1, members: []string{m}}}
	w.imps[1] = []imp{{to: 2}}
	if vsym.Bool() {
		w.imps[0][0].members = append(w.imps[0][0].members, "Tc")
	}
	w.check()
}

// VH_Bad: a problem in an imported file fails the whole parse.
func VH_Bad() {
	n := 2 + vsym.Pick(2)
	w := files(4)
	for i := range n {
		if vsym.Bool() {
			w.imps[i] = append(w.imps[i], imp{to: i + 1})
		} else {
			w.imps[i] = append(w.imps[i], imp{to: i + 1, members: []string{"T" + w.letter(i+1), "T" + w.letter(n)}})
		}
	}
	w.style = vsym.Pick(3)
	w.noDeps = true
	f := memfs.FS{}
	for i, n := range w.names {
		f[n] = w.text(i)
	}
	bad := w.names[n]
	t := f[bad]
	ok := false
	switch vsym.Pick(11) {
	case 0:
		delete(f, bad)
	case 1:
		t += "struct\n"
	case 2:
		t += "struct X\n  - f: Missing\n"
	case 3:
		t = strings.Replace(t, "webrpc = v1", "webrpc = v2", 1)
	case 4:
		t = strings.Replace(t, "webrpc = v1\n", "", 1)
	case 5:
		t += "struct X\n\nstruct x\n"
	case 6:
		t += "error 0 Zero \"m\"\n"
	case 7:
		t += "\nservice V\n  - M() errors Missing\n"
	case 8:
		t += "import missing.ridl\n"
	case 9:
		t += "type X: []\n"
	case 10:
		t += "struct X\n  - f: T" + w.letter(n) + "\n"
		ok = true
	}
	if _, is := f[bad]; is {
		f[bad] = t
	}
	s, err := ridl.NewParser(f, "", "a.ridl").Parse()
	vsym.Assert((s == nil) != (err == nil), "neither a schema nor an error")
	if !ok {
		vsym.Assert(err != nil, "a problem in an imported file is ignored")
		vsym.Reach("bad")
	} else {
		vsym.Reach("good")
	}
}

// VH_Clash: two files that declare the same name.
func VH_Clash() {
	kind := vsym.Pick(3)
	mk := func(name string, members string) string {
		f := "webrpc = v1\nversion = v1\nname = x\n" + members
		switch kind {
		case 0:
			f += "struct " + name + "\n  - f: int\n"
		case 1:
			f += "error 7 " + name + " \"m\"\n"
		default:
			f += "service " + name + "\n  - M()\n"
		}
		return f
	}
	n1, n2 := "Foo", []string{"Foo", "FOo", "Bar"}[vsym.Pick(3)]
	other := map[bool]string{true: "struct Own\n", false: ""}
	own := vsym.Bool() // the second declaration is in the root file
	f := memfs.FS{"b.ridl": mk(n1, "struct B\n")}
	list := vsym.Pick(3)
	im := "import b.ridl\n" + []string{"", "  - B\n", "  - Foo\n"}[list]
	if own {
		f["a.ridl"] = mk(n2, im)
	} else {
		f["c.ridl"] = strings.Replace(mk(n2, "struct C\n"), "error 7", "error 8", 1)
		f["a.ridl"] = "webrpc = v1\nversion = v1\nname = x\n" + im + "import c.ridl\n" + other[vsym.Bool()]
	}
	s, err := ridl.NewParser(f, "", "a.ridl").Parse()
	clash := list != 1 && (n2 != "Bar" || kind == 1 && own)
	vsym.Assert((err != nil) == clash, "two declarations of a name")
	if err == nil {
		num := 0
		for _, t := range s.Types {
			if t.Name == n1 || t.Name == n2 {
				num++
			}
		}
		for _, t := range s.Errors {
			if t.Name == n1 || t.Name == n2 {
				num++
			}
		}
		for _, t := range s.Services {
			if t.Name == n1 || t.Name == n2 {
				num++
			}
		}
		want := 2
		if list == 1 {
			want = 1
		}
		vsym.Assert(num == want, "declarations lost")
	}
}

// VH_Paths: paths are relative to the importing file.
func VH_Paths() {
	dirs := []string{"", "d/", "d/e/", "f/"}
	from := dirs[vsym.Pick(4)]
	rel := vsym.StrIn(1+vsym.Pick(6+vsym.Tier()), "./def")
	// the file the path means
	parts := []string{}
	ok := true
	for _, c := range strings.Split(from+rel, "/") {
		switch c {
		case "", ".":
		case "..":
			if len(parts) == 0 {
				ok = false
			} else {
				parts = parts[:len(parts)-1]
			}
		default:
			parts = append(parts, c)
		}
	}
	to := strings.Join(parts, "/")
	vsym.Assume(rel[0] != '/')
	f := memfs.FS{from + "a.ridl": "webrpc = v1\nimport \"" + rel + "\"\nstruct A\n"}
	cands := []string{"d", "e", "f", "d/e", "d/f", "d/e/f", "f/f", "f/e", "d/d", "f/d", "e/d", "d/e/d", "d/e/e", "ef", "fd", "d/ef", "f/ef"}
	for i, c := range cands {
		f[c] = "webrpc = v1\nstruct T" + string(rune('a'+i)) + "\n"
	}
	s, err := ridl.NewParser(f, "", from+"a.ridl").Parse()
	want := -1
	for i, c := range cands {
		if ok && c == to {
			want = i
		}
	}
	if want < 0 {
		vsym.Assert(err != nil, "import of a file that is not there")
		return
	}
	vsym.Assert(err == nil && len(s.Types) == 2 && s.Types[0].Name == "T"+string(rune('a'+want)), "import of another file")
	vsym.Reach("found")
}

// VH_Dirs: files of two directories import each other by paths of their own;
// the same path means another file from another directory, and one file may be
// reached by several paths.
func VH_Dirs() {
	dirs := []string{"", "x/", "y/", "x/y/"}
	d1, d2 := vsym.Pick(4), vsym.Pick(4)
	up := []string{"", "../", "../", "../../"}
	spell := func(from int, to string) string {
		switch vsym.Pick(3) {
		case 0:
			return up[from] + to
		case 1:
			return "./" + up[from] + to
		}
		if from == 0 {
			return "x/../" + to
		}
		return "../" + dirs[from][:len(dirs[from])-1] + "/" + up[from] + to // not the same file from x/y
	}
	if d1 == 3 || d2 == 3 {
		spell = func(from int, to string) string { return up[from] + to }
	}
	f := memfs.FS{}
	for i, d := range dirs {
		f[d+"b.ridl"] = "webrpc = v1\nstruct B" + string(rune('0'+i)) + "\n"
	}
	f["c.ridl"] = "webrpc = v1\nstruct C\n"
	member := vsym.Bool()
	mk := func(d int, t string) string {
		src := "webrpc = v1\nimport\n  - b.ridl\n  - " + spell(d, "c.ridl") + "\n"
		if member {
			src += "import " + spell(d, "b.ridl") + "\n  - B0\n"
		}
		return src + "struct " + t + "\n"
	}
	f[dirs[d1]+"p.ridl"] = mk(d1, "P")
	f[dirs[d2]+"q.ridl"] = mk(d2, "Q")
	root := "webrpc = v1\nimport\n  - " + dirs[d1] + "p.ridl\n  - " + dirs[d2] + "q.ridl\n"
	want := []string{}
	add := func(l ...string) {
		for _, n := range l {
			if !has(want, n) {
				want = append(want, n)
			}
		}
	}
	one := func(d int, t string) {
		add("B"+string(rune('0'+d)), "C")
		if member {
			add("B0")
		}
		add(t)
	}
	one(d1, "P")
	one(d2, "Q")
	if vsym.Bool() {
		root += "  - b.ridl\n"
		add("B0")
	}
	f["a.ridl"] = root + "struct A\n"
	add("A")
	s, err := ridl.NewParser(f, "", "a.ridl").Parse()
	vsym.Reach("dirs")
	vsym.Assert(err == nil, "imports across directories are read")
	vsym.Assert(len(s.Types) == len(want), "every imported declaration is there once")
	for i, t := range s.Types {
		vsym.Assert(t.Name == want[i], "a path means the file relative to the importing file")
	}
}

// VH_Wide: many imports in one file, or a long chain, with a list of many
// members.
func VH_Wide() {
	const n = 7
	w := files(n)
	listed := vsym.Bool()
	if !listed {
		w.style = vsym.Pick(3)
	}
	w.noDeps = vsym.Bool()
	if vsym.Bool() {
		for i := range n - 1 {
			w.imps[i] = []imp{{to: i + 1}}
		}
	} else {
		from, rev := 0, vsym.Bool()
		if !listed {
			from = vsym.Pick(n - 1)
		}
		for k := range n - 1 {
			j := 1 + (from+k)%(n-1)
			if rev {
				j = n - j
			}
			w.imps[0] = append(w.imps[0], imp{to: j})
		}
		at := 1 + vsym.Pick(n-2)
		w.imps[at] = []imp{{to: at + 1}}
		if at+2 < n && vsym.Bool() {
			w.imps[at] = append(w.imps[at], imp{to: at + 2})
		}
	}
	if listed {
		l := w.imps[0]
		x := &l[vsym.Pick(len(l))]
		var all []string
		for k := 1; k < n; k++ {
			all = append(all, "T"+w.letter(k), "E"+w.letter(k), "V"+w.letter(k))
		}
		x.members = all[3*vsym.Pick(6):]
		x.members = x.members[:min([]int{3, 5, 10, 18}[vsym.Pick(3+vsym.Tier())], len(x.members))]
	}
	w.check()
}

// VH_BadWide: a problem in one of many imported files.
func VH_BadWide() {
	const n = 7
	w := files(n)
	w.style = vsym.Pick(3)
	w.noDeps = true
	chain := vsym.Bool()
	for k := 1; k < n; k++ {
		from := 0
		if chain {
			from = k - 1
		}
		w.imps[from] = append(w.imps[from], imp{to: k})
	}
	f := memfs.FS{}
	for i, n := range w.names {
		f[n] = w.text(i)
	}
	bad := w.names[1+vsym.Pick(n-1)]
	switch vsym.Pick(5) {
	case 0:
		delete(f, bad)
	case 1:
		f[bad] += "struct\n"
	case 2:
		f[bad] += "struct X\n  - f: Missing\n"
	case 3:
		f[bad] += "import a.ridl\n"
	case 4:
		f[bad] += "error 99 X \"m\"\nerror 99 Y \"m\"\n"
	}
	s, err := ridl.NewParser(f, "", "a.ridl").Parse()
	vsym.Reach("bad")
	vsym.Assert(s == nil && err != nil, "a problem in an imported file is ignored")
}
