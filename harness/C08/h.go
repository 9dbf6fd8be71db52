// Package c08 checks the detection of import cycles.
package c08

import (
	"io/fs"
	"strings"

	"github.com/webrpc/webrpc/internal/vh/memfs"
	"github.com/webrpc/webrpc/internal/vsym"
	"github.com/webrpc/webrpc/schema"
	"github.com/webrpc/webrpc/schema/ridl"
)

// world is a set of files whose imports are decided when they are read.
type world struct {
	names []string
	spell func(from, to int) string
	pick  func(from int) []int
	edges [][]int
	read  []bool
	reads int
}

func newWorld(names ...string) *world {
	return &world{names: names, edges: make([][]int, len(names)), read: make([]bool, len(names))}
}

func (w *world) index(name string) int {
	for i, n := range w.names {
		if n == name {
			return i
		}
	}
	return -1
}

func (w *world) ReadFile(name string) ([]byte, error) {
	i := w.index(name)
	if i < 0 {
		return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrNotExist}
	}
	w.reads++
	if w.reads > 200 {
		vsym.Fail("the files are read over and over")
	}
	if !w.read[i] {
		w.read[i] = true
		w.edges[i] = w.pick(i)
	}
	src := "webrpc = v1\n\nname = n\nversion = v1\n\n"
	for _, to := range w.edges[i] {
		src += "import " + w.spell(i, to) + "\n"
	}
	src += "\nstruct T" + string(rune('A'+i)) + "\n  - f: int\n"
	return []byte(src), nil
}

func (w *world) Open(name string) (fs.File, error) {
	b, err := w.ReadFile(name)
	if err != nil {
		return nil, err
	}
	return memfs.FS{name: string(b)}.Open(name)
}

func (w *world) cyclic(i int, stack []bool) bool {
	if stack[i] {
		return true
	}
	stack[i] = true
	r := false
	for _, to := range w.edges[i] {
		r = r || w.cyclic(to, stack)
	}
	stack[i] = false
	return r
}

func (w *world) reach(i int, seen []bool) {
	if seen[i] {
		return
	}
	seen[i] = true
	for _, to := range w.edges[i] {
		w.reach(to, seen)
	}
}

func (w *world) check() {
	s, err := ridl.NewParser(w, "", w.names[0]).Parse()
	vsym.Assert((s == nil) != (err == nil), "neither a schema nor an error")
	if w.cyclic(0, make([]bool, len(w.names))) {
		vsym.Assert(err != nil, "a cycle is accepted")
		if err != nil {
			vsym.Assert(strings.Contains(err.Error(), "circular import"), "a cycle is reported as something else")
			vsym.Reach("cycle")
		}
		return
	}
	vsym.Assert(err == nil, "files without a cycle are rejected")
	if err != nil {
		return
	}
	seen := make([]bool, len(w.names))
	w.reach(0, seen)
	for i := range w.names {
		vsym.Assert(w.read[i] == seen[i], "the files read are not those imported")
		vsym.Assert((find(s, i) != nil) == seen[i], "the types are not those of the files imported")
	}
	vsym.Reach("acyclic")
}

func find(s *schema.WebRPCSchema, i int) *schema.Type {
	for _, t := range s.Types {
		if t.Name == "T"+string(rune('A'+i)) {
			return t
		}
	}
	return nil
}

func flat(n int) *world {
	w := newWorld([]string{"a.ridl", "b.ridl", "c.ridl", "d.ridl", "e.ridl", "f.ridl", "g.ridl", "h.ridl", "i.ridl"}[:n]...)
	w.spell = func(from, to int) string { return w.names[to] }
	return w
}

// subset imports any subset of the files, in order of their names.
func subset(w *world) {
	w.pick = func(int) (r []int) {
		for i := range w.names {
			if vsym.Bool() {
				r = append(r, i)
			}
		}
		return
	}
}

// sequence imports up to max files in any order.
func sequence(w *world, max int) {
	w.pick = func(int) (r []int) {
		for range max {
			i := vsym.Pick(len(w.names) + 1)
			if i == len(w.names) {
				break
			}
			r = append(r, i)
		}
		return
	}
}

// VH_Subsets: every graph of few files.
func VH_Subsets() {
	w := flat(3 + vsym.Tier())
	subset(w)
	w.check()
}

// VH_Orders: files that import others in any order, also twice.
func VH_Orders() {
	w := flat(3 + vsym.Tier())
	sequence(w, 3-vsym.Tier())
	w.check()
}

// VH_Long: chains of files with one more import anywhere.
func VH_Long() {
	w := flat(5 + vsym.Tier())
	extraFrom, extraTo := vsym.Pick(len(w.names)), vsym.Pick(len(w.names))
	extra2From, extra2To := vsym.Pick(len(w.names)), vsym.Pick(len(w.names))
	first := vsym.Bool()
	w.pick = func(i int) (r []int) {
		if i+1 < len(w.names) {
			r = append(r, i+1)
		}
		if i == extraFrom {
			if first {
				r = append([]int{extraTo}, r...)
			} else {
				r = append(r, extraTo)
			}
		}
		if i == extra2From {
			r = append(r, extra2To)
		}
		return
	}
	w.check()
}

// VH_Sparse: five files with at most two imports each.
func VH_Sparse() {
	n := 4 + vsym.Tier()
	w := flat(n)
	w.pick = func(i int) (r []int) {
		a := vsym.Pick(n + 1)
		if a < n {
			r = append(r, a)
			if b := vsym.Pick(n + 1); b < n && i < 3 {
				r = append(r, b)
			}
		}
		return
	}
	w.check()
}

// VH_Paths: the same file under several spellings and in directories.
func VH_Paths() {
	w := newWorld("a.ridl", "d/b.ridl", "d/e/c.ridl", "b.ridl")
	dirs := [][]string{{""}, {"d"}, {"d", "e"}, {""}}
	up := []string{"", "../", "../../", ""}
	style := vsym.Pick(5)
	w.spell = func(from, to int) string {
		p := w.names[to]
		if from == 1 || from == 2 {
			if to == 1 || to == 2 {
				p = strings.TrimPrefix(p, "d/")
				if from == 2 {
					p = "../" + p
				}
			} else {
				p = up[from] + p
			}
		}
		switch style {
		case 1:
			p = "./" + p
		case 2:
			p = "\"" + p + "\""
		case 3:
			p = "x/../" + p
		case 4:
			d := dirs[from]
			if d[0] != "" {
				p = up[from] + strings.Join(d, "/") + "/" + p
			}
		}
		return p
	}
	w.pick = func(i int) (r []int) {
		for k := range w.names {
			if vsym.Bool() && (i != 3 || k == 0 || vsym.Tier() == 1) {
				r = append(r, k)
			}
		}
		return
	}
	w.check()
}

// VH_Root: the root file in a directory, imported again by its path.
func VH_Root() {
	w := newWorld("x/a.ridl", "x/b.ridl", "c.ridl")
	w.spell = func(from, to int) string {
		if from == 2 {
			return w.names[to]
		}
		if to == 2 {
			return "../c.ridl"
		}
		if vsym.Bool() {
			return "../" + w.names[to]
		}
		return strings.TrimPrefix(w.names[to], "x/")
	}
	subset(w)
	w.check()
}

// VH_Outside: a path that leaves the root is an error, not a hang.
func VH_Outside() {
	n := vsym.Pick(3) + 1
	tail := vsym.StrIn(vsym.Pick(3), "a./b")
	w := memfs.FS{"a.ridl": "webrpc = v1\nimport " + strings.Repeat("../", n) + tail + "\n", "b": "webrpc = v1\n"}
	s, err := ridl.NewParser(w, "", "a.ridl").Parse()
	vsym.Assert(s == nil && err != nil, "a path outside the root is accepted")
}

// VH_Dag: files that import any of the later ones, first to last or last to
// first, so that most paths have no cycle.
func VH_Dag() {
	n := 5 + vsym.Tier()
	w := flat(n)
	rev := vsym.Bool()
	w.pick = func(i int) (r []int) {
		for j := i + 1; j < n; j++ {
			if vsym.Bool() {
				if rev {
					r = append([]int{j}, r...)
				} else {
					r = append(r, j)
				}
			}
		}
		return
	}
	w.check()
}

// VH_Names: names that look alike are different files.
func VH_Names() {
	l := [][]string{
		{"a.ridl", "A.ridl", "a.RIDL"}, {"a.ridl", "a", "ridl"}, {"a.ridl", "a.ridl.ridl", "a..ridl"}, {"ab.ridl", "a-b.ridl", "a_b.ridl"},
		{"d/a.ridl", "e/a.ridl", "f/a.ridl"}, {"d/a.ridl", "d/d/a.ridl", "d/D/a.ridl"}, {"d.ridl", "d.ridl/a", "d.ridl/b"}, {"\u00e9", "e\u0301", "\u00c9"},
		{"a1", "a01", "a10"}, {"x y", "x  y", "xy"},
	}
	names := l[vsym.Pick(len(l))]
	w := newWorld(names...)
	w.spell = func(from, to int) string {
		p := names[to]
		if i := strings.Count(names[from], "/"); i > 0 {
			p = strings.Repeat("../", i) + p
		}
		return "\"" + p + "\""
	}
	subset(w)
	w.check()
}

// VH_Wide: a file that imports eight others, some in a chain, with one more
// import anywhere.
func VH_Wide() {
	const n = 9
	w := flat(n)
	chain := []int{0, 3, 6}[vsym.Pick(3)]
	from, to := vsym.Pick(n), vsym.Pick(n)
	first, rev := vsym.Bool(), vsym.Bool()
	w.pick = func(i int) (r []int) {
		if i == 0 {
			for j := 1; j < n; j++ {
				if rev {
					r = append([]int{j}, r...)
				} else {
					r = append(r, j)
				}
			}
		} else if i <= chain {
			r = append(r, i+1)
		}
		if i == from {
			if first {
				r = append([]int{to}, r...)
			} else {
				r = append(r, to)
			}
		}
		return
	}
	w.check()
}
