// Package c21 checks the cache of fetched templates over histories of runs,
// with the end of a run or a failure at every step of writing.
package c21

import (
	"strings"
	"time"

	"github.com/webrpc/webrpc/gen"
	"github.com/webrpc/webrpc/internal/vgitfs"
	"github.com/webrpc/webrpc/internal/vh/genenv"
	"github.com/webrpc/webrpc/internal/vos"
	"github.com/webrpc/webrpc/internal/vsym"
	"github.com/webrpc/webrpc/internal/vtime"
)

const start = 1_700_000_000

// result is what one run did.
type result struct {
	out     *gen.GenOutput
	err     error
	fetched int
	crashed bool
}

// run generates once.
func run(target string, refresh bool) (r result) {
	s := genenv.Schema("n", "v1", false)
	if s.Validate() != nil {
		vsym.Assume(false)
	}
	n := len(vgitfs.Fetched)
	defer func() {
		r.fetched = len(vgitfs.Fetched) - n
		vos.FailAt, vos.Crash = 0, false
		if p := recover(); p != nil {
			if _, ok := p.(vos.Crashed); !ok {
				panic(p)
			}
			r.crashed = true
		}
	}()
	r.out, r.err = gen.Generate(s, target, &gen.Config{RefreshCache: refresh})
	return
}

// set is a set of templates, by version.
func set(names string, text string) (r vgitfs.Repo) {
	for i := 0; i < len(names); i++ {
		if names[i] == 'm' {
			r.Names = append(r.Names, "main.go.tmpl")
		} else {
			r.Names = append(r.Names, names[i:i+1]+".go.tmpl")
		}
		r.Texts = append(r.Texts, text+names[i:i+1])
	}
	return
}

// code is what a set of templates prints.
func code(r vgitfs.Repo) string {
	c := "main:"
	for i, n := range r.Names {
		c += n + "=" + r.Texts[i] + ";"
	}
	return c
}

var (
	target = "github.com/x/gen-y@v1.0.0"
	sets   = []string{"am", "m", "mz", "amz"}
)

// cached are the templates in the cache.
func cached(dir string) (c string) {
	l := vos.List(dir)
	for i := range l {
		for k := i; k > 0 && l[k] < l[k-1]; k-- {
			l[k], l[k-1] = l[k-1], l[k]
		}
	}
	c = "main:"
	for _, n := range l {
		if strings.HasSuffix(n, ".go.tmpl") {
			d, _ := vos.Get(dir + "/" + n)
			c += n + "=" + d + ";"
		}
	}
	return
}

// VH_Decide: when templates are fetched, and what is used when that fails.
func VH_Decide() {
	genenv.Reset()
	targets := []string{target, "github.com/x/gen-y", "thing", "Thing@v2.0.0"}
	target := targets[vsym.Pick(len(targets))]
	repo := []string{target, target, "github.com/webrpc/gen-thing", "github.com/webrpc/gen-thing@v2.0.0"}
	name := target
	for i := range targets {
		if targets[i] == target {
			name = repo[i]
		}
	}
	old, new := set("am", "old"), set("mz", "new")
	have := vsym.Bool()
	if have {
		vgitfs.Repos[name] = old
		r := run(target, vsym.Bool())
		vsym.Assert(r.err == nil && r.fetched == 1 && r.out.Code == code(old), "without a cache the templates are fetched")
		vsym.Assert(r.out.CacheRefreshErr == nil && r.out.CacheAge == 0 && !r.out.IsLocal && r.out.TmplVersion == name, "without a cache the templates are fetched")
	}
	refresh, works := vsym.Bool(), vsym.Bool()
	var age int
	if works {
		age = []int{0, 1, 3599, 3600, 3601, 7200, 20000}[vsym.Pick(7)]
	} else {
		age = vsym.Int(0, 20000)
	}
	vtime.Clock = start + int64(age)
	if works {
		vgitfs.Repos[name] = new
	} else {
		vgitfs.Repos[name] = vgitfs.Repo{Err: true}
	}
	r := run(target, refresh)
	vsym.Reach("decided")
	want := 0
	if vsym.Or(!have, refresh, age > 3600) {
		want = 1
	}
	vsym.Assert(r.fetched == want, "templates are fetched when there is no cache, when a refresh is asked for and when the cache is older than an hour")
	if want == 1 && !works && !have {
		vsym.Reach("failed")
		vsym.Assert(r.err != nil && (r.out == nil || r.out.Code == ""), "a failed fetch without a cache fails")
		vsym.Assert(len(vos.List("/tmp")) == 0, "a failed fetch writes no cache")
		return
	}
	vsym.Assert(r.err == nil, "generation works")
	vsym.Assert(r.out.TmplVersion == name && !r.out.IsLocal, "the version of fetched templates is their repository and ref")
	if want == 1 && works {
		vsym.Reach("fetched")
		vsym.Assert(r.out.Code == code(new) && r.out.CacheRefreshErr == nil && r.out.CacheAge == 0, "fetched templates are used")
		vsym.Assert(cached(r.out.TmplDir) == code(new), "after a refresh the cache holds exactly the fetched templates")
		return
	}
	vsym.Assert(r.out.Code == code(old), "the cache is used")
	vsym.Assert(r.out.CacheAge == time.Duration(age)*time.Second, "the age of the cache is told")
	vsym.Assert((r.out.CacheRefreshErr != nil) == (want == 1), "a failed fetch is reported")
	vsym.Assert(cached(r.out.TmplDir) == code(old), "a failed fetch leaves the cache as it is")
}

// VH_Refresh: after a refresh the cache is what was fetched, whatever it held.
func VH_Refresh() {
	genenv.Reset()
	old, new := set(sets[vsym.Pick(4)], "old"), set(sets[vsym.Pick(4)], []string{"new", "old", "n"}[vsym.Pick(3)])
	vgitfs.Repos[target] = old
	r := run(target, false)
	vsym.Assert(r.err == nil && r.out.Code == code(old), "fetched templates are used")
	if vsym.Bool() {
		vos.Put(r.out.TmplDir+"/.stray", "x")
		vos.Put(r.out.TmplDir+"/b.go.tmpl", "x")
	}
	vos.Reverse = vsym.Bool()
	vgitfs.Repos[target] = new
	refresh := vsym.Bool()
	if refresh {
		vtime.Clock += 10
	} else {
		vtime.Clock += 3601
	}
	r = run(target, refresh)
	vsym.Assert(r.err == nil && r.out.Code == code(new) && r.out.CacheRefreshErr == nil, "fetched templates are used")
	dir := r.out.TmplDir
	vsym.Assert(cached(dir) == code(new), "after a refresh the cache holds exactly the fetched templates")
	wait := []int64{0, 1, 3600}[vsym.Pick(3)]
	vtime.Clock += wait
	vgitfs.Repos[target] = set("q", "never")
	r = run(target, false)
	vsym.Reach("served")
	vsym.Assert(r.err == nil && r.fetched == 0 && r.out.Code == code(new), "within an hour the cache is used")
	vsym.Assert(r.out.TmplVersion == target && r.out.TmplDir == dir, "cached templates are told like fetched ones")
	vsym.Assert(r.out.CacheAge == time.Duration(wait)*time.Second && r.out.CacheRefreshErr == nil, "the age of the cache is told")
	vtime.Clock += 3601
	vgitfs.Repos[target] = set("m", "third")
	r = run(target, false)
	vsym.Assert(r.err == nil && r.fetched == 1 && r.out.Code == code(set("m", "third")), "after an hour the templates are fetched")
}

// VH_Crash: a run ends, or fails, at any step of writing the cache.
func VH_Crash() {
	genenv.Reset()
	a, b := vsym.Pick(4), vsym.Pick(4)
	old, new, third := set(sets[a], "old"), set(sets[b], "new"), set("mx", "third")
	have := vsym.Pick(3)
	if have > 0 {
		vgitfs.Repos[target] = old
		if run(target, false).err != nil {
			vsym.Fail("generation works")
		}
	}
	if have == 2 {
		vtime.Clock += 4000
	}
	vos.Reverse = vsym.Bool()
	vos.FailAt, vos.Crash, vos.Partial = vos.Steps+vsym.Int(1, 20), vsym.Bool(), []int{0, 1, 3, 9}[vsym.Pick(4)]
	at, crash := vos.FailAt, vos.Crash
	vgitfs.Repos[target] = new
	r := run(target, true)
	hit := vos.Steps >= at
	if !hit {
		vsym.Reach("all steps")
		vsym.Assert(r.err == nil && !r.crashed && r.out.Code == code(new) && r.out.CacheRefreshErr == nil, "fetched templates are used")
	}
	if hit && !crash {
		vsym.Reach("failure")
		vsym.Assert(r.err == nil && r.out.Code == code(new), "templates that cannot be cached are used")
		vsym.Assert(r.out.CacheRefreshErr != nil, "a failure to write the cache is reported")
	}
	if hit && crash {
		vsym.Reach("crash")
		vsym.Assert(r.crashed, "no step goes on after the end")
	}
	later := vsym.Pick(2)
	vtime.Clock += []int64{5, 5000}[later]
	works := vsym.Bool()
	if works {
		vgitfs.Repos[target] = third
	} else {
		vgitfs.Repos[target] = vgitfs.Repo{Err: true}
	}
	r = run(target, false)
	vsym.Assert(!r.crashed, "the next run has no faults")
	if r.err != nil {
		vsym.Reach("no cache")
		vsym.Assert(!works && r.fetched == 1 && hit, "only a failed fetch without a usable cache fails")
		return
	}
	if r.fetched == 1 && works {
		vsym.Reach("fetched")
		vsym.Assert(r.out.Code == code(third), "fetched templates are used")
		return
	}
	vsym.Reach("cached")
	vsym.Assert(later == 0 || r.fetched == 1, "a cache older than an hour is not taken for fresh")
	vsym.Assert(r.out.TmplVersion == target, "cached templates are told like fetched ones")
	isOld, isNew := have > 0 && r.out.Code == code(old), r.out.Code == code(new)
	vsym.Assert(isOld || isNew, "a partly written cache is never used")
	if r.fetched == 0 && have == 2 && isOld && code(old) != code(new) {
		vsym.Fail("a cache older than an hour is not taken for fresh")
	}
	if !hit {
		vsym.Assert(isNew, "after a refresh the cache is what was fetched")
	}
}

// VH_Twice: two interrupted runs in a row, then one without faults.
func VH_Twice() {
	genenv.Reset()
	old, one, two, third := set("am", "old"), set("mz", "one"), set("az", "two"), set("m", "third")
	vgitfs.Repos[target] = old
	if vsym.Bool() {
		run(target, false)
	} else {
		old = vgitfs.Repo{}
	}
	for _, s := range []vgitfs.Repo{one, two} {
		vgitfs.Repos[target] = s
		vos.FailAt, vos.Crash, vos.Partial = vos.Steps+vsym.Int(1, 16), true, vsym.Pick(2)*5
		run(target, true)
		vtime.Clock++
	}
	works := vsym.Bool()
	vgitfs.Repos[target] = third
	if !works {
		vgitfs.Repos[target] = vgitfs.Repo{Err: true}
	}
	r := run(target, false)
	vsym.Reach("third")
	if r.err != nil {
		vsym.Assert(!works && r.fetched == 1, "only a failed fetch without a usable cache fails")
		return
	}
	if r.fetched == 1 && works {
		vsym.Assert(r.out.Code == code(third), "fetched templates are used")
		return
	}
	c := r.out.Code
	vsym.Assert(r.out.TmplVersion == target, "cached templates are told like fetched ones")
	vsym.Assert(c == code(old) || c == code(one) || c == code(two), "a partly written cache is never used")
}

// VH_Bad: what is fetched cannot be used.
func VH_Bad() {
	genenv.Reset()
	old, new := set("am", "old"), set("mz", "new")
	have := vsym.Bool()
	if have {
		vgitfs.Repos[target] = old
		run(target, false)
	}
	kind := vsym.Pick(3)
	switch kind {
	case 0:
		new = vgitfs.Repo{Names: []string{"README.md"}, Texts: []string{"x"}}
	case 1:
		new.BadRead = []string{"main.go.tmpl", "z.go.tmpl"}[vsym.Pick(2)]
	case 2:
		new.Texts[vsym.Pick(2)] = "{{ open"
	}
	vgitfs.Repos[target] = new
	vtime.Clock += []int64{5, 5000}[vsym.Pick(2)]
	r := run(target, true)
	vsym.Reach("bad")
	vsym.Assert(r.fetched == 1, "a refresh fetches")
	vsym.Assert(r.err != nil && (r.out == nil || r.out.Code == ""), "templates that cannot be used fail the run")
	// the next fetch fails, too
	vgitfs.Repos[target] = vgitfs.Repo{Err: true}
	r = run(target, kind != 2)
	if r.err != nil {
		return
	}
	vsym.Assert(have && r.out.Code == code(old), "a partly written cache is never used")
}

// VH_Keys: targets do not share a cache.
func VH_Keys() {
	genenv.Reset()
	targets := []string{"github.com/x/gen-y@v1.0.0", "github.com/x/gen-y@v1.0.1", "github.com/x/gen-y", "github.com/z/gen-y@v1.0.0", "github.com/x/gen-y@heads/main", "github.com/x/gen-y@tags/main", "github.com/x/gen-y/sub@v1.0.0", "github.com/x/sub/gen-y@v1.0.0"}
	i, k := vsym.Pick(len(targets)), vsym.Pick(len(targets))
	for j, t := range targets {
		vgitfs.Repos[t] = set("m", string(rune('A'+j)))
	}
	a := run(targets[i], false)
	b := run(targets[k], false)
	vsym.Reach("keys")
	vsym.Assert(a.err == nil && b.err == nil && a.out.Code == code(vgitfs.Repos[targets[i]]), "fetched templates are used")
	vsym.Assert(b.out.Code == code(vgitfs.Repos[targets[k]]), "a target never uses the cache of another")
	vsym.Assert((b.fetched == 1) == (i != k), "a target never uses the cache of another")
	vsym.Assert(strings.HasPrefix(a.out.TmplDir, vos.TempDir()+"/"), "the cache is below the directory for temporary files")
	c := run(targets[i], false)
	vsym.Assert(c.err == nil && c.fetched == 0 && c.out.Code == a.out.Code, "within an hour the cache is used")
}

// VH_NoTemp: without a directory for temporary files nothing is cached.
func VH_NoTemp() {
	genenv.Reset()
	vos.Temp = ""
	vgitfs.Repos[target] = set("m", "new")
	vos.Put("/work/.webrpc-gen-timestamp", "1700000000")
	vos.Put("/work/mine", "x")
	r := run(target, vsym.Bool())
	vsym.Reach("no temp")
	vsym.Assert(r.err == nil && r.out.Code == code(set("m", "new")), "templates that cannot be cached are used")
	vsym.Assert(len(vos.List("/work")) == 2, "nothing is written or removed elsewhere")
}

// VH_Many: sets of many templates.
func VH_Many() {
	genenv.Reset()
	names := func() string {
		n := vsym.Pick(9)
		return "abcdefgh"[:n] + "m" + "nopqrstu"[:8-n]
	}
	old := set(names(), "old")
	new := set(names()[vsym.Pick(9):], "new")
	vsym.Assume(strings.Contains(strings.Join(new.Names, " "), "main.go.tmpl"))
	at, x := vsym.Pick(len(new.Names)), vsym.StrIn(1, "ow")
	new.Texts[at] = x
	vgitfs.Repos[target] = old
	r := run(target, false)
	vsym.Assert(r.err == nil && r.fetched == 1 && r.out.Code == code(old), "all fetched templates are used")
	vsym.Assert(cached(r.out.TmplDir) == code(old), "all fetched templates are cached")
	r = run(target, false)
	vsym.Assert(r.err == nil && r.fetched == 0 && r.out.Code == code(old), "all cached templates are used")
	vgitfs.Repos[target] = new
	r = run(target, true)
	vsym.Assert(r.err == nil && r.fetched == 1 && r.out.Code == code(new), "all fetched templates are used")
	vsym.Assert(cached(r.out.TmplDir) == code(new), "after a refresh the cache holds exactly the fetched templates")
	r = run(target, false)
	vsym.Reach("many")
	vsym.Assert(r.err == nil && r.fetched == 0 && r.out.Code == code(new), "all cached templates are used")
}
