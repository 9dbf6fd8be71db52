// Package vsym has the primitives of the verification harnesses. Under the
// symbolic engine every function below is replaced by the engine; the bodies
// here replay one concrete input against the compiled code.
package vsym

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"strings"
)

type job struct {
	Entry  string   `json:"entry"`
	Vector []uint64 `json:"vector"`
	Tier   int      `json:"tier"`
	Repeat int      `json:"repeat"`
}

type result struct {
	Status string   `json:"status"`
	Msg    string   `json:"msg"`
	Obs    []string `json:"obs"`
}

type stop struct{ status, msg string }

var (
	vec   []uint64
	pos   int
	tier  int
	obs   []string
	fails []string
)

func next() uint64 {
	if pos >= len(vec) {
		panic(stop{"short", "input vector exhausted"})
	}
	v := vec[pos]
	pos++
	return v
}

// Symbolic reports whether the engine runs the harness.
func Symbolic() bool { return false }

// Tier is 0 for quick and 1 for thorough runs.
func Tier() int { return tier }

// Byte is any byte.
func Byte() byte { return byte(next()) }

// ByteIn is any byte of set.
func ByteIn(set string) byte { return byte(next()) }

// Bool is any bool.
func Bool() bool { return next() != 0 }

// Choose is any of 0..n-1, kept symbolic.
func Choose(n int) int { return int(next()) }

// Pick is any of 0..n-1; the engine explores each value on its own path.
func Pick(n int) int { return int(next()) }

// Int is any integer from lo to hi.
func Int(lo, hi int) int { return int(next()) }

// Str is any string of n bytes.
func Str(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(next())
	}
	return string(b)
}

// StrIn is any string of n bytes of set.
func StrIn(n int, set string) string { return Str(n) }

// Lits are the short string literals of the code under test, and LitInts its
// integer literals above 2: the values it may treat specially.
func Lits() []string { return lits }

func LitInts() []int { return litInts }

// Lit is any of Lits, or empty; the engine explores each on its own path.
func Lit() string {
	if i := Pick(min(len(lits), 255) + 1); i > 0 {
		return lits[i-1]
	}
	return ""
}

// LitLen is a length just below, at or just above an integer literal of the
// code (at most max), or 0.
func LitLen(max int) int {
	var l []int
	for _, n := range litInts {
		for d := -1; d <= 1; d++ {
			if n+d <= max && (len(l) == 0 || n+d > l[len(l)-1]) {
				l = append(l, n+d)
			}
		}
	}
	if i := Pick(min(len(l), 255) + 1); i > 0 {
		return l[i-1]
	}
	return 0
}

// Assume restricts the inputs considered.
func Assume(c bool) {
	if !c {
		panic(stop{"assume", ""})
	}
}

// Assert states the property.
func Assert(c bool, msg string) {
	if !c {
		fails = append(fails, msg)
	}
}

// Fail is Assert(false, msg).
func Fail(msg string) {
	fails = append(fails, msg)
	panic(stop{"assert", msg})
}

// Reach records that a part of the harness was reached.
func Reach(label string) {}

// Observe records a value for the comparison of engine and native runs.
func Observe(label string, v any) {
	var s string
	switch v := v.(type) {
	case nil:
		s = "<nil>"
	case string:
		s = fmt.Sprintf("%q", v)
	default:
		s = fmt.Sprintf("%v", v)
	}
	obs = append(obs, label+"="+s)
}

// MapOrder turns exploration of every map iteration order on or off.
func MapOrder(on bool) {}

// And, Or, Iff and IteInt combine conditions without forking.
func And(c ...bool) bool {
	for _, x := range c {
		if !x {
			return false
		}
	}
	return true
}

func Or(c ...bool) bool {
	for _, x := range c {
		if x {
			return true
		}
	}
	return false
}

func Iff(a, b bool) bool { return a == b }

func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

// NativeMain replays the jobs listed in $VERIF_JOBS.
func NativeMain(entries map[string]func()) {
	debug.SetMaxStack(64 << 20)
	data, err := os.ReadFile(os.Getenv("VERIF_JOBS"))
	if err != nil {
		panic(err)
	}
	out, err := os.OpenFile(os.Getenv("VERIF_OUT"), os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0o644)
	if err != nil {
		panic(err)
	}
	defer out.Close()
	sc := bufio.NewScanner(strings.NewReader(string(data)))
	sc.Buffer(nil, 64<<20)
	for sc.Scan() {
		var j job
		if err := json.Unmarshal(sc.Bytes(), &j); err != nil {
			panic(err)
		}
		f := entries[j.Entry]
		var r result
		if f == nil {
			r.Status = "noentry"
		} else {
			for i := 0; i <= j.Repeat; i++ {
				r = run(f, j)
				if r.Status != "ok" && r.Status != "assume" {
					break
				}
			}
		}
		b, _ := json.Marshal(r)
		out.Write(append(b, '\n'))
	}
}

func run(f func(), j job) (r result) {
	vec, pos, tier, obs, fails = j.Vector, 0, j.Tier, nil, nil
	defer func() {
		r.Obs = obs
		if e := recover(); e != nil {
			if s, ok := e.(stop); ok {
				r.Status, r.Msg = s.status, s.msg
			} else {
				r.Status, r.Msg = "panic", fmt.Sprint(e)+"\n"+string(debug.Stack())
			}
		}
		if len(fails) > 0 && r.Status != "panic" {
			r.Status, r.Msg = "assert", fails[0]
		}
	}()
	f()
	r.Status = "ok"
	return
}
