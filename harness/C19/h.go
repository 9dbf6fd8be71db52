// Package c19 checks the template functions about dictionaries, lists and
// texts.
package c19

import (
	"strings"

	"github.com/webrpc/webrpc/internal/vh/fns"
	"github.com/webrpc/webrpc/internal/vos"
	"github.com/webrpc/webrpc/internal/vspew"
	"github.com/webrpc/webrpc/internal/vsym"
	"github.com/webrpc/webrpc/schema"
)

const some = "aB"

func fails(err error, what string) { vsym.Assert(err != nil, what) }

func same(a, b any) bool {
	switch x := a.(type) {
	case string:
		y, ok := b.(string)
		return vsym.And(ok, x == y)
	case int:
		y, ok := b.(int)
		return vsym.And(ok, x == y)
	case bool:
		y, ok := b.(bool)
		return vsym.And(ok, x == y)
	case nil:
		return b == nil
	case *schema.VarType:
		y, ok := b.(*schema.VarType)
		return vsym.And(ok, x == y)
	case map[string]any:
		y, ok := b.(map[string]any)
		return ok && len(x) == 0 && len(y) == 0
	case []string:
		y, ok := b.([]string)
		if !ok || len(x) != len(y) {
			return false
		}
		r := true
		for i := range x {
			r = vsym.And(r, x[i] == y[i])
		}
		return r
	case []any:
		y, ok := b.([]any)
		if !ok || len(x) != len(y) {
			return false
		}
		r := true
		for i := range x {
			r = vsym.And(r, same(x[i], y[i]))
		}
		return r
	}
	vsym.Fail("unexpected value")
	return false
}

// VH_Dict: a dictionary holds what was put in last, and nothing else.
func VH_Dict() {
	fns.Load()
	n := vsym.Pick(3 + vsym.Tier())
	type kv struct {
		k string
		v any
	}
	var put []kv
	var args []any
	value := func() any {
		if len(put) > 0 {
			return vsym.Str(1)
		}
		switch vsym.Pick(4) {
		case 0:
			return vsym.Str(1)
		case 1:
			return vsym.Int(-5, 5)
		case 2:
			return nil
		}
		return vsym.Bool()
	}
	for i := 0; i < n; i++ {
		p := kv{vsym.Str(1), value()}
		put = append(put, p)
		args = append(args, p.k, p.v)
	}
	out, err := fns.Call("dict", args...)
	d, ok := out.(map[string]any)
	vsym.Assert(err == nil && ok, "dict makes a dictionary")
	for i := vsym.Pick(3); i > 0; i-- {
		p := kv{vsym.Str(vsym.Pick(2)), value()}
		out, err := fns.Call("set", d, p.k, p.v)
		vsym.Assert(err == nil && out == "", "set prints nothing")
		put = append(put, p)
	}
	k := vsym.Str(1)
	vsym.Reach("asked")
	var want any
	has := false
	for _, p := range put {
		if p.k == k {
			want, has = p.v, true
		}
	}
	vsym.Assert(fns.Bool("exists", d, k) == has, "exists tells the keys")
	var key any = k
	if vsym.Bool() {
		key = &schema.VarType{Expr: k}
		vsym.Assume(key.(*schema.VarType).String() == k)
	}
	got, err := fns.Call("get", d, key)
	vsym.Assert((err == nil) == has, "get finds the keys that exist")
	if has {
		vsym.Assert(same(want, got), "get gives the value that was set last")
	}
}

// VH_DictBad: keys without value and keys that are no text fail.
func VH_DictBad() {
	fns.Load()
	s := vsym.Str(1)
	i := vsym.Pick(4)
	_, err := fns.Call("dict", [][]any{{s}, {s, 1, s}, {1, s}, {s, s, true, s}}[i]...)
	vsym.Reach("bad")
	fails(err, "a dictionary needs pairs of a text and a value")
}

func elem() any {
	switch vsym.Pick(4) {
	case 0:
		return vsym.StrIn(1, "abAB")
	case 1:
		return vsym.StrIn(2, "ab")
	case 2:
		return ""
	}
	return &schema.VarType{Expr: "int", Type: schema.T_Int}
}

func list(max int) (l []any) {
	for i := vsym.Pick(max + 1); i > 0; i-- {
		l = append(l, elem())
	}
	return
}

func dup(l []any) []any { return append([]any{}, l...) }

// VH_Lists: array, append, first, last and lastIndex.
func VH_Lists() {
	fns.Load()
	l := list(3)
	a := fns.Seq("array", dup(l)...)
	vsym.Assert(same(dup(l), a), "array holds its arguments")
	args := dup(l)
	b := fns.Seq("array", args...)
	if len(args) > 0 {
		args[0] = "changed"
		vsym.Assert(same(dup(l), b), "array copies its arguments")
	}
	f, err := fns.Call("first", a)
	vsym.Assert((err == nil) == (len(l) > 0), "first of an empty array fails")
	if err == nil {
		vsym.Assert(same(l[0], f), "first gives the first element")
	}
	f, err = fns.Call("last", a)
	vsym.Assert((err == nil) == (len(l) > 0), "last of an empty array fails")
	if err == nil {
		vsym.Assert(same(l[len(l)-1], f), "last gives the last element")
	}
	i, err := fns.Call("lastIndex", a)
	vsym.Reach("list")
	vsym.Assert(err == nil && i == len(l)-1, "lastIndex gives the index of the last element")
	vsym.Assert(same(dup(l), a), "the array is as it was")
}

// VH_Append: append leaves every list that was made before as it was.
func VH_Append() {
	fns.Load()
	list := func(max int) (l []any) {
		for i := vsym.Pick(max + 1); i > 0; i-- {
			l = append(l, vsym.Str(1))
		}
		return
	}
	l := list(3)
	lists := [][]any{fns.Seq("array", dup(l)...)}
	wants := [][]any{dup(l)}
	for i := 2 + vsym.Pick(2+vsym.Tier()); i > 0; i-- {
		k := vsym.Pick(len(lists))
		x := list(2)
		lists = append(lists, fns.Seq("append", append([]any{lists[k]}, x...)...))
		wants = append(wants, append(dup(wants[k]), x...))
	}
	vsym.Reach("appended")
	for i := range lists {
		vsym.Assert(same(wants[i], lists[i]), "append gives the list with the new elements and changes no other")
	}
}

// VH_Sort: sort gives the elements in order and leaves the list as it was.
func VH_Sort() {
	fns.Load()
	var l []any
	n := vsym.Pick(5 + vsym.Tier())
	for i := 0; i < n; i++ {
		l = append(l, vsym.Str(1+vsym.Pick(2)))
	}
	a := fns.Seq("array", dup(l)...)
	s := fns.Seq("sort", a)
	vsym.Assert(same(dup(l), a), "sort leaves its argument as it was")
	vsym.Assert(len(s) == len(l), "sort keeps the number of elements")
	vsym.Reach("sorted")
	for i := 1; i < len(s); i++ {
		vsym.Assert(s[i-1].(string) <= s[i].(string), "sort gives ascending elements")
	}
	for _, x := range l {
		n, m := 0, 0
		for i := range l {
			n += vsym.IteInt(x.(string) == l[i].(string), 1, 0)
			m += vsym.IteInt(x.(string) == s[i].(string), 1, 0)
		}
		vsym.Assert(n == m, "sort keeps every element")
	}
}

// VH_SortTypes: types sort by their spelling.
func VH_SortTypes() {
	fns.Load()
	pool := []any{"int", &schema.VarType{Expr: "bool", Type: schema.T_Bool}, schema.VarType{Expr: "string", Type: schema.T_String}, "Zed", "any"}
	i, k, m := vsym.Pick(5), vsym.Pick(5), vsym.Pick(5)
	s := fns.Seq("sort", []any{pool[i], pool[k], pool[m]})
	var j []string
	for _, x := range s {
		j = append(j, fns.Str("join", []any{x}, ","))
	}
	vsym.Reach("sorted")
	vsym.Assert(j[0] <= j[1] && j[1] <= j[2], "types sort by their spelling")
}

func value() (v any, empty bool) {
	switch vsym.Pick(10) {
	case 6:
		return []string(nil), true
	case 7:
		return []any(nil), true
	case 8:
		return map[string]any(nil), true
	case 0:
		s := vsym.Str(vsym.Pick(3))
		return s, s == ""
	case 1:
		i := vsym.Int(-3, 3)
		return i, i == 0
	case 2:
		b := vsym.Bool()
		return b, !b
	case 3:
		return nil, true
	case 4:
		return []any{1}, false
	case 5:
		return (*schema.VarType)(nil), true
	}
	return []string{vsym.Str(1)}, false
}

// VH_Default: default and coalesce.
func VH_Default() {
	fns.Load()
	v, empty := value()
	w, empty2 := value()
	got, err := fns.Call("default", v, w)
	vsym.Reach("value")
	vsym.Assert(err == nil, "default does not fail")
	if empty {
		vsym.Assert(same(w, got), "default replaces an empty value")
	} else {
		vsym.Assert(same(v, got), "default keeps a value")
	}
	got, err = fns.Call("coalesce", v, w)
	vsym.Assert(err == nil, "coalesce does not fail")
	switch {
	case !empty:
		vsym.Assert(same(v, got), "coalesce gives the first value that is not empty")
	case !empty2:
		vsym.Assert(same(w, got), "coalesce gives the first value that is not empty")
	default:
		vsym.Assert(got == "" || got == nil, "coalesce of empty values is empty")
	}
}

// VH_In: in finds equal values of the same kind.
func VH_In() {
	fns.Load()
	mk := func() any {
		switch vsym.Pick(4) {
		case 0:
			return vsym.Str(vsym.Pick(3))
		case 1:
			return vsym.Int(0, 3)
		case 2:
			return vsym.Bool()
		}
		return nil
	}
	v := mk()
	var l []any
	want := false
	for i := vsym.Pick(3); i > 0; i-- {
		x := mk()
		l = append(l, x)
		want = vsym.Or(want, same(v, x))
	}
	vsym.Reach("in")
	vsym.Assert(vsym.Iff(fns.Bool("in", append([]any{v}, l...)...), want), "in tells whether a value is among others")
}

// VH_Ternary: ternary chooses by a truth value.
func VH_Ternary() {
	fns.Load()
	a, b := vsym.Str(1), vsym.Str(1)
	var c any
	want, ok := false, true
	switch vsym.Pick(4) {
	case 0:
		want = vsym.Bool()
		c = want
	case 1:
		c, want = "true", true
	case 2:
		c = "false"
	case 3:
		var s string
		if i := vsym.Pick(8); i < 5 {
			s = []string{"True", "FALSE", "t", "yes", "true "}[i]
		} else {
			s = vsym.Str(i - 5)
		}
		c, ok = s, false
	}
	got, err := fns.Call("ternary", c, a, b)
	vsym.Reach("ternary")
	vsym.Assert((err == nil) == ok, "ternary takes truth values only")
	if ok && want {
		vsym.Assert(same(a, got), "ternary of true gives the first value")
	} else if ok {
		vsym.Assert(same(b, got), "ternary of false gives the second value")
	}
}

// VH_Split: split takes apart what join puts together.
func VH_Split() {
	fns.Load()
	s := vsym.StrIn(vsym.Pick(6+2*vsym.Tier()), "ab,")
	sep := vsym.StrIn(1+vsym.Pick(2), "a,")
	out, err := fns.Call("split", sep, s)
	l, ok := out.([]string)
	vsym.Assert(err == nil && ok && len(l) > 0, "split gives texts")
	vsym.Reach("split")
	joined := ""
	for i, p := range l {
		if i > 0 {
			joined += sep
		}
		joined += p
		vsym.Assert(!strings.Contains(p, sep), "no part holds the separator")
	}
	vsym.Assert(joined == s, "the parts and separators are the text")
	vsym.Assert(fns.Str("join", l, sep) == s, "join is the inverse of split")
	var anys []any
	for _, p := range l {
		anys = append(anys, p)
	}
	vsym.Assert(fns.Str("join", anys, sep) == s, "join is the inverse of split for any list")
}

// VH_Join: join puts the separator between elements.
func VH_Join() {
	fns.Load()
	l := list(3)
	sep := vsym.Str(vsym.Pick(3))
	want := ""
	for i, x := range l {
		if i > 0 {
			want += sep
		}
		if t, ok := x.(*schema.VarType); ok {
			x = t.String()
		}
		want += x.(string)
	}
	vsym.Reach("joined")
	vsym.Assert(fns.Str("join", l, sep) == want, "join puts the separator between the elements")
}

// VH_JoinDicts: joining dictionaries does not depend on the order of a map.
func VH_JoinDicts() {
	fns.Load()
	mk := func() map[string]any { return map[string]any{"a": "1", "b": "2", "c": 3} }
	vsym.MapOrder(true)
	a := fns.Str("join", []any{mk()}, ",")
	b := fns.Str("join", []any{mk()}, ",")
	vsym.MapOrder(false)
	vsym.Reach("joined")
	vsym.Assert(a == b, "joining a dictionary gives the same text every time")
}

func ascii(n int) string {
	s := vsym.Str(n)
	for i := 0; i < n; i++ {
		vsym.Assume(s[i] < 128)
	}
	return s
}

// VH_Affixes: prefixes and suffixes.
func VH_Affixes() {
	fns.Load()
	s, p := vsym.StrIn(vsym.Pick(4), "ab."), vsym.StrIn(vsym.Pick(3), "ab.")
	pre := len(p) <= len(s) && s[:min(len(p), len(s))] == p
	suf := len(p) <= len(s) && s[max(0, len(s)-len(p)):] == p
	vsym.Assert(fns.Bool("hasPrefix", s, p) == pre, "hasPrefix")
	vsym.Assert(fns.Bool("hasSuffix", s, p) == suf, "hasSuffix")
	want := s
	if pre {
		want = s[len(p):]
	}
	vsym.Reach("affix")
	vsym.Assert(fns.Str("trimPrefix", s, p) == want, "trimPrefix")
	want = s
	if suf {
		want = s[:len(s)-len(p)]
	}
	vsym.Assert(fns.Str("trimSuffix", s, p) == want, "trimSuffix")
}

// VH_Replace: replaceAll replaces every occurrence.
func VH_Replace() {
	fns.Load()
	s, to := vsym.StrIn(vsym.Pick(5), "ab"), vsym.StrIn(vsym.Pick(3), "ac")
	from := vsym.StrIn(1, "ab")
	want := ""
	for i := 0; i < len(s); i++ {
		if s[i] == from[0] {
			want += to
		} else {
			want += s[i : i+1]
		}
	}
	vsym.Reach("replaced")
	vsym.Assert(fns.Str("replaceAll", s, from, to) == want, "replaceAll replaces every occurrence")
}

func lower(b byte) byte {
	return byte(vsym.IteInt(vsym.And(b >= 'A', b <= 'Z'), int(b)+32, int(b)))
}

func upper(b byte) byte {
	return byte(vsym.IteInt(vsym.And(b >= 'a', b <= 'z'), int(b)-32, int(b)))
}

// VH_Case: changes of case of ASCII texts.
func VH_Case() {
	fns.Load()
	s := ascii(vsym.Pick(6 + 2*vsym.Tier()))
	lo, up := fns.Str("toLower", s), fns.Str("toUpper", s)
	flo, fup := fns.Str("firstLetterToLower", s), fns.Str("firstLetterToUpper", s)
	vsym.Reach("case")
	vsym.Assert(len(lo) == len(s) && len(up) == len(s) && len(flo) == len(s) && len(fup) == len(s), "changes of case keep the length")
	for i := 0; i < len(s); i++ {
		vsym.Assert(lo[i] == lower(s[i]), "toLower makes letters lower case")
		vsym.Assert(up[i] == upper(s[i]), "toUpper makes letters upper case")
		if i == 0 {
			vsym.Assert(flo[i] == lower(s[i]), "firstLetterToLower makes the first letter lower case")
			vsym.Assert(fup[i] == upper(s[i]), "firstLetterToUpper makes the first letter upper case")
		} else {
			vsym.Assert(flo[i] == s[i], "firstLetterToLower leaves the other letters")
			vsym.Assert(fup[i] == s[i], "firstLetterToUpper leaves the other letters")
		}
	}
}

// VH_CaseWide: the first letter may be any character.
func VH_CaseWide() {
	fns.Load()
	pairs := [][2]string{{"É", "é"}, {"Ж", "ж"}, {"Ω", "ω"}, {"世", "世"}, {"😀", "😀"}, {"Ā", "ā"}}
	p := pairs[vsym.Pick(len(pairs))]
	rest := ascii(vsym.Pick(3))
	if vsym.Bool() {
		rest = "É" + rest
	}
	vsym.Reach("case")
	for _, c := range p {
		vsym.Assert(fns.Str("firstLetterToLower", c+rest) == p[1]+rest, "firstLetterToLower of any letter")
		vsym.Assert(fns.Str("firstLetterToUpper", c+rest) == p[0]+rest, "firstLetterToUpper of any letter")
	}
}

// VH_FirstWord: firstWordToLower makes the first word lower case.
func VH_FirstWord() {
	fns.Load()
	s := ascii(vsym.Pick(7 + 2*vsym.Tier()))
	got := fns.Str("firstWordToLower", s)
	vsym.Assert(len(got) == len(s), "firstWordToLower keeps the length")
	isUp := func(b byte) bool { return vsym.And(b >= 'A', b <= 'Z') }
	isLo := func(b byte) bool { return vsym.And(b >= 'a', b <= 'z') }
	isDig := func(b byte) bool { return vsym.And(b >= '0', b <= '9') }
	vsym.Reach("word")
	changed := make([]bool, len(s))
	for i := range changed {
		changed[i] = got[i] != s[i]
		vsym.Assert(vsym.Or(got[i] == s[i], got[i] == lower(s[i])), "firstWordToLower makes letters lower case and changes nothing else")
	}
	if s == "" {
		return
	}
	vsym.Assert(vsym.Or(!isUp(s[0]), got[0] == lower(s[0])), "firstWordToLower makes the first letter lower case")
	if isLo(s[0]) {
		vsym.Assert(got == s, "a text that starts in lower case stays as it is")
	}
	// the run of capitals at the start
	j := 0
	for j < len(s) && isUp(s[j]) {
		j++
	}
	if j == len(s) {
		vsym.Assert(got == strings.ToLower(s), "a text of capitals is one word")
	}
	// behind the letters and digits of the word nothing changes
	k := j
	for k < len(s) && vsym.Or(isLo(s[k]), isDig(s[k])) {
		k++
	}
	for i := k; i < len(s); i++ {
		vsym.Assert(!changed[i], "firstWordToLower leaves what follows the first word")
	}
	// of several capitals before two lower case letters the last starts a word
	if j > 1 && j+1 < len(s) && isLo(s[j]) && isLo(s[j+1]) {
		vsym.Assert(!changed[j-1], "the last of several capitals starts the next word")
		for i := 0; i < j-1; i++ {
			vsym.Assert(changed[i], "the capitals of the first word become lower case")
		}
	} else {
		for i := 0; i < j; i++ {
			vsym.Assert(changed[i], "the capitals of the first word become lower case")
		}
	}
}

// VH_Kinds: functions on texts take nothing else.
func VH_Kinds() {
	fns.Load()
	names := []string{"toLower", "toUpper", "firstLetterToLower", "firstLetterToUpper", "firstWordToLower", "camelCase", "pascalCase", "snakeCase", "kebabCase"}
	n := names[vsym.Pick(len(names))]
	vals := []any{1, true, nil, []string{"a"}, map[string]any{}}
	_, err := fns.Call(n, vals[vsym.Pick(len(vals))])
	vsym.Reach("kind")
	fails(err, "a function on texts takes nothing else")
	s := vsym.Str(2)
	for i, f := range []string{"camel", "pascal", "snake", "kebab"} {
		vsym.Assert(fns.Str(f+"Case", s) == f+"("+s+")", names[5+i]+" is the conversion of its name")
	}
	for _, f := range []string{"first", "last", "join", "lastIndex"} {
		args := []any{7}
		if f == "join" {
			args = append(args, ",")
		}
		_, err := fns.Call(f, args...)
		fails(err, f+" takes lists only")
	}
	vsym.Assert(fns.Str("trim") == "sprig", "functions of sprig stay available")
}

// VH_Texts: first and last of a list of texts.
func VH_Texts() {
	fns.Load()
	n := vsym.Pick(3)
	l := []string{}
	for i := 0; i < n; i++ {
		l = append(l, vsym.Str(1))
	}
	f, err := fns.Call("first", l)
	g, err2 := fns.Call("last", l)
	i, err3 := fns.Call("lastIndex", l)
	vsym.Reach("texts")
	vsym.Assert((err == nil) == (n > 0) && (err2 == nil) == (n > 0), "only an empty list has no first and last text")
	if n > 0 {
		vsym.Assert(same(l[0], f), "first gives the first text")
		vsym.Assert(same(l[n-1], g), "last gives the last text")
	}
	vsym.Assert(err3 == nil && i == n-1, "lastIndex gives the index of the last text")
}

// VH_Errors: printing to stderr and exiting.
func VH_Errors() {
	fns.Load()
	s := vsym.Str(vsym.Pick(3))
	switch vsym.Pick(3) {
	case 0:
		out := fns.Str("stderrPrint", s)
		vsym.Assert(out == "", "stderrPrint prints nothing to the output")
		vsym.Assert(vos.Err == s && vos.Out == "", "stderrPrint prints to stderr")
	case 1:
		out := fns.Str("stderrPrintf", "-%v=%s;", "k", s)
		vsym.Assert(out == "", "stderrPrintf prints nothing to the output")
		vsym.Assert(vos.Err == "-k="+s+";" && vos.Out == "", "stderrPrintf prints to stderr")
	case 2:
		code := vsym.Int(0, 3)
		defer func() {
			x, ok := recover().(vos.Exited)
			vsym.Reach("exit")
			vsym.Assert(ok && x.Code == code, "exit ends the process with its code")
		}()
		fns.Call("exit", code)
		vsym.Fail("exit returns")
	}
	vsym.Reach("printed")
}

// VH_Rest: every documented function is there; dump shows its values and the
// functions about big integers look at the schema they are given.
func VH_Rest() {
	fns.Load()
	for _, n := range strings.Fields("stderrPrint stderrPrintf exit minVersion dump hasField isBasicType isCoreType isStructType isEnumType isAliasType isMapType isListType mapKeyType mapValueType listElemType isString dict get set exists lastIndex array append first last sort coalesce default in ternary join split hasPrefix hasSuffix trimPrefix trimSuffix toLower toUpper firstLetterToLower firstLetterToUpper firstWordToLower camelCase pascalCase snakeCase kebabCase replaceAll SchemaUsesBigInts SchemaBigIntFieldsByType") {
		vsym.Assert(fns.Has(n), n+" is a template function")
	}
	s := vsym.Str(2)
	out := fns.Str("dump", s, 7)
	vsym.Assert(out == "dump" && len(vspew.Dumped) == 2, "dump shows its values")
	vsym.Assert(same(s, vspew.Dumped[0]) && same(7, vspew.Dumped[1]), "dump shows the values it is given")

	// the type of the field is bigint or a text of the same length
	b := []byte("bigint")
	i := vsym.Choose(len(b))
	b[i] = vsym.ByteIn("bigntx")
	typ := string(b)
	doc := &schema.WebRPCSchema{Types: []*schema.Type{{Kind: "struct", Name: "A", Fields: []*schema.TypeField{
		{Name: "f", Type: &schema.VarType{Expr: typ}}}}}}
	big := typ == "bigint"
	vsym.Reach("rest")
	vsym.Assert(vsym.Iff(fns.Bool("SchemaUsesBigInts", doc), big), "SchemaUsesBigInts tells whether the schema has big integers")
	m, err := fns.Call("SchemaBigIntFieldsByType", doc)
	l, ok := m.(map[string][]any)
	vsym.Assert(err == nil && ok && vsym.Iff(len(l["A"]) == 1, big), "SchemaBigIntFieldsByType lists the fields")
}

// VH_Wide: the helpers with many values.
func VH_Wide() {
	fns.Load()
	n := 4 + vsym.Pick(6)
	at := vsym.Pick(n)
	x := "k" + vsym.StrIn(1, "abcdefghij")
	var l []any
	var strs []string
	for i := 0; i < n; i++ {
		s := "k" + string(rune('a'+(i*7)%n))
		if i == at {
			s = x
		}
		strs = append(strs, s)
		l = append(l, s)
	}
	a := fns.Seq("array", dup(l)...)
	vsym.Assert(same(dup(l), a), "array holds its arguments")
	b := fns.Seq("append", append([]any{dup(l[:at])}, l[at:]...)...)
	vsym.Assert(same(dup(l), b), "append adds all its arguments")
	f, err := fns.Call("first", a)
	vsym.Assert(err == nil && same(l[0], f), "first gives the first element")
	f, err = fns.Call("last", a)
	vsym.Assert(err == nil && same(l[n-1], f), "last gives the last element")
	f, err = fns.Call("lastIndex", a)
	vsym.Assert(err == nil && f == n-1, "lastIndex gives the index of the last element")
	vsym.Assert(fns.Bool("in", append([]any{x}, l...)...), "in finds a value among many")
	vsym.Assert(!fns.Bool("in", append([]any{"other"}, l...)...), "in tells that a value is not there")
	want := strings.Join(strs, ", ")
	vsym.Assert(fns.Str("join", l, ", ") == want && fns.Str("join", strs, ", ") == want, "join puts the separator between the elements")
	out, err := fns.Call("split", ", ", want)
	parts, ok := out.([]string)
	vsym.Assert(err == nil && ok && len(parts) == n, "split gives all parts")
	for i, p := range parts {
		vsym.Assert(p == strs[i], "split is the inverse of join")
	}
	empty := make([]any, n)
	for i := range empty {
		empty[i] = []any{"", 0, false, nil}[i%4]
	}
	out, err = fns.Call("coalesce", append(dup(empty[:at]), x, "later")...)
	vsym.Assert(err == nil && same(x, out), "coalesce gives the first value that is not empty")
	var args []any
	for i := 0; i < n; i++ {
		args = append(args, "d"+string(rune('0'+i)), l[i])
	}
	out, err = fns.Call("dict", args...)
	d, ok := out.(map[string]any)
	vsym.Assert(err == nil && ok && len(d) == n, "dict holds all its pairs")
	got, err := fns.Call("get", d, "d"+string(rune('0'+at)))
	vsym.Assert(err == nil && same(x, got), "get gives the value of a key")
	text := ""
	for i := 0; i < n; i++ {
		text += "d" + string(rune('0'+i)) + "=" + strs[i] + "\n"
	}
	vsym.Assert(fns.Str("join", []any{d}, ", ") == text, "a dict prints as all its pairs in the order of the keys")
	s := fns.Seq("sort", dup(l))
	vsym.Assert(len(s) == n, "sort keeps the number of elements")
	has := false
	for i := range s {
		has = vsym.Or(has, s[i].(string) == x)
		vsym.Assert(i == 0 || s[i-1].(string) <= s[i].(string), "sort gives ascending elements")
	}
	vsym.Assert(has, "sort keeps every element")
	vsym.Reach("wide")
}
