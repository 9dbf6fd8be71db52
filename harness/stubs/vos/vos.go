// Package vos stands in for package os: a file system in memory, with faults
// at chosen steps.
package vos

import (
	"errors"
	"io"
	"io/fs"
	"path"
	"strings"
	"time"

	"github.com/webrpc/webrpc/internal/vtime"
)

type (
	FileMode  = fs.FileMode
	PathError = fs.PathError
)

// FileInfo is fs.FileInfo with the time of vtime.
type FileInfo interface {
	Name() string
	Size() int64
	Mode() FileMode
	ModTime() vtime.Time
	IsDir() bool
	Sys() any
}

// DirEntry is fs.DirEntry with a FileInfo of this package.
type DirEntry interface {
	Name() string
	IsDir() bool
	Type() FileMode
	Info() (FileInfo, error)
}

// SyscallError and LinkError are never made.
type (
	SyscallError struct {
		Syscall string
		Err     error
	}
	LinkError struct {
		Op, Old, New string
		Err          error
	}
	Signal interface {
		String() string
		Signal()
	}
)

func (e *SyscallError) Error() string { return e.Syscall + ": " + e.Err.Error() }
func (e *SyscallError) Unwrap() error { return e.Err }
func (e *LinkError) Error() string    { return e.Op + " " + e.Old + " " + e.New + ": " + e.Err.Error() }
func (e *LinkError) Unwrap() error    { return e.Err }

type signal string

func (s signal) String() string { return string(s) }
func (signal) Signal()          {}

var (
	Interrupt Signal = signal("interrupt")
	Kill      Signal = signal("killed")
)

const (
	ModePerm = fs.ModePerm
	ModeDir  = fs.ModeDir
	O_RDONLY = 0
	O_WRONLY = 1
	O_RDWR   = 2
	O_APPEND = 1024
	O_CREATE = 64
	O_EXCL   = 128
	O_SYNC   = 0x101000
	O_TRUNC  = 512
	DevNull  = "/dev/null"
	SEEK_SET = 0
	SEEK_CUR = 1
	SEEK_END = 2

	ModeAppend     = fs.ModeAppend
	ModeExclusive  = fs.ModeExclusive
	ModeTemporary  = fs.ModeTemporary
	ModeSymlink    = fs.ModeSymlink
	ModeDevice     = fs.ModeDevice
	ModeNamedPipe  = fs.ModeNamedPipe
	ModeSocket     = fs.ModeSocket
	ModeSetuid     = fs.ModeSetuid
	ModeSetgid     = fs.ModeSetgid
	ModeCharDevice = fs.ModeCharDevice
	ModeSticky     = fs.ModeSticky
	ModeIrregular  = fs.ModeIrregular
	ModeType       = fs.ModeType

	PathSeparator     = '/'
	PathListSeparator = ':'
)

var (
	ErrNotExist   = fs.ErrNotExist
	ErrExist      = fs.ErrExist
	ErrPermission = fs.ErrPermission
	ErrInvalid    = fs.ErrInvalid
	ErrClosed     = fs.ErrClosed

	ErrNoDeadline       = errors.New("file type does not support deadline")
	ErrDeadlineExceeded = errors.New("i/o timeout")
	ErrProcessDone      = errors.New("os: process already finished")
	errFault            = errors.New("input/output error")
	errNotEmpty         = errors.New("directory not empty")
	errNotDir           = errors.New("not a directory")
	errIsDir            = errors.New("is a directory")
)

// Entry is a file or directory.
type Entry struct {
	Name string // absolute
	Dir  bool
	Data string
	Mode FileMode
	Time vtime.Time
}

// Crashed is the panic that stands for the end of the process.
type Crashed struct{}

// Exited is the panic that stands for os.Exit.
type Exited struct{ Code int }

var (
	Args    []string
	Env     map[string]string
	Cwd     string
	Temp    string
	Entries []*Entry
	Out     string // what was written to stdout
	Err     string // what was written to stderr

	// FailAt is the step that fails, counted from 1; 0 for none. A step is
	// a change of one entry.
	FailAt  int
	Steps   int
	Crash   bool // the process ends at the failing step
	Partial int  // bytes written by the failing write
	Reverse bool // directories are listed backwards
	Log     []string

	Stdin  = &File{}
	Stdout = &File{std: &Out}
	Stderr = &File{std: &Err}
)

// Reset makes an empty world.
func Reset() {
	Args, Env, Cwd, Temp = []string{"/bin/webrpc-gen"}, map[string]string{}, "/work", "/tmp"
	Entries = []*Entry{{Name: "/", Dir: true, Mode: 0o755}}
	Out, Err, Log = "", "", nil
	FailAt, Steps, Crash, Partial, Reverse = 0, 0, false, 0, false
	mkdirs("/work")
	mkdirs("/tmp")
}

func abs(name string) string {
	if name == "" {
		return ""
	}
	if name[0] != '/' {
		name = Cwd + "/" + name
	}
	return path.Clean(name)
}

func find(name string) *Entry {
	for _, e := range Entries {
		if e.Name == name {
			return e
		}
	}
	return nil
}

func drop(name string) {
	for i, e := range Entries {
		if e.Name == name {
			Entries = append(append([]*Entry{}, Entries[:i]...), Entries[i+1:]...)
			return
		}
	}
}

func mkdirs(name string) {
	if find(name) != nil {
		return
	}
	mkdirs(path.Dir(name))
	Entries = append(Entries, &Entry{Name: name, Dir: true, Mode: 0o755})
}

// Put makes a file without a step.
func Put(name, data string) {
	mkdirs(path.Dir(name))
	if e := find(name); e != nil {
		e.Data = data
		return
	}
	Entries = append(Entries, &Entry{Name: name, Data: data, Mode: 0o644, Time: vtime.Now()})
}

// Get reads a file without a step.
func Get(name string) (string, bool) {
	e := find(name)
	if e == nil || e.Dir {
		return "", false
	}
	return e.Data, true
}

// List names the files below dir.
func List(dir string) (r []string) {
	for _, e := range Entries {
		if !e.Dir && strings.HasPrefix(e.Name, dir+"/") {
			r = append(r, e.Name[len(dir)+1:])
		}
	}
	return
}

// step reports whether this change of an entry fails.
func step(what string) bool {
	Steps++
	Log = append(Log, what)
	return Steps == FailAt
}

func fail(op, name string) error {
	if Crash {
		panic(Crashed{})
	}
	return &PathError{Op: op, Path: name, Err: errFault}
}

func perr(op, name string, err error) error { return &PathError{Op: op, Path: name, Err: err} }

func under(name string) (r []*Entry) {
	for _, e := range Entries {
		if e.Name != name && path.Dir(e.Name) == name {
			r = append(r, e)
		}
	}
	for i := range r {
		for k := i; k > 0 && (r[k].Name < r[k-1].Name) != Reverse; k-- {
			r[k], r[k-1] = r[k-1], r[k]
		}
	}
	return
}

func Exit(code int) { panic(Exited{code}) }

func TempDir() string              { return Temp }
func Getwd() (string, error)       { return Cwd, nil }
func Getpid() int                  { return 4242 }
func Hostname() (string, error)    { return "host", nil }
func UserHomeDir() (string, error) { return "/home", nil }
func UserCacheDir() (string, error) {
	return "/home/.cache", nil
}
func Getenv(k string) string { return Env[k] }
func LookupEnv(k string) (string, bool) {
	v, ok := Env[k]
	return v, ok
}
func Setenv(k, v string) error { Env[k] = v; return nil }
func Unsetenv(k string) error  { delete(Env, k); return nil }
func Clearenv()                { Env = map[string]string{} }
func ExpandEnv(s string) string {
	return Expand(s, Getenv)
}

func nameByte(c byte) bool {
	return c == '_' || '0' <= c && c <= '9' || 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z'
}

// Expand replaces ${var} and $var.
func Expand(s string, get func(string) string) string {
	r := ""
	for i := 0; i < len(s); i++ {
		if s[i] != '$' || i+1 == len(s) {
			r += s[i : i+1]
			continue
		}
		i++
		k := i
		switch {
		case s[i] == '{':
			for k < len(s) && s[k] != '}' {
				k++
			}
			if k < len(s) && k > i+1 {
				r += get(s[i+1 : k])
				i = k
			}
		case nameByte(s[i]):
			for k < len(s) && nameByte(s[k]) {
				k++
			}
			r += get(s[i:k])
			i = k - 1
		default:
			r += s[i-1 : i+1]
		}
	}
	return r
}

func Getuid() int                          { return 1000 }
func Geteuid() int                         { return 1000 }
func Getgid() int                          { return 1000 }
func Getegid() int                         { return 1000 }
func Getppid() int                         { return 1 }
func Executable() (string, error)          { return "/bin/webrpc-gen", nil }
func UserConfigDir() (string, error)       { return "/home/.config", nil }
func Readlink(name string) (string, error) { return "", perr("readlink", name, ErrInvalid) }
func Getpagesize() int                     { return 4096 }
func IsTimeout(err error) bool             { return false }
func NewSyscallError(call string, err error) error {
	if err == nil {
		return nil
	}
	return &SyscallError{call, err}
}

// Chdir changes the working directory.
func Chdir(dir string) error {
	e := find(abs(dir))
	if e == nil {
		return perr("chdir", dir, ErrNotExist)
	}
	if !e.Dir {
		return perr("chdir", dir, errNotDir)
	}
	Cwd = e.Name
	return nil
}

func SameFile(a, b FileInfo) bool {
	x, ok := a.(info)
	y, ok2 := b.(info)
	return ok && ok2 && x.e == y.e
}
func Environ() (r []string) {
	for k, v := range Env {
		r = append(r, k+"="+v)
	}
	return
}

func IsExist(err error) bool       { return err != nil && errors.Is(err, ErrExist) }
func IsNotExist(err error) bool    { return err != nil && errors.Is(err, ErrNotExist) }
func IsPermission(err error) bool  { return err != nil && errors.Is(err, ErrPermission) }
func IsPathSeparator(c uint8) bool { return c == '/' }

func ReadFile(name string) ([]byte, error) {
	e := find(abs(name))
	if e == nil {
		return nil, perr("open", name, ErrNotExist)
	}
	if e.Dir {
		return nil, perr("read", name, errIsDir)
	}
	return []byte(e.Data), nil
}

func create(op, name string, mode FileMode, trunc bool) (*Entry, error) {
	p := abs(name)
	if p == "" {
		return nil, perr(op, name, ErrNotExist)
	}
	d := find(path.Dir(p))
	if d == nil {
		return nil, perr(op, name, ErrNotExist)
	}
	if !d.Dir {
		return nil, perr(op, name, errNotDir)
	}
	e := find(p)
	if e != nil && e.Dir {
		return nil, perr(op, name, errIsDir)
	}
	if e == nil {
		if step("create " + p) {
			return nil, fail(op, name)
		}
		e = &Entry{Name: p, Mode: mode, Time: vtime.Now()}
		Entries = append(Entries, e)
	} else if trunc && e.Data != "" {
		if step("truncate " + p) {
			return nil, fail(op, name)
		}
		e.Data, e.Time = "", vtime.Now()
	}
	return e, nil
}

func write(e *Entry, data string) error {
	if data == "" {
		return nil
	}
	if step("write " + e.Name) {
		n := min(Partial, len(data))
		e.Data += data[:n]
		return fail("write", e.Name)
	}
	e.Data, e.Time = e.Data+data, vtime.Now()
	return nil
}

func WriteFile(name string, data []byte, mode FileMode) error {
	e, err := create("open", name, mode, true)
	if err != nil {
		return err
	}
	return write(e, string(data))
}

func Mkdir(name string, mode FileMode) error {
	p := abs(name)
	if find(p) != nil {
		return perr("mkdir", name, ErrExist)
	}
	if d := find(path.Dir(p)); d == nil || !d.Dir {
		return perr("mkdir", name, ErrNotExist)
	}
	if step("mkdir " + p) {
		return fail("mkdir", name)
	}
	Entries = append(Entries, &Entry{Name: p, Dir: true, Mode: mode, Time: vtime.Now()})
	return nil
}

func MkdirAll(name string, mode FileMode) error {
	p := abs(name)
	if e := find(p); e != nil {
		if e.Dir {
			return nil
		}
		return perr("mkdir", name, errNotDir)
	}
	if err := MkdirAll(path.Dir(p), mode); err != nil {
		return err
	}
	return Mkdir(p, mode)
}

func Remove(name string) error {
	p := abs(name)
	e := find(p)
	if e == nil {
		return perr("remove", name, ErrNotExist)
	}
	if e.Dir && len(under(p)) > 0 {
		return perr("remove", name, errNotEmpty)
	}
	if step("remove " + p) {
		return fail("remove", name)
	}
	drop(p)
	return nil
}

func RemoveAll(name string) error {
	p := abs(name)
	e := find(p)
	if e == nil {
		return nil
	}
	if e.Dir {
		for _, c := range under(p) {
			if err := RemoveAll(c.Name); err != nil {
				return err
			}
		}
	}
	return Remove(p)
}

func Rename(from, to string) error {
	a, b := abs(from), abs(to)
	e := find(a)
	if e == nil {
		return perr("rename", from, ErrNotExist)
	}
	if d := find(path.Dir(b)); d == nil || !d.Dir {
		return perr("rename", to, ErrNotExist)
	}
	if t := find(b); t != nil && a != b {
		if t.Dir && (!e.Dir || len(under(b)) > 0) {
			return perr("rename", to, ErrExist)
		}
		if !t.Dir && e.Dir {
			return perr("rename", to, errNotDir)
		}
	}
	if step("rename " + a + " " + b) {
		return fail("rename", from)
	}
	if a != b {
		drop(b)
	}
	for _, x := range Entries {
		if x.Name == a || strings.HasPrefix(x.Name, a+"/") {
			x.Name = b + x.Name[len(a):]
		}
	}
	return nil
}

func Chmod(name string, mode FileMode) error {
	e := find(abs(name))
	if e == nil {
		return perr("chmod", name, ErrNotExist)
	}
	if step("chmod " + e.Name) {
		return fail("chmod", name)
	}
	e.Mode = mode
	return nil
}

func Chtimes(name string, a, m vtime.Time) error {
	e := find(abs(name))
	if e == nil {
		return perr("chtimes", name, ErrNotExist)
	}
	e.Time = m
	return nil
}

func Truncate(name string, size int64) error {
	e := find(abs(name))
	if e == nil {
		return perr("truncate", name, ErrNotExist)
	}
	if step("truncate " + e.Name) {
		return fail("truncate", name)
	}
	e.Data = e.Data[:min(int(size), len(e.Data))]
	return nil
}

type info struct{ e *Entry }

func (i info) Name() string            { return path.Base(i.e.Name) }
func (i info) Size() int64             { return int64(len(i.e.Data)) }
func (i info) ModTime() vtime.Time     { return i.e.Time }
func (i info) IsDir() bool             { return i.e.Dir }
func (i info) Sys() any                { return nil }
func (i info) Type() FileMode          { return i.Mode().Type() }
func (i info) Info() (FileInfo, error) { return i, nil }
func (i info) Mode() FileMode {
	if i.e.Dir {
		return i.e.Mode | ModeDir
	}
	return i.e.Mode
}

func Stat(name string) (FileInfo, error) {
	e := find(abs(name))
	if e == nil {
		return nil, perr("stat", name, ErrNotExist)
	}
	return info{e}, nil
}

func Lstat(name string) (FileInfo, error) { return Stat(name) }

func ReadDir(name string) ([]DirEntry, error) {
	p := abs(name)
	e := find(p)
	if e == nil {
		return nil, perr("open", name, ErrNotExist)
	}
	if !e.Dir {
		return nil, perr("open", name, errNotDir)
	}
	r := []DirEntry{}
	rev := Reverse
	Reverse = false
	for _, c := range under(p) {
		r = append(r, info{c})
	}
	Reverse = rev
	return r, nil
}

// File is an open file.
type File struct {
	std  *string
	e    *Entry
	pos  int
	name string
}

func (f *File) Name() string { return f.name }
func (f *File) Write(b []byte) (int, error) {
	if f.std != nil {
		*f.std += string(b)
		return len(b), nil
	}
	if f.e == nil {
		return 0, ErrInvalid
	}
	if err := write(f.e, string(b)); err != nil {
		return min(Partial, len(b)), err
	}
	return len(b), nil
}
func (f *File) WriteString(s string) (int, error) {
	if f.std != nil {
		*f.std += s
		return 0, nil
	}
	return f.Write([]byte(s))
}
func (f *File) Read(b []byte) (int, error) {
	if f.e == nil || f.pos >= len(f.e.Data) {
		return 0, io.EOF
	}
	n := copy(b, f.e.Data[f.pos:])
	f.pos += n
	return n, nil
}
func (f *File) Close() error { return nil }
func (f *File) Sync() error  { return nil }
func (f *File) Chmod(m FileMode) error {
	return Chmod(f.e.Name, m)
}
func (f *File) Stat() (FileInfo, error) {
	if f.e == nil {
		return nil, ErrInvalid
	}
	return info{f.e}, nil
}
func (f *File) ReadDir(n int) ([]DirEntry, error) { return ReadDir(f.e.Name) }
func (f *File) Readdir(n int) (r []FileInfo, err error) {
	for _, c := range under(f.e.Name) {
		r = append(r, info{c})
	}
	return
}
func (f *File) Readdirnames(n int) (r []string, err error) {
	for _, c := range under(f.e.Name) {
		r = append(r, path.Base(c.Name))
	}
	return
}
func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if f.e == nil || int(off) >= len(f.e.Data) {
		return 0, io.EOF
	}
	n := copy(b, f.e.Data[off:])
	if n < len(b) {
		return n, io.EOF
	}
	return n, nil
}
func (f *File) Truncate(size int64) error { return Truncate(f.name, size) }
func (f *File) Fd() uintptr               { return 3 }
func (f *File) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		off += int64(f.pos)
	case io.SeekEnd:
		off += int64(len(f.e.Data))
	}
	f.pos = int(off)
	return off, nil
}

func Open(name string) (*File, error) {
	e := find(abs(name))
	if e == nil {
		return nil, perr("open", name, ErrNotExist)
	}
	return &File{e: e, name: name}, nil
}

func Create(name string) (*File, error) {
	e, err := create("open", name, 0o666, true)
	if err != nil {
		return nil, err
	}
	return &File{e: e, name: name}, nil
}

func OpenFile(name string, flag int, mode FileMode) (*File, error) {
	e := find(abs(name))
	if e != nil && flag&O_CREATE != 0 && flag&O_EXCL != 0 {
		return nil, perr("open", name, ErrExist)
	}
	if e == nil && flag&O_CREATE == 0 {
		return nil, perr("open", name, ErrNotExist)
	}
	if e == nil || flag&O_TRUNC != 0 {
		var err error
		if e, err = create("open", name, mode, flag&O_TRUNC != 0); err != nil {
			return nil, err
		}
	}
	return &File{e: e, name: name}, nil
}

var temps int

func tempName(dir, pattern string) string {
	if dir == "" {
		dir = TempDir()
	}
	temps++
	n := "tmp" + string(rune('0'+temps%10))
	if i := strings.LastIndexByte(pattern, '*'); i >= 0 {
		return path.Join(dir, pattern[:i]+n+pattern[i+1:])
	}
	return path.Join(dir, pattern+n)
}

func CreateTemp(dir, pattern string) (*File, error) {
	return OpenFile(tempName(dir, pattern), O_RDWR|O_CREATE|O_EXCL, 0o600)
}

func MkdirTemp(dir, pattern string) (string, error) {
	n := tempName(dir, pattern)
	return n, Mkdir(n, 0o700)
}

type dirFS string

// DirFS is the tree below dir.
func DirFS(dir string) fs.FS { return dirFS(dir) }

func (d dirFS) Open(name string) (fs.File, error) {
	if !fs.ValidPath(name) {
		return nil, perr("open", name, ErrInvalid)
	}
	f, err := Open(path.Join(string(d), name))
	if err != nil {
		return nil, err
	}
	return fsFile{f}, nil
}

func (d dirFS) ReadFile(name string) ([]byte, error) {
	if !fs.ValidPath(name) {
		return nil, perr("open", name, ErrInvalid)
	}
	return ReadFile(path.Join(string(d), name))
}

func (d dirFS) Stat(name string) (fs.FileInfo, error) {
	if !fs.ValidPath(name) {
		return nil, perr("stat", name, ErrInvalid)
	}
	i, err := Stat(path.Join(string(d), name))
	if err != nil {
		return nil, err
	}
	return fsInfo{i.(info)}, nil
}

func (d dirFS) ReadDir(name string) ([]fs.DirEntry, error) {
	if !fs.ValidPath(name) {
		return nil, perr("open", name, ErrInvalid)
	}
	f, err := Open(path.Join(string(d), name))
	if err != nil {
		return nil, err
	}
	return fsFile{f}.ReadDir(-1)
}

// fsFile and fsInfo are files and their descriptions with the times that
// package fs wants.
type fsFile struct{ *File }

func (f fsFile) Stat() (fs.FileInfo, error) {
	if f.e == nil {
		return nil, ErrInvalid
	}
	return fsInfo{info{f.e}}, nil
}

func (f fsFile) ReadDir(int) (r []fs.DirEntry, err error) {
	l, err := ReadDir(f.e.Name)
	for _, e := range l {
		r = append(r, fsInfo{e.(info)})
	}
	return r, err
}

type fsInfo struct{ info }

func (i fsInfo) ModTime() time.Time         { return time.Time{} }
func (i fsInfo) Info() (fs.FileInfo, error) { return i, nil }

// Std gives the file as this package knows it.
func (f fsFile) Std() *File { return f.File }
