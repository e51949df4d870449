// Package vos replaces os: an in-memory file system with fault and crash injection. Nothing real is touched.
package vos

import (
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"
	"vshim/vsched"
)

type node struct {
	dir    bool
	data   []byte
	synced []byte // content that survives a power failure
	mode   FileMode
	mtime  int64 // virtual ns
	hole   int64 // reported size beyond data
}

// World is the state of the file system and process environment.
var (
	nodes   map[string]*node
	env     map[string]string
	rawEnv  []string // extra raw entries of Environ
	cwd     string
	host    string
	hostErr error
	// Failing lists operations that fail: key "op:path", value the errno.
	Failing map[string]syscall.Errno
	// FaultOps are operations ("write", "rename", ...) at which the explorer may inject a failure.
	FaultOps map[string]bool
	// CrashOps are operations at which the explorer may end the process.
	CrashOps map[string]bool
	// PowerLoss makes a crash a power failure: content that was not synced may be lost.
	PowerLoss bool
	// OnCrash runs when the process is ended by a crash choice.
	OnCrash func()
	// Ops records every mutating operation.
	Ops []string
	// MtimeGran is the resolution of modification times.
	MtimeGran int64
	// ShortReads allows Read to return less than asked for.
	ShortReads bool
	// Out is what went to Stdout and Stderr.
	Out []byte
	// Opened holds the descriptors not closed.
	Opened map[*File]bool
)

var (
	Stdin  *File
	Stdout *File
	Stderr *File
	Args   = []string{"app"}
)

func init() { vsched.OnReset(Reset); Reset() }

// Reset empties the world.
func Reset() {
	nodes = map[string]*node{"/": {dir: true, mode: 0755}, "/app": {dir: true, mode: 0755}, "/tmp": {dir: true, mode: 0777}}
	env = map[string]string{}
	rawEnv = nil
	cwd = "/app"
	host = "host"
	hostErr = nil
	Failing = map[string]syscall.Errno{}
	FaultOps = nil
	CrashOps = nil
	OnCrash = nil
	PowerLoss = false
	Ops = nil
	MtimeGran = 1
	ShortReads = false
	Out = nil
	Opened = map[*File]bool{}
	Stdin = &File{name: "/dev/stdin", n: &node{}}
	Stdout = &File{name: "/dev/stdout", std: true, n: &node{}}
	Stderr = &File{name: "/dev/stderr", std: true, n: &node{}}
}

// ---- harness side ----

func abs(p string) string {
	if !filepath.IsAbs(p) {
		p = filepath.Join(cwd, p)
	}
	return filepath.Clean(p)
}

// Put creates a file and its parents.
func Put(p string, data string) {
	p = abs(p)
	for d := filepath.Dir(p); ; d = filepath.Dir(d) {
		if nodes[d] == nil {
			nodes[d] = &node{dir: true, mode: 0755}
		}
		if d == "/" {
			break
		}
	}
	nodes[p] = &node{data: []byte(data), synced: []byte(data), mode: 0644, mtime: stamp()}
}

// Mkdir creates a directory without faults.
func PutDir(p string) {
	p = abs(p)
	Put(filepath.Join(p, ".x"), "")
	delete(nodes, filepath.Join(p, ".x"))
}

// SetMtime sets a modification time relative to the epoch.
func SetMtime(p string, ns int64) { nodes[abs(p)].mtime = ns }

// SetHole makes a file report n bytes more than it holds.
func SetHole(p string, n int64) { nodes[abs(p)].hole = n }

// Get returns a file's content.
func Get(p string) (string, bool) {
	n := nodes[abs(p)]
	if n == nil || n.dir {
		return "", false
	}
	return string(n.data), true
}

// Del removes without faults.
func Del(p string) { delete(nodes, abs(p)) }

// Files lists all files.
func Files() []string {
	var l []string
	for p, n := range nodes {
		if !n.dir {
			l = append(l, p)
		}
	}
	sort.Strings(l)
	return l
}

// SetHost sets the host name, or its lookup error.
func SetHost(h string, err error) { host, hostErr = h, err }

// AddRawEnv adds a raw entry to Environ.
func AddRawEnv(s string) { rawEnv = append(rawEnv, s) }

func stamp() int64 {
	g := MtimeGran
	if g <= 0 {
		g = 1
	}
	return vsched.Now() / g * g
}

// ---- faults ----

func op(kind, p string) error {
	vsched.Point("fs " + kind + " " + p)
	if e, ok := Failing[kind+":"+p]; ok {
		return e
	}
	if e, ok := Failing[kind+":*"]; ok {
		return e
	}
	if CrashOps[kind] && vsched.Active() && vsched.Fault(2, "crash before "+kind+" "+p) == 1 {
		crash()
	}
	if FaultOps[kind] && vsched.Active() && vsched.Fault(2, "fail "+kind+" "+p) == 1 {
		return syscall.EIO
	}
	return nil
}

func crash() {
	if PowerLoss && vsched.Choose(2, "unsynced content lost") == 1 {
		for _, n := range nodes {
			n.data = append([]byte{}, n.synced...)
		}
	}
	if OnCrash != nil {
		OnCrash()
	}
	vsched.Finish(vsched.Killed, "process crash")
}

func perr(kind, p string, e error) error {
	return &PathError{Op: kind, Path: p, Err: e}
}

func note(s string) { Ops = append(Ops, s) }

// ---- os API ----

type File struct {
	name   string
	n      *node
	off    int64
	flag   int
	closed bool
	std    bool
	names  []string
	listed bool
}

func Open(name string) (*File, error)   { return OpenFile(name, O_RDONLY, 0) }
func Create(name string) (*File, error) { return OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0666) }

func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	p := abs(name)
	if err := op("open", p); err != nil {
		return nil, perr("open", name, err)
	}
	if name == "" {
		return nil, perr("open", name, syscall.ENOENT)
	}
	if strings.ContainsRune(name, 0) {
		return nil, perr("open", name, syscall.EINVAL)
	}
	if p == "/dev/null" {
		return &File{name: name, n: &node{}, flag: flag}, nil
	}
	n := nodes[p]
	wr := flag&(O_WRONLY|O_RDWR) != 0
	if n == nil {
		if flag&O_CREATE == 0 {
			return nil, perr("open", name, missing(p))
		}
		d := nodes[filepath.Dir(p)]
		if d == nil {
			return nil, perr("open", name, missing(p))
		}
		if !d.dir {
			return nil, perr("open", name, syscall.ENOTDIR)
		}
		n = &node{mode: perm &^ 022, mtime: stamp()}
		nodes[p] = n
		note("create " + p)
	} else {
		if flag&O_EXCL != 0 && flag&O_CREATE != 0 {
			return nil, perr("open", name, syscall.EEXIST)
		}
		if n.dir && wr {
			return nil, perr("open", name, syscall.EISDIR)
		}
		if flag&O_TRUNC != 0 && wr {
			n.data = nil
			n.mtime = stamp()
			note("truncate " + p)
		}
	}
	f := &File{name: name, n: n, flag: flag}
	Opened[f] = true
	return f, nil
}

func missing(p string) error {
	for d := filepath.Dir(p); d != "/"; d = filepath.Dir(d) {
		if x := nodes[d]; x != nil {
			if !x.dir {
				return syscall.ENOTDIR
			}
			break
		}
	}
	return syscall.ENOENT
}

func NewFile(fd uintptr, name string) *File { return nil }

func (f *File) check(kind string) error {
	if f == nil {
		return ErrInvalid
	}
	if f.closed {
		return perr(kind, f.name, ErrClosed)
	}
	return nil
}

func (f *File) Name() string { return f.name }
func (f *File) Fd() uintptr  { return 3 }

func (f *File) Close() error {
	if err := f.check("close"); err != nil {
		return err
	}
	if f.std {
		return nil
	}
	f.closed = true
	delete(Opened, f)
	return nil
}

func (f *File) Read(b []byte) (int, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	if f.n.dir {
		return 0, perr("read", f.name, syscall.EISDIR)
	}
	if err := op("read", abs(f.name)); err != nil {
		return 0, perr("read", f.name, err)
	}
	if len(b) == 0 {
		return 0, nil
	}
	if f.off >= int64(len(f.n.data)) {
		return 0, io.EOF
	}
	k := copy(b, f.n.data[f.off:])
	if ShortReads && k > 1 && vsched.Fault(2, "short read") == 1 {
		k = (k + 1) / 2
	}
	f.off += int64(k)
	return k, nil
}

func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	if off < 0 {
		return 0, perr("readat", f.name, syscall.EINVAL)
	}
	if f.n.dir {
		return 0, perr("read", f.name, syscall.EISDIR)
	}
	if err := op("read", abs(f.name)); err != nil {
		return 0, perr("read", f.name, err)
	}
	if off >= int64(len(f.n.data)) {
		if len(b) == 0 {
			return 0, nil
		}
		return 0, io.EOF
	}
	k := copy(b, f.n.data[off:])
	if k < len(b) {
		return k, io.EOF
	}
	return k, nil
}

func (f *File) Write(b []byte) (int, error) {
	if err := f.check("write"); err != nil {
		return 0, err
	}
	if f.std {
		Out = append(Out, b...)
		return len(b), nil
	}
	if f.flag&(O_WRONLY|O_RDWR) == 0 {
		return 0, perr("write", f.name, syscall.EBADF)
	}
	if len(b) == 0 {
		return 0, nil
	}
	p := abs(f.name)
	if CrashOps["write"] && vsched.Active() && vsched.Fault(2, "torn write "+p) == 1 {
		f.put(b[:len(b)/2])
		crash()
	}
	if FaultOps["write"] && vsched.Active() && vsched.Fault(2, "no space after half of write "+p) == 1 {
		vsched.Point("fs write " + p)
		f.put(b[:len(b)/2])
		return len(b) / 2, perr("write", f.name, syscall.ENOSPC)
	}
	if err := op("write", p); err != nil {
		return 0, perr("write", f.name, err)
	}
	f.put(b)
	note("write " + p)
	return len(b), nil
}

func (f *File) put(b []byte) {
	if f.flag&O_APPEND != 0 {
		f.off = int64(len(f.n.data))
	}
	for int64(len(f.n.data)) < f.off {
		f.n.data = append(f.n.data, 0)
	}
	k := copy(f.n.data[f.off:], b)
	f.n.data = append(f.n.data, b[k:]...)
	f.off += int64(len(b))
	f.n.mtime = stamp()
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }
func (f *File) WriteAt(b []byte, off int64) (int, error) {
	o := f.off
	f.off = off
	k, err := f.Write(b)
	f.off = o
	return k, err
}
func (f *File) ReadFrom(r io.Reader) (int64, error) {
	b, err := io.ReadAll(r)
	if err != nil {
		return 0, err
	}
	k, err := f.Write(b)
	return int64(k), err
}
func (f *File) WriteTo(w io.Writer) (int64, error) {
	var t int64
	b := make([]byte, 4096)
	for {
		k, err := f.Read(b)
		if k > 0 {
			m, werr := w.Write(b[:k])
			t += int64(m)
			if werr != nil {
				return t, werr
			}
		}
		if err == io.EOF {
			return t, nil
		}
		if err != nil {
			return t, err
		}
	}
}
func (f *File) Seek(off int64, wh int) (int64, error) {
	if err := f.check("seek"); err != nil {
		return 0, err
	}
	switch wh {
	case 0:
		f.off = off
	case 1:
		f.off += off
	case 2:
		f.off = int64(len(f.n.data)) + off
	}
	return f.off, nil
}
func (f *File) Sync() error {
	if err := f.check("sync"); err != nil {
		return err
	}
	if f.std {
		return nil
	}
	if err := op("sync", abs(f.name)); err != nil {
		return perr("sync", f.name, err)
	}
	f.n.synced = append([]byte{}, f.n.data...)
	return nil
}
func (f *File) Truncate(sz int64) error {
	if err := f.check("truncate"); err != nil {
		return err
	}
	if err := op("truncate", abs(f.name)); err != nil {
		return perr("truncate", f.name, err)
	}
	for int64(len(f.n.data)) < sz {
		f.n.data = append(f.n.data, 0)
	}
	f.n.data = f.n.data[:sz]
	f.n.mtime = stamp()
	note("truncate " + abs(f.name))
	return nil
}
func (f *File) Chmod(m FileMode) error {
	if err := f.check("chmod"); err != nil {
		return err
	}
	f.n.mode = m
	return nil
}
func (f *File) Stat() (FileInfo, error) {
	if err := f.check("stat"); err != nil {
		return nil, err
	}
	return info(abs(f.name), f.n), nil
}
func (f *File) SetDeadline(t time.Time) error      { return nil }
func (f *File) SetReadDeadline(t time.Time) error  { return nil }
func (f *File) SetWriteDeadline(t time.Time) error { return nil }
func (f *File) Readdir(n int) ([]FileInfo, error) {
	if err := f.check("readdir"); err != nil {
		return nil, err
	}
	names, err := f.Readdirnames(n)
	var l []FileInfo
	for _, x := range names {
		if nd := nodes[filepath.Join(abs(f.name), x)]; nd != nil {
			l = append(l, info(filepath.Join(abs(f.name), x), nd))
		}
	}
	return l, err
}
func (f *File) ReadDir(n int) ([]DirEntry, error) {
	l, err := f.Readdir(n)
	var d []DirEntry
	for _, i := range l {
		d = append(d, fs.FileInfoToDirEntry(i))
	}
	return d, err
}
func (f *File) Readdirnames(n int) ([]string, error) {
	if !f.n.dir {
		return nil, perr("readdir", f.name, syscall.ENOTDIR)
	}
	if !f.listed {
		if err := op("readdir", abs(f.name)); err != nil {
			return nil, perr("readdir", f.name, err)
		}
		f.names = children(abs(f.name))
		f.listed = true
	}
	if n <= 0 {
		l := f.names
		f.names = nil
		return l, nil
	}
	if len(f.names) == 0 {
		return nil, io.EOF
	}
	if n > len(f.names) {
		n = len(f.names)
	}
	l := f.names[:n]
	f.names = f.names[n:]
	return l, nil
}

func children(p string) []string {
	var l []string
	for q := range nodes {
		if q != "/" && filepath.Dir(q) == p {
			l = append(l, filepath.Base(q))
		}
	}
	sort.Strings(l)
	return l
}

type finfo struct {
	name string
	n    node
	size int64
}

func info(p string, n *node) FileInfo {
	return &finfo{filepath.Base(p), *n, int64(len(n.data)) + n.hole}
}
func (i *finfo) Name() string       { return i.name }
func (i *finfo) Size() int64        { return i.size }
func (i *finfo) IsDir() bool        { return i.n.dir }
func (i *finfo) Sys() interface{}   { return nil }
func (i *finfo) ModTime() time.Time { return vsched.Epoch.Add(time.Duration(i.n.mtime)) }
func (i *finfo) Mode() FileMode {
	if i.n.dir {
		return i.n.mode | ModeDir
	}
	return i.n.mode
}

func Stat(name string) (FileInfo, error) {
	p := abs(name)
	if err := op("stat", p); err != nil {
		return nil, perr("stat", name, err)
	}
	n := nodes[p]
	if n == nil {
		return nil, perr("stat", name, missing(p))
	}
	return info(p, n), nil
}
func Lstat(name string) (FileInfo, error) { return Stat(name) }

func Mkdir(name string, perm FileMode) error {
	p := abs(name)
	if err := op("mkdir", p); err != nil {
		return perr("mkdir", name, err)
	}
	if nodes[p] != nil {
		return perr("mkdir", name, syscall.EEXIST)
	}
	if d := nodes[filepath.Dir(p)]; d == nil {
		return perr("mkdir", name, syscall.ENOENT)
	} else if !d.dir {
		return perr("mkdir", name, syscall.ENOTDIR)
	}
	nodes[p] = &node{dir: true, mode: perm, mtime: stamp()}
	note("mkdir " + p)
	return nil
}

func MkdirAll(name string, perm FileMode) error {
	p := abs(name)
	if n := nodes[p]; n != nil {
		if !n.dir {
			return perr("mkdir", name, syscall.ENOTDIR)
		}
		return nil
	}
	if d := filepath.Dir(p); d != p {
		if err := MkdirAll(d, perm); err != nil {
			return err
		}
	}
	err := Mkdir(p, perm)
	if err != nil {
		if n := nodes[p]; n != nil && n.dir {
			return nil
		}
	}
	return err
}

func Remove(name string) error {
	p := abs(name)
	if err := op("remove", p); err != nil {
		return perr("remove", name, err)
	}
	n := nodes[p]
	if n == nil {
		return perr("remove", name, missing(p))
	}
	if n.dir && len(children(p)) > 0 {
		return perr("remove", name, syscall.ENOTEMPTY)
	}
	delete(nodes, p)
	note("remove " + p)
	return nil
}

func RemoveAll(name string) error {
	p := abs(name)
	if err := op("remove", p); err != nil {
		return perr("unlinkat", name, err)
	}
	for q := range nodes {
		if q == p || strings.HasPrefix(q, p+"/") {
			delete(nodes, q)
			note("remove " + q)
		}
	}
	return nil
}

func Rename(a, b string) error {
	p, q := abs(a), abs(b)
	if err := op("rename", q); err != nil {
		return &LinkError{Op: "rename", Old: a, New: b, Err: err}
	}
	n := nodes[p]
	if n == nil {
		return &LinkError{Op: "rename", Old: a, New: b, Err: syscall.ENOENT}
	}
	if m := nodes[q]; m != nil && m.dir {
		return &LinkError{Op: "rename", Old: a, New: b, Err: syscall.EEXIST}
	}
	if d := nodes[filepath.Dir(q)]; d == nil || !d.dir {
		return &LinkError{Op: "rename", Old: a, New: b, Err: syscall.ENOENT}
	}
	delete(nodes, p)
	nodes[q] = n
	note("rename " + p + " " + q)
	return nil
}

func Truncate(name string, size int64) error {
	f, err := OpenFile(name, O_WRONLY, 0)
	if err != nil {
		return err
	}
	defer f.Close()
	return f.Truncate(size)
}

func Chmod(name string, m FileMode) error {
	n := nodes[abs(name)]
	if n == nil {
		return perr("chmod", name, syscall.ENOENT)
	}
	n.mode = m
	return nil
}
func Chown(name string, u, g int) error { return nil }
func Chtimes(name string, a, m time.Time) error {
	n := nodes[abs(name)]
	if n == nil {
		return perr("chtimes", name, syscall.ENOENT)
	}
	n.mtime = int64(m.Sub(vsched.Epoch))
	return nil
}

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	var out []byte
	b := make([]byte, 4096)
	for {
		k, err := f.Read(b)
		out = append(out, b[:k]...)
		if err == io.EOF {
			return out, nil
		}
		if err != nil {
			return out, err
		}
	}
}

func WriteFile(name string, data []byte, perm FileMode) error {
	f, err := OpenFile(name, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if e := f.Close(); e != nil && err == nil {
		err = e
	}
	return err
}

func ReadDir(name string) ([]DirEntry, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return f.ReadDir(-1)
}

var tmpSeq int

func tmpName(dir, pattern string) string {
	if dir == "" {
		dir = "/tmp"
	}
	tmpSeq++
	pre, suf := pattern, ""
	if i := strings.LastIndex(pattern, "*"); i >= 0 {
		pre, suf = pattern[:i], pattern[i+1:]
	}
	return filepath.Join(dir, pre+itoa(tmpSeq)+suf)
}
func itoa(i int) string {
	if i < 10 {
		return string(rune('0' + i))
	}
	return itoa(i/10) + string(rune('0'+i%10))
}
func init() { vsched.OnReset(func() { tmpSeq = 0 }) }
func CreateTemp(dir, pattern string) (*File, error) {
	return OpenFile(tmpName(dir, pattern), O_RDWR|O_CREATE|O_EXCL, 0600)
}
func MkdirTemp(dir, pattern string) (string, error) {
	n := tmpName(dir, pattern)
	return n, Mkdir(n, 0700)
}

func Getenv(k string) string { return env[k] }
func LookupEnv(k string) (string, bool) {
	v, ok := env[k]
	return v, ok
}
func Setenv(k, v string) error { env[k] = v; return nil }
func Unsetenv(k string) error  { delete(env, k); return nil }
func Clearenv()                { env = map[string]string{} }
func Environ() []string {
	var l []string
	for k, v := range env {
		l = append(l, k+"="+v)
	}
	sort.Strings(l)
	return append(l, rawEnv...)
}
func ExpandEnv(s string) string { return os.Expand(s, Getenv) }

func Getwd() (string, error) {
	if err := op("getwd", "*"); err != nil {
		return "", err
	}
	return cwd, nil
}
func Chdir(d string) error              { cwd = abs(d); return nil }
func Hostname() (string, error)         { return host, hostErr }
func TempDir() string                   { return "/tmp" }
func UserHomeDir() (string, error)      { return "/root", nil }
func Executable() (string, error)       { return "/app/app", nil }
func Getpid() int                       { return 4242 }
func Symlink(a, b string) error         { return perr("symlink", b, syscall.EPERM) }
func Link(a, b string) error            { return perr("link", b, syscall.EPERM) }
func Readlink(n string) (string, error) { return "", perr("readlink", n, syscall.EINVAL) }
func SameFile(a, b FileInfo) bool       { return a == b }

func Exit(code int) {
	vsched.Finish(vsched.Exit, "os.Exit called: "+vsched.StackHere())
}
func DirFS(dir string) fs.FS { return nil }

// CrashNow offers a crash at this point.
func CrashNow() {
	if vsched.Active() && vsched.Fault(2, "crash here") == 1 {
		crash()
	}
}
