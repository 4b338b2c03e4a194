//go:build go1.24

// Package sos replaces the file operations of os, io/ioutil and path/filepath
// with an in-memory file system whose faults the simulator injects.
package sos

import (
	"gosim/core"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// Config of storage faults (set by the harness; probabilities per operation).
type Config struct {
	OpenErrP   float64
	WriteErrP  float64
	ShortP     float64 // short write: part of the data lands, then ENOSPC
	ReadErrP   float64
	CloseErrP  float64
	RenameErrP float64
	MkdirErrP  float64
	ListErrP   float64
	RemoveErrP float64
	StatErrP   float64
	Budget     int     // faults left
	Capacity   int64   // bytes the disk holds (0 = unlimited)
	SlowP      float64 // an operation takes its time
	SlowMax    int64
	MaxFiles   int  // open files allowed (0 = unlimited)
	CrashAt    int  // the process stops for good at its n-th file operation
	Tear       bool // a write may be interrupted halfway by a yield (crash point)
}

var Cfg Config

type inode struct {
	dir  bool
	mode fs.FileMode
	data []byte
	kids []*dirent
	mod  time.Time
	toks []*int64
}

type dirent struct {
	name string
	n    *inode
}

var (
	root    *inode
	open    int
	tmpSeq  int
	OpenNow int
	used    int64
	Writes  int
	Ops     int  // file operations so far
	Crashed bool // the crash point was reached
)

// step is the scheduling point, and possible crash point, of an operation.
func step(op string) {
	Ops++
	if Cfg.CrashAt > 0 && Ops == Cfg.CrashAt && !core.Dying() {
		Crashed = true
		core.Note("fault", "the process stops at %s", op)
		core.Poke()
		core.SleepFor(1 << 55)
		return
	}
	core.Yield(op)
	if Cfg.SlowP > 0 && !core.Dying() && core.F("slow file operation", Cfg.SlowP) {
		core.SleepFor(1 + int64(core.FN(int(Cfg.SlowMax))))
	}
}

// RemoveFailed: some removal was made to fail in this run.
var RemoveFailed bool

// Files counts the files below path.
func Files(path string) int {
	n, err := lookup(path)
	if err != nil {
		return 0
	}
	return n.files()
}

func (n *inode) files() (c int) {
	if !n.dir {
		return 1
	}
	for _, k := range names(n) {
		c += n.kid(k).files()
	}
	return
}

func init() { core.OnRunStart(Reset) }

// Reset makes an empty disk with an empty, world-writable /tmp.
func Reset() {
	RemoveFailed = false
	root = &inode{dir: true, mode: fs.ModeDir | 0o755}
	tmp := &inode{dir: true, mode: fs.ModeDir | 0o777}
	root.kids = append(root.kids, &dirent{"tmp", tmp})
	open, OpenNow, tmpSeq, used, Writes = 0, 0, 0, 0, 0
	Ops, Crashed = 0, false
	pid = 4000
	Cfg = Config{}
}

// ForgetOpen is called when the process dies: its descriptors are closed.
func ForgetOpen() {
	OpenNow = 0
	pid += 11
}

var pid int

// Getpid is different after a restart.
func Getpid() int  { return pid }
func Getppid() int { return 1 }

func Hostname() (string, error) { return "simulated", nil }

func fault(kind string, p float64) bool {
	if p <= 0 || Cfg.Budget <= 0 {
		return false
	}
	if core.F(kind, p) {
		Cfg.Budget--
		return true
	}
	return false
}

func perr(op, path string, err error) error { return &fs.PathError{Op: op, Path: path, Err: err} }

func split(path string) []string {
	path = filepath.Clean(path)
	if !filepath.IsAbs(path) {
		path = filepath.Clean("/tmp/cwd/" + path)
	}
	var out []string
	for _, s := range strings.Split(path, "/") {
		if s != "" {
			out = append(out, s)
		}
	}
	return out
}

func (n *inode) kid(name string) *inode {
	for _, k := range n.kids {
		if k.name == name {
			return k.n
		}
	}
	return nil
}

func canX(n *inode) bool { return n.mode&0o100 != 0 }
func canW(n *inode) bool { return n.mode&0o200 != 0 }
func canR(n *inode) bool { return n.mode&0o400 != 0 }

// lookup walks to path; it needs execute permission on every directory.
func lookup(path string) (*inode, error) {
	n := root
	for _, s := range split(path) {
		if !n.dir {
			return nil, syscall.ENOTDIR
		}
		if !canX(n) {
			return nil, syscall.EACCES
		}
		k := n.kid(s)
		if k == nil {
			return nil, syscall.ENOENT
		}
		n = k
	}
	return n, nil
}

func parent(path string) (*inode, string, error) {
	p := split(path)
	if len(p) == 0 {
		return nil, "", syscall.EINVAL
	}
	d, err := lookup("/" + strings.Join(p[:len(p)-1], "/"))
	if err != nil {
		return nil, "", err
	}
	if !d.dir {
		return nil, "", syscall.ENOTDIR
	}
	if !canX(d) {
		return nil, "", syscall.EACCES
	}
	return d, p[len(p)-1], nil
}

type fileInfo struct {
	name string
	n    *inode
	size int64
}

func (i fileInfo) Name() string               { return i.name }
func (i fileInfo) Size() int64                { return i.size }
func (i fileInfo) Mode() fs.FileMode          { return i.n.mode }
func (i fileInfo) ModTime() time.Time         { return i.n.mod }
func (i fileInfo) IsDir() bool                { return i.n.dir }
func (i fileInfo) Sys() any                   { return nil }
func (i fileInfo) Type() fs.FileMode          { return i.n.mode.Type() }
func (i fileInfo) Info() (fs.FileInfo, error) { return i, nil }

func info(name string, n *inode) fileInfo { return fileInfo{name, n, int64(len(n.data))} }

// File is a simulated open file.
type File struct {
	name   string
	n      *inode
	pos    int64
	flag   int
	closed bool
	dirPos int
	owner  *core.Group
	wrote  bool
}

func touch(n *inode) {
	s, ns := core.WallNow()
	n.mod = time.Unix(s, ns)
}

func TempDir() string { return "/tmp" }

func Mkdir(path string, perm fs.FileMode) error {
	step("mkdir")
	if core.Dying() {
		return perr("mkdir", path, syscall.EIO)
	}
	if fault("mkdir error", Cfg.MkdirErrP) {
		return perr("mkdir", path, syscall.ENOSPC)
	}
	d, base, err := parent(path)
	if err != nil {
		return perr("mkdir", path, err)
	}
	if d.kid(base) != nil {
		return perr("mkdir", path, syscall.EEXIST)
	}
	if !canW(d) {
		return perr("mkdir", path, syscall.EACCES)
	}
	n := &inode{dir: true, mode: fs.ModeDir | perm.Perm()&^0o022}
	touch(n)
	d.kids = append(d.kids, &dirent{dup(base), n})
	return nil
}

func MkdirAll(path string, perm fs.FileMode) error {
	step("mkdirall")
	if core.Dying() {
		return perr("mkdir", path, syscall.EIO)
	}
	if n, err := lookup(path); err == nil {
		if n.dir {
			return nil
		}
		return perr("mkdir", path, syscall.ENOTDIR)
	}
	p := split(path)
	for i := 1; i <= len(p); i++ {
		s := "/" + strings.Join(p[:i], "/")
		n, err := lookup(s)
		if err == nil {
			if !n.dir {
				return perr("mkdir", s, syscall.ENOTDIR)
			}
			continue
		}
		if err != syscall.ENOENT {
			return perr("mkdir", s, err)
		}
		if e := Mkdir(s, perm); e != nil {
			if n, err := lookup(s); err == nil && n.dir {
				continue
			}
			return e
		}
	}
	return nil
}

func OpenFile(path string, flag int, perm fs.FileMode) (*File, error) {
	step("open")
	if core.Dying() {
		return nil, perr("open", path, syscall.EIO)
	}
	if fault("open error", Cfg.OpenErrP) {
		return nil, perr("open", path, []error{syscall.EMFILE, syscall.EIO, syscall.EACCES}[core.FN(3)])
	}
	if Cfg.MaxFiles > 0 && OpenNow >= Cfg.MaxFiles {
		return nil, perr("open", path, syscall.EMFILE)
	}
	acc := flag & (os.O_RDONLY | os.O_WRONLY | os.O_RDWR)
	var n *inode
	x, err := lookup(path)
	if err == nil {
		n = x
		if flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
			return nil, perr("open", path, syscall.EEXIST)
		}
		if n.dir && acc != os.O_RDONLY {
			return nil, perr("open", path, syscall.EISDIR)
		}
		if acc != os.O_WRONLY && !canR(n) || acc != os.O_RDONLY && !canW(n) {
			return nil, perr("open", path, syscall.EACCES)
		}
		if flag&os.O_TRUNC != 0 && acc != os.O_RDONLY {
			used -= int64(len(n.data))
			n.data = nil
			touch(n)
		}
	} else {
		if err != syscall.ENOENT || flag&os.O_CREATE == 0 {
			return nil, perr("open", path, err)
		}
		d, base, err := parent(path)
		if err != nil {
			return nil, perr("open", path, err)
		}
		if !canW(d) {
			return nil, perr("open", path, syscall.EACCES)
		}
		n = &inode{mode: perm.Perm() &^ 0o022}
		touch(n)
		d.kids = append(d.kids, &dirent{dup(base), n})
	}
	OpenNow++
	return &File{name: path, n: n, flag: flag, owner: core.CurGroup()}, nil
}

func Open(path string) (*File, error) { return OpenFile(path, os.O_RDONLY, 0) }
func Create(path string) (*File, error) {
	return OpenFile(path, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o666)
}

func CreateTemp(dir, pattern string) (*File, error) {
	if dir == "" {
		dir = TempDir()
	}
	pre, suf := pattern, ""
	if i := strings.LastIndex(pattern, "*"); i >= 0 {
		pre, suf = pattern[:i], pattern[i+1:]
	}
	for {
		tmpSeq++
		name := filepath.Join(dir, pre+strconv.Itoa(100000+tmpSeq)+suf)
		f, err := OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0o600)
		if err != nil && os.IsExist(err) {
			continue
		}
		return f, err
	}
}

func MkdirTemp(dir, pattern string) (string, error) {
	if dir == "" {
		dir = TempDir()
	}
	pre, suf := pattern, ""
	if i := strings.LastIndex(pattern, "*"); i >= 0 {
		pre, suf = pattern[:i], pattern[i+1:]
	}
	tmpSeq++
	name := filepath.Join(dir, pre+strconv.Itoa(100000+tmpSeq)+suf)
	return name, Mkdir(name, 0o700)
}

func (f *File) Name() string { return f.name }
func (f *File) Fd() uintptr  { return 3 }

func (f *File) check(op string) error {
	if f == nil {
		return os.ErrInvalid
	}
	if core.Dying() {
		return perr(op, f.name, syscall.EIO)
	}
	if f.closed {
		return perr(op, f.name, os.ErrClosed)
	}
	return nil
}

func (f *File) Read(p []byte) (int, error) {
	step("file.read")
	if err := f.check("read"); err != nil {
		return 0, err
	}
	if f.flag&(os.O_WRONLY) != 0 {
		return 0, perr("read", f.name, syscall.EBADF)
	}
	if f.n.dir {
		return 0, perr("read", f.name, syscall.EISDIR)
	}
	if fault("read error", Cfg.ReadErrP) {
		return 0, perr("read", f.name, syscall.EIO)
	}
	if len(p) == 0 {
		return 0, nil
	}
	if f.pos >= int64(len(f.n.data)) {
		return 0, io.EOF
	}
	n := copy(p, f.n.data[f.pos:])
	core.WriteRange(p[:n])
	f.pos += int64(n)
	return n, nil
}

func (f *File) ReadAt(p []byte, off int64) (int, error) {
	step("file.readat")
	if err := f.check("read"); err != nil {
		return 0, err
	}
	if fault("read error", Cfg.ReadErrP) {
		return 0, perr("read", f.name, syscall.EIO)
	}
	if off >= int64(len(f.n.data)) {
		return 0, io.EOF
	}
	n := copy(p, f.n.data[off:])
	core.WriteRange(p[:n])
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}

func (n *inode) writeAt(p []byte, off int64) {
	end := off + int64(len(p))
	if end > int64(len(n.data)) {
		d := make([]byte, end)
		copy(d, n.data)
		used += end - int64(len(n.data))
		n.data = d
	} else {
		n.data = append([]byte{}, n.data...)
	}
	copy(n.data[off:], p)
	touch(n)
}

func (f *File) put(p []byte) {
	f.wrote = true
	if f.flag&os.O_APPEND != 0 {
		f.pos = int64(len(f.n.data))
	}
	f.n.writeAt(p, f.pos)
	f.pos += int64(len(p))
}

func (f *File) Write(p []byte) (int, error) {
	step("file.write")
	if err := f.check("write"); err != nil {
		return 0, err
	}
	core.ReadRange(p)
	if f.flag&(os.O_WRONLY|os.O_RDWR) == 0 {
		return 0, perr("write", f.name, syscall.EBADF)
	}
	if len(p) == 0 {
		return 0, nil
	}
	Writes++
	if fault("write error", Cfg.WriteErrP) {
		return 0, perr("write", f.name, syscall.EIO)
	}
	if fault("short write", Cfg.ShortP) {
		k := core.FN(len(p))
		f.put(p[:k])
		return k, perr("write", f.name, syscall.ENOSPC)
	}
	if Cfg.Capacity > 0 && used+int64(len(p)) > Cfg.Capacity {
		core.Count("disk full")
		k := int(Cfg.Capacity - used)
		if k < 0 {
			k = 0
		}
		f.put(p[:k])
		return k, perr("write", f.name, syscall.ENOSPC)
	}
	if Cfg.Tear && len(p) > 1 {
		k := core.FN(len(p))
		if k > 0 {
			core.Count("torn write point")
			f.put(p[:k])
			step("file.write.torn")
			if core.Dying() {
				return k, syscall.EIO
			}
			f.put(p[k:])
			return len(p), nil
		}
	}
	f.put(p)
	return len(p), nil
}

func (f *File) WriteAt(p []byte, off int64) (int, error) {
	step("file.writeat")
	if err := f.check("write"); err != nil {
		return 0, err
	}
	if fault("write error", Cfg.WriteErrP) {
		return 0, perr("write", f.name, syscall.EIO)
	}
	f.wrote = true
	f.n.writeAt(p, off)
	return len(p), nil
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) Seek(off int64, whence int) (int64, error) {
	step("file.seek")
	if err := f.check("seek"); err != nil {
		return 0, err
	}
	switch whence {
	case io.SeekStart:
		f.pos = off
	case io.SeekCurrent:
		f.pos += off
	case io.SeekEnd:
		f.pos = int64(len(f.n.data)) + off
	}
	if f.pos < 0 {
		f.pos = 0
		return 0, perr("seek", f.name, syscall.EINVAL)
	}
	return f.pos, nil
}

func (f *File) Truncate(n int64) error {
	step("file.truncate")
	if err := f.check("truncate"); err != nil {
		return err
	}
	return f.n.truncate(n)
}

func (n *inode) truncate(sz int64) error {
	d := make([]byte, sz)
	copy(d, n.data)
	used += sz - int64(len(n.data))
	n.data = d
	return nil
}

func (f *File) Sync() error {
	step("file.sync")
	if err := f.check("sync"); err != nil {
		return err
	}
	if fault("sync error", Cfg.CloseErrP) {
		return perr("sync", f.name, syscall.EIO)
	}
	return nil
}

func (f *File) Close() error {
	step("file.close")
	if err := f.check("close"); err != nil {
		return err
	}
	f.closed = true
	OpenNow--
	if f.flag&(os.O_WRONLY|os.O_RDWR) != 0 && fault("close error", Cfg.CloseErrP) {
		if n := len(f.n.data); f.wrote && n > 0 && core.FN(2) == 1 {
			// delayed allocation: what was written does not all reach the disk
			k := core.FN(n)
			core.Count("data lost at close")
			used -= int64(n - k)
			f.n.data = f.n.data[:k:k]
		}
		return perr("close", f.name, syscall.EIO)
	}
	return nil
}

func (f *File) Chmod(m fs.FileMode) error {
	if err := f.check("chmod"); err != nil {
		return err
	}
	f.n.mode = f.n.mode&fs.ModeDir | m.Perm()
	return nil
}

func (f *File) Stat() (fs.FileInfo, error) {
	step("file.stat")
	if err := f.check("stat"); err != nil {
		return nil, err
	}
	return info(filepath.Base(f.name), f.n), nil
}

func names(n *inode) []string {
	var out []string
	for _, k := range n.kids {
		out = append(out, k.name)
	}
	sort.Strings(out)
	return out
}

func (f *File) Readdirnames(n int) ([]string, error) {
	fi, err := f.Readdir(n)
	var out []string
	for _, x := range fi {
		out = append(out, x.Name())
	}
	return out, err
}

func (f *File) Readdir(n int) ([]fs.FileInfo, error) {
	step("readdir")
	if err := f.check("readdir"); err != nil {
		return nil, err
	}
	if !f.n.dir {
		return nil, perr("readdir", f.name, syscall.ENOTDIR)
	}
	if fault("list error", Cfg.ListErrP) {
		return nil, perr("readdir", f.name, syscall.EIO)
	}
	var out []fs.FileInfo
	ns := names(f.n)
	for f.dirPos < len(ns) && (n <= 0 || len(out) < n) {
		out = append(out, info(ns[f.dirPos], f.n.kid(ns[f.dirPos])))
		f.dirPos++
	}
	if n > 0 && len(out) == 0 {
		return nil, io.EOF
	}
	return out, nil
}

func (f *File) ReadDir(n int) ([]fs.DirEntry, error) {
	fi, err := f.Readdir(n)
	var out []fs.DirEntry
	for _, x := range fi {
		out = append(out, x.(fileInfo))
	}
	return out, err
}

func Stat(path string) (fs.FileInfo, error) {
	step("stat")
	if core.Dying() {
		return nil, perr("stat", path, syscall.EIO)
	}
	if fault("stat error", Cfg.StatErrP) {
		return nil, perr("stat", path, syscall.EIO)
	}
	n, err := lookup(path)
	if err != nil {
		return nil, perr("stat", path, err)
	}
	return info(filepath.Base(path), n), nil
}

func Lstat(path string) (fs.FileInfo, error) {
	fi, err := Stat(path)
	if e, ok := err.(*fs.PathError); ok {
		e.Op = "lstat"
	}
	return fi, err
}

func readDir(path string) ([]fileInfo, error) {
	step("readdir")
	if core.Dying() {
		return nil, perr("open", path, syscall.EIO)
	}
	if fault("list error", Cfg.ListErrP) {
		return nil, perr("open", path, syscall.EIO)
	}
	n, err := lookup(path)
	if err != nil {
		return nil, perr("open", path, err)
	}
	if !n.dir {
		return nil, perr("readdirent", path, syscall.ENOTDIR)
	}
	if !canR(n) {
		return nil, perr("open", path, syscall.EACCES)
	}
	var out []fileInfo
	for _, s := range names(n) {
		out = append(out, info(s, n.kid(s)))
	}
	return out, nil
}

func ReadDir(path string) ([]fs.DirEntry, error) {
	l, err := readDir(path)
	if err != nil {
		return nil, err
	}
	out := make([]fs.DirEntry, len(l))
	for i, x := range l {
		out[i] = x
	}
	return out, nil
}

// IoutilReadDir is ioutil.ReadDir.
func IoutilReadDir(path string) ([]fs.FileInfo, error) {
	l, err := readDir(path)
	if err != nil {
		return nil, err
	}
	out := make([]fs.FileInfo, len(l))
	for i, x := range l {
		out[i] = x
	}
	return out, nil
}

func ReadFile(path string) ([]byte, error) {
	f, err := Open(path)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}

func WriteFile(path string, data []byte, perm fs.FileMode) error {
	f, err := OpenFile(path, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

func (d *inode) unlink(name string) {
	for i, k := range d.kids {
		if k.name == name {
			used -= int64(len(k.n.data))
			d.kids = core.Copied(d.kids, i)
			return
		}
	}
}

func Remove(path string) error {
	step("remove")
	if core.Dying() {
		return perr("remove", path, syscall.EIO)
	}
	if fault("remove error", Cfg.RemoveErrP) {
		RemoveFailed = true
		return perr("remove", path, syscall.EIO)
	}
	d, base, err := parent(path)
	if err != nil {
		return perr("remove", path, err)
	}
	n := d.kid(base)
	if n == nil {
		return perr("remove", path, syscall.ENOENT)
	}
	if !canW(d) {
		return perr("remove", path, syscall.EACCES)
	}
	if n.dir && len(n.kids) > 0 {
		return perr("remove", path, syscall.ENOTEMPTY)
	}
	d.unlink(base)
	return nil
}

func RemoveAll(path string) error {
	step("removeall")
	if core.Dying() {
		return perr("remove", path, syscall.EIO)
	}
	if fault("remove error", Cfg.RemoveErrP) {
		RemoveFailed = true
		return perr("unlinkat", path, syscall.EIO)
	}
	d, base, err := parent(path)
	if err == syscall.ENOENT {
		return nil
	}
	if err != nil {
		return perr("unlinkat", path, err)
	}
	if d.kid(base) == nil {
		return nil
	}
	if !canW(d) {
		return perr("unlinkat", path, syscall.EACCES)
	}
	d.unlink(base)
	return nil
}

func Rename(a, b string) error {
	step("rename")
	le := func(err error) error { return &os.LinkError{Op: "rename", Old: a, New: b, Err: err} }
	if core.Dying() {
		return le(syscall.EIO)
	}
	if fault("rename error", Cfg.RenameErrP) {
		return le(syscall.EIO)
	}
	da, na, err := parent(a)
	if err != nil {
		return le(err)
	}
	db, nb, err := parent(b)
	if err != nil {
		return le(err)
	}
	n := da.kid(na)
	if n == nil {
		return le(syscall.ENOENT)
	}
	if !canW(da) || !canW(db) {
		return le(syscall.EACCES)
	}
	if t := db.kid(nb); t != nil && t != n {
		if t.dir {
			return le(syscall.EEXIST)
		}
		db.unlink(nb)
	}
	for i, k := range da.kids {
		if k.name == na {
			da.kids = core.Copied(da.kids, i)
			break
		}
	}
	db.kids = append(db.kids, &dirent{dup(nb), n})
	return nil
}

func Link(a, b string) error {
	step("link")
	n, err := lookup(a)
	if err != nil {
		return &os.LinkError{Op: "link", Old: a, New: b, Err: err}
	}
	d, base, err := parent(b)
	if err == nil && d.kid(base) != nil {
		err = syscall.EEXIST
	}
	if err != nil {
		return &os.LinkError{Op: "link", Old: a, New: b, Err: err}
	}
	d.kids = append(d.kids, &dirent{dup(base), n})
	return nil
}

func Truncate(path string, sz int64) error {
	step("truncate")
	n, err := lookup(path)
	if err != nil {
		return perr("truncate", path, err)
	}
	return n.truncate(sz)
}

func Chmod(path string, m fs.FileMode) error {
	step("chmod")
	n, err := lookup(path)
	if err != nil {
		return perr("chmod", path, err)
	}
	n.mode = n.mode&fs.ModeDir | m.Perm()
	return nil
}

func Chtimes(path string, a, m time.Time) error { return nil }

func Exit(code int) { core.Crash("the process calls os.Exit(" + strconv.Itoa(code) + ")") }

// ---- path/filepath

func Walk(root string, fn filepath.WalkFunc) error {
	fi, err := Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walk(root, fi, fn)
	}
	if err == filepath.SkipDir || err == filepath.SkipAll {
		return nil
	}
	return err
}

func walk(path string, fi fs.FileInfo, fn filepath.WalkFunc) error {
	if !fi.IsDir() {
		return fn(path, fi, nil)
	}
	l, err := readDir(path)
	err1 := fn(path, fi, err)
	if err != nil || err1 != nil {
		return err1
	}
	for _, x := range l {
		p := filepath.Join(path, x.Name())
		xi, err := Lstat(p)
		if err != nil {
			if err := fn(p, xi, err); err != nil && err != filepath.SkipDir {
				return err
			}
			continue
		}
		if err := walk(p, xi, fn); err != nil {
			if !xi.IsDir() || err != filepath.SkipDir {
				return err
			}
		}
	}
	return nil
}

func WalkDir(root string, fn fs.WalkDirFunc) error {
	fi, err := Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walkDir(root, fs.FileInfoToDirEntry(fi), fn)
	}
	if err == filepath.SkipDir || err == filepath.SkipAll {
		return nil
	}
	return err
}

func walkDir(path string, d fs.DirEntry, fn fs.WalkDirFunc) error {
	if err := fn(path, d, nil); err != nil || !d.IsDir() {
		if err == filepath.SkipDir && d.IsDir() {
			err = nil
		}
		return err
	}
	l, err := ReadDir(path)
	if err != nil {
		if err = fn(path, d, err); err != nil {
			if err == filepath.SkipDir && d.IsDir() {
				err = nil
			}
			return err
		}
	}
	for _, x := range l {
		if err := walkDir(filepath.Join(path, x.Name()), x, fn); err != nil {
			if err == filepath.SkipDir {
				break
			}
			return err
		}
	}
	return nil
}

// Glob supports a pattern in the last path element only.
func Glob(pattern string) ([]string, error) {
	if _, err := filepath.Match(pattern, ""); err != nil {
		return nil, err
	}
	dir, base := filepath.Split(pattern)
	l, err := readDir(dir)
	if err != nil {
		return nil, nil
	}
	var out []string
	for _, x := range l {
		if ok, _ := filepath.Match(base, x.Name()); ok {
			out = append(out, filepath.Join(dir, x.Name()))
		}
	}
	return out, nil
}

// ---- harness helpers

// Dump lists every file below dir with its size (no yields).
func Dump(dir string) []string {
	n, err := lookup(dir)
	if err != nil {
		return nil
	}
	var out []string
	var rec func(p string, n *inode)
	rec = func(p string, n *inode) {
		for _, s := range names(n) {
			k := n.kid(s)
			if k.dir {
				rec(p+"/"+s, k)
			} else {
				out = append(out, p+"/"+s+" "+strconv.Itoa(len(k.data)))
			}
		}
	}
	rec(dir, n)
	return out
}

// dup copies a name, as the kernel does: the caller's memory is not shared
// with those who list the directory.
func dup(s string) string {
	b := make([]byte, len(s))
	for i := 0; i < len(s); i++ {
		b[i] = s[i]
	}
	return string(b)
}

type dirFS string

// DirFS is os.DirFS over the simulated disk.
func DirFS(dir string) fs.FS { return dirFS(dir) }

func (d dirFS) full(op, name string) (string, error) {
	if !fs.ValidPath(name) {
		return "", &fs.PathError{Op: op, Path: name, Err: fs.ErrInvalid}
	}
	return string(d) + "/" + name, nil
}

func (d dirFS) Open(name string) (fs.File, error) {
	p, err := d.full("open", name)
	if err != nil {
		return nil, err
	}
	f, err := Open(p)
	if err != nil {
		return nil, err
	}
	return f, nil
}

func (d dirFS) Stat(name string) (fs.FileInfo, error) {
	p, err := d.full("stat", name)
	if err != nil {
		return nil, err
	}
	return Stat(p)
}

func (d dirFS) ReadDir(name string) ([]fs.DirEntry, error) {
	p, err := d.full("readdir", name)
	if err != nil {
		return nil, err
	}
	return ReadDir(p)
}

func (d dirFS) ReadFile(name string) ([]byte, error) {
	p, err := d.full("readfile", name)
	if err != nil {
		return nil, err
	}
	return ReadFile(p)
}
