// Package os is os with files kept in memory: every file operation is a visible operation of the controlled
// scheduler, scenarios can inject write faults, and every elementary change can be recorded as a crash state.
package os

import (
	"errors"
	"io"
	"io/fs"
	real "os"
	"path"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"verif.local/v/mc"
)

// Inode is a file or directory.
type Inode struct {
	Data    []byte // content as seen by processes; for a mapped file the mapping shares this memory
	Durable []byte // content known to be on the disk
	Mapped  []byte // page-aligned memory of the mapping, nil when not mapped
	dir     bool
	mode    fs.FileMode
	obj     int
	changes int
}

// FS is one file system.
type FS struct {
	files map[string]*Inode
	obj   int
	seq   int
	byPtr map[uintptr]*Inode
	fds   map[uintptr]*File

	// Record keeps the content of all files after each elementary change (bytes of a write one by one).
	Record bool
	States []map[string]string
	// WriteHook, when set, decides the outcome of a write of n bytes: how many are written, and the error.
	WriteHook func(name string, n int) (int, error)
	// Gate, when set, is called before a write takes effect, and may block.
	Gate func()
	// SyncHook is told about every flush of a byte range (from, to) of a file.
	SyncHook func(ino *Inode, from, to int)
	// SyncErr, when set, decides the result of a flush.
	SyncErr func() error
	// OpErr, when set, decides whether another operation (open, rename, remove, truncate, close, sync) fails.
	OpErr func(op, name string) error
}

func (d *FS) fault(op, name string) error {
	if d.OpErr == nil {
		return nil
	}
	if err := d.OpErr(op, name); err != nil {
		return perr(op, name, err)
	}
	return nil
}

var cur *FS

func init() { mc.OnReset(func() { cur = nil }) }

// Disk is the file system of the current execution.
func Disk() *FS {
	if cur == nil {
		cur = &FS{files: map[string]*Inode{"/": {dir: true, mode: 0777}, ".": {dir: true, mode: 0777}, "/tmp": {dir: true, mode: 0777}},
			byPtr: map[uintptr]*Inode{}, fds: map[uintptr]*File{}}
		if mc.Active() {
			cur.obj = mc.E.NewObj()
		}
	}
	return cur
}

// Mount replaces the file system by one with the given contents (a recorded crash state).
func Mount(st map[string]string) *FS {
	cur = nil
	d := Disk()
	for n, c := range st {
		if strings.HasSuffix(n, "/") {
			d.files[clean(n)] = &Inode{dir: true, mode: 0777}
		} else {
			d.files[clean(n)] = d.newInode([]byte(c))
		}
	}
	return d
}

// Snapshot returns the contents of all files; directories end in a slash.
func (d *FS) Snapshot() map[string]string {
	m := map[string]string{}
	for n, i := range d.files {
		if i.dir {
			m[n+"/"] = ""
		} else {
			m[n] = string(i.Data)
		}
	}
	return m
}

// Content returns a file's bytes without a scheduling point.
func (d *FS) Content(name string) (string, bool) {
	i := d.files[clean(name)]
	if i == nil {
		return "", false
	}
	return string(i.Data), true
}

// Put creates a file without a scheduling point.
func (d *FS) Put(name, content string) *Inode {
	i := d.newInode([]byte(content))
	d.files[clean(name)] = i
	return i
}

// Lookup finds an inode.
func (d *FS) Lookup(name string) *Inode { return d.files[clean(name)] }

// Corrupt replaces a file's content without a scheduling point.
func (d *FS) Corrupt(name, content string) { d.files[clean(name)].Data = []byte(content) }

func (d *FS) newInode(b []byte) *Inode {
	i := &Inode{Data: b, Durable: append([]byte(nil), b...), mode: 0666}
	if mc.Active() {
		i.obj = mc.E.NewObj()
	}
	return i
}

func (d *FS) record() {
	if d.Record {
		s := d.Snapshot()
		if n := len(d.States); n > 0 && same(d.States[n-1], s) {
			return
		}
		d.States = append(d.States, s)
	}
}

func same(a, b map[string]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || v != w {
			return false
		}
	}
	return true
}

func clean(n string) string { return path.Clean(n) }

func point(kind string, obj int, w bool) {
	if mc.Active() {
		mc.Point(kind, nil, mc.Foot{Obj: obj, W: w})
	}
}

func (d *FS) ns(kind string, w bool) { point("fs "+kind, d.obj, w) }

func perr(op, p string, err error) error { return &fs.PathError{Op: op, Path: p, Err: err} }

// File is an open file.
type File struct {
	ino    *Inode
	name   string
	off    int64
	flag   int
	closed bool
	fd     uintptr
	d      *FS
}

func (d *FS) open(name string, flag int, perm fs.FileMode) (*File, error) {
	if name == "" {
		return nil, perr("open", name, syscall.ENOENT)
	}
	c := clean(name)
	i := d.files[c]
	switch {
	case i == nil && flag&O_CREATE == 0:
		return nil, perr("open", name, syscall.ENOENT)
	case i == nil:
		p := d.files[path.Dir(c)]
		if p == nil {
			return nil, perr("open", name, syscall.ENOENT)
		}
		if !p.dir {
			return nil, perr("open", name, syscall.ENOTDIR)
		}
		i = d.newInode(nil)
		i.mode = perm.Perm()
		d.files[c] = i
		d.record()
	case flag&O_CREATE != 0 && flag&O_EXCL != 0:
		return nil, perr("open", name, syscall.EEXIST)
	case i.dir && flag&(O_WRONLY|O_RDWR) != 0:
		return nil, perr("open", name, syscall.EISDIR)
	}
	if flag&O_TRUNC != 0 && flag&(O_WRONLY|O_RDWR) != 0 {
		i.resize(0)
		d.record()
	}
	d.seq++
	f := &File{ino: i, name: name, flag: flag, d: d, fd: uintptr(100 + d.seq)}
	d.fds[f.fd] = f
	return f, nil
}

func (i *Inode) resize(n int) {
	if n <= len(i.Data) {
		clear(i.Data[n:])
		i.Data = i.Data[:n]
	} else if i.Mapped != nil && n <= cap(i.Data) {
		i.Data = i.Data[:n]
	} else {
		i.Data = append(i.Data, make([]byte, n-len(i.Data))...)
	}
}

// Map gives the file's memory at a page-aligned address, shared with its content.
func (i *Inode) Map() []byte {
	const page = 4096
	if i.Mapped == nil {
		n := (len(i.Data) + page - 1) / page * page
		raw := make([]byte, n+page)
		o := int((page - uintptr(unsafe.Pointer(&raw[0]))%page) % page)
		b := raw[o : o+len(i.Data) : o+n]
		copy(b, i.Data)
		i.Data = b
		i.Mapped = b
		Disk().byPtr[uintptr(unsafe.Pointer(&raw[o]))] = i
	}
	return i.Mapped
}

// Unmap forgets the mapping.
func (i *Inode) Unmap() { i.Mapped = nil }

// FindMapping finds the mapping an address lies in, and the offset there.
func (d *FS) FindMapping(p uintptr) (*Inode, int) {
	for a, i := range d.byPtr {
		if i.Mapped != nil && p >= a && p < a+uintptr(cap(i.Mapped)) {
			return i, int(p - a)
		}
	}
	return nil, 0
}

// Flush makes a range durable.
func (d *FS) Flush(i *Inode, from, to int) error {
	if d.SyncErr != nil {
		if err := d.SyncErr(); err != nil {
			return err
		}
	}
	if d.SyncHook != nil {
		d.SyncHook(i, from, to)
	}
	if to > len(i.Data) {
		to = len(i.Data)
	}
	for len(i.Durable) < len(i.Data) {
		i.Durable = append(i.Durable, 0)
	}
	if from < to {
		copy(i.Durable[from:to], i.Data[from:to])
	}
	return nil
}

// ByFd finds an open file by descriptor.
func (d *FS) ByFd(fd uintptr) *File { return d.fds[fd] }

// Ino is the file's inode.
func (f *File) Ino() *Inode { return f.ino }

// Mappable reports why the file cannot be mapped.
func (f *File) Mappable(write bool) error {
	if err := f.check("mmap", false); err != nil {
		return err
	}
	if write && f.flag&(O_WRONLY|O_RDWR) != O_RDWR || f.flag&O_WRONLY != 0 {
		return perr("mmap", f.name, syscall.EACCES)
	}
	return nil
}

func (f *File) check(op string, w bool) error {
	if f == nil {
		return ErrInvalid
	}
	point("file "+op, f.ino.obj, w)
	if f.closed {
		return perr(op, f.name, ErrClosed)
	}
	return nil
}

func (f *File) writeAt(b []byte, off int64) (int, error) {
	n := len(b)
	var err error
	if f.d.WriteHook != nil {
		n, err = f.d.WriteHook(f.name, len(b))
	}
	if n > 0 && f.ino.Mapped == nil {
		f.ino.Data = f.ino.Data[:len(f.ino.Data):len(f.ino.Data)]
	}
	for k := 0; k < n; k++ {
		p := int(off) + k
		if p >= len(f.ino.Data) {
			f.ino.resize(p + 1)
		}
		f.ino.Data[p] = b[k]
		if f.d.Record {
			f.d.record()
		}
	}
	f.ino.changes++
	return n, err
}

func (f *File) writable() bool { return f.flag&(O_WRONLY|O_RDWR) != 0 }

func (f *File) Write(b []byte) (int, error) {
	if f != nil && f.d != nil && f.d.Gate != nil {
		f.d.Gate()
	}
	if err := f.check("write", true); err != nil {
		return 0, err
	}
	if !f.writable() {
		return 0, perr("write", f.name, syscall.EBADF)
	}
	if f.flag&O_APPEND != 0 {
		f.off = int64(len(f.ino.Data))
	}
	n, err := f.writeAt(b, f.off)
	f.off += int64(n)
	if err == nil && n < len(b) {
		err = io.ErrShortWrite
	}
	if err != nil {
		err = perr("write", f.name, err)
	}
	return n, err
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) WriteAt(b []byte, off int64) (int, error) {
	if err := f.check("write", true); err != nil {
		return 0, err
	}
	if f.flag&O_APPEND != 0 {
		return 0, errors.New("os: invalid use of WriteAt on file opened with O_APPEND")
	}
	if off < 0 {
		return 0, perr("writeat", f.name, errors.New("negative offset"))
	}
	if !f.writable() {
		return 0, perr("write", f.name, syscall.EBADF)
	}
	n, err := f.writeAt(b, off)
	if err == nil && n < len(b) {
		err = io.ErrShortWrite
	}
	if err != nil {
		err = perr("write", f.name, err)
	}
	return n, err
}

func (f *File) Read(b []byte) (int, error) {
	if err := f.check("read", true); err != nil {
		return 0, err
	}
	if f.flag&O_WRONLY != 0 {
		return 0, perr("read", f.name, syscall.EBADF)
	}
	if len(b) == 0 {
		return 0, nil
	}
	if f.off >= int64(len(f.ino.Data)) {
		return 0, io.EOF
	}
	n := copy(b, f.ino.Data[f.off:])
	f.off += int64(n)
	return n, nil
}

func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if err := f.check("read", false); err != nil {
		return 0, err
	}
	if off < 0 {
		return 0, perr("readat", f.name, errors.New("negative offset"))
	}
	if f.flag&O_WRONLY != 0 {
		return 0, perr("read", f.name, syscall.EBADF)
	}
	if off >= int64(len(f.ino.Data)) {
		if len(b) == 0 {
			return 0, nil
		}
		return 0, io.EOF
	}
	n := copy(b, f.ino.Data[off:])
	if n < len(b) {
		return n, io.EOF
	}
	return n, nil
}

func (f *File) ReadFrom(r io.Reader) (n int64, err error) {
	buf := make([]byte, 32*1024)
	for {
		k, er := r.Read(buf)
		if k > 0 {
			w, ew := f.Write(buf[:k])
			n += int64(w)
			if ew != nil {
				return n, ew
			}
		}
		if er == io.EOF {
			return n, nil
		}
		if er != nil {
			return n, er
		}
	}
}

func (f *File) Seek(off int64, whence int) (int64, error) {
	if err := f.check("seek", true); err != nil {
		return 0, err
	}
	switch whence {
	case io.SeekStart:
	case io.SeekCurrent:
		off += f.off
	case io.SeekEnd:
		off += int64(len(f.ino.Data))
	default:
		return 0, perr("seek", f.name, syscall.EINVAL)
	}
	if off < 0 {
		return 0, perr("seek", f.name, syscall.EINVAL)
	}
	f.off = off
	return off, nil
}

func (f *File) Truncate(n int64) error {
	if err := f.check("truncate", true); err != nil {
		return err
	}
	if n < 0 || !f.writable() {
		return perr("truncate", f.name, syscall.EINVAL)
	}
	if err := f.d.fault("truncate", f.name); err != nil {
		return err
	}
	f.ino.resize(int(n))
	f.d.record()
	return nil
}

func (f *File) Sync() error {
	if err := f.check("sync", true); err != nil {
		return err
	}
	if err := f.d.fault("sync", f.name); err != nil {
		return err
	}
	f.ino.Durable = f.ino.Durable[:0]
	return f.d.Flush(f.ino, 0, len(f.ino.Data))
}

func (f *File) Close() error {
	if err := f.check("close", true); err != nil {
		return err
	}
	f.closed = true
	return nil
}

func (f *File) Name() string                     { return f.name }
func (f *File) Fd() uintptr                      { return f.fd }
func (f *File) Chmod(FileMode) error             { return nil }
func (f *File) Chown(int, int) error             { return nil }
func (f *File) SetDeadline(time.Time) error      { return ErrNoDeadline }
func (f *File) SetReadDeadline(time.Time) error  { return ErrNoDeadline }
func (f *File) SetWriteDeadline(time.Time) error { return ErrNoDeadline }
func (f *File) Stat() (FileInfo, error) {
	if err := f.check("stat", false); err != nil {
		return nil, err
	}
	return info{path.Base(f.name), int64(len(f.ino.Data)), f.ino.dir, f.ino}, nil
}

func (f *File) ReadDir(n int) ([]DirEntry, error) { return ReadDir(f.name) }

func (f *File) Readdirnames(n int) (r []string, err error) {
	es, err := ReadDir(f.name)
	for _, e := range es {
		r = append(r, e.Name())
	}
	return
}

type info struct {
	name string
	size int64
	dir  bool
	ino  *Inode
}

func (i info) Name() string { return i.name }
func (i info) Size() int64  { return i.size }
func (i info) Mode() FileMode {
	if i.dir {
		return fs.ModeDir | 0777
	}
	return i.ino.mode
}
func (i info) ModTime() time.Time      { return time.Unix(1e9+int64(i.ino.changes), 0) }
func (i info) IsDir() bool             { return i.dir }
func (i info) Sys() any                { return nil }
func (i info) Type() FileMode          { return i.Mode().Type() }
func (i info) Info() (FileInfo, error) { return i, nil }

// ---- package functions ----

func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	d := Disk()
	d.ns("open "+name, true)
	if err := d.fault("open", name); err != nil {
		return nil, err
	}
	return d.open(name, flag, perm)
}

func Open(name string) (*File, error)   { return OpenFile(name, O_RDONLY, 0) }
func Create(name string) (*File, error) { return OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0666) }

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	point("file read", f.ino.obj, false)
	return append([]byte{}, f.ino.Data...), nil
}

func WriteFile(name string, data []byte, perm FileMode) error {
	f, err := OpenFile(name, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if e := f.Close(); e != nil && err == nil {
		err = e
	}
	return err
}

func stat(name string) (FileInfo, error) {
	d := Disk()
	d.ns("stat "+name, false)
	i := d.files[clean(name)]
	if i == nil {
		return nil, perr("stat", name, syscall.ENOENT)
	}
	return info{path.Base(name), int64(len(i.Data)), i.dir, i}, nil
}

func Stat(name string) (FileInfo, error)  { return stat(name) }
func Lstat(name string) (FileInfo, error) { return stat(name) }

func SameFile(a, b FileInfo) bool {
	x, ok := a.(info)
	y, ok2 := b.(info)
	return ok && ok2 && x.ino == y.ino
}

func Remove(name string) error {
	d := Disk()
	d.ns("remove "+name, true)
	if err := d.fault("remove", name); err != nil {
		return err
	}
	c := clean(name)
	i := d.files[c]
	if i == nil {
		return perr("remove", name, syscall.ENOENT)
	}
	if i.dir {
		for n := range d.files {
			if strings.HasPrefix(n, c+"/") {
				return perr("remove", name, syscall.ENOTEMPTY)
			}
		}
	}
	delete(d.files, c)
	d.record()
	return nil
}

func RemoveAll(name string) error {
	d := Disk()
	d.ns("remove "+name, true)
	c := clean(name)
	var ns []string
	for n := range d.files {
		if n == c || strings.HasPrefix(n, c+"/") {
			ns = append(ns, n)
		}
	}
	sort.Sort(sort.Reverse(sort.StringSlice(ns)))
	for _, n := range ns {
		delete(d.files, n)
		d.record()
	}
	return nil
}

func Rename(from, to string) error {
	d := Disk()
	d.ns("rename "+from+" "+to, true)
	if err := d.fault("rename", from); err != nil {
		return err
	}
	a, b := clean(from), clean(to)
	i := d.files[a]
	if i == nil || d.files[path.Dir(b)] == nil {
		return &LinkError{Op: "rename", Old: from, New: to, Err: syscall.ENOENT}
	}
	if j := d.files[b]; j != nil && j.dir != i.dir {
		return &LinkError{Op: "rename", Old: from, New: to, Err: syscall.EEXIST}
	}
	if a != b {
		delete(d.files, a)
		d.files[b] = i
		if i.dir {
			for n, x := range d.files {
				if strings.HasPrefix(n, a+"/") {
					delete(d.files, n)
					d.files[b+n[len(a):]] = x
				}
			}
		}
	}
	d.record()
	return nil
}

func Link(from, to string) error {
	d := Disk()
	d.ns("link", true)
	i := d.files[clean(from)]
	if i == nil {
		return &LinkError{Op: "link", Old: from, New: to, Err: syscall.ENOENT}
	}
	if d.files[clean(to)] != nil {
		return &LinkError{Op: "link", Old: from, New: to, Err: syscall.EEXIST}
	}
	d.files[clean(to)] = i
	d.record()
	return nil
}

func Mkdir(name string, perm FileMode) error {
	d := Disk()
	d.ns("mkdir "+name, true)
	c := clean(name)
	if d.files[c] != nil {
		return perr("mkdir", name, syscall.EEXIST)
	}
	if p := d.files[path.Dir(c)]; p == nil || !p.dir {
		return perr("mkdir", name, syscall.ENOENT)
	}
	d.files[c] = &Inode{dir: true, mode: perm}
	d.record()
	return nil
}

func MkdirAll(name string, perm FileMode) error {
	d := Disk()
	d.ns("mkdir "+name, true)
	c := clean(name)
	var todo []string
	for ; c != "/" && c != "."; c = path.Dir(c) {
		todo = append([]string{c}, todo...)
	}
	for _, x := range todo {
		if i := d.files[x]; i == nil {
			d.files[x] = &Inode{dir: true, mode: perm}
			d.record()
		} else if !i.dir {
			return perr("mkdir", x, syscall.ENOTDIR)
		}
	}
	return nil
}

func tempName(dir, pattern string) string {
	if dir == "" {
		dir = "/tmp"
	}
	d := Disk()
	pre, suf := pattern, ""
	if k := strings.LastIndex(pattern, "*"); k >= 0 {
		pre, suf = pattern[:k], pattern[k+1:]
	}
	for {
		d.seq++
		n := path.Join(dir, pre+strconv.Itoa(1000000+d.seq)+suf)
		if d.files[n] == nil {
			return n
		}
	}
}

func CreateTemp(dir, pattern string) (*File, error) {
	return OpenFile(tempName(dir, pattern), O_RDWR|O_CREATE|O_EXCL, 0600)
}

func MkdirTemp(dir, pattern string) (string, error) {
	n := tempName(dir, pattern)
	return n, Mkdir(n, 0700)
}

func ReadDir(name string) ([]DirEntry, error) {
	d := Disk()
	d.ns("readdir "+name, false)
	c := clean(name)
	if i := d.files[c]; i == nil || !i.dir {
		return nil, perr("open", name, syscall.ENOENT)
	}
	var ns []string
	for n := range d.files {
		if n != c && path.Dir(n) == c {
			ns = append(ns, n)
		}
	}
	sort.Strings(ns)
	var r []DirEntry
	for _, n := range ns {
		i := d.files[n]
		r = append(r, info{path.Base(n), int64(len(i.Data)), i.dir, i})
	}
	return r, nil
}

func Truncate(name string, n int64) error {
	f, err := OpenFile(name, O_WRONLY, 0)
	if err != nil {
		return err
	}
	return f.Truncate(n)
}

func Chmod(string, FileMode) error               { return nil }
func Chown(string, int, int) error               { return nil }
func Chtimes(string, time.Time, time.Time) error { return nil }
func TempDir() string                            { return "/tmp" }
func Getpid() int                                { return 4242 }
func Getpagesize() int                           { return 4096 }
func NewFile(fd uintptr, name string) *File      { return Disk().fds[fd] }

var _ = real.ErrClosed
