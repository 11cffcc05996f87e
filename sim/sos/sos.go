// Package sos replaces the file functions of package os: a simulated file system whose content survives the
// crash of the process (node) that uses it. The bytes of a file live in a memfd, so that it can be mapped.
package sos

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"github.com/solarisdb/solaris/zsim/sim"
)

type (
	FileInfo  = os.FileInfo
	FileMode  = os.FileMode
	PathError = os.PathError
	LinkError = os.LinkError
	DirEntry  = os.DirEntry
)

const (
	O_RDONLY = os.O_RDONLY
	O_WRONLY = os.O_WRONLY
	O_RDWR   = os.O_RDWR
	O_APPEND = os.O_APPEND
	O_CREATE = os.O_CREATE
	O_EXCL   = os.O_EXCL
	O_SYNC   = os.O_SYNC
	O_TRUNC  = os.O_TRUNC
)

// Inode is a file or a directory
type Inode struct {
	fd    int
	size  int64
	mtime time.Time
	dir   bool
	mode  os.FileMode
	id    int
	maps  []*mapping
	opens []*sim.Node // who has the file open
	// mapped tells that the file was mapped for writing, sum is the last known state of its content
	mapped bool
	sum    uint64
}

type mapping struct {
	b    []byte
	head [64]byte
	n    *sim.Node
}

var watched []*Inode

// AddMap registers a mapping of the current node: stores through it change the modification time. The kernel
// does this at the first store to a clean page; here it is noticed at the end of the time slice of the task.
func (i *Inode) AddMap(b []byte) {
	i.touch()
	m := &mapping{b: b, n: sim.CurNode()}
	copy(m.head[:], b)
	i.maps = append(i.maps, m)
	if !i.mapped {
		i.mapped = true
		i.sum = i.hash()
	}
	for _, w := range watched {
		if w == i {
			return
		}
	}
	if len(watched) == 0 {
		sim.OnEnd(func() { watched = nil; sim.SliceHook = nil })
	}
	watched = append(watched, i)
	sim.SliceHook = touchAll
}

// DelMap removes the mapping that starts at p
func (i *Inode) DelMap(p *byte) {
	i.touch()
	for k, m := range i.maps {
		if &m.b[0] == p {
			i.maps = append(i.maps[:k:k], i.maps[k+1:]...)
			break
		}
	}
}

func touchAll() {
	for _, i := range watched {
		i.touch()
	}
}

func (i *Inode) touch() {
	for _, m := range i.maps {
		h := m.b
		if len(h) > 64 {
			h = h[:64]
		}
		if string(m.head[:len(h)]) != string(h) {
			copy(m.head[:], h)
			i.mtime = sim.WallOf(m.n)
			i.sum = 0
		}
	}
}

func (i *Inode) hash() uint64 {
	b := make([]byte, i.size)
	pread(i.fd, b, 0)
	h := uint64(14695981039346656037)
	for len(b) >= 8 {
		h ^= *(*uint64)(unsafe.Pointer(&b[0]))
		h *= 1099511628211
		h ^= h >> 29
		b = b[8:]
	}
	return h | 1
}

// Clone copies the disk (for the harness)
func (d *Disk) Clone(name string) *Disk {
	n := NewDisk(name)
	n.Reliable = d.Reliable
	for _, p := range d.pathsAll() {
		i := d.files[p]
		if i.dir {
			n.mkdirs(p)
			n.files[p].mtime = i.mtime
			continue
		}
		n.Put(p, d.Content(p))
		i.touch()
		n.files[p].mtime = i.mtime
	}
	return n
}

func (d *Disk) pathsAll() []string {
	var r []string
	for p := range d.files {
		r = append(r, p)
	}
	sort.Strings(r)
	return r
}

// Disk is a file system
type Disk struct {
	Name  string
	files map[string]*Inode
	all   []*Inode
	live  int
	ids   int
	// Ops counts the operations of all the incarnations
	Ops int64
	// NoList lets all the listings of directories fail
	NoList bool
	// Reliable lists path prefixes whose files never report errors
	Reliable []string
}

// NewDisk creates an empty file system; it must be called within a simulation
func NewDisk(name string) *Disk {
	d := &Disk{Name: name, files: map[string]*Inode{}}
	d.files["/"] = &Inode{fd: -1, dir: true, mode: 0755 | os.ModeDir}
	d.files["/tmp"] = &Inode{fd: -1, dir: true, mode: 0755 | os.ModeDir}
	sim.OnEnd(func() {
		for _, i := range d.all {
			if i.fd >= 0 {
				syscall.Close(i.fd)
				i.fd = -1
			}
		}
	})
	return d
}

func memfd() int {
	name := []byte("sim\x00")
	fd, _, e := syscall.Syscall(319, uintptr(unsafe.Pointer(&name[0])), 1, 0)
	if e != 0 {
		panic("sim: memfd_create: " + e.Error())
	}
	return int(fd)
}

func (d *Disk) newFile() *Inode {
	if d.live++; d.live > 512 {
		d.gc()
	}
	i := &Inode{fd: memfd(), mtime: sim.Wall(), mode: 0644, id: d.ids}
	d.ids++
	d.all = append(d.all, i)
	return i
}

// gc releases the memory files which are neither linked, nor open, nor mapped
func (d *Disk) gc() {
	linked := map[*Inode]bool{}
	for _, i := range d.files {
		linked[i] = true
	}
	live := d.all[:0]
	for _, i := range d.all {
		if i.fd >= 0 && !linked[i] && len(i.opens) == 0 && len(i.maps) == 0 {
			syscall.Close(i.fd)
			i.fd = -1
		}
		if i.fd >= 0 {
			live = append(live, i)
		}
	}
	d.all = live
	d.live = 0
}

func disk() *Disk {
	d, _ := sim.CurNode().Disk.(*Disk)
	if d == nil {
		panic("sim: file access of a node without a disk")
	}
	return d
}

func clean(p string) string {
	p = filepath.Clean(p)
	if !strings.HasPrefix(p, "/") {
		p = filepath.Join("/cwd", p)
	}
	return p
}

// Paths returns all the file names (for the harness)
func (d *Disk) Paths() []string {
	var r []string
	for p, i := range d.files {
		if !i.dir {
			r = append(r, p)
		}
	}
	sort.Strings(r)
	return r
}

// InUse tells whether the file is open or mapped
func (d *Disk) InUse(p string) bool {
	e := d.files[clean(p)]
	return e != nil && e.held(nil)
}

// held tells whether a process, or the one given, has the file open or mapped; nothing is held by the dead
func (i *Inode) held(n *sim.Node) bool {
	for _, x := range i.opens {
		if !x.Dead() && (n == nil || x == n) {
			return true
		}
	}
	for _, m := range i.maps {
		if !m.n.Dead() && (n == nil || m.n == n) {
			return true
		}
	}
	return false
}

// Held returns the names of the files the process has open or mapped
func (d *Disk) Held(n *sim.Node) []string {
	names := map[*Inode]string{}
	for p, i := range d.files {
		names[i] = p
	}
	var r []string
	for _, i := range d.all {
		if i.held(n) {
			name := names[i]
			if name == "" {
				name = fmt.Sprintf("(removed file %d)", i.id)
			}
			r = append(r, name)
		}
	}
	sort.Strings(r)
	return r
}

// Size returns the size of the file or -1
func (d *Disk) Size(p string) int64 {
	i := d.files[clean(p)]
	if i == nil || i.dir {
		return -1
	}
	return i.size
}

// Content returns the bytes of the file
func (d *Disk) Content(p string) []byte {
	i := d.files[clean(p)]
	if i == nil || i.dir {
		return nil
	}
	b := make([]byte, i.size)
	pread(i.fd, b, 0)
	return b
}

// Put writes a file (for the harness)
func (d *Disk) Put(p string, b []byte) {
	p = clean(p)
	d.mkdirs(filepath.Dir(p))
	i := d.files[p]
	if i == nil {
		i = d.newFile()
		d.files[p] = i
	}
	syscall.Ftruncate(i.fd, 0)
	pwrite(i.fd, b, 0)
	i.size = int64(len(b))
}

// Delete removes a file (for the harness)
func (d *Disk) Delete(p string) { delete(d.files, clean(p)) }

// Mkdirs creates the directory and its parents
func (d *Disk) Mkdirs(p string) { d.mkdirs(clean(p)) }

func (d *Disk) mkdirs(p string) {
	for p = clean(p); ; p = filepath.Dir(p) {
		if d.files[p] == nil {
			d.files[p] = &Inode{fd: -1, dir: true, mode: 0755 | os.ModeDir, mtime: sim.Wall()}
		}
		if p == "/" {
			return
		}
	}
}

func pread(fd int, b []byte, off int64) int {
	t := 0
	for t < len(b) {
		n, err := syscall.Pread(fd, b[t:], off+int64(t))
		if err == syscall.EINTR {
			continue
		}
		if err != nil {
			panic("sim: pread: " + err.Error())
		}
		if n == 0 {
			break
		}
		t += n
	}
	return t
}

func pwrite(fd int, b []byte, off int64) {
	for len(b) > 0 {
		n, err := syscall.Pwrite(fd, b, off)
		if err == syscall.EINTR {
			continue
		}
		if err != nil {
			panic("sim: pwrite: " + err.Error())
		}
		b = b[n:]
		off += int64(n)
	}
}

const (
	crashBefore = iota
	crashAfter
	crashTorn
)

// begin starts a file operation: it returns the fault to inject (0: none) and whether the node must die after
// the operation. crash: 0 no, 2 after the operation, 3 in the middle of it
func begin(kind, name string) (fault int, crash int) {
	sim.Enter()
	sim.YS()
	sim.Count("fs:" + kind)
	n := sim.CurNode()
	disk().Ops++
	n.FSOps++
	safe := false
	for _, p := range disk().Reliable {
		safe = safe || strings.HasPrefix(clean(name), p)
	}
	if safe {
		// no errors, but the process may die
	} else if d := sim.Fault("fs.delay"); d != 0 {
		sim.Sleep(time.Duration(d) * time.Millisecond)
	}
	if n.FSCrashAt > 0 && n.FSOps >= n.FSCrashAt {
		n.FSCrashAt = 0
		switch n.FSCrashMode {
		case crashBefore:
			sim.Count("fault:crash-before-fsop")
			sim.CrashNow("fsop " + kind)
		case crashAfter:
			sim.Count("fault:crash-after-fsop")
			return 0, 2
		default:
			if safe {
				// writes of such files are atomic with respect to a crash of the process
				sim.Count("fault:crash-after-fsop")
				return 0, 2
			}
			sim.Count("fault:crash-torn-fsop")
			return 0, 3
		}
	}
	if safe {
		return 0, 0
	}
	return sim.Fault("fs." + kind), 0
}

func end(crash int, kind string) {
	if crash != 0 {
		sim.CrashNow("fsop " + kind)
	}
}

func perr(op, path string, err error) error { return &os.PathError{Op: op, Path: path, Err: err} }

func eio(v int) error {
	switch v % 3 {
	case 1:
		return syscall.EIO
	case 2:
		return syscall.ENOSPC
	}
	return syscall.EIO
}

// File is an open file
type File struct {
	ino    *Inode
	name   string
	flag   int
	off    int64
	closed bool
	dirPos int
	dirL   []string
	node   *sim.Node
	d      *Disk
}

func Open(name string) (*File, error)   { return OpenFile(name, O_RDONLY, 0) }
func Create(name string) (*File, error) { return OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0666) }

func OpenFile(name string, flag int, perm os.FileMode) (*File, error) {
	if !sim.Active() {
		return nil, perr("open", name, syscall.ENOENT)
	}
	f, crash := begin("open", name)
	d := disk()
	if f != 0 {
		e := error(syscall.EIO)
		if f == 2 {
			e = syscall.EMFILE
		}
		return nil, perr("open", name, e)
	}
	p := clean(name)
	i := d.files[p]
	if i != nil && flag&O_CREATE != 0 && flag&O_EXCL != 0 {
		return nil, perr("open", name, syscall.EEXIST)
	}
	if i == nil {
		if flag&O_CREATE == 0 {
			return nil, perr("open", name, syscall.ENOENT)
		}
		pd := d.files[filepath.Dir(p)]
		if pd == nil {
			return nil, perr("open", name, syscall.ENOENT)
		}
		if !pd.dir {
			return nil, perr("open", name, syscall.ENOTDIR)
		}
		i = d.newFile()
		i.mode = perm & 0755
		d.files[p] = i
	} else if i.dir && flag&(O_WRONLY|O_RDWR|O_TRUNC) != 0 {
		return nil, perr("open", name, syscall.EISDIR)
	} else if flag&O_TRUNC != 0 && crash != 3 {
		truncate(i, 0)
	}
	end(crash, "open")
	me := sim.CurNode()
	i.opens = append(i.opens, me)
	return &File{ino: i, name: name, flag: flag, d: d, node: me}, nil
}

func truncate(i *Inode, n int64) {
	if e := syscall.Ftruncate(i.fd, n); e != nil {
		panic("sim: ftruncate: " + e.Error())
	}
	i.size = n
	i.mtime = sim.Wall()
}

func (f *File) check(op string) error {
	if f == nil {
		return os.ErrInvalid
	}
	if f.closed {
		return perr(op, f.name, os.ErrClosed)
	}
	return nil
}

func (f *File) Name() string { return f.name }

func (f *File) nm() string {
	if f == nil {
		return ""
	}
	return f.name
}

// Inode returns the inode, for smmap
func (f *File) Inode() (*Inode, error) { return f.ino, f.check("mmap") }

// Fd returns the real descriptor of the memory file
func (i *Inode) Fd() int { return i.fd }

// Size of the file
func (i *Inode) Size() int64 { return i.size }

func (f *File) Fd() uintptr { return uintptr(f.ino.fd) }

func (f *File) Close() error {
	if f == nil {
		return os.ErrInvalid
	}
	v, crash := begin("close", f.nm())
	if err := f.check("close"); err != nil {
		return err
	}
	f.closed = true
	for k, x := range f.ino.opens {
		if x == f.node {
			f.ino.opens = append(f.ino.opens[:k:k], f.ino.opens[k+1:]...)
			break
		}
	}
	end(crash, "close")
	if v != 0 && f.flag&(O_WRONLY|O_RDWR) != 0 {
		return perr("close", f.name, syscall.EIO)
	}
	return nil
}

func (f *File) readAt(b []byte, off int64) (int, error) {
	if f.ino.dir {
		return 0, perr("read", f.name, syscall.EISDIR)
	}
	if f.flag&O_WRONLY != 0 {
		return 0, perr("read", f.name, syscall.EBADF)
	}
	if len(b) == 0 {
		return 0, nil
	}
	if off >= f.ino.size {
		return 0, io.EOF
	}
	if m := f.ino.size - off; int64(len(b)) > m {
		b = b[:m]
	}
	return pread(f.ino.fd, b, off), nil
}

func (f *File) Read(b []byte) (int, error) {
	v, crash := begin("read", f.nm())
	if err := f.check("read"); err != nil {
		return 0, err
	}
	switch {
	case v == 1:
		return 0, perr("read", f.name, syscall.EIO)
	case v >= 2 && len(b) > 1:
		b = b[:1+(len(b)-1)/v] // a short read, which is legal
	}
	n, err := f.readAt(b, f.off)
	f.off += int64(n)
	end(crash, "read")
	return n, err
}

func (f *File) ReadAt(b []byte, off int64) (int, error) {
	v, crash := begin("read", f.nm())
	if err := f.check("read"); err != nil {
		return 0, err
	}
	if v == 1 {
		return 0, perr("read", f.name, syscall.EIO)
	}
	n, err := f.readAt(b, off)
	end(crash, "read")
	if err == nil && n < len(b) {
		err = io.EOF
	}
	return n, err
}

func (f *File) writeAt(b []byte, off int64, v, crash int) (int, error) {
	if f.ino.dir {
		return 0, perr("write", f.name, syscall.EISDIR)
	}
	if f.flag&(O_WRONLY|O_RDWR) == 0 {
		return 0, perr("write", f.name, syscall.EBADF)
	}
	n := len(b)
	switch {
	case v == 1:
		return 0, perr("write", f.name, syscall.EIO)
	case v >= 2:
		n = n / v
	case crash == 3:
		n = n / 2
	}
	pwrite(f.ino.fd, b[:n], off)
	if e := off + int64(n); e > f.ino.size {
		f.ino.size = e
	}
	f.ino.mtime = sim.Wall()
	end(crash, "write")
	if v >= 2 {
		return n, perr("write", f.name, syscall.ENOSPC)
	}
	return n, nil
}

func (f *File) Write(b []byte) (int, error) {
	v, crash := begin("write", f.nm())
	if err := f.check("write"); err != nil {
		return 0, err
	}
	if f.flag&O_APPEND != 0 {
		f.off = f.ino.size
	}
	n, err := f.writeAt(b, f.off, v, crash)
	f.off += int64(n)
	return n, err
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) WriteAt(b []byte, off int64) (int, error) {
	v, crash := begin("write", f.nm())
	if err := f.check("write"); err != nil {
		return 0, err
	}
	return f.writeAt(b, off, v, crash)
}

func (f *File) Seek(off int64, whence int) (int64, error) {
	sim.Enter()
	if err := f.check("seek"); err != nil {
		return 0, err
	}
	switch whence {
	case io.SeekCurrent:
		off += f.off
	case io.SeekEnd:
		off += f.ino.size
	}
	if off < 0 {
		return 0, perr("seek", f.name, syscall.EINVAL)
	}
	f.off = off
	return off, nil
}

func (f *File) Truncate(n int64) error {
	v, crash := begin("truncate", f.nm())
	if err := f.check("truncate"); err != nil {
		return err
	}
	if v != 0 {
		return perr("truncate", f.name, eio(v+1))
	}
	if n < 0 || f.flag&(O_WRONLY|O_RDWR) == 0 {
		return perr("truncate", f.name, syscall.EINVAL)
	}
	truncate(f.ino, n)
	end(crash, "truncate")
	return nil
}

func (f *File) Sync() error {
	v, crash := begin("sync", f.nm())
	if err := f.check("sync"); err != nil {
		return err
	}
	end(crash, "sync")
	if v != 0 {
		return perr("sync", f.name, syscall.EIO)
	}
	return nil
}

func (f *File) Chmod(m os.FileMode) error { return f.check("chmod") }

type finfo struct {
	name string
	size int64
	mode os.FileMode
	mt   time.Time
	dir  bool
}

func (i finfo) Name() string               { return i.name }
func (i finfo) Size() int64                { return i.size }
func (i finfo) Mode() os.FileMode          { return i.mode }
func (i finfo) ModTime() time.Time         { return i.mt }
func (i finfo) IsDir() bool                { return i.dir }
func (i finfo) Sys() any                   { return nil }
func (i finfo) Type() os.FileMode          { return i.mode.Type() }
func (i finfo) Info() (os.FileInfo, error) { return i, nil }
func (i finfo) String() string             { return fs.FormatFileInfo(i) }

func info(p string, i *Inode) finfo {
	if i.mapped && len(i.maps) > 0 {
		i.touch()
		if h := i.hash(); h != i.sum {
			if i.sum != 0 {
				i.mtime = sim.Wall()
			}
			i.sum = h
		}
	}
	return finfo{filepath.Base(p), i.size, i.mode, i.mtime, i.dir}
}

func (f *File) Stat() (os.FileInfo, error) {
	v, crash := begin("stat", f.nm())
	if err := f.check("stat"); err != nil {
		return nil, err
	}
	end(crash, "stat")
	if v != 0 {
		return nil, perr("stat", f.name, syscall.EIO)
	}
	return info(f.name, f.ino), nil
}

func (d *Disk) children(p string) []string {
	var r []string
	pre := p + "/"
	if p == "/" {
		pre = "/"
	}
	for q := range d.files {
		if q != "/" && strings.HasPrefix(q, pre) && !strings.Contains(q[len(pre):], "/") {
			r = append(r, q[len(pre):])
		}
	}
	sort.Strings(r)
	return r
}

func (f *File) Readdirnames(n int) ([]string, error) {
	v, crash := begin("readdir", f.nm())
	if err := f.check("readdir"); err != nil {
		return nil, err
	}
	end(crash, "readdir")
	if v != 0 || f.d.NoList {
		return nil, perr("readdir", f.name, syscall.EIO)
	}
	if !f.ino.dir {
		return nil, perr("readdir", f.name, syscall.ENOTDIR)
	}
	if f.dirL == nil || n <= 0 && f.dirPos == 0 {
		f.dirL = f.d.children(clean(f.name))
		if f.dirL == nil {
			f.dirL = []string{}
		}
	}
	r := f.dirL[f.dirPos:]
	if n > 0 {
		if len(r) == 0 {
			return nil, io.EOF
		}
		if len(r) > n {
			r = r[:n]
		}
	}
	f.dirPos += len(r)
	return r, nil
}

func (f *File) Readdir(n int) ([]os.FileInfo, error) {
	l, err := f.Readdirnames(n)
	var r []os.FileInfo
	for _, x := range l {
		p := filepath.Join(clean(f.name), x)
		if i := f.d.files[p]; i != nil {
			r = append(r, info(p, i))
		}
	}
	return r, err
}

func (f *File) ReadDir(n int) ([]os.DirEntry, error) {
	l, err := f.Readdir(n)
	var r []os.DirEntry
	for _, x := range l {
		r = append(r, x.(finfo))
	}
	return r, err
}

func ReadDir(name string) ([]os.DirEntry, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return f.ReadDir(-1)
}

func Stat(name string) (os.FileInfo, error) {
	v, crash := begin("stat", name)
	i := disk().files[clean(name)]
	end(crash, "stat")
	if v != 0 {
		return nil, perr("stat", name, syscall.EIO)
	}
	if i == nil {
		return nil, perr("stat", name, syscall.ENOENT)
	}
	return info(name, i), nil
}

func Lstat(name string) (os.FileInfo, error) { return Stat(name) }

func Remove(name string) error {
	v, crash := begin("remove", name)
	d := disk()
	p := clean(name)
	i := d.files[p]
	if v != 0 {
		return perr("remove", name, syscall.EIO)
	}
	if i == nil {
		return perr("remove", name, syscall.ENOENT)
	}
	if i.dir && len(d.children(p)) > 0 {
		return perr("remove", name, syscall.ENOTEMPTY)
	}
	delete(d.files, p)
	end(crash, "remove")
	return nil
}

func RemoveAll(name string) error {
	v, crash := begin("remove", name)
	d := disk()
	p := clean(name)
	if v != 0 {
		return perr("unlinkat", name, syscall.EIO)
	}
	var l []string
	for q := range d.files {
		if q == p || strings.HasPrefix(q, p+"/") {
			l = append(l, q)
		}
	}
	sort.Strings(l)
	if crash == 3 {
		l = l[:len(l)/2]
	}
	for _, q := range l {
		delete(d.files, q)
	}
	end(crash, "remove")
	return nil
}

func Rename(from, to string) error {
	v, crash := begin("rename", from)
	d := disk()
	a, b := clean(from), clean(to)
	if v != 0 {
		return &os.LinkError{Op: "rename", Old: from, New: to, Err: syscall.EIO}
	}
	i := d.files[a]
	if i == nil || d.files[filepath.Dir(b)] == nil {
		return &os.LinkError{Op: "rename", Old: from, New: to, Err: syscall.ENOENT}
	}
	if o := d.files[b]; o != nil && o.dir != i.dir {
		return &os.LinkError{Op: "rename", Old: from, New: to, Err: syscall.EEXIST}
	}
	delete(d.files, a)
	d.files[b] = i
	if i.dir {
		var l []string
		for q := range d.files {
			if strings.HasPrefix(q, a+"/") {
				l = append(l, q)
			}
		}
		for _, q := range l {
			d.files[b+q[len(a):]] = d.files[q]
			delete(d.files, q)
		}
	}
	end(crash, "rename")
	return nil
}

func Link(from, to string) error {
	v, crash := begin("rename", from)
	d := disk()
	a, b := clean(from), clean(to)
	if v != 0 {
		return &os.LinkError{Op: "link", Old: from, New: to, Err: syscall.EIO}
	}
	i := d.files[a]
	if i == nil {
		return &os.LinkError{Op: "link", Old: from, New: to, Err: syscall.ENOENT}
	}
	if d.files[b] != nil {
		return &os.LinkError{Op: "link", Old: from, New: to, Err: syscall.EEXIST}
	}
	d.files[b] = i
	end(crash, "link")
	return nil
}

func Truncate(name string, n int64) error {
	f, err := OpenFile(name, O_RDWR, 0)
	if err != nil {
		return err
	}
	defer f.Close()
	return f.Truncate(n)
}

func Mkdir(name string, perm os.FileMode) error {
	v, crash := begin("mkdir", name)
	d := disk()
	p := clean(name)
	if v != 0 {
		return perr("mkdir", name, eio(v))
	}
	if d.files[p] != nil {
		return perr("mkdir", name, syscall.EEXIST)
	}
	if d.files[filepath.Dir(p)] == nil {
		return perr("mkdir", name, syscall.ENOENT)
	}
	d.files[p] = &Inode{fd: -1, dir: true, mode: perm&0777 | os.ModeDir, mtime: sim.Wall()}
	end(crash, "mkdir")
	return nil
}

func MkdirAll(name string, perm os.FileMode) error {
	v, crash := begin("mkdir", name)
	d := disk()
	p := clean(name)
	if v != 0 {
		return perr("mkdir", name, eio(v))
	}
	for q := p; q != "/"; q = filepath.Dir(q) {
		if i := d.files[q]; i != nil && !i.dir {
			return perr("mkdir", name, syscall.ENOTDIR)
		}
	}
	if crash == 3 {
		p = filepath.Dir(p)
	}
	d.mkdirs(p)
	end(crash, "mkdir")
	return nil
}

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}

func WriteFile(name string, b []byte, perm os.FileMode) error {
	f, err := OpenFile(name, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(b)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

func Chtimes(name string, a, m time.Time) error {
	begin("chtimes", name)
	i := disk().files[clean(name)]
	if i == nil {
		return perr("chtimes", name, syscall.ENOENT)
	}
	i.mtime = m
	return nil
}

func Chmod(name string, m os.FileMode) error {
	begin("chmod", name)
	if disk().files[clean(name)] == nil {
		return perr("chmod", name, syscall.ENOENT)
	}
	return nil
}

func TempDir() string { return "/tmp" }

func uniq() string {
	const al = "0123456789"
	b := make([]byte, 10)
	for i := range b {
		b[i] = al[sim.S.Rng().Intn(10)]
	}
	return string(b)
}

func tmpName(dir, pattern string) string {
	if dir == "" {
		dir = TempDir()
	}
	pre, suf := pattern, ""
	if i := strings.LastIndexByte(pattern, '*'); i >= 0 {
		pre, suf = pattern[:i], pattern[i+1:]
	}
	return filepath.Join(dir, pre+uniq()+suf)
}

func CreateTemp(dir, pattern string) (*File, error) {
	return OpenFile(tmpName(dir, pattern), O_RDWR|O_CREATE|O_EXCL, 0600)
}

func MkdirTemp(dir, pattern string) (string, error) {
	n := tmpName(dir, pattern)
	return n, Mkdir(n, 0700)
}

func IsNotExist(err error) bool { return os.IsNotExist(err) }
func IsExist(err error) bool    { return os.IsExist(err) }

func Getpagesize() int { return os.Getpagesize() }

var errWalk = errors.New("walk")
var _ = errWalk

// Walk replaces filepath.Walk
func Walk(root string, fn filepath.WalkFunc) error {
	fi, err := Stat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walk(root, fi, fn)
	}
	if err == filepath.SkipDir || err == filepath.SkipAll {
		return nil
	}
	return err
}

func walk(path string, fi os.FileInfo, fn filepath.WalkFunc) error {
	if !fi.IsDir() {
		return fn(path, fi, nil)
	}
	var names []string
	f, err := Open(path)
	if err == nil {
		names, err = f.Readdirnames(-1)
		f.Close()
	}
	err1 := fn(path, fi, err)
	if err != nil || err1 != nil {
		return err1
	}
	sort.Strings(names)
	for _, n := range names {
		p := filepath.Join(path, n)
		i, err := Stat(p)
		if err != nil {
			if err := fn(p, i, err); err != nil && err != filepath.SkipDir {
				return err
			}
			continue
		}
		if err = walk(p, i, fn); err != nil {
			if !i.IsDir() || err != filepath.SkipDir {
				return err
			}
		}
	}
	return nil
}

// WalkDir replaces filepath.WalkDir
func WalkDir(root string, fn fs.WalkDirFunc) error {
	return Walk(root, func(p string, i os.FileInfo, err error) error {
		if i == nil {
			return fn(p, nil, err)
		}
		return fn(p, i.(finfo), err)
	})
}

// Glob replaces filepath.Glob for patterns in the last element
func Glob(pattern string) ([]string, error) {
	dir, pat := filepath.Split(pattern)
	f, err := Open(filepath.Clean(dir))
	if err != nil {
		return nil, nil
	}
	defer f.Close()
	names, _ := f.Readdirnames(-1)
	var r []string
	for _, n := range names {
		ok, err := filepath.Match(pat, n)
		if err != nil {
			return nil, err
		}
		if ok {
			r = append(r, filepath.Join(dir, n))
		}
	}
	return r, nil
}

// DirFS is not available
func SameFile(a, b os.FileInfo) bool { return a == b }
