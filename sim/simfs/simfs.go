// Package simfs is the simulated file system, environment and memory mapping
// service.  File contents live in real shared memory as soon as a file is
// mapped, so that stores through a mapping, reads through a file handle and
// the observers see one content, and an access to a released mapping faults.
package simfs

import (
	"bytes"
	"fmt"
	"io"
	"io/fs"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"verif/sim/vsim"
)

const (
	siteFS  uint32 = 40
	siteMap uint32 = 41
)

func init() { vsim.RegisterSites(40, []string{"file-operation", "mapping-operation"}) }

const pageSize = 4096

// Inode is a file, directory or symbolic link.
type Inode struct {
	ID       int
	Mode     fs.FileMode
	children map[string]*Inode
	target   string // symlink
	data     []byte // content (kernel view)
	memfd    int    // >0: content lives in shared memory
	view     []byte // page aligned kernel mapping
	shadow   []byte // last content seen by the poller
	tracked  bool
	alloc    int // bytes that have storage
	nlink    int
	mtime    int64
	nmaps    int
	Writes   int // number of content changes
}

// Size is the file size.
func (i *Inode) Size() int { return len(i.data) }

// Data is the content; the caller must not keep or change it.
func (i *Inode) Data() []byte { return i.data }

// IsDir tells directories.
func (i *Inode) IsDir() bool { return i.Mode.IsDir() }

// Fault is one planned failure.
type Fault struct {
	Op    string `json:"op"`              // stat remove mkdir open write read close mmap munmap truncate rename
	Nth   int    `json:"nth"`             // 1: the next one
	Errno int    `json:"errno"`           //
	Short int    `json:"short,omitempty"` // bytes transferred before the failure (write, read)
	Count int    `json:"count,omitempty"` // number of consecutive failures (0: 1, -1: until cleared)
	Delay int64  `json:"delay,omitempty"` // stall for that many nanoseconds; without Errno the operation then goes on
	seen  int
	fired int
}

// Handle is an open file description.
type Handle struct {
	Ino    *Inode
	Name   string
	flag   int
	off    int64
	closed bool
	Proc   *vsim.Proc
	NewFd  int
}

// Mapping is a live memory mapping.
type Mapping struct {
	Ino  *Inode
	mem  []byte // page aligned
	n    int
	Proc *vsim.Proc
	prot int
}

// Event reports a change visible to outside observers.
type Event struct {
	Ino  *Inode // content change (nil for a namespace change)
	Path string // namespace change
	Old  []byte // previous content
}

// FS is the file system of one execution.
type FS struct {
	W        *vsim.World
	root     *Inode
	nino     int
	nfd      int
	Env      map[string]string
	Pid      int
	Faults   []*Fault
	Capacity int // bytes of storage (0: unlimited)
	used     int
	Handles  map[*Handle]bool
	Maps     map[*Mapping]bool
	trackedL []*Inode
	Watch    []func(Event)
	dead     [][]byte // released mappings, kept inaccessible
	fds      []int
	views    [][]byte
	tmpctr   int
	Ops      map[string]int
	OpLog    []string
	LogOps   bool
	lastPoll int
	MaxRead  int // a read transfers at most that many bytes (0: unlimited)
	OnRead   func(h *Handle, off int64, b []byte, err error)
}

// Get returns the file system of the current world.
func Get() *FS {
	if vsim.W == nil {
		return nil
	}
	f, _ := vsim.W.FS.(*FS)
	return f
}

// New attaches a file system to the world.
func New(w *vsim.World) *FS {
	f := &FS{W: w, Env: map[string]string{}, Pid: 4242, Handles: map[*Handle]bool{}, Maps: map[*Mapping]bool{}, Ops: map[string]int{}}
	f.root = f.newInode(fs.ModeDir | 0755)
	w.FS = f
	w.AddPoller(f.Poll)
	w.OnKill(f.kill)
	return f
}

// SetFree limits the storage that can still be allocated (negative: none).
func (f *FS) SetFree(n int) {
	if n < 0 {
		n = 0
	}
	f.Capacity = f.used + n
	if f.Capacity == 0 {
		f.Capacity = 1
	}
}

// Release returns all real resources.
func (f *FS) Release() {
	for m := range f.Maps {
		syscall.Munmap(m.mem)
	}
	for _, d := range f.dead {
		syscall.Munmap(d)
	}
	for _, v := range f.views {
		syscall.Munmap(v)
	}
	for _, fd := range f.fds {
		syscall.Close(fd)
	}
	f.Maps, f.dead, f.views, f.fds = nil, nil, nil, nil
}

func (f *FS) newInode(mode fs.FileMode) *Inode {
	f.nino++
	i := &Inode{ID: f.nino, Mode: mode, nlink: 1}
	if mode.IsDir() {
		i.children = map[string]*Inode{}
	}
	if f.W != nil {
		i.mtime = f.W.WallNanos()
	}
	return i
}

// ---- events

func (f *FS) emit(e Event) {
	for _, w := range f.Watch {
		w(e)
	}
}

func (f *FS) nsChanged(p string) {
	f.W.Observe(func() { f.emit(Event{Path: p}) })
}

// Poll looks for changes made through mappings.
func (f *FS) Poll() {
	for _, i := range f.trackedL {
		if !bytes.Equal(i.shadow, i.data) {
			old := i.shadow
			i.shadow = append([]byte(nil), i.data...)
			i.Writes++
			f.emit(Event{Ino: i, Old: old})
		}
	}
}

func (f *FS) contentChanged(i *Inode) {
	if i.tracked {
		f.W.Observe(f.Poll)
	} else {
		i.Writes++
		f.W.Observe(func() { f.emit(Event{Ino: i}) })
	}
}

// ---- faults

// Arm adds failures; counting starts now.
func (f *FS) Arm(fl ...Fault) {
	for _, x := range fl {
		y := x
		y.seen, y.fired = 0, 0
		f.Faults = append(f.Faults, &y)
	}
}

// Disarm removes all planned failures; it reports how many fired.
func (f *FS) Disarm() (fired int) {
	for _, x := range f.Faults {
		fired += x.fired
	}
	f.Faults = nil
	return
}

// FaultsFired counts failures injected so far by the armed faults.
func (f *FS) FaultsFired() (n int) {
	for _, x := range f.Faults {
		n += x.fired
	}
	return
}

func errnoName(e int) string {
	switch syscall.Errno(e) {
	case syscall.EACCES:
		return "EACCES"
	case syscall.ENOSPC:
		return "ENOSPC"
	case syscall.EMFILE:
		return "EMFILE"
	case syscall.ENOMEM:
		return "ENOMEM"
	case syscall.EIO:
		return "EIO"
	case syscall.EPERM:
		return "EPERM"
	case syscall.EROFS:
		return "EROFS"
	case syscall.EINVAL:
		return "EINVAL"
	}
	return fmt.Sprintf("errno%d", e)
}

func (f *FS) fault(op string) (*Fault, error) {
	f.Ops[op]++
	for _, x := range f.Faults {
		if x.Op != op {
			continue
		}
		x.seen++
		c := x.Count
		if c == 0 {
			c = 1
		}
		if x.seen >= x.Nth && (c < 0 || x.seen < x.Nth+c) {
			x.fired++
			if x.Delay > 0 {
				f.W.FaultFired(op + "-stall")
				f.W.Sleep(x.Delay)
				if x.Errno == 0 {
					continue
				}
			}
			f.W.FaultFired(op + "-" + errnoName(x.Errno))
			return x, syscall.Errno(x.Errno)
		}
	}
	return nil, nil
}

func (f *FS) enter(op, p string) {
	f.W.Point(siteFS)
	if f.LogOps {
		f.OpLog = append(f.OpLog, op+" "+p)
	}
	f.W.Tracef("fs %s %s", op, p)
}

func (f *FS) leave() {
	f.W.Point(siteFS)
}

// ---- name space (no faults, no scheduling)

func clean(p string) []string {
	p = path.Clean("/" + p)
	if p == "/" {
		return nil
	}
	return strings.Split(p[1:], "/")
}

func (f *FS) walk(p string, followLast bool) (parent *Inode, name string, ino *Inode, err error) {
	return f.walkDepth(clean(p), followLast, 0)
}

func (f *FS) walkDepth(parts []string, followLast bool, depth int) (parent *Inode, name string, ino *Inode, err error) {
	if depth > 10 {
		return nil, "", nil, syscall.ELOOP
	}
	cur := f.root
	if len(parts) == 0 {
		return nil, "", cur, nil
	}
	for i, c := range parts {
		if !cur.IsDir() {
			return nil, "", nil, syscall.ENOTDIR
		}
		if len(c) > 255 {
			return nil, "", nil, syscall.ENAMETOOLONG
		}
		if cur.Mode&0100 == 0 {
			return nil, "", nil, syscall.EACCES
		}
		n := cur.children[c]
		last := i == len(parts)-1
		if n != nil && n.Mode&fs.ModeSymlink != 0 && (!last || followLast) {
			var np []string
			if strings.HasPrefix(n.target, "/") {
				np = clean(n.target)
			} else {
				np = append(append([]string(nil), parts[:i]...), clean(n.target)...)
			}
			return f.walkDepth(append(np, parts[i+1:]...), followLast, depth+1)
		}
		if last {
			if n == nil {
				return cur, c, nil, syscall.ENOENT
			}
			return cur, c, n, nil
		}
		if n == nil {
			return nil, "", nil, syscall.ENOENT
		}
		cur = n
	}
	return nil, "", nil, syscall.ENOENT
}

// Lookup finds the inode at a path (nil: none).
func (f *FS) Lookup(p string) *Inode {
	_, _, i, err := f.walk(p, true)
	if err != nil {
		return nil
	}
	return i
}

// The publishing processes run as an ordinary user who owns everything.
const umask = 022

func mayChange(d *Inode) bool { return d.Mode&0300 == 0300 }

// Setup helpers -------------------------------------------------------

// PutDir creates a directory and its parents.
func (f *FS) PutDir(p string) *Inode {
	cur := f.root
	for _, c := range clean(p) {
		n := cur.children[c]
		if n == nil {
			n = f.newInode(fs.ModeDir | 0755)
			cur.children[c] = n
		}
		cur = n
	}
	return cur
}

// PutFile creates a file with the given content.
func (f *FS) PutFile(p string, data []byte) *Inode {
	d := f.PutDir(path.Dir(path.Clean("/" + p)))
	i := f.newInode(0644)
	i.data = append([]byte(nil), data...)
	i.alloc = len(data)
	d.children[path.Base(p)] = i
	return i
}

// PutSymlink creates a symbolic link.
func (f *FS) PutSymlink(target, p string) {
	d := f.PutDir(path.Dir(path.Clean("/" + p)))
	i := f.newInode(fs.ModeSymlink | 0777)
	i.target = target
	d.children[path.Base(p)] = i
}

// Tree lists all paths of regular files.
func (f *FS) Tree() []string {
	var out []string
	var rec func(p string, i *Inode)
	rec = func(p string, i *Inode) {
		if !i.IsDir() {
			out = append(out, p)
			return
		}
		var ks []string
		for k := range i.children {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			rec(p+"/"+k, i.children[k])
		}
	}
	rec("", f.root)
	return out
}

// ---- content

func (f *FS) resize(i *Inode, n int) error {
	if i.memfd == 0 {
		if n <= len(i.data) {
			i.data = i.data[:n:n]
		} else {
			i.data = append(i.data, make([]byte, n-len(i.data))...)
		}
		if i.alloc > n {
			f.used -= i.alloc - n
			i.alloc = n
		}
		return nil
	}
	if n < len(i.data) { // the dropped bytes are zero when the file grows again
		for k := n; k < len(i.data); k++ {
			i.data[k] = 0
		}
	}
	if err := syscall.Ftruncate(i.memfd, int64(n)); err != nil {
		return err
	}
	pg := (n + pageSize - 1) / pageSize * pageSize
	if pg == 0 {
		pg = pageSize
	}
	if pg != len(i.view) {
		v, err := syscall.Mmap(i.memfd, 0, pg, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
		if err != nil {
			return err
		}
		i.view = v
		f.views = append(f.views, v)
	}
	i.data = i.view[:n:n]
	if i.alloc > n {
		f.used -= i.alloc - n
		i.alloc = n
	}
	return nil
}

// share moves the content to shared memory.
func (f *FS) share(i *Inode) {
	if i.memfd != 0 {
		return
	}
	fd, err := memfd()
	if err != nil {
		vsim.Unsupported("memfd_create: " + err.Error())
	}
	f.fds = append(f.fds, fd)
	old := i.data
	i.memfd = fd
	i.data = nil
	if err := f.resize(i, len(old)); err != nil {
		vsim.Unsupported("memfd: " + err.Error())
	}
	copy(i.data, old)
}

func memfd() (int, error) {
	name := []byte("simfs\x00")
	r, _, e := syscall.Syscall(319, uintptr(unsafe.Pointer(&name[0])), 1, 0)
	if e != 0 {
		return 0, e
	}
	return int(r), nil
}

func (f *FS) track(i *Inode) {
	if i.tracked {
		return
	}
	i.tracked = true
	i.shadow = append([]byte(nil), i.data...)
	f.trackedL = append(f.trackedL, i)
}

func (f *FS) writeAt(i *Inode, b []byte, off int64) (int, error) {
	n := len(b)
	var err error
	end := int(off) + n
	if f.Capacity > 0 && end > i.alloc {
		free := f.Capacity - f.used
		need := end - i.alloc
		if need > free {
			n -= need - free
			if n < 0 {
				n = 0
			}
			end = int(off) + n
			err = syscall.ENOSPC
			f.W.FaultFired("disk-full")
		}
	}
	if n == 0 {
		return 0, err
	}
	if end > len(i.data) {
		if e := f.resize(i, end); e != nil {
			return 0, e
		}
	}
	if end > i.alloc {
		f.used += end - i.alloc
		i.alloc = end
	}
	copy(i.data[off:], b[:n])
	f.contentChanged(i)
	return n, err
}

// ---- system calls

func perr(op, p string, err error) error { return &fs.PathError{Op: op, Path: p, Err: err} }

// Info is a FileInfo.
type Info struct {
	name string
	Ino  *Inode
	size int
	mode fs.FileMode
	mt   int64
}

func (x *Info) Name() string       { return x.name }
func (x *Info) Size() int64        { return int64(x.size) }
func (x *Info) Mode() fs.FileMode  { return x.mode }
func (x *Info) ModTime() time.Time { return time.Unix(0, x.mt) }
func (x *Info) IsDir() bool        { return x.mode.IsDir() }
func (x *Info) Sys() any           { return nil }

// Type is for fs.DirEntry.
func (x *Info) Type() fs.FileMode { return x.mode.Type() }

// Info is for fs.DirEntry.
func (x *Info) Info() (fs.FileInfo, error) { return x, nil }

func info(name string, i *Inode) *Info {
	return &Info{path.Base(name), i, len(i.data), i.Mode, i.mtime}
}

// Stat is stat or lstat.
func (f *FS) Stat(p string, follow bool) (fs.FileInfo, error) {
	f.enter("stat", p)
	defer f.leave()
	if _, err := f.fault("stat"); err != nil {
		return nil, perr("stat", p, err)
	}
	_, _, i, err := f.walk(p, follow)
	if err != nil {
		return nil, perr("stat", p, err)
	}
	return info(p, i), nil
}

// Remove is unlink or rmdir.
func (f *FS) Remove(p string) error {
	f.enter("remove", p)
	defer f.leave()
	if _, err := f.fault("remove"); err != nil {
		return perr("remove", p, err)
	}
	return f.remove(p)
}

func (f *FS) remove(p string) error {
	d, name, i, err := f.walk(p, false)
	if err != nil {
		return perr("remove", p, err)
	}
	if d == nil {
		return perr("remove", p, syscall.EBUSY)
	}
	if i.IsDir() && len(i.children) > 0 {
		return perr("remove", p, syscall.ENOTEMPTY)
	}
	if !mayChange(d) {
		return perr("remove", p, syscall.EACCES)
	}
	delete(d.children, name)
	f.dropLink(i)
	f.nsChanged(p)
	return nil
}

func (f *FS) dropLink(i *Inode) {
	i.nlink--
	if i.nlink == 0 && !i.IsDir() {
		open := i.nmaps > 0
		for h := range f.Handles {
			if h.Ino == i {
				open = true
			}
		}
		if !open {
			f.used -= i.alloc
			i.alloc = 0
		}
	}
}

// RemoveAll removes a tree.
func (f *FS) RemoveAll(p string) error {
	f.enter("removeall", p)
	defer f.leave()
	if _, err := f.fault("remove"); err != nil {
		return perr("unlinkat", p, err)
	}
	d, name, i, err := f.walk(p, false)
	if err == syscall.ENOENT || i == nil {
		return nil
	}
	if d == nil {
		return perr("unlinkat", p, syscall.EBUSY)
	}
	if !mayChange(d) {
		return perr("unlinkat", p, syscall.EACCES)
	}
	delete(d.children, name)
	f.nsChanged(p)
	return nil
}

// Mkdir is mkdir.
func (f *FS) Mkdir(p string, mode fs.FileMode) error {
	f.enter("mkdir", p)
	defer f.leave()
	return f.mkdir(p, mode)
}

func (f *FS) mkdir(p string, mode fs.FileMode) error {
	if _, err := f.fault("mkdir"); err != nil {
		return perr("mkdir", p, err)
	}
	d, name, i, err := f.walk(p, true)
	if err == nil && i != nil {
		return perr("mkdir", p, syscall.EEXIST)
	}
	if d == nil {
		return perr("mkdir", p, err)
	}
	if !mayChange(d) {
		return perr("mkdir", p, syscall.EACCES)
	}
	d.children[name] = f.newInode(fs.ModeDir | mode.Perm()&^umask)
	f.nsChanged(p)
	return nil
}

// MkdirAll creates a directory and its parents.
func (f *FS) MkdirAll(p string, mode fs.FileMode) error {
	f.enter("mkdirall", p)
	defer f.leave()
	parts := clean(p)
	for k := 1; k <= len(parts); k++ {
		q := "/" + strings.Join(parts[:k], "/")
		_, _, i, err := f.walk(q, true)
		if err == nil {
			if !i.IsDir() {
				return perr("mkdir", q, syscall.ENOTDIR)
			}
			if k == len(parts) {
				if _, err := f.fault("mkdir"); err != nil {
					return perr("mkdir", p, err)
				}
			}
			continue
		}
		if err != syscall.ENOENT {
			return perr("mkdir", q, err)
		}
		if err := f.mkdir(q, mode); err != nil {
			return err
		}
		f.W.Point(siteFS)
	}
	return nil
}

// Open opens a file.
func (f *FS) Open(p string, flag int, mode fs.FileMode) (*Handle, error) {
	f.enter("open", p)
	defer f.leave()
	if _, err := f.fault("open"); err != nil {
		return nil, perr("open", p, err)
	}
	d, name, i, err := f.walk(p, true)
	if err != nil && (err != syscall.ENOENT || d == nil || flag&syscall.O_CREAT == 0) {
		return nil, perr("open", p, err)
	}
	if i != nil {
		if flag&syscall.O_CREAT != 0 && flag&syscall.O_EXCL != 0 {
			return nil, perr("open", p, syscall.EEXIST)
		}
		if i.IsDir() && flag&(syscall.O_WRONLY|syscall.O_RDWR) != 0 {
			return nil, perr("open", p, syscall.EISDIR)
		}
		need := fs.FileMode(0400)
		switch {
		case flag&syscall.O_RDWR != 0:
			need = 0600
		case flag&syscall.O_WRONLY != 0:
			need = 0200
		}
		if i.Mode&need != need {
			return nil, perr("open", p, syscall.EACCES)
		}
		if flag&syscall.O_TRUNC != 0 && len(i.data) > 0 {
			if err := f.resize(i, 0); err != nil {
				return nil, perr("open", p, err)
			}
			f.contentChanged(i)
		}
	} else {
		if !mayChange(d) {
			return nil, perr("open", p, syscall.EACCES)
		}
		i = f.newInode(mode.Perm() &^ umask)
		d.children[name] = i
		f.nsChanged(p)
	}
	f.nfd++
	h := &Handle{Ino: i, Name: p, flag: flag, Proc: f.W.Cur().Proc, NewFd: 10 + f.nfd}
	f.Handles[h] = true
	return h, nil
}

func (h *Handle) check() error {
	if h.closed {
		return fs.ErrClosed
	}
	return nil
}

// Close closes a handle.
func (f *FS) Close(h *Handle) error {
	f.enter("close", h.Name)
	defer f.leave()
	if h.closed {
		return perr("close", h.Name, fs.ErrClosed)
	}
	h.closed = true
	delete(f.Handles, h)
	if h.Ino.nlink <= 0 {
		h.Ino.nlink++
		f.dropLink(h.Ino)
	}
	if _, err := f.fault("close"); err != nil {
		return perr("close", h.Name, err)
	}
	return nil
}

// Write writes at an offset (-1: the file position).
func (f *FS) Write(h *Handle, b []byte, off int64) (int, error) {
	f.enter("write", h.Name)
	defer f.leave()
	if err := h.check(); err != nil {
		return 0, perr("write", h.Name, err)
	}
	if h.flag&(syscall.O_WRONLY|syscall.O_RDWR) == 0 {
		return 0, perr("write", h.Name, syscall.EBADF)
	}
	pos := off
	if off < 0 {
		pos = h.off
		if h.flag&syscall.O_APPEND != 0 {
			pos = int64(len(h.Ino.data))
		}
	}
	x, ferr := f.fault("write")
	if ferr != nil {
		n := x.Short
		if n > len(b) {
			n = len(b)
		}
		b = b[:n]
	}
	n := 0
	var err error
	// a large write becomes visible in pieces
	for len(b) > 0 && err == nil {
		c := len(b)
		if c > 512 {
			c = 512
		}
		var m int
		m, err = f.writeAt(h.Ino, b[:c], pos)
		n += m
		pos += int64(m)
		b = b[c:]
		if len(b) > 0 && err == nil {
			f.W.Point(siteFS)
		}
	}
	if off < 0 {
		h.off = pos
	}
	if ferr != nil {
		err = ferr
	}
	if err != nil {
		return n, perr("write", h.Name, err)
	}
	return n, nil
}

// Read reads at an offset (-1: the file position).
func (f *FS) Read(h *Handle, b []byte, off int64) (int, error) {
	f.enter("read", h.Name)
	defer f.leave()
	if err := h.check(); err != nil {
		return 0, perr("read", h.Name, err)
	}
	if h.Ino.IsDir() {
		return 0, perr("read", h.Name, syscall.EISDIR)
	}
	pos := off
	if off < 0 {
		pos = h.off
	}
	x, ferr := f.fault("read")
	if ferr != nil {
		if x.Short > 0 && x.Short < len(b) && pos == 0 {
			// short transfer now, the failure comes with the next call
			b = b[:x.Short]
			x.Nth = x.seen + 1
			x.Short = 0
		} else {
			return 0, perr("read", h.Name, ferr)
		}
	}
	if len(b) == 0 {
		return 0, nil
	}
	if pos >= int64(len(h.Ino.data)) {
		if f.OnRead != nil {
			f.OnRead(h, pos, nil, io.EOF)
		}
		return 0, io.EOF
	}
	if f.MaxRead > 0 && len(b) > f.MaxRead {
		if int64(len(h.Ino.data))-pos > int64(f.MaxRead) {
			f.W.FaultFired("short-read")
		}
		b = b[:f.MaxRead]
	}
	n := copy(b, h.Ino.data[pos:])
	if f.OnRead != nil {
		f.OnRead(h, pos, b[:n], nil)
	}
	if off < 0 {
		h.off += int64(n)
	}
	return n, nil
}

// Seek moves the file position.
func (f *FS) Seek(h *Handle, off int64, whence int) (int64, error) {
	if err := h.check(); err != nil {
		return 0, perr("seek", h.Name, err)
	}
	switch whence {
	case 1:
		off += h.off
	case 2:
		off += int64(len(h.Ino.data))
	}
	if off < 0 {
		return 0, perr("seek", h.Name, syscall.EINVAL)
	}
	h.off = off
	return off, nil
}

// Truncate changes the size; new bytes have no storage yet.
func (f *FS) Truncate(i *Inode, name string, n int64) error {
	f.enter("truncate", name)
	defer f.leave()
	if _, err := f.fault("truncate"); err != nil {
		return perr("truncate", name, err)
	}
	if n < 0 {
		return perr("truncate", name, syscall.EINVAL)
	}
	if err := f.resize(i, int(n)); err != nil {
		return perr("truncate", name, err)
	}
	f.contentChanged(i)
	return nil
}

// Rename is rename.
func (f *FS) Rename(a, b string) error {
	f.enter("rename", a+" "+b)
	defer f.leave()
	lerr := func(err error) error { return &LinkError{"rename", a, b, err} }
	if _, err := f.fault("rename"); err != nil {
		return lerr(err)
	}
	d1, n1, i1, err := f.walk(a, false)
	if err != nil {
		return lerr(err)
	}
	d2, n2, i2, err := f.walk(b, false)
	if err != nil && (err != syscall.ENOENT || d2 == nil) {
		return lerr(err)
	}
	if d1 == nil || d2 == nil {
		return lerr(syscall.EBUSY)
	}
	if !mayChange(d1) || !mayChange(d2) {
		return lerr(syscall.EACCES)
	}
	if i1 == i2 {
		return nil
	}
	if i2 != nil {
		if i2.IsDir() && !i1.IsDir() {
			return lerr(syscall.EISDIR)
		}
		if i2.IsDir() && len(i2.children) > 0 {
			return lerr(syscall.ENOTEMPTY)
		}
		f.dropLink(i2)
	}
	delete(d1.children, n1)
	d2.children[n2] = i1
	f.nsChanged(a)
	f.nsChanged(b)
	return nil
}

// LinkError is os.LinkError.
type LinkError struct {
	Op, Old, New string
	Err          error
}

func (e *LinkError) Error() string { return e.Op + " " + e.Old + " " + e.New + ": " + e.Err.Error() }

// Unwrap gives the cause.
func (e *LinkError) Unwrap() error { return e.Err }

// Link makes a hard link (symlink if sym).
func (f *FS) Link(a, b string, sym bool) error {
	f.enter("link", a+" "+b)
	defer f.leave()
	d2, n2, i2, err := f.walk(b, false)
	if i2 != nil {
		return &LinkError{"link", a, b, syscall.EEXIST}
	}
	if d2 == nil {
		return &LinkError{"link", a, b, err}
	}
	if !mayChange(d2) {
		return &LinkError{"link", a, b, syscall.EACCES}
	}
	if sym {
		i := f.newInode(fs.ModeSymlink | 0777)
		i.target = a
		d2.children[n2] = i
	} else {
		_, _, i1, err := f.walk(a, false)
		if err != nil {
			return &LinkError{"link", a, b, err}
		}
		i1.nlink++
		d2.children[n2] = i1
	}
	f.nsChanged(b)
	return nil
}

// Readlink reads a symbolic link.
func (f *FS) Readlink(p string) (string, error) {
	_, _, i, err := f.walk(p, false)
	if err == nil && i.Mode&fs.ModeSymlink == 0 {
		err = syscall.EINVAL
	}
	if err != nil {
		return "", perr("readlink", p, err)
	}
	return i.target, nil
}

// ReadDir lists a directory.
func (f *FS) ReadDir(p string) ([]fs.DirEntry, error) {
	f.enter("readdir", p)
	defer f.leave()
	_, _, i, err := f.walk(p, true)
	if err == nil && !i.IsDir() {
		err = syscall.ENOTDIR
	}
	if err == nil && i.Mode&0400 == 0 {
		err = syscall.EACCES
	}
	if err != nil {
		return nil, perr("open", p, err)
	}
	var ks []string
	for k := range i.children {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out []fs.DirEntry
	for _, k := range ks {
		out = append(out, info(k, i.children[k]))
	}
	return out, nil
}

// Chmod changes permissions.
func (f *FS) Chmod(p string, m fs.FileMode) error {
	f.enter("chmod", p)
	defer f.leave()
	if _, err := f.fault("chmod"); err != nil {
		return perr("chmod", p, err)
	}
	_, _, i, err := f.walk(p, true)
	if err != nil {
		return perr("chmod", p, err)
	}
	i.Mode = i.Mode&^fs.ModePerm | m.Perm()
	return nil
}

// TempName gives a fresh name.
func (f *FS) TempName(dir, pattern string) string {
	f.tmpctr++
	s := fmt.Sprintf("%09d", 100000000+f.tmpctr*7919)
	if k := strings.LastIndex(pattern, "*"); k >= 0 {
		return path.Join(dir, pattern[:k]+s+pattern[k+1:])
	}
	return path.Join(dir, pattern+s)
}

// Sync is fsync.
func (f *FS) Sync(h *Handle) error {
	f.enter("fsync", h.Name)
	defer f.leave()
	if err := h.check(); err != nil {
		return perr("sync", h.Name, err)
	}
	if _, err := f.fault("fsync"); err != nil {
		return perr("sync", h.Name, err)
	}
	return nil
}

// HStat is fstat.
func (f *FS) HStat(h *Handle) (fs.FileInfo, error) {
	f.enter("fstat", h.Name)
	if err := h.check(); err != nil {
		return nil, perr("stat", h.Name, err)
	}
	return info(h.Name, h.Ino), nil
}

// ---- mappings

// Mmap maps n bytes of the file at off (n<0: all).
func (f *FS) Mmap(h *Handle, off int64, n int, prot int, private bool) ([]byte, error) {
	f.W.Point(siteMap)
	defer f.W.Point(siteMap)
	if f.LogOps {
		f.OpLog = append(f.OpLog, "mmap")
	}
	if _, err := f.fault("mmap"); err != nil {
		return nil, err
	}
	if h != nil {
		if h.closed {
			return nil, syscall.EBADF
		}
		if n < 0 {
			n = len(h.Ino.data)
		}
		if prot&syscall.PROT_WRITE != 0 && !private && h.flag&syscall.O_RDWR == 0 {
			return nil, syscall.EACCES
		}
	}
	if n <= 0 || off%pageSize != 0 {
		return nil, syscall.EINVAL
	}
	pg := (n + pageSize - 1) / pageSize * pageSize
	var mem []byte
	var err error
	var ino *Inode
	if h == nil {
		mem, err = syscall.Mmap(-1, 0, pg, prot, syscall.MAP_ANON|syscall.MAP_PRIVATE)
		ino = f.newInode(0600)
	} else {
		ino = h.Ino
		f.share(ino)
		f.track(ino)
		fl := syscall.MAP_SHARED
		if private {
			fl = syscall.MAP_PRIVATE
		}
		mem, err = syscall.Mmap(ino.memfd, off, pg, prot, fl)
		if err == nil && f.Capacity > 0 && ino.alloc < len(ino.data) && f.Capacity-f.used < len(ino.data)-ino.alloc {
			// no storage for the hole: a store into it raises SIGBUS
			start := (ino.alloc + pageSize - 1) / pageSize * pageSize
			if ino.alloc == 0 {
				start = 0
			}
			if start < pg {
				syscall.Mprotect(mem[start:], syscall.PROT_NONE)
				f.W.FaultFired("mapped-hole-without-space")
			}
		}
	}
	if err != nil {
		return nil, err
	}
	m := &Mapping{Ino: ino, mem: mem, n: n, Proc: f.W.Cur().Proc, prot: prot}
	f.Maps[m] = true
	ino.nmaps++
	f.W.ForgetRange(unsafe.Pointer(&mem[0]), uintptr(pg))
	return mem[:n:n], nil
}

// FindMap finds the mapping that starts at the slice.
func (f *FS) FindMap(b []byte) *Mapping {
	if cap(b) == 0 {
		return nil
	}
	p := unsafe.Pointer(unsafe.SliceData(b))
	for m := range f.Maps {
		if unsafe.Pointer(&m.mem[0]) == p {
			return m
		}
	}
	return nil
}

// Munmap releases a mapping.
func (f *FS) Munmap(b []byte) error {
	f.W.Point(siteMap)
	defer f.W.Point(siteMap)
	if f.LogOps {
		f.OpLog = append(f.OpLog, "munmap")
	}
	m := f.FindMap(b)
	if m == nil {
		return syscall.EINVAL
	}
	if _, err := f.fault("munmap"); err != nil {
		return err
	}
	f.drop(m)
	return nil
}

func (f *FS) drop(m *Mapping) {
	f.W.Observe(f.Poll)
	syscall.Mprotect(m.mem, syscall.PROT_NONE)
	f.dead = append(f.dead, m.mem)
	delete(f.Maps, m)
	m.Ino.nmaps--
}

// kill releases what a dead process holds.
func (f *FS) kill(p *vsim.Proc) {
	f.W.Observe(f.Poll)
	for m := range f.Maps {
		if m.Proc == p {
			syscall.Mprotect(m.mem, syscall.PROT_NONE)
			f.dead = append(f.dead, m.mem)
			delete(f.Maps, m)
			m.Ino.nmaps--
		}
	}
	for h := range f.Handles {
		if h.Proc == p {
			h.closed = true
			delete(f.Handles, h)
		}
	}
}

// OpenHandles lists the files the process has open.
func (f *FS) OpenHandles(p *vsim.Proc) []string {
	var out []string
	for h := range f.Handles {
		if p == nil || h.Proc == p {
			out = append(out, h.Name)
		}
	}
	sort.Strings(out)
	return out
}

// LiveMaps counts the mappings of the process.
func (f *FS) LiveMaps(p *vsim.Proc) int {
	n := 0
	for m := range f.Maps {
		if p == nil || m.Proc == p {
			n++
		}
	}
	return n
}
