// Package os replaces the standard package in instrumented code.
package os

import (
	"io"
	"io/fs"
	ros "os"
	"path"
	"strings"
	"syscall"
	"time"

	"verif/sim/simfs"
	"verif/sim/vsim"
)

// Constants and pure definitions are those of the real package.
const (
	DevNull           = ros.DevNull
	ModeAppend        = ros.ModeAppend
	ModeCharDevice    = ros.ModeCharDevice
	ModeDevice        = ros.ModeDevice
	ModeDir           = ros.ModeDir
	ModeExclusive     = ros.ModeExclusive
	ModeIrregular     = ros.ModeIrregular
	ModeNamedPipe     = ros.ModeNamedPipe
	ModePerm          = ros.ModePerm
	ModeSetgid        = ros.ModeSetgid
	ModeSetuid        = ros.ModeSetuid
	ModeSocket        = ros.ModeSocket
	ModeSticky        = ros.ModeSticky
	ModeSymlink       = ros.ModeSymlink
	ModeTemporary     = ros.ModeTemporary
	ModeType          = ros.ModeType
	O_APPEND          = ros.O_APPEND
	O_CREATE          = ros.O_CREATE
	O_EXCL            = ros.O_EXCL
	O_RDONLY          = ros.O_RDONLY
	O_RDWR            = ros.O_RDWR
	O_SYNC            = ros.O_SYNC
	O_TRUNC           = ros.O_TRUNC
	O_WRONLY          = ros.O_WRONLY
	PathListSeparator = ros.PathListSeparator
	PathSeparator     = ros.PathSeparator
	SEEK_CUR          = 1
	SEEK_END          = 2
	SEEK_SET          = 0
)

type (
	// DirEntry is the standard type.
	DirEntry = ros.DirEntry
	// FileInfo is the standard type.
	FileInfo = ros.FileInfo
	// FileMode is the standard type.
	FileMode = ros.FileMode
	// PathError is the standard type.
	PathError = ros.PathError
	// LinkError is the simulated type.
	LinkError = simfs.LinkError
	// SyscallError is the standard type.
	SyscallError = ros.SyscallError
	// Signal is the standard type.
	Signal = ros.Signal
)

// Variables of the standard package.
var (
	Args                = []string{"simulated"}
	ErrClosed           = ros.ErrClosed
	ErrDeadlineExceeded = ros.ErrDeadlineExceeded
	ErrExist            = ros.ErrExist
	ErrInvalid          = ros.ErrInvalid
	ErrNoDeadline       = ros.ErrNoDeadline
	ErrNotExist         = ros.ErrNotExist
	ErrPermission       = ros.ErrPermission
	Interrupt           = ros.Interrupt
	Kill                = ros.Kill
	Stdout              = &File{std: true, name: "/dev/stdout"}
	Stderr              = &File{std: true, name: "/dev/stderr"}
	Stdin               = &File{std: true, name: "/dev/stdin"}
)

// Pure functions.
var (
	IsExist         = ros.IsExist
	IsNotExist      = ros.IsNotExist
	IsPathSeparator = ros.IsPathSeparator
	IsPermission    = ros.IsPermission
	IsTimeout       = ros.IsTimeout
	NewSyscallError = ros.NewSyscallError
	Expand          = ros.Expand
	Getpagesize     = func() int { return 4096 }
	Getuid          = func() int { return 1000 }
	Geteuid         = func() int { return 1000 }
	Getgid          = func() int { return 1000 }
	Getegid         = func() int { return 1000 }
	Getppid         = func() int { return 1 }
)

func world() *simfs.FS {
	if vsim.Active() == nil {
		return nil
	}
	return simfs.Get()
}

var errDead = syscall.EIO

func noFS(op, p string) error { return &PathError{Op: op, Path: p, Err: errDead} }

// Getpid is the simulated process id.
func Getpid() int {
	if f := simfs.Get(); f != nil {
		return f.Pid
	}
	return 1
}

// Hostname is the simulated host name.
func Hostname() (string, error) { return "simhost", nil }

// OnExit, if set, is told that the program ends itself.
var OnExit func(code int)

// StdWrite, if set, receives what goes to the standard output (1) and the
// standard error output (2).
var StdWrite func(fd int, b []byte) (int, error)

// Exit ends the simulated process.
func Exit(code int) {
	if OnExit != nil {
		OnExit(code)
	}
	panic("os.Exit called")
}

// LookupEnv reads the simulated environment.
func LookupEnv(k string) (string, bool) {
	if f := simfs.Get(); f != nil {
		v, ok := f.Env[k]
		return v, ok
	}
	return "", false
}

// Getenv reads the simulated environment.
func Getenv(k string) string { v, _ := LookupEnv(k); return v }

// Setenv changes the simulated environment.
func Setenv(k, v string) error {
	if f := simfs.Get(); f != nil {
		f.Env[k] = v
	}
	return nil
}

// Unsetenv changes the simulated environment.
func Unsetenv(k string) error {
	if f := simfs.Get(); f != nil {
		delete(f.Env, k)
	}
	return nil
}

// ExpandEnv expands variables.
func ExpandEnv(s string) string { return ros.Expand(s, Getenv) }

// Environ lists the simulated environment.
func Environ() []string {
	var out []string
	if f := simfs.Get(); f != nil {
		for k, v := range f.Env {
			out = append(out, k+"="+v)
		}
	}
	return out
}

// TempDir is as on Unix.
func TempDir() string {
	if d := Getenv("TMPDIR"); d != "" {
		return d
	}
	return "/tmp"
}

// Getwd is the root directory.
func Getwd() (string, error) { return "/", nil }

// UserHomeDir is as on Unix.
func UserHomeDir() (string, error) { return "/home/sim", nil }

// File is a simulated file.
type File struct {
	h    *simfs.Handle
	name string
	std  bool
}

// Handle is for the mmap shim.
func (f *File) Handle() *simfs.Handle {
	if f == nil {
		return nil
	}
	return f.h
}

// Stat is os.Stat.
func Stat(p string) (FileInfo, error) {
	f := world()
	if f == nil {
		return nil, noFS("stat", p)
	}
	return f.Stat(p, true)
}

// Lstat is os.Lstat.
func Lstat(p string) (FileInfo, error) {
	f := world()
	if f == nil {
		return nil, noFS("lstat", p)
	}
	return f.Stat(p, false)
}

// SameFile is os.SameFile.
func SameFile(a, b FileInfo) bool {
	x, ok1 := a.(*simfs.Info)
	y, ok2 := b.(*simfs.Info)
	return ok1 && ok2 && x.Ino == y.Ino
}

// Remove is os.Remove.
func Remove(p string) error {
	f := world()
	if f == nil {
		return noFS("remove", p)
	}
	return f.Remove(p)
}

// RemoveAll is os.RemoveAll.
func RemoveAll(p string) error {
	f := world()
	if f == nil {
		return noFS("remove", p)
	}
	return f.RemoveAll(p)
}

// Mkdir is os.Mkdir.
func Mkdir(p string, m FileMode) error {
	f := world()
	if f == nil {
		return noFS("mkdir", p)
	}
	return f.Mkdir(p, m)
}

// MkdirAll is os.MkdirAll.
func MkdirAll(p string, m FileMode) error {
	f := world()
	if f == nil {
		return noFS("mkdir", p)
	}
	return f.MkdirAll(p, m)
}

// OpenFile is os.OpenFile.
func OpenFile(p string, flag int, m FileMode) (*File, error) {
	f := world()
	if f == nil {
		return nil, noFS("open", p)
	}
	h, err := f.Open(p, flag, m)
	if err != nil {
		return nil, err
	}
	return &File{h: h, name: p}, nil
}

// Open is os.Open.
func Open(p string) (*File, error) { return OpenFile(p, O_RDONLY, 0) }

// Create is os.Create.
func Create(p string) (*File, error) { return OpenFile(p, O_RDWR|O_CREATE|O_TRUNC, 0666) }

// CreateTemp is os.CreateTemp.
func CreateTemp(dir, pattern string) (*File, error) {
	f := world()
	if f == nil {
		return nil, noFS("open", dir)
	}
	if dir == "" {
		dir = TempDir()
	}
	for i := 0; ; i++ {
		x, err := OpenFile(f.TempName(dir, pattern), O_RDWR|O_CREATE|O_EXCL, 0600)
		if err == nil || !IsExist(err) || i > 100 {
			return x, err
		}
	}
}

// MkdirTemp is os.MkdirTemp.
func MkdirTemp(dir, pattern string) (string, error) {
	f := world()
	if f == nil {
		return "", noFS("mkdir", dir)
	}
	if dir == "" {
		dir = TempDir()
	}
	p := f.TempName(dir, pattern)
	return p, f.Mkdir(p, 0700)
}

// Rename is os.Rename.
func Rename(a, b string) error {
	f := world()
	if f == nil {
		return noFS("rename", a)
	}
	return f.Rename(a, b)
}

// Link is os.Link.
func Link(a, b string) error {
	f := world()
	if f == nil {
		return noFS("link", a)
	}
	return f.Link(a, b, false)
}

// Symlink is os.Symlink.
func Symlink(a, b string) error {
	f := world()
	if f == nil {
		return noFS("symlink", a)
	}
	return f.Link(a, b, true)
}

// Readlink is os.Readlink.
func Readlink(p string) (string, error) {
	f := world()
	if f == nil {
		return "", noFS("readlink", p)
	}
	return f.Readlink(p)
}

// Chmod is os.Chmod.
func Chmod(p string, m FileMode) error {
	f := world()
	if f == nil {
		return noFS("chmod", p)
	}
	return f.Chmod(p, m)
}

// Chown does nothing.
func Chown(p string, u, g int) error { return nil }

// Chtimes does nothing.
func Chtimes(p string, a, m time.Time) error { return nil }

// Truncate is os.Truncate.
func Truncate(p string, n int64) error {
	f := world()
	if f == nil {
		return noFS("truncate", p)
	}
	i := f.Lookup(p)
	if i == nil {
		return &PathError{Op: "truncate", Path: p, Err: syscall.ENOENT}
	}
	return f.Truncate(i, p, n)
}

// ReadDir is os.ReadDir.
func ReadDir(p string) ([]DirEntry, error) {
	f := world()
	if f == nil {
		return nil, noFS("open", p)
	}
	return f.ReadDir(p)
}

// ReadFile is os.ReadFile.
func ReadFile(p string) ([]byte, error) {
	x, err := Open(p)
	if err != nil {
		return nil, err
	}
	defer x.Close()
	var out []byte
	buf := make([]byte, 4096)
	for {
		n, err := x.Read(buf)
		out = append(out, buf[:n]...)
		if err == io.EOF {
			return out, nil
		}
		if err != nil {
			return out, err
		}
	}
}

// WriteFile is os.WriteFile.
func WriteFile(p string, b []byte, m FileMode) error {
	x, err := OpenFile(p, O_WRONLY|O_CREATE|O_TRUNC, m)
	if err != nil {
		return err
	}
	_, err = x.Write(b)
	if e := x.Close(); e != nil && err == nil {
		err = e
	}
	return err
}

func (f *File) fs(op string) (*simfs.FS, error) {
	if f == nil {
		return nil, ErrInvalid
	}
	w := world()
	if w == nil || f.h == nil {
		return nil, noFS(op, f.name)
	}
	return w, nil
}

// Name is the standard method.
func (f *File) Name() string { return f.name }

// Fd is the standard method.
func (f *File) Fd() uintptr {
	if f.h == nil {
		return 2
	}
	return uintptr(f.h.NewFd)
}

// Close is the standard method.
func (f *File) Close() error {
	w, err := f.fs("close")
	if err != nil {
		return err
	}
	return w.Close(f.h)
}

// Write is the standard method.
func (f *File) Write(b []byte) (int, error) {
	if f != nil && f.std {
		return f.stdWrite(b)
	}
	w, err := f.fs("write")
	if err != nil {
		return 0, err
	}
	return w.Write(f.h, b, -1)
}

// stdWrite goes on after a short transfer as the standard library does.
func (f *File) stdWrite(b []byte) (n int, err error) {
	if StdWrite == nil || f == Stdin {
		return len(b), nil
	}
	fd := 1
	if f == Stderr {
		fd = 2
	}
	for {
		m, err := StdWrite(fd, b[n:])
		n += m
		if n == len(b) || err != nil {
			if err != nil {
				err = &PathError{Op: "write", Path: f.name, Err: err}
			}
			return n, err
		}
		if m == 0 {
			return n, io.ErrUnexpectedEOF
		}
	}
}

// WriteString is the standard method.
func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

// WriteAt is the standard method.
func (f *File) WriteAt(b []byte, off int64) (int, error) {
	w, err := f.fs("write")
	if err != nil {
		return 0, err
	}
	if off < 0 {
		return 0, &PathError{Op: "writeat", Path: f.name, Err: syscall.EINVAL}
	}
	return w.Write(f.h, b, off)
}

// ReadFrom is the standard method.
func (f *File) ReadFrom(r io.Reader) (int64, error) {
	b, err := io.ReadAll(r)
	if err != nil {
		return 0, err
	}
	n, err := f.Write(b)
	return int64(n), err
}

// Read is the standard method.
func (f *File) Read(b []byte) (int, error) {
	if f != nil && f.std {
		return 0, io.EOF
	}
	w, err := f.fs("read")
	if err != nil {
		return 0, err
	}
	return w.Read(f.h, b, -1)
}

// ReadAt is the standard method.
func (f *File) ReadAt(b []byte, off int64) (int, error) {
	w, err := f.fs("read")
	if err != nil {
		return 0, err
	}
	n := 0
	for n < len(b) {
		m, err := w.Read(f.h, b[n:], off+int64(n))
		n += m
		if err != nil {
			return n, err
		}
	}
	return n, nil
}

// Seek is the standard method.
func (f *File) Seek(off int64, whence int) (int64, error) {
	w, err := f.fs("seek")
	if err != nil {
		return 0, err
	}
	return w.Seek(f.h, off, whence)
}

// Truncate is the standard method.
func (f *File) Truncate(n int64) error {
	w, err := f.fs("truncate")
	if err != nil {
		return err
	}
	return w.Truncate(f.h.Ino, f.name, n)
}

// Sync is the standard method.
func (f *File) Sync() error {
	w, err := f.fs("sync")
	if err != nil {
		return err
	}
	return w.Sync(f.h)
}

// Stat is the standard method.
func (f *File) Stat() (FileInfo, error) {
	w, err := f.fs("stat")
	if err != nil {
		return nil, err
	}
	return w.HStat(f.h)
}

// Chmod is the standard method.
func (f *File) Chmod(m FileMode) error {
	w, err := f.fs("chmod")
	if err != nil {
		return err
	}
	f.h.Ino.Mode = f.h.Ino.Mode&^ModePerm | m.Perm()
	_ = w
	return nil
}

// ReadDir is the standard method.
func (f *File) ReadDir(n int) ([]DirEntry, error) { return ReadDir(f.name) }

// Readdirnames is the standard method.
func (f *File) Readdirnames(n int) ([]string, error) {
	l, err := ReadDir(f.name)
	var out []string
	for _, e := range l {
		out = append(out, e.Name())
	}
	return out, err
}

var _ fs.FileInfo = (*simfs.Info)(nil)
var _ = path.Join
var _ = strings.TrimSpace
