// Package filepath is the standard package on the simulated file system.
package filepath

import (
	rf "path/filepath"

	"io/fs"
	"strings"

	"verif/sim/shim/os"
)

// Constants of the standard package.
const (
	Separator     = rf.Separator
	ListSeparator = rf.ListSeparator
)

// Errors of the standard package.
var (
	ErrBadPattern = rf.ErrBadPattern
	SkipDir       = rf.SkipDir
	SkipAll       = rf.SkipAll
)

// WalkFunc is the standard type.
type WalkFunc = rf.WalkFunc

// Base is the standard function.
func Base(p string) string { return rf.Base(p) }

// Clean is the standard function.
func Clean(p string) string { return rf.Clean(p) }

// Dir is the standard function.
func Dir(p string) string { return rf.Dir(p) }

// Ext is the standard function.
func Ext(p string) string { return rf.Ext(p) }

// FromSlash is the standard function.
func FromSlash(p string) string { return rf.FromSlash(p) }

// ToSlash is the standard function.
func ToSlash(p string) string { return rf.ToSlash(p) }

// IsAbs is the standard function.
func IsAbs(p string) bool { return rf.IsAbs(p) }

// IsLocal is the standard function.
func IsLocal(p string) bool { return rf.IsLocal(p) }

// Join is the standard function.
func Join(e ...string) string { return rf.Join(e...) }

// Match is the standard function.
func Match(pat, name string) (bool, error) { return rf.Match(pat, name) }

// Rel is the standard function.
func Rel(a, b string) (string, error) { return rf.Rel(a, b) }

// Split is the standard function.
func Split(p string) (string, string) { return rf.Split(p) }

// SplitList is the standard function.
func SplitList(p string) []string { return rf.SplitList(p) }

// VolumeName is the standard function.
func VolumeName(p string) string { return rf.VolumeName(p) }

// HasPrefix is the standard function.
func HasPrefix(p, q string) bool { return strings.HasPrefix(p, q) }

// Abs is the standard function.
func Abs(p string) (string, error) {
	if IsAbs(p) {
		return Clean(p), nil
	}
	wd, err := os.Getwd()
	if err != nil {
		return "", err
	}
	return Join(wd, p), nil
}

// EvalSymlinks is the standard function.
func EvalSymlinks(p string) (string, error) {
	for n := 0; n < 100; n++ {
		parts := strings.Split(Clean(p), "/")
		again := false
		for i := range parts {
			q := strings.Join(parts[:i+1], "/")
			if q == "" {
				continue
			}
			l, err := os.Lstat(q)
			if err != nil {
				return "", err
			}
			if l.Mode()&fs.ModeSymlink == 0 {
				continue
			}
			t, err := os.Readlink(q)
			if err != nil {
				return "", err
			}
			if !IsAbs(t) {
				t = Join(Dir(q), t)
			}
			p = Join(append([]string{t}, parts[i+1:]...)...)
			again = true
			break
		}
		if !again {
			return Clean(p), nil
		}
	}
	return "", rf.ErrBadPattern
}

// Glob is the standard function.
func Glob(pat string) (m []string, err error) {
	if _, err := Match(pat, ""); err != nil {
		return nil, err
	}
	if !strings.ContainsAny(pat, `*?[\`) {
		if _, err := os.Lstat(pat); err != nil {
			return nil, nil
		}
		return []string{pat}, nil
	}
	dir, file := Split(pat)
	switch dir {
	case "":
		dir = "."
	case "/":
	default:
		dir = dir[:len(dir)-1]
	}
	dirs := []string{dir}
	if strings.ContainsAny(dir, `*?[\`) {
		if dirs, err = Glob(dir); err != nil {
			return nil, err
		}
	}
	for _, d := range dirs {
		l, err := os.ReadDir(d)
		if err != nil {
			continue
		}
		for _, e := range l {
			ok, err := Match(file, e.Name())
			if err != nil {
				return m, err
			}
			if ok {
				m = append(m, Join(d, e.Name()))
			}
		}
	}
	return m, nil
}

// WalkDir is the standard function.
func WalkDir(root string, fn fs.WalkDirFunc) error {
	i, err := os.Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walkDir(root, fs.FileInfoToDirEntry(i), fn)
	}
	if err == SkipDir || err == SkipAll {
		return nil
	}
	return err
}

func walkDir(p string, d fs.DirEntry, fn fs.WalkDirFunc) error {
	if err := fn(p, d, nil); err != nil || !d.IsDir() {
		if err == SkipDir && d.IsDir() {
			err = nil
		}
		return err
	}
	l, err := os.ReadDir(p)
	if err != nil {
		if err = fn(p, d, err); err != nil {
			if err == SkipDir {
				err = nil
			}
			return err
		}
	}
	for _, e := range l {
		if err := walkDir(Join(p, e.Name()), e, fn); err != nil {
			if err == SkipDir {
				break
			}
			return err
		}
	}
	return nil
}

// Walk is the standard function.
func Walk(root string, fn WalkFunc) error {
	i, err := os.Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walk(root, i, fn)
	}
	if err == SkipDir || err == SkipAll {
		return nil
	}
	return err
}

func walk(p string, i fs.FileInfo, fn WalkFunc) error {
	if !i.IsDir() {
		return fn(p, i, nil)
	}
	l, err := os.ReadDir(p)
	err1 := fn(p, i, err)
	if err != nil || err1 != nil {
		return err1
	}
	for _, e := range l {
		q := Join(p, e.Name())
		fi, err := os.Lstat(q)
		if err != nil {
			if err := fn(q, fi, err); err != nil && err != SkipDir {
				return err
			}
			continue
		}
		if err = walk(q, fi, fn); err != nil {
			if !fi.IsDir() || err != SkipDir {
				return err
			}
		}
	}
	return nil
}
