// Package filepath stands in for path/filepath on the simulated disk.
package filepath

import (
	"errors"
	"io/fs"
	"path"
	real "path/filepath"
	"sort"
	"strings"

	os "github.com/tdewolff/font/zzverif/simos"
)

const (
	Separator     = '/'
	ListSeparator = ':'
)

var (
	ErrBadPattern = real.ErrBadPattern
	SkipDir       = fs.SkipDir
	SkipAll       = fs.SkipAll
)

type WalkFunc func(path string, info fs.FileInfo, err error) error

func Base(p string) string                     { return real.Base(p) }
func Clean(p string) string                    { return real.Clean(p) }
func Dir(p string) string                      { return real.Dir(p) }
func Ext(p string) string                      { return real.Ext(p) }
func FromSlash(p string) string                { return real.FromSlash(p) }
func ToSlash(p string) string                  { return real.ToSlash(p) }
func IsAbs(p string) bool                      { return real.IsAbs(p) }
func IsLocal(p string) bool                    { return real.IsLocal(p) }
func Localize(p string) (string, error)        { return real.Localize(p) }
func Join(elem ...string) string               { return real.Join(elem...) }
func Match(pattern, name string) (bool, error) { return real.Match(pattern, name) }
func Rel(base, targ string) (string, error)    { return real.Rel(base, targ) }
func Split(p string) (dir, file string)        { return real.Split(p) }
func SplitList(p string) []string              { return real.SplitList(p) }
func VolumeName(p string) string               { return real.VolumeName(p) }
func HasPrefix(p, prefix string) bool          { return strings.HasPrefix(p, prefix) }
func Abs(p string) (string, error) {
	if real.IsAbs(p) {
		return real.Clean(p), nil
	}
	wd, err := os.Getwd()
	if err != nil {
		return "", err
	}
	return real.Join(wd, p), nil
}

func WalkDir(root string, fn fs.WalkDirFunc) error {
	info, err := os.Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walkDir(root, fs.FileInfoToDirEntry(info), fn)
	}
	if err == SkipDir || err == SkipAll {
		return nil
	}
	return err
}

func walkDir(p string, d fs.DirEntry, fn fs.WalkDirFunc) error {
	if err := fn(p, d, nil); err != nil || !d.IsDir() {
		if err == SkipDir && d.IsDir() {
			err = nil
		}
		return err
	}
	dirs, err := os.ReadDir(p)
	if err != nil {
		err = fn(p, d, err)
		if err != nil {
			if err == SkipDir && d.IsDir() {
				err = nil
			}
			return err
		}
	}
	for _, d1 := range dirs {
		if err := walkDir(Join(p, d1.Name()), d1, fn); err != nil {
			if err == SkipDir {
				break
			}
			return err
		}
	}
	return nil
}

func Walk(root string, fn WalkFunc) error {
	info, err := os.Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walk(root, info, fn)
	}
	if err == SkipDir || err == SkipAll {
		return nil
	}
	return err
}

func walk(p string, info fs.FileInfo, fn WalkFunc) error {
	if !info.IsDir() {
		return fn(p, info, nil)
	}
	es, err := os.ReadDir(p)
	err1 := fn(p, info, err)
	if err != nil || err1 != nil {
		return err1
	}
	for _, e := range es {
		name := Join(p, e.Name())
		fi, err := os.Lstat(name)
		if err != nil {
			if err := fn(name, fi, err); err != nil && err != SkipDir {
				return err
			}
		} else if err = walk(name, fi, fn); err != nil {
			if !fi.IsDir() || err != SkipDir {
				return err
			}
		}
	}
	return nil
}

// Glob lists matches like the real one: I/O errors are ignored.
func Glob(pattern string) ([]string, error) {
	if _, err := Match(pattern, ""); err != nil {
		return nil, err
	}
	if !strings.ContainsAny(pattern, `*?[\`) {
		if _, err := os.Lstat(pattern); err != nil {
			return nil, nil
		}
		return []string{pattern}, nil
	}
	dir, file := path.Split(pattern)
	if dir == "" {
		dir = "."
	} else if dir != "/" {
		dir = dir[:len(dir)-1]
	}
	dirs := []string{dir}
	if strings.ContainsAny(dir, `*?[\`) {
		if dir == pattern {
			return nil, ErrBadPattern
		}
		var err error
		if dirs, err = Glob(dir); err != nil {
			return nil, err
		}
	}
	var res []string
	for _, d := range dirs {
		es, err := os.ReadDir(d)
		if err != nil {
			continue
		}
		names := []string{}
		for _, e := range es {
			names = append(names, e.Name())
		}
		sort.Strings(names)
		for _, n := range names {
			if ok, _ := Match(file, n); ok {
				res = append(res, Join(d, n))
			}
		}
	}
	return res, nil
}

func EvalSymlinks(p string) (string, error) {
	for i := 0; i < 255; i++ {
		parts := strings.Split(Clean(p), "/")
		replaced := false
		for j := 1; j <= len(parts); j++ {
			prefix := strings.Join(parts[:j], "/")
			if prefix == "" {
				continue
			}
			info, err := os.Lstat(prefix)
			if err != nil {
				return "", err
			}
			if info.Mode()&fs.ModeSymlink != 0 {
				t, err := os.Readlink(prefix)
				if err != nil {
					return "", err
				}
				if !IsAbs(t) {
					t = Join(Dir(prefix), t)
				}
				p = Join(append([]string{t}, parts[j:]...)...)
				replaced = true
				break
			}
		}
		if !replaced {
			return Clean(p), nil
		}
	}
	return "", errors.New("EvalSymlinks: too many links")
}
