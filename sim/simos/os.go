// Package os stands in for the standard library's os in simulated code: files live on the simulated
// disk, the environment and the command line are the simulator's, Exit and crashes unwind the run.
package os

import (
	"errors"
	"io"
	"io/fs"
	realos "os"
	"path"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

type (
	FileInfo     = fs.FileInfo
	FileMode     = fs.FileMode
	DirEntry     = fs.DirEntry
	PathError    = fs.PathError
	LinkError    = realos.LinkError
	SyscallError = realos.SyscallError
	Signal       = realos.Signal
	ProcAttr     = realos.ProcAttr
	Process      = realos.Process
)

const (
	O_RDONLY = realos.O_RDONLY
	O_WRONLY = realos.O_WRONLY
	O_RDWR   = realos.O_RDWR
	O_APPEND = realos.O_APPEND
	O_CREATE = realos.O_CREATE
	O_EXCL   = realos.O_EXCL
	O_SYNC   = realos.O_SYNC
	O_TRUNC  = realos.O_TRUNC

	SEEK_SET = 0
	SEEK_CUR = 1
	SEEK_END = 2

	PathSeparator     = '/'
	PathListSeparator = ':'
	DevNull           = "/dev/null"

	ModeDir        = fs.ModeDir
	ModeAppend     = fs.ModeAppend
	ModeExclusive  = fs.ModeExclusive
	ModeTemporary  = fs.ModeTemporary
	ModeSymlink    = fs.ModeSymlink
	ModeDevice     = fs.ModeDevice
	ModeNamedPipe  = fs.ModeNamedPipe
	ModeSocket     = fs.ModeSocket
	ModeSetuid     = fs.ModeSetuid
	ModeSetgid     = fs.ModeSetgid
	ModeCharDevice = fs.ModeCharDevice
	ModeSticky     = fs.ModeSticky
	ModeIrregular  = fs.ModeIrregular
	ModeType       = fs.ModeType
	ModePerm       = fs.ModePerm
)

var (
	ErrInvalid          = fs.ErrInvalid
	ErrPermission       = fs.ErrPermission
	ErrExist            = fs.ErrExist
	ErrNotExist         = fs.ErrNotExist
	ErrClosed           = fs.ErrClosed
	ErrNoDeadline       = realos.ErrNoDeadline
	ErrDeadlineExceeded = realos.ErrDeadlineExceeded
	ErrProcessDone      = realos.ErrProcessDone

	Interrupt = realos.Interrupt
	Kill      = realos.Kill

	Args   = []string{"sim"}
	Stdin  = stdFile("stdin", nil)
	Stdout = stdFile("stdout", nil)
	Stderr = stdFile("stderr", nil)

	env = map[string]string{}
)

func stdFile(name string, content []byte) *File {
	n := &node{kind: kReg, data: content, stream: true, perm: 0o600}
	return &File{name: "/dev/" + name, n: n, flag: O_RDWR, std: name}
}

// SimProcess sets up the process-wide state of a run: command line, standard input, environment.
func SimProcess(args []string, stdin []byte, environ map[string]string) {
	Args = args
	Stdin = stdFile("stdin", append([]byte(nil), stdin...))
	Stdin.flag = O_RDONLY
	Stdout = stdFile("stdout", nil)
	Stderr = stdFile("stderr", nil)
	env = map[string]string{}
	for k, v := range environ {
		env[k] = v
	}
}

// SimOutput returns what was written to the standard output and error streams.
func SimOutput() (stdout, stderr []byte) { return Stdout.n.data, Stderr.n.data }

func IsExist(err error) bool                    { return realos.IsExist(err) }
func IsNotExist(err error) bool                 { return realos.IsNotExist(err) }
func IsPermission(err error) bool               { return realos.IsPermission(err) }
func IsTimeout(err error) bool                  { return realos.IsTimeout(err) }
func IsPathSeparator(c uint8) bool              { return c == '/' }
func NewSyscallError(s string, err error) error { return realos.NewSyscallError(s, err) }

func Exit(code int) {
	D.Dead = true
	panic(ExitPanic{code})
}

func Getenv(key string) string            { return env[key] }
func LookupEnv(key string) (string, bool) { v, ok := env[key]; return v, ok }
func Setenv(key, value string) error      { env[key] = value; return nil }
func Unsetenv(key string) error           { delete(env, key); return nil }
func Clearenv()                           { env = map[string]string{} }
func Environ() []string {
	var res []string
	for k, v := range env {
		res = append(res, k+"="+v)
	}
	sort.Strings(res)
	return res
}
func ExpandEnv(s string) string                           { return realos.Expand(s, Getenv) }
func Expand(s string, mapping func(string) string) string { return realos.Expand(s, mapping) }
func Getpid() int                                         { return 4711 }
func Getppid() int                                        { return 1 }
func Getuid() int                                         { return 1000 }
func Geteuid() int                                        { return 1000 }
func Getgid() int                                         { return 1000 }
func Getegid() int                                        { return 1000 }
func Getpagesize() int                                    { return 4096 }
func Hostname() (string, error)                           { return "sim", nil }
func Executable() (string, error)                         { return "/usr/bin/sim", nil }
func TempDir() string {
	if d := env["TMPDIR"]; d != "" {
		return d
	}
	return "/tmp"
}
func UserHomeDir() (string, error) {
	if d := env["HOME"]; d != "" {
		return d, nil
	}
	return "", errors.New("$HOME is not defined")
}
func UserCacheDir() (string, error) {
	if d := env["XDG_CACHE_HOME"]; d != "" {
		return d, nil
	}
	if d := env["HOME"]; d != "" {
		return d + "/.cache", nil
	}
	return "", errors.New("neither $XDG_CACHE_HOME nor $HOME are defined")
}
func UserConfigDir() (string, error) {
	if d := env["XDG_CONFIG_HOME"]; d != "" {
		return d, nil
	}
	if d := env["HOME"]; d != "" {
		return d + "/.config", nil
	}
	return "", errors.New("neither $XDG_CONFIG_HOME nor $HOME are defined")
}

func Open(name string) (*File, error)   { return D.openFile(name, O_RDONLY, 0) }
func Create(name string) (*File, error) { return D.openFile(name, O_RDWR|O_CREATE|O_TRUNC, 0o666) }
func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	return D.openFile(name, flag, perm)
}

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	var data []byte
	buf := make([]byte, 4096)
	for {
		n, err := f.Read(buf)
		data = append(data, buf[:n]...)
		if err == io.EOF {
			return data, nil
		} else if err != nil {
			return data, err
		}
	}
}

func WriteFile(name string, data []byte, perm FileMode) error {
	f, err := OpenFile(name, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

func (d *Disk) stat(op, name string, follow bool) (FileInfo, error) {
	rec, fault := d.begin("stat", name)
	var n *node
	err := errnoOf(fault)
	if err == nil {
		n, err = d.lookup(name, follow, 0)
	}
	d.end(rec, fault, 0, err)
	if err != nil {
		return nil, perr(op, name, err)
	}
	return n.info(path.Base(name)), nil
}

func Stat(name string) (FileInfo, error)  { return D.stat("stat", name, true) }
func Lstat(name string) (FileInfo, error) { return D.stat("lstat", name, false) }
func SameFile(a, b FileInfo) bool {
	x, ok1 := a.(fileInfo)
	y, ok2 := b.(fileInfo)
	return ok1 && ok2 && x.n == y.n
}

func ReadDir(name string) ([]DirEntry, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	es, err := f.ReadDir(-1)
	sort.Slice(es, func(i, j int) bool { return es[i].Name() < es[j].Name() })
	return es, err
}

func (d *Disk) change(op, verb, name string, f func() error) error {
	rec, fault := d.begin(op, name)
	err := errnoOf(fault)
	if err == nil {
		err = f()
	}
	d.end(rec, fault, 0, err)
	if err != nil {
		return perr(verb, name, err)
	}
	return nil
}

func Mkdir(name string, perm FileMode) error {
	return D.change("mkdir", "mkdir", name, func() error {
		dir, base, err := D.parent(name)
		if err != nil {
			return err
		}
		if dir.children[base] != nil {
			return syscall.EEXIST
		}
		n := D.newNode(kDir)
		dir.children[base] = n
		return nil
	})
}

func MkdirAll(name string, perm FileMode) error {
	if n, err := D.lookup(name, true, 0); err == nil {
		if n.kind == kDir {
			return nil
		}
		return perr("mkdir", name, syscall.ENOTDIR)
	}
	if parent := path.Dir(path.Clean(D.abs(name))); parent != "/" {
		if err := MkdirAll(parent, perm); err != nil {
			return err
		}
	}
	return Mkdir(name, perm)
}

func tempName(dir, pattern string) string {
	if dir == "" {
		dir = TempDir()
	}
	D.tmpSeq++
	s := strconv.Itoa(1000000 + D.tmpSeq)
	if i := strings.LastIndexByte(pattern, '*'); i >= 0 {
		return path.Join(dir, pattern[:i]+s+pattern[i+1:])
	}
	return path.Join(dir, pattern+s)
}

func MkdirTemp(dir, pattern string) (string, error) {
	name := tempName(dir, pattern)
	return name, Mkdir(name, 0o700)
}

func CreateTemp(dir, pattern string) (*File, error) {
	for {
		f, err := OpenFile(tempName(dir, pattern), O_RDWR|O_CREATE|O_EXCL, 0o600)
		if IsExist(err) {
			continue
		}
		return f, err
	}
}

func Remove(name string) error {
	return D.change("remove", "remove", name, func() error {
		dir, base, err := D.parent(name)
		if err != nil {
			return err
		}
		n := dir.children[base]
		if n == nil {
			return syscall.ENOENT
		}
		if n.kind == kDir && len(n.children) > 0 {
			return syscall.ENOTEMPTY
		}
		delete(dir.children, base)
		return nil
	})
}

func RemoveAll(name string) error {
	err := D.change("remove", "unlinkat", name, func() error {
		dir, base, err := D.parent(name)
		if err != nil {
			return err
		}
		delete(dir.children, base)
		return nil
	})
	if IsNotExist(err) {
		return nil
	}
	return err
}

func Rename(from, to string) error {
	rec, fault := D.begin("rename", from)
	err := errnoOf(fault)
	if err == nil {
		err = func() error {
			d1, b1, err := D.parent(from)
			if err != nil {
				return err
			}
			n := d1.children[b1]
			if n == nil {
				return syscall.ENOENT
			}
			d2, b2, err := D.parent(to)
			if err != nil {
				return err
			}
			if old := d2.children[b2]; old != nil && old.kind == kDir && n.kind != kDir {
				return syscall.EISDIR
			}
			delete(d1.children, b1)
			d2.children[b2] = n
			return nil
		}()
	}
	D.end(rec, fault, 0, err)
	if err != nil {
		return &LinkError{Op: "rename", Old: from, New: to, Err: err}
	}
	return nil
}

func Link(from, to string) error {
	return D.change("rename", "link", from, func() error {
		n, err := D.lookup(from, false, 0)
		if err != nil {
			return err
		}
		dir, base, err := D.parent(to)
		if err != nil {
			return err
		}
		if dir.children[base] != nil {
			return syscall.EEXIST
		}
		dir.children[base] = n
		return nil
	})
}

func Symlink(target, name string) error {
	return D.change("rename", "symlink", name, func() error {
		dir, base, err := D.parent(name)
		if err != nil {
			return err
		}
		if dir.children[base] != nil {
			return syscall.EEXIST
		}
		n := D.newNode(kSymlink)
		n.target = target
		dir.children[base] = n
		return nil
	})
}

func Readlink(name string) (string, error) {
	n, err := D.lookup(name, false, 0)
	if err != nil {
		return "", perr("readlink", name, err)
	}
	if n.kind != kSymlink {
		return "", perr("readlink", name, syscall.EINVAL)
	}
	return n.target, nil
}

func Truncate(name string, size int64) error {
	n, err := D.lookup(name, true, 0)
	if err != nil {
		return perr("truncate", name, err)
	}
	return D.truncate(name, n, size)
}

func Chmod(name string, mode FileMode) error {
	return D.change("chmod", "chmod", name, func() error {
		n, err := D.lookup(name, true, 0)
		if err == nil {
			n.perm = mode.Perm()
		}
		return err
	})
}
func Chown(name string, uid, gid int) error  { return nil }
func Lchown(name string, uid, gid int) error { return nil }
func Chtimes(name string, atime, mtime time.Time) error {
	return D.change("chmod", "chtimes", name, func() error {
		n, err := D.lookup(name, true, 0)
		if err == nil {
			n.mtime = mtime
		}
		return err
	})
}
func Getwd() (string, error) { return D.cwd, nil }
func Chdir(dir string) error {
	n, err := D.lookup(dir, true, 0)
	if err == nil && n.kind != kDir {
		err = syscall.ENOTDIR
	}
	if err != nil {
		return perr("chdir", dir, err)
	}
	D.cwd = path.Clean(D.abs(dir))
	return nil
}

// ---- DirFS ----

type dirFS string

// DirFS is the file system below dir, with the same optional interfaces the real one has.
func DirFS(dir string) fs.FS { return dirFS(dir) }

func (d dirFS) join(op, name string) (string, error) {
	if d == "" {
		return "", perr(op, name, errors.New("os: DirFS with empty root"))
	}
	if !fs.ValidPath(name) {
		return "", perr(op, name, fs.ErrInvalid)
	}
	if strings.HasSuffix(string(d), "/") {
		return string(d) + name, nil
	}
	return string(d) + "/" + name, nil
}

func unroot(err error, name string) error {
	if e, ok := err.(*PathError); ok {
		e.Path = name
	}
	return err
}

func (d dirFS) Open(name string) (fs.File, error) {
	full, err := d.join("open", name)
	if err != nil {
		return nil, err
	}
	f, err := Open(full)
	if err != nil {
		return nil, unroot(err, name)
	}
	return f, nil
}

func (d dirFS) ReadFile(name string) ([]byte, error) {
	full, err := d.join("readfile", name)
	if err != nil {
		return nil, err
	}
	b, err := ReadFile(full)
	if err != nil {
		return nil, unroot(err, name)
	}
	return b, nil
}

func (d dirFS) ReadDir(name string) ([]DirEntry, error) {
	full, err := d.join("readdir", name)
	if err != nil {
		return nil, err
	}
	es, err := ReadDir(full)
	if err != nil {
		return es, unroot(err, name)
	}
	return es, nil
}

func (d dirFS) Stat(name string) (fs.FileInfo, error) {
	full, err := d.join("stat", name)
	if err != nil {
		return nil, err
	}
	i, err := Stat(full)
	if err != nil {
		return nil, unroot(err, name)
	}
	return i, nil
}

func (d dirFS) Lstat(name string) (fs.FileInfo, error) {
	full, err := d.join("lstat", name)
	if err != nil {
		return nil, err
	}
	i, err := Lstat(full)
	if err != nil {
		return nil, unroot(err, name)
	}
	return i, nil
}

func (d dirFS) ReadLink(name string) (string, error) {
	full, err := d.join("readlink", name)
	if err != nil {
		return "", err
	}
	s, err := Readlink(full)
	if err != nil {
		return "", unroot(err, name)
	}
	return s, nil
}
