package os

import (
	"io"
	"io/fs"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/tdewolff/font/zzverif/simrt"
)

// Kind of a node of the simulated disk.
const (
	kReg = iota
	kDir
	kSymlink
	kFifo
	kDevice
)

type node struct {
	kind     int
	data     []byte
	synced   []byte // what a power loss is guaranteed to leave
	target   string // of a symbolic link
	children map[string]*node
	perm     fs.FileMode
	mtime    time.Time
	noAccess bool // open (and listing) fails with EACCES
	noSearch bool // directory: looking up names below fails with EACCES
	stream   bool
	ino      int
}

// Fault is one injected fault: the kind and its argument, at the N-th operation of the run.
type Fault struct {
	N    int
	Kind string
	Arg  int
}

// Plan decides which faults a run sees: either drawn from Seed at the given rates (per thousand
// applicable operations), at most Max of them, or exactly List.
type Plan struct {
	Seed  uint64         `json:",omitempty"`
	Rates map[string]int `json:",omitempty"`
	Max   int            `json:",omitempty"`
	After int            `json:",omitempty"` // no fault before this operation
	Fixed bool
	List  []Fault `json:",omitempty"`
}

// OpRec is an entry of the operation log.
type OpRec struct {
	N     int
	Op    string
	Path  string
	Bytes int
	Err   string
	Fault string
}

// Disk is the simulated disk with its log.
type Disk struct {
	root    *node
	nextIno int
	cwd     string

	N     int // operations so far
	Log   []OpRec
	plan  Plan
	rng   *simrt.Rand
	Fired []Fault

	Dead    bool // crashed or exited: nothing has an effect any more
	Crashed bool
	Armed   bool

	Capacity int // bytes, 0 is unlimited
	MaxOpen  int // open files, 0 is unlimited
	open     map[*File]bool
	Opened   int

	tmpSeq int
	Now    func() time.Time
}

// Crash unwinds a thread whose process was killed, ExitPanic one that called os.Exit, Blocked one that
// waits for a peer that will never come.
type Crash struct{}
type ExitPanic struct{ Code int }
type Blocked struct{ What string }

func (Crash) Error() string     { return "simulated crash" }
func (ExitPanic) Error() string { return "os.Exit" }
func (b Blocked) Error() string { return "blocked forever: " + b.What }

// D is the disk of the current run.
var D = NewDisk()

// NewDisk returns an empty disk.
func NewDisk() *Disk {
	d := &Disk{cwd: "/", open: map[*File]bool{}}
	d.root = d.newNode(kDir)
	d.Now = func() time.Time { return time.Unix(1700000000, 0).UTC() }
	return d
}

func (d *Disk) newNode(kind int) *node {
	d.nextIno++
	n := &node{kind: kind, ino: d.nextIno, perm: 0o644}
	if kind == kDir {
		n.children = map[string]*node{}
		n.perm = 0o755
	}
	return n
}

// Install makes d the disk and starts fault injection by the plan.
func Install(d *Disk, p Plan) {
	D = d
	d.SetPlan(p)
}

// SetPlan restarts fault injection.
func (d *Disk) SetPlan(p Plan) {
	d.plan = p
	d.rng = simrt.NewRand(p.Seed)
	d.Fired = nil
	d.N = 0
	d.Log = nil
	d.Armed = true
}

// OpenHandles lists files that were opened and not closed.
func (d *Disk) OpenHandles() []string {
	var res []string
	for f := range d.open {
		res = append(res, f.name)
	}
	sort.Strings(res)
	return res
}

// faults applicable per operation
var applicable = map[string][]string{
	"open":     {"enoent", "eacces", "emfile", "eio", "crash"},
	"create":   {"eacces", "enospc", "emfile", "erofs", "crash", "crashafter"},
	"stat":     {"enoent", "eacces", "eio", "crash"},
	"read":     {"short", "eio", "crash"},
	"readdir":  {"eio", "partial", "crash"},
	"write":    {"enospc", "eio", "crash", "crashafter"},
	"close":    {"eio", "crash"},
	"wclose":   {"eio", "crash", "crashafter"},
	"sync":     {"eio", "crash", "crashafter"},
	"rename":   {"eio", "crash", "crashafter"},
	"remove":   {"eio", "crash", "crashafter"},
	"truncate": {"eio", "crash", "crashafter"},
	"mkdir":    {"enospc", "crash"},
	"chmod":    {"eacces"},
	"stdin":    {"short", "eio"},
	"stdout":   {"enospc", "eio"},
	"seek":     {},
	"sclose":   {},
}

// begin numbers an operation and decides whether a fault hits it.
func (d *Disk) begin(op, p string) (rec *OpRec, fault *Fault) {
	simrt.Y(-1)
	simrt.Touch()
	d.N++
	if d.Dead {
		return &OpRec{}, &Fault{Kind: "dead"}
	}
	if len(d.Log) < 20000 {
		d.Log = append(d.Log, OpRec{N: d.N, Op: op, Path: p})
		rec = &d.Log[len(d.Log)-1]
	} else {
		rec = &OpRec{}
	}
	if !d.Armed {
		return rec, nil
	}
	if d.plan.Fixed {
		for i := range d.plan.List {
			f := d.plan.List[i]
			if f.N == d.N {
				for _, k := range applicable[op] {
					if k == f.Kind {
						fault = &f
					}
				}
			}
		}
	} else if d.N > d.plan.After && (d.plan.Max == 0 || len(d.Fired) < d.plan.Max) {
		for _, k := range applicable[op] {
			r := d.plan.Rates[op+"."+k]
			if r == 0 {
				r = d.plan.Rates[k]
			}
			if r > 0 && d.rng.Intn(1000) < r {
				fault = &Fault{N: d.N, Kind: k, Arg: d.rng.Intn(1 << 20)}
				break
			}
		}
	}
	if fault != nil {
		rec.Fault = fault.Kind
		d.Fired = append(d.Fired, *fault)
		if fault.Kind == "crash" {
			d.kill()
		}
	}
	return rec, fault
}

// end logs the outcome of an operation.
func (d *Disk) end(rec *OpRec, fault *Fault, n int, err error) {
	rec.Bytes = n
	if err != nil {
		rec.Err = err.Error()
	}
	if fault != nil && fault.Kind == "crashafter" {
		d.kill()
	}
}

func (d *Disk) kill() {
	d.Dead, d.Crashed = true, true
	panic(Crash{})
}

func errnoOf(f *Fault) error {
	if f == nil {
		return nil
	}
	switch f.Kind {
	case "eacces":
		return syscall.EACCES
	case "enoent":
		return syscall.ENOENT
	case "emfile":
		return syscall.EMFILE
	case "eio", "dead":
		return syscall.EIO
	case "enospc":
		return syscall.ENOSPC
	case "erofs":
		return syscall.EROFS
	}
	return nil
}

// Restart brings the machine up again after a crash. When power was lost, whatever was not synced
// survives only as a prefix chosen by the generator (a torn tail); after the crash of just the process
// everything written survives.
func (d *Disk) Restart(powerLoss bool, rng *simrt.Rand) {
	d.Dead, d.Crashed = false, false
	d.open = map[*File]bool{}
	d.Armed = false
	if powerLoss {
		var walk func(n *node)
		walk = func(n *node) {
			if n.kind == kReg && len(n.data) > len(n.synced) {
				keep := len(n.synced)
				if extra := len(n.data) - keep; extra > 0 {
					switch rng.Intn(4) {
					case 0:
					case 1:
						keep += extra
					case 2: // whole sectors
						keep += rng.Intn(extra+1) / 512 * 512
					default:
						keep += rng.Intn(extra + 1)
					}
				}
				n.data = n.data[:keep:keep]
			}
			names := make([]string, 0, len(n.children))
			for name := range n.children {
				names = append(names, name)
			}
			sort.Strings(names)
			for _, name := range names {
				walk(n.children[name])
			}
		}
		walk(d.root)
	}
}

// ---- direct access for the harness (not part of the simulated run) ----

func (d *Disk) mk(p string) (*node, string) {
	p = path.Clean("/" + p)
	cur := d.root
	parts := strings.Split(strings.Trim(p, "/"), "/")
	for _, s := range parts[:len(parts)-1] {
		n := cur.children[s]
		if n == nil {
			n = d.newNode(kDir)
			cur.children[s] = n
		}
		cur = n
	}
	return cur, parts[len(parts)-1]
}

// Put stores a file with durable content.
func (d *Disk) Put(p string, data []byte) {
	dir, name := d.mk(p)
	n := d.newNode(kReg)
	n.data = append([]byte(nil), data...)
	n.synced = n.data
	dir.children[name] = n
}

// PutDir, PutSymlink and PutSpecial create other nodes; special is "fifo" or "device".
func (d *Disk) PutDir(p string) {
	dir, name := d.mk(p)
	if dir.children[name] == nil {
		dir.children[name] = d.newNode(kDir)
	}
}
func (d *Disk) PutSymlink(p, target string) {
	dir, name := d.mk(p)
	n := d.newNode(kSymlink)
	n.target = target
	dir.children[name] = n
}
func (d *Disk) PutSpecial(p, special string) {
	dir, name := d.mk(p)
	n := d.newNode(kFifo)
	if special == "device" {
		n.kind = kDevice
	}
	dir.children[name] = n
}

// Deny makes a file or directory unreadable, DenySearch makes names below a directory unreachable.
func (d *Disk) Deny(p string) {
	if n := d.peek(p); n != nil {
		n.noAccess = true
	}
}
func (d *Disk) DenySearch(p string) {
	if n := d.peek(p); n != nil {
		n.noSearch = true
	}
}

func (d *Disk) peek(p string) *node {
	p = path.Clean("/" + p)
	cur := d.root
	if p == "/" {
		return cur
	}
	for _, s := range strings.Split(strings.Trim(p, "/"), "/") {
		if cur == nil || cur.children == nil {
			return nil
		}
		cur = cur.children[s]
	}
	return cur
}

// Get returns the content of a file, and whether it exists.
func (d *Disk) Get(p string) ([]byte, bool) {
	simrt.Touch()
	n := d.peek(p)
	if n == nil || n.kind != kReg {
		return nil, false
	}
	return append([]byte(nil), n.data...), true
}

// Files lists all regular files.
func (d *Disk) Files() []string {
	var res []string
	var walk func(p string, n *node)
	walk = func(p string, n *node) {
		if n.kind == kReg {
			res = append(res, p)
		}
		for name, c := range n.children {
			walk(p+"/"+name, c)
		}
	}
	walk("", d.root)
	sort.Strings(res)
	return res
}

// ---- path resolution ----

func (d *Disk) abs(p string) string {
	simrt.Touch()
	if !path.IsAbs(p) {
		p = path.Join(d.cwd, p)
	}
	return p
}

// lookup resolves p. With follow, a final symbolic link is followed.
func (d *Disk) lookup(p string, follow bool, depth int) (*node, error) {
	simrt.Touch()
	if p == "" {
		return nil, syscall.ENOENT
	}
	if depth > 40 {
		return nil, syscall.ELOOP
	}
	full := path.Clean(d.abs(p))
	if full == "/" {
		return d.root, nil
	}
	cur := d.root
	parts := strings.Split(strings.Trim(full, "/"), "/")
	for i, s := range parts {
		if cur.kind != kDir {
			return nil, syscall.ENOTDIR
		}
		if cur.noSearch {
			return nil, syscall.EACCES
		}
		if len(s) > 255 {
			return nil, syscall.ENAMETOOLONG
		}
		n := cur.children[s]
		if n == nil {
			return nil, syscall.ENOENT
		}
		if n.kind == kSymlink && (i < len(parts)-1 || follow) {
			t := n.target
			if !path.IsAbs(t) {
				t = "/" + strings.Join(parts[:i], "/") + "/" + t
			}
			if rest := strings.Join(parts[i+1:], "/"); rest != "" {
				t += "/" + rest
			}
			return d.lookup(t, follow, depth+1)
		}
		cur = n
	}
	if strings.HasSuffix(p, "/") && cur.kind != kDir {
		return nil, syscall.ENOTDIR
	}
	return cur, nil
}

// parent returns the directory that holds (or will hold) p and the final name.
func (d *Disk) parent(p string) (*node, string, error) {
	full := path.Clean(d.abs(p))
	dir, name := path.Split(full)
	if name == "" {
		return nil, "", syscall.EEXIST
	}
	n, err := d.lookup(dir, true, 0)
	if err != nil {
		return nil, "", err
	}
	if n.kind != kDir {
		return nil, "", syscall.ENOTDIR
	}
	if n.noSearch {
		return nil, "", syscall.EACCES
	}
	return n, name, nil
}

func (d *Disk) used() int {
	total := 0
	var walk func(n *node)
	walk = func(n *node) {
		total += len(n.data)
		for _, c := range n.children {
			walk(c)
		}
	}
	walk(d.root)
	return total
}

// ---- file info ----

type fileInfo struct {
	name string
	n    *node
	size int64
}

func (i fileInfo) Name() string       { return i.name }
func (i fileInfo) Size() int64        { return i.size }
func (i fileInfo) Mode() fs.FileMode  { return i.n.mode() }
func (i fileInfo) ModTime() time.Time { return i.n.mtime }
func (i fileInfo) IsDir() bool        { return i.n.kind == kDir }
func (i fileInfo) Sys() any           { return nil }

func (n *node) mode() fs.FileMode {
	m := n.perm
	switch n.kind {
	case kDir:
		m |= fs.ModeDir
	case kSymlink:
		m |= fs.ModeSymlink
	case kFifo:
		m |= fs.ModeNamedPipe
	case kDevice:
		m |= fs.ModeDevice | fs.ModeCharDevice
	}
	if n.stream {
		m |= fs.ModeNamedPipe
	}
	return m
}

func (n *node) info(name string) fs.FileInfo { return fileInfo{name, n, int64(len(n.data))} }

type dirEntry struct {
	name string
	n    *node
}

func (e dirEntry) Name() string               { return e.name }
func (e dirEntry) IsDir() bool                { return e.n.kind == kDir }
func (e dirEntry) Type() fs.FileMode          { return e.n.mode().Type() }
func (e dirEntry) Info() (fs.FileInfo, error) { return e.n.info(e.name), nil }
func (e dirEntry) String() string             { return fs.FormatDirEntry(e) }

// ---- files ----

// File is an open file of the simulated disk.
type File struct {
	name    string
	n       *node
	flag    int
	pos     int64
	closed  bool
	std     string // "stdin", "stdout" or "stderr"
	listing []fs.DirEntry
	listPos int
	listed  bool
	wrote   bool
	low     int // the lowest offset written to
	lost    bool
}

func perr(op, p string, err error) error {
	return &fs.PathError{Op: op, Path: p, Err: err}
}

func (d *Disk) openFile(name string, flag int, perm fs.FileMode) (*File, error) {
	creating := flag&O_CREATE != 0
	op := "open"
	if creating || flag&O_TRUNC != 0 {
		op = "create"
	}
	rec, fault := d.begin(op, name)
	f, err := func() (*File, error) {
		if e := errnoOf(fault); e != nil {
			return nil, e
		}
		if d.MaxOpen > 0 && len(d.open) >= d.MaxOpen {
			return nil, syscall.EMFILE
		}
		n, err := d.lookup(name, true, 0)
		if err == syscall.ENOENT && creating {
			dir, base, err := d.parent(name)
			if err != nil {
				return nil, err
			}
			if old := dir.children[base]; old != nil && old.kind == kSymlink {
				t := old.target
				if !path.IsAbs(t) {
					t = path.Join(path.Dir(path.Clean(d.abs(name))), t)
				}
				if dir, base, err = d.parent(t); err != nil {
					return nil, err
				}
			}
			n = d.newNode(kReg)
			n.perm = perm
			n.mtime = d.Now()
			dir.children[base] = n
		} else if err != nil {
			return nil, err
		} else if creating && flag&O_EXCL != 0 {
			return nil, syscall.EEXIST
		}
		acc := flag & (O_RDONLY | O_WRONLY | O_RDWR)
		if n.noAccess {
			return nil, syscall.EACCES
		}
		if n.kind == kDir && acc != O_RDONLY {
			return nil, syscall.EISDIR
		}
		if n.kind == kFifo && flag&syscall.O_NONBLOCK == 0 {
			panic(Blocked{"open of FIFO " + name})
		}
		if flag&O_TRUNC != 0 && n.kind == kReg {
			n.data = nil
			n.synced = nil
			n.mtime = d.Now()
		}
		f := &File{name: name, n: n, flag: flag}
		d.open[f] = true
		d.Opened++
		return f, nil
	}()
	d.end(rec, fault, 0, err)
	if err != nil {
		return nil, perr("open", name, err)
	}
	return f, nil
}

func (f *File) check(op string) error {
	simrt.Touch()
	if f == nil {
		return fs.ErrInvalid
	}
	if f.closed {
		return perr(op, f.name, fs.ErrClosed)
	}
	return nil
}

func (f *File) readAt(b []byte, off int64, op string) (int, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	opk := "read"
	if f.std == "stdin" {
		opk = "stdin"
	}
	rec, fault := D.begin(opk, f.name)
	n, err := func() (int, error) {
		if e := errnoOf(fault); e != nil {
			return 0, perr("read", f.name, e)
		}
		if f.flag&O_WRONLY != 0 {
			return 0, perr("read", f.name, syscall.EBADF)
		}
		if f.n.kind == kDir {
			return 0, perr("read", f.name, syscall.EISDIR)
		}
		if f.n.kind == kDevice {
			for i := range b {
				b[i] = 0
			}
			return len(b), nil
		}
		if len(b) == 0 {
			return 0, nil
		}
		if off >= int64(len(f.n.data)) {
			return 0, io.EOF
		}
		want := len(f.n.data) - int(off)
		if want > len(b) {
			want = len(b)
		}
		if fault != nil && fault.Kind == "short" && want > 1 {
			want = 1 + fault.Arg%(want-1)
		}
		copy(b, f.n.data[off:int(off)+want])
		return want, nil
	}()
	D.end(rec, fault, n, err)
	return n, err
}

func (f *File) Read(b []byte) (int, error) {
	if f == nil {
		return 0, fs.ErrInvalid
	}
	n, err := f.readAt(b, f.pos, "read")
	f.pos += int64(n)
	return n, err
}

func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if f == nil {
		return 0, fs.ErrInvalid
	}
	if off < 0 {
		return 0, perr("readat", f.name, fs.ErrInvalid)
	}
	total := 0
	for total < len(b) { // ReadAt never returns short without an error
		n, err := f.readAt(b[total:], off+int64(total), "read")
		total += n
		if err != nil {
			return total, err
		}
	}
	return total, nil
}

func (f *File) writeAt(b []byte, off int64) (int, error) {
	if err := f.check("write"); err != nil {
		return 0, err
	}
	opk := "write"
	if f.std != "" {
		opk = "stdout"
	}
	rec, fault := D.begin(opk, f.name)
	n, err := func() (int, error) {
		if f.std == "" && f.flag&(O_WRONLY|O_RDWR) == 0 {
			return 0, perr("write", f.name, syscall.EBADF)
		}
		if f.std == "stdin" {
			return 0, perr("write", f.name, syscall.EBADF)
		}
		n := len(b)
		var werr error
		if fault != nil {
			switch fault.Kind {
			case "enospc":
				werr = syscall.ENOSPC
				n = fault.Arg % (n + 1)
				if n == len(b) && n > 0 {
					n--
				}
			case "eio":
				werr = syscall.EIO
				n = fault.Arg % (n + 1)
				if n == len(b) && n > 0 {
					n--
				}
			case "crashafter":
				n = fault.Arg % (n + 1) // the process is killed with part of the data written
			case "dead":
				return 0, perr("write", f.name, syscall.EIO)
			}
		}
		if D.Capacity > 0 && f.std == "" {
			if free := D.Capacity - D.used(); n > free {
				if free < 0 {
					free = 0
				}
				n = free
				werr = syscall.ENOSPC
			}
		}
		if f.flag&O_APPEND != 0 {
			off = int64(len(f.n.data))
		}
		if need := int(off) + n; need > len(f.n.data) {
			f.n.data = append(f.n.data, make([]byte, need-len(f.n.data))...)
		}
		if int(off) < len(f.n.synced) {
			f.n.synced = append([]byte(nil), f.n.synced[:off]...)
		}
		copy(f.n.data[off:], b[:n])
		f.n.mtime = D.Now()
		if !f.wrote || int(off) < f.low {
			f.low = int(off)
		}
		f.wrote = true
		if werr != nil {
			return n, perr("write", f.name, werr)
		}
		return n, nil
	}()
	D.end(rec, fault, n, err)
	return n, err
}

func (f *File) Write(b []byte) (int, error) {
	if f == nil {
		return 0, fs.ErrInvalid
	}
	n, err := f.writeAt(b, f.pos)
	if f.n != nil && f.flag&O_APPEND != 0 {
		f.pos = int64(len(f.n.data))
	} else {
		f.pos += int64(n)
	}
	return n, err
}

func (f *File) WriteAt(b []byte, off int64) (int, error) {
	if f == nil {
		return 0, fs.ErrInvalid
	}
	return f.writeAt(b, off)
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

type onlyWriter struct{ io.Writer }
type onlyReader struct{ io.Reader }

func (f *File) ReadFrom(r io.Reader) (int64, error) { return io.Copy(onlyWriter{f}, r) }
func (f *File) WriteTo(w io.Writer) (int64, error)  { return io.Copy(w, onlyReader{f}) }

func (f *File) Seek(off int64, whence int) (int64, error) {
	if err := f.check("seek"); err != nil {
		return 0, err
	}
	rec, fault := D.begin("seek", f.name)
	switch whence {
	case io.SeekCurrent:
		off += f.pos
	case io.SeekEnd:
		off += int64(len(f.n.data))
	}
	var err error
	if f.std != "" {
		err = perr("seek", f.name, syscall.ESPIPE)
	} else if off < 0 {
		err = perr("seek", f.name, syscall.EINVAL)
	}
	D.end(rec, fault, 0, err)
	if err != nil {
		return 0, err
	}
	f.pos = off
	return off, nil
}

func (f *File) Close() error {
	simrt.Touch()
	if err := f.check("close"); err != nil {
		return err
	}
	if D.Dead {
		return perr("close", f.name, syscall.EIO)
	}
	op := "close"
	if f.std != "" {
		op = "sclose"
	} else if f.flag&(O_WRONLY|O_RDWR) != 0 {
		op = "wclose"
	}
	delete(D.open, f) // even a failing close releases the descriptor
	f.closed = true
	rec, fault := D.begin(op, f.name)
	var err error
	if e := errnoOf(fault); e != nil {
		err = perr("close", f.name, e)
		if op == "wclose" && f.wrote {
			// delayed write-back failed: part of the data never reached the disk
			least := max(len(f.n.synced), f.low) // what others wrote stays
			if least < len(f.n.data) {
				keep := least + fault.Arg%(len(f.n.data)-least)
				f.n.data = f.n.data[:keep:keep]
			}
		}
	}
	D.end(rec, fault, 0, err)
	return err
}

func (f *File) Sync() error {
	if err := f.check("sync"); err != nil {
		return err
	}
	rec, fault := D.begin("sync", f.name)
	var err error
	if e := errnoOf(fault); e != nil {
		err = perr("sync", f.name, e)
	} else {
		f.n.synced = append([]byte(nil), f.n.data...)
	}
	D.end(rec, fault, 0, err)
	return err
}

func (f *File) Truncate(size int64) error {
	if err := f.check("truncate"); err != nil {
		return err
	}
	return D.truncate(f.name, f.n, size)
}

func (d *Disk) truncate(name string, n *node, size int64) error {
	rec, fault := d.begin("truncate", name)
	var err error
	if e := errnoOf(fault); e != nil {
		err = perr("truncate", name, e)
	} else {
		for int64(len(n.data)) < size {
			n.data = append(n.data, 0)
		}
		n.data = append([]byte(nil), n.data[:size]...)
		if int64(len(n.synced)) > size {
			n.synced = n.synced[:size]
		}
	}
	d.end(rec, fault, 0, err)
	return err
}

func (f *File) Name() string { return f.name }
func (f *File) Fd() uintptr {
	switch f.std {
	case "stdin":
		return 0
	case "stdout":
		return 1
	case "stderr":
		return 2
	}
	return uintptr(1000 + f.n.ino)
}
func (f *File) Chmod(mode fs.FileMode) error       { f.n.perm = mode.Perm(); return nil }
func (f *File) Chown(uid, gid int) error           { return nil }
func (f *File) Chdir() error                       { D.cwd = D.abs(f.name); return nil }
func (f *File) SetDeadline(t time.Time) error      { return ErrNoDeadline }
func (f *File) SetReadDeadline(t time.Time) error  { return ErrNoDeadline }
func (f *File) SetWriteDeadline(t time.Time) error { return ErrNoDeadline }
func (f *File) Stat() (fs.FileInfo, error) {
	if err := f.check("stat"); err != nil {
		return nil, err
	}
	rec, fault := D.begin("stat", f.name)
	var err error
	if e := errnoOf(fault); e != nil {
		err = perr("stat", f.name, e)
	}
	D.end(rec, fault, 0, err)
	if err != nil {
		return nil, err
	}
	return f.n.info(path.Base(f.name)), nil
}

func (d *Disk) list(name string, n *node) ([]fs.DirEntry, error) {
	rec, fault := d.begin("readdir", name)
	res, err := func() ([]fs.DirEntry, error) {
		if n.kind != kDir {
			return nil, perr("readdirent", name, syscall.ENOTDIR)
		}
		names := make([]string, 0, len(n.children))
		for s := range n.children {
			names = append(names, s)
		}
		sort.Strings(names)
		var res []fs.DirEntry
		for _, s := range names {
			res = append(res, dirEntry{s, n.children[s]})
		}
		if fault != nil {
			switch fault.Kind {
			case "partial":
				return res[:fault.Arg%(len(res)+1)], perr("readdirent", name, syscall.EIO)
			default:
				return nil, perr("readdirent", name, errnoOf(fault))
			}
		}
		return res, nil
	}()
	d.end(rec, fault, len(res), err)
	return res, err
}

func (f *File) ReadDir(n int) ([]fs.DirEntry, error) {
	if err := f.check("readdir"); err != nil {
		return nil, err
	}
	if !f.listed {
		var err error
		f.listing, err = D.list(f.name, f.n)
		f.listed = true
		if err != nil {
			l := f.listing
			f.listPos = len(l)
			return l, err
		}
	}
	rest := f.listing[f.listPos:]
	if n <= 0 {
		f.listPos = len(f.listing)
		return rest, nil
	}
	if len(rest) == 0 {
		return nil, io.EOF
	}
	if n < len(rest) {
		rest = rest[:n]
	}
	f.listPos += len(rest)
	return rest, nil
}

func (f *File) Readdir(n int) ([]fs.FileInfo, error) {
	es, err := f.ReadDir(n)
	var res []fs.FileInfo
	for _, e := range es {
		i, _ := e.Info()
		res = append(res, i)
	}
	return res, err
}

func (f *File) Readdirnames(n int) ([]string, error) {
	es, err := f.ReadDir(n)
	var res []string
	for _, e := range es {
		res = append(res, e.Name())
	}
	return res, err
}

// Has tells whether a name exists, of any kind.
func (d *Disk) Has(p string) bool { return d.peek(p) != nil }
